"""Reference grammar: what the Elm parser is specified to accept and build.

Each nonterminal F gives
  * a Verus spec function ref_F(i, args) -> R<T>   (see emit_verus.py)
  * an executable Rust oracle r_F(i, args) -> Option<(rest, T)>  (see emit_oracle.py)
Actions are texts valid in both languages (helper functions exist in both).
"""

class P:  # parser expression
    def __init__(s, k, **kw):
        s.k = k
        s.__dict__.update(kw)

def Tag(t): return P('tag', t=t)
def Ch(c): return P('char', c=c)
def IsA(cs): return P('is_a', cs=cs)
def Re(p): return P('re', p=p)
def Digit(): return P('digit')
def Ms0(): return P('multispace0')
def Ms(): return P('multispace')
def Sp1(): return P('space1')
def AnyChar(): return P('anychar')
def TakeUntil(t): return P('take_until', t=t)
def Eof(): return P('eof')
def Call(f, *args): return P('call', f=f, args=list(args))
def Seq(*items):
    """items: parsers, ('name', parser) bindings; last item: the result text"""
    its = [x if isinstance(x, tuple) else (None, x) for x in items[:-1]]
    return P('seq', items=its, res=items[-1])
def Alt(*ps): return P('alt', ps=list(ps))
def Opt(p): return P('opt', p=p)
def Many0(p): return P('many0', p=p)
def Many1(p): return P('many1', p=p)
def SepList(sep, p): return P('seplist', sep=sep, p=p)
def SepList1(sep, p): return P('seplist1', sep=sep, p=p)
def Map(p, v, e): return P('map', p=p, v=v, e=e)
def MapRes(p, v, e): return P('mapres', p=p, v=v, e=e)  # e: Option text

class F:
    def __init__(s, name, path, params, ret, body, file, nullable=False):
        s.name, s.path, s.params, s.ret, s.body, s.file, s.nullable = name, path, params, ret, body, file, nullable

FUNS = {}
def fn(path, params, ret, body, nullable=False):
    name = path.replace('ast::', '', 1).replace('::', '_')
    short = path.split('::')[-1]
    mod = path.split('::')[:-1]
    FUNS[path] = F(short, path, params, ret, body, mod, nullable)

IND = [('ind', 'u32')]
H = 'ast::helpers::'
X = 'ast::expression::'
S = 'ast::statement::'
Y = 'ast::type_::'

# ---------------------------------------------------------------- helpers
fn(H+'lo_name', [], 'Str', Alt(
    Map(Tag('_'), 'v', 'st(v)'),
    MapRes(Re(r'^([a-z][a-zA-Z0-9_]*)'), 'v', 'if is_reserved_word(st(v)) { None } else { Some(st(v)) }')))
fn(H+'function_name', [], 'Str', Call(H+'lo_name'))
fn(H+'up_name', [], 'Str', Map(Re(r'^([A-Z][a-zA-Z0-9_]*)'), 'v', 'st(v)'))
fn(H+'module_name', [], 'VecM<Str>', SepList1(Ch('.'), Call(H+'up_name')))
fn(H+'operator', [], 'Str', MapRes(Re(r'^([-+\\-\\/*=.$<>:&|^?%#@~!]+)'), 'v',
    'if is_reserved_operator(st(v)) { None } else { Some(st(v)) }'))
fn(H+'spaces', [], 'Str', Map(IsA(' '), 'v', 'st(v)'))
fn(H+'spaces0', [], 'Str', Map(Opt(IsA(' ')), 'o', 'match o { Some(v) => st(v), None => snil() }'), nullable=True)
fn(H+'spaces_and_newlines', [], 'Str', Map(IsA(' \n'), 'v', 'st(v)'))
fn(H+'single_line_comment', [], 'Str', Seq(Tag('--'), ('v', Re(r'^(.*)')), 'st(v)'))
fn(H+'spaces_or_new_lines_and_indent', [('ind', 'u32'), ('ir', 'IR')], 'u32', MapRes(
    Many1(Alt(
        Map(Call(H+'spaces'), 'v', 'v1((SpacesContent::Spaces, ind))'),
        Map(Call(H+'single_line_comment'), 'v', 'v1((SpacesContent::Comment, 0u32))'),
        Many1(Seq(Ch('\n'), ('o', Alt(
            Map(Call(H+'spaces0'), 's', '(SpacesContent::NewLineAndSpaces, len32(s))'),
            Map(Call(H+'single_line_comment'), 's', '(SpacesContent::Comment, 0u32)'))), 'o')))),
    'v', 'layout_result(v, ind, ir)'))
fn(H+'opt_spaces_or_new_lines_and_indent', [('ind', 'u32'), ('ir', 'IR')], 'u32',
    Map(Opt(Call(H+'spaces_or_new_lines_and_indent', 'ind', 'ir')), 'o', 'match o { Some(v) => v, None => ind }'), nullable=True)
fn(H+'new_line_and_same_indent', IND, 'u32', MapRes(
    Seq(Ch('\n'), ('s', Call(H+'spaces0')), 'len32(s)'), 'v', 'if v == ind { Some(v) } else { None }'))

def Lay(rel, ind='ind'): return Call(H+'spaces_or_new_lines_and_indent', ind, 'IR::'+rel)
def OLay(rel, ind='ind'): return Call(H+'opt_spaces_or_new_lines_and_indent', ind, 'IR::'+rel)
def OptLay(rel, ind='ind'): return Opt(Lay(rel, ind))
def Lo(): return Call(H+'lo_name')
def Up(): return Call(H+'up_name')
def Spaces(): return Call(H+'spaces')
def Oper(): return Call(H+'operator')
def Commas(): return Seq(OptLay('GTE'), ('c', Ch(',')), OptLay('GTE'), 'c')
def POper(): return Seq(Ch('('), ('o', Oper()), Ch(')'), 'o')

# ---------------------------------------------------------------- types
def Annot(ind='ind'): return Call(Y+'type_annotation', ind)
fn(Y+'type_variable', [], 'Type', Map(Re(r'^([a-z][a-zA-Z0-9_]*)'), 'v', 'Type::TypeVariable(st(v))'))
fn(Y+'type_constant', [], 'Type', Map(SepList1(Ch('.'), Up()), 'v', 'Type::TypeConstructor(v, vnil())'))
fn(Y+'type_tuple', IND, 'Type', Seq(Ch('('), OptLay('GTE'),
    ('v', SepList(Commas(), Call(Y+'type_', 'ind'))), OptLay('GTE'), Ch(')'), 'Type::TypeTuple(v)'))
fn(Y+'type_record_pair', IND, '(Str, Type)', Seq(('name', Lo()), OptLay('GTE'), Ch(':'), OptLay('GTE'),
    ('t', Annot()), '(name, t)'))
fn(Y+'type_record_pairs', IND, 'VecM<(Str, Type)>', SepList(Commas(), Call(Y+'type_record_pair', 'ind')), nullable=True)
fn(Y+'type_record_constructor', IND, 'Type', Seq(Ch('{'), Lay('GTE'), ('var', Call(Y+'type_variable')), Lay('GTE'),
    Ch('|'), Lay('GTE'), ('ps', Call(Y+'type_record_pairs', 'ind')), Lay('GTE'), Ch('}'),
    'Type::TypeRecordConstructor(bx(var), ps)'))
fn(Y+'type_record', IND, 'Type', Seq(Ch('{'), OptLay('GTE'), ('ps', Call(Y+'type_record_pairs', 'ind')),
    OptLay('GTE'), Ch('}'), 'Type::TypeRecord(ps)'))
def TParens(): return Seq(Ch('('), OptLay('GTE'), ('t', Annot()), OptLay('GTE'), Ch(')'), 't')
fn(Y+'type_parameter', IND, 'Type', Alt(Call(Y+'type_variable'), Call(Y+'type_constant'),
    Call(Y+'type_record_constructor', 'ind'), Call(Y+'type_record', 'ind'), TParens(), Call(Y+'type_tuple', 'ind')))
fn(Y+'type_constructor', IND, 'Type', Seq(('a', SepList1(Ch('.'), Up())),
    ('b', Many0(Seq(('n', Lay('GT')), ('t', Call(Y+'type_parameter', 'n')), 't'))), 'Type::TypeConstructor(a, b)'))
fn(Y+'type_', IND, 'Type', Alt(Call(Y+'type_constructor', 'ind'), Call(Y+'type_variable'),
    Call(Y+'type_record_constructor', 'ind'), Call(Y+'type_record', 'ind'), TParens(), Call(Y+'type_tuple', 'ind')))
fn(Y+'type_annotation', IND, 'Type', MapRes(
    SepList1(Seq(Call(H+'spaces_and_newlines'), ('t', Tag('->')), Call(H+'spaces_and_newlines'), 't'), Call(Y+'type_', 'ind')),
    'v', 'arrow_right(v)'))

# ---------------------------------------------------------------- expressions
def Expr(ind='ind'): return Call(X+'expression', ind)
def Term(ind='ind'): return Call(X+'term', ind)
fn(X+'variable::lower_case', [], 'Expression', Map(Lo(), 'v', 'Expression::Variable(v1(v))'))
fn(X+'variable::upper_with_dots', [], 'Expression', Map(SepList1(Ch('.'), Up()), 'v', 'Expression::Variable(v)'))
fn(X+'variable::op', [], 'Expression', Map(
    Seq(Ch('('), ('s', Alt(Oper(), Map(IsA(','), 'c', 'st(c)'))), Ch(')'), 's'), 's', 'Expression::Variable(v1(s))'))
fn(X+'variable::variable', [], 'Expression', Alt(Call(X+'variable::lower_case'), Call(X+'variable::upper_with_dots'), Call(X+'variable::op')))
fn(X+'access::access', [], 'Expression', Seq(('v', Call(X+'variable::variable')),
    ('fs', Many1(Seq(Ch('.'), ('n', Lo()), 'n'))), 'Expression::Access(bx(v), fs)'))
fn(X+'access_function::access_function', [], 'Expression', Seq(Ch('.'), ('n', Lo()), 'Expression::AccessFunction(n)'))
fn(X+'character::character_content', [], 'char', Alt(
    MapRes(Seq(Tag('\\x'), ('c', Re(r'^[0-9a-fA-F]{2}')), 'c'), 'c', 'hex_char(c)'),
    AnyChar()))
fn(X+'character::character', [], 'Expression', Map(
    Seq(Ch('\''), ('c', Call(X+'character::character_content')), Ch('\''), 'c'), 'c', 'Expression::Character(c)'))
def Sign(): return Map(Opt(Alt(Ch('+'), Ch('-'))), 'o', 'match o { Some(c) => chs(c), None => snil() }')
fn(X+'float::float', [], 'Expression', Seq(('s', Sign()), ('a', Digit()), Ch('.'), ('b', Digit()),
    'Expression::Float(cat(cat(cat(s, st(a)), sl(".")), st(b)))'))
fn(X+'integer::integer', [], 'Expression', Seq(('s', Sign()), ('a', Digit()), 'Expression::Integer(cat(s, st(a)))'))
fn(X+'string::single_string', [], 'Str', Map(Seq(Ch('"'), ('v', Re(r'^(\\\\|\\"|[^"\n])*')), Ch('"'), 'v'), 'v', 'st(v)'))
fn(X+'string::multi_string', [], 'Str', Map(Seq(Tag('"""'), ('v', Re(r'^([^"]*)')), Tag('"""'), 'v'), 'v', 'st(v)'))
fn(X+'string::string', [], 'Expression', Map(Alt(Call(X+'string::multi_string'), Call(X+'string::single_string')), 'c', 'Expression::String(c)'))

fn(X+'tuple', IND, 'Expression', Map(Seq(Ch('('),
    ('v', SepList(Ch(','), Seq(Ms0(), ('e', Expr()), Ms0(), 'e'))), Ch(')'), 'v'), 'v', 'Expression::Tuple(v)'))
fn(X+'list', IND, 'Expression', Map(Seq(Ch('['), OptLay('GTE'), ('o', Opt(SepList(Commas(), Expr()))), OptLay('GTE'), Ch(']'), 'o'),
    'o', 'match o { Some(v) => Expression::List(v), None => Expression::List(vnil()) }'))
fn(X+'record', IND, 'Expression', Map(Seq(Ch('{'), OptLay('GTE'),
    ('v', SepList(Commas(), Seq(('n', Lo()), OptLay('GTE'), Ch('='), OptLay('GTE'), ('e', Expr()), '(n, e)'))),
    OptLay('GTE'), Ch('}'), 'v'), 'v', 'Expression::Record(v)'))
fn(X+'simplified_record', IND, 'Expression', Map(Seq(Ch('{'),
    ('v', SepList(Ch(','), Seq(Ms0(), ('n', Lo()), Ms0(), '(cl(n), Expression::Variable(v1(n)))'))), Ch('}'), 'v'), 'v', 'Expression::Record(v)'))
fn(X+'record_update', IND, 'Expression', Seq(Ch('{'), OLay('GTE'), ('n', Lo()), OLay('GTE'), Ch('|'), Ms0(),
    ('ps', SepList(Seq(OLay('GTE'), ('c', Ch(',')), OLay('GTE'), 'c'),
        Seq(('f', Lo()), Ms0(), Ch('='), Ms0(), ('e', Expr()), '(f, e)'))), OLay('GTE'), Ch('}'), 'Expression::RecordUpdate(n, ps)'))
fn(X+'parens', IND, 'Expression', Seq(Ch('('), Ms0(), ('e', Expr()), Ms0(), Ch(')'), 'e'))
fn(X+'term', IND, 'Expression', Alt(Call(X+'access::access'), Call(X+'variable::variable'), Call(X+'access_function::access_function'),
    Call(X+'string::string'), Call(X+'float::float'), Call(X+'integer::integer'), Call(X+'character::character'),
    Call(X+'parens', 'ind'), Call(X+'list', 'ind'), Call(X+'tuple', 'ind'), Call(X+'record_update', 'ind'),
    Call(X+'record', 'ind'), Call(X+'simplified_record', 'ind')))
fn(X+'lambda', IND, 'Expression', Seq(Ch('\\'), ('args', SepList1(Sp1(), Term())), Lay('GTE'), Tag('->'),
    ('n', Lay('GTE')), ('b', Expr('n')), 'Expression::Lambda(args, bx(b))'))
fn(X+'application_or_var', IND, 'Expression', MapRes(SepList(Lay('GT'), Term()), 'v', 'app_left(v)'))
fn(X+'let_binding_target', IND, 'Expression', Alt(Call(X+'variable::variable'), Call(X+'list', 'ind'), Call(X+'parens', 'ind'),
    Call(X+'tuple', 'ind'), Call(X+'simplified_record', 'ind')))
fn(X+'let_binding', IND, 'LetEntry', Seq(('t', Call(X+'let_binding_target', 'ind')), Lay('GTE'), Ch('='), ('n', Lay('GTE')),
    ('e', Expr('n')), 'LetEntry::LetBinding(t, e)'))
fn(X+'let_bindings', IND, 'VecM<LetEntry>', SepList1(Lay('EQ'), Alt(Call(X+'let_binding', 'ind'),
    Map(Call(X+'function::function', 'ind'), 'f', 'LetEntry::LetFunction(f)'))))
fn(X+'let_expression', IND, 'Expression', Seq(Tag('let'), ('n', Lay('GTE')), ('bs', Call(X+'let_bindings', 'n')), Lay('GTE'), Tag('in'),
    Lay('GTE'), ('e', Expr()), 'Expression::Let(bs, bx(e))'))
fn(X+'case', IND, '(Expression, Expression)', Seq(('m', Expr()), Lay('GTE'), Tag('->'), ('n', Lay('GTE')), ('e', Expr('n')), '(m, e)'))
fn(X+'cases', IND, 'VecM<(Expression, Expression)>', SepList1(Lay('EQ'), Call(X+'case', 'ind')))
fn(X+'case_expression', IND, 'Expression', Seq(Tag('case'), Lay('GTE'), ('e', Expr()), Lay('GTE'), Tag('of'), ('n', Lay('GTE')),
    ('cs', Call(X+'cases', 'n')), 'Expression::Case(bx(e), cs)'))
fn(X+'if_expression', IND, 'Expression', Seq(Tag('if'), Lay('GTE'), ('c', Expr()), Lay('GTE'), Tag('then'), ('n1', Lay('GTE')),
    ('a', Expr('n1')), Lay('GTE'), Tag('else'), ('n2', Lay('GTE')), ('b', Expr('n2')), 'Expression::If(bx(c), bx(a), bx(b))'))
fn(X+'operator_or_as', [], 'Expression', Map(Alt(Map(Tag('as'), 't', 'st(t)'), Oper()), 'o', 'Expression::Variable(v1(o))'))
fn(X+'binary', IND, 'Expression', Seq(('a', Call(X+'application_or_var', 'ind')),
    ('r', Opt(Seq(Lay('GTE'), ('op', Call(X+'operator_or_as')), Ms(), ('e', Expr()), '(op, e)'))),
    'match r { Some(oe) => Expression::BinOp(bx(oe.0), bx(a), bx(oe.1)), None => a }'))
fn(X+'expression', IND, 'Expression', Alt(Call(X+'binary', 'ind'), Call(X+'let_expression', 'ind'), Call(X+'case_expression', 'ind'),
    Call(X+'if_expression', 'ind'), Call(X+'lambda', 'ind')))

fn(X+'function::function_signature', IND, 'FunctionSignature', Seq(('n', Alt(Lo(), POper())), Spaces(), Ch(':'), ('k', Lay('GT')),
    ('t', Annot('k')), 'FunctionSignature { name: n, type_: t }'))
fn(X+'function::function_definition', IND, 'FunctionDefinition', Seq(('n', Alt(Lo(), POper())),
    ('args', Many0(Seq(Spaces(), ('t', Term()), 't'))), Spaces(), Ch('='), ('k', Lay('GT')), ('b', Expr('k')),
    'FunctionDefinition { name: n, args: args, body: b }'))
fn(X+'function::function', IND, 'Function', Seq(
    ('s', Opt(Seq(('s', Call(X+'function::function_signature', 'ind')), Call(H+'new_line_and_same_indent', 'ind'), 's'))),
    ('d', Call(X+'function::function_definition', 'ind')), 'Function { signature: s, definition: d }'))

# ---------------------------------------------------------------- statements
fn(S+'comment::single_line_comment', [], 'Statement', Map(Seq(Tag('--'), ('v', Re(r'^(.*)')), 'v'), 'v', 'Statement::Comment(st(v))'))
fn(S+'comment::multi_line_comment', [], 'Statement', Map(Seq(Tag('{-'), ('v', TakeUntil('-}')), 'v'), 'v', 'Statement::Comment(st(v))'))
fn(S+'comment::comment', [], 'Statement', Alt(Call(S+'comment::single_line_comment'), Call(S+'comment::multi_line_comment')))
fn(S+'export::all_export', [], 'ExportSet', Map(Tag('..'), 'v', 'ExportSet::AllExport'))
fn(S+'export::function_export', [], 'ExportSet', Map(Alt(Call(H+'function_name'), POper()), 'n', 'ExportSet::FunctionExport(n)'))
fn(S+'export::constructor_subset_exports', [], 'ExportSet', Map(SepList1(Tag(', '), Map(Up(), 'n', 'ExportSet::FunctionExport(n)')),
    'v', 'ExportSet::SubsetExport(v)'))
fn(S+'export::constructor_exports', [], 'Option<Bx<ExportSet>>', Opt(Map(Seq(Ch('('),
    ('e', Alt(Call(S+'export::all_export'), Call(S+'export::constructor_subset_exports'))), Ch(')'), 'e'), 'e', 'bx(e)')), nullable=True)
fn(S+'export::type_export', [], 'ExportSet', Seq(('n', Up()), ('c', Call(S+'export::constructor_exports')), 'ExportSet::TypeExport(n, c)'))
def OptSN(): return Opt(Call(H+'spaces_and_newlines'))
fn(S+'export::subset_export', [], 'ExportSet', Map(SepList1(Seq(OptSN(), ('c', Ch(',')), OptSN(), 'c'),
    Alt(Call(S+'export::function_export'), Call(S+'export::type_export'))), 'v', 'ExportSet::SubsetExport(v)'))
fn(S+'export::exports', [], 'ExportSet', Seq(Ch('('), OptLay('GTE', '0u32'),
    ('e', Alt(Call(S+'export::all_export'), Call(S+'export::subset_export'))), OptLay('GTE', '0u32'), Ch(')'), 'e'))
def Exports(): return Call(S+'export::exports')
fn(S+'import::import_statement', [], 'Statement', Seq(Tag('import'), Spaces(), ('n', Call(H+'module_name')),
    ('a', Opt(Seq(Spaces(), Tag('as'), Spaces(), ('u', Up()), 'u'))),
    ('e', Opt(Seq(Spaces(), Tag('exposing'), Spaces(), ('u', Exports()), 'u'))), 'Statement::ImportStatement(n, a, e)'))
fn(S+'infix::infix_declaration', [], 'Statement', Seq(
    ('a', Alt(Map(Tag('infixl'), 't', 'Assoc::L'), Map(Tag('infixr'), 't', 'Assoc::R'), Map(Tag('infix'), 't', 'Assoc::N'))),
    Spaces(), ('v', MapRes(Digit(), 'd', 'dec_i64(st(d))')), Spaces(), ('n', Alt(Lo(), Oper())), 'Statement::InfixDeclaration(a, v, n)'))
def L0(): return Lay('GT', '0u32')
fn(S+'module::port_module_declaration', [], 'Statement', Seq(Tag('port'), L0(), Tag('module'), L0(), ('n', Call(H+'module_name')), L0(),
    Tag('exposing'), L0(), ('e', Exports()), 'Statement::PortModuleDeclaration(n, e)'))
fn(S+'module::effect_module_declaration', [], 'Statement', Seq(Tag('effect'), L0(), Tag('module'), L0(), ('n', Call(H+'module_name')), L0(),
    Tag('where'), L0(), Ch('{'), ('w', SepList(Tag(', '), Seq(('l', Lo()), Opt(Spaces()), Ch('='), Opt(Spaces()), ('u', Up()), '(l, u)'))),
    Ch('}'), L0(), Tag('exposing'), L0(), ('e', Exports()), 'Statement::EffectModuleDeclaration(n, w, e)'))
fn(S+'module::module_declaration', [], 'Statement', Seq(Tag('module'), L0(), ('n', Call(H+'module_name')), L0(),
    Tag('exposing'), L0(), ('e', Exports()), 'Statement::ModuleDeclaration(n, e)'))
fn(S+'port::port_type_declaration', [], 'Statement', Seq(Tag('port'), Spaces(), ('n', Lo()), Spaces(), Ch(':'), ('k', L0()),
    ('t', Annot('k')), 'Statement::PortTypeDeclaration(n, t)'))
fn(S+'port::port_declaration', [], 'Statement', Seq(Tag('port'), Spaces(), ('n', Lo()), ('args', Many0(Seq(Spaces(), ('a', Lo()), 'a'))),
    Spaces(), Ch('='), ('k', L0()), ('e', Expr('k')), 'Statement::PortDeclaration(n, args, e)'))
fn(S+'type_declaration::type_alias_declaration', [], 'Statement', Seq(Tag('type'), Spaces(), Tag('alias'), Spaces(),
    ('n', Call(Y+'type_', '0u32')), Spaces(), Ch('='), Lay('GTE', '1u32'), ('t', Annot('1u32')), 'Statement::TypeAliasDeclaration(n, t)'))
fn(S+'type_declaration::type_declaration', IND, 'Statement', Seq(Tag('type'), Spaces(), ('n', Call(Y+'type_', 'ind')), ('k', L0()), Ch('='),
    Lay('GTE', 'k'), ('d', SepList1(Seq(Lay('GTE', 'k'), ('c', Ch('|')), Spaces(), 'c'), Call(Y+'type_constructor', 'k'))),
    'Statement::TypeDeclaration(n, d)'))
fn(S+'statement', [], 'Statement', Alt(Call(S+'module::port_module_declaration'), Call(S+'module::effect_module_declaration'),
    Call(S+'module::module_declaration'), Call(S+'import::import_statement'), Call(S+'type_declaration::type_alias_declaration'),
    Call(S+'type_declaration::type_declaration', '0u32'), Call(S+'port::port_type_declaration'), Call(S+'port::port_declaration'),
    Map(Call(X+'function::function', '0u32'), 'f', 'Statement::Function(f)'), Call(S+'infix::infix_declaration'), Call(S+'comment::comment')))
fn(S+'statements', [], 'VecM<Statement>', Seq(Ms0(), ('v', SepList1(Ms0(), Call(S+'statement'))), Ms0(), 'v'))
fn('ast::file', [], 'VecM<Statement>', Seq(('v', Call(S+'statements')), Eof(), 'v'))
