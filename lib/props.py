"""What belongs to which property: the functions that implement it, and how to look for a failing input."""
import re
import grammar
H, Y, X, S = 'ast::helpers::', 'ast::type_::', 'ast::expression::', 'ast::statement::'
ALL = list(grammar.FUNS)
def fs(prefix, *names): return [prefix + n for n in names]
NAMES = fs(H, 'lo_name', 'function_name', 'up_name', 'module_name')
OPER = [H + 'operator']
LAYOUT = fs(H, 'spaces', 'spaces0', 'spaces_and_newlines', 'spaces_or_new_lines_and_indent', 'opt_spaces_or_new_lines_and_indent', 'new_line_and_same_indent')
TYPES = fs(Y, 'type_annotation', 'type_', 'type_constructor')
EXPR, TERM, FUNC, STMT, STMTS, FILE = X + 'expression', X + 'term', X + 'function::function', S + 'statement', S + 'statements', 'ast::file'
def under(p): return [f for f in ALL if f.startswith(p)]

OWNERS = {
    'C02': [FILE, STMTS],
    'C03': NAMES + fs(Y, 'type_variable', 'type_constant') + fs(X, 'variable::lower_case', 'variable::upper_with_dots'),
    'C04': OPER + fs(X, 'variable::op', 'operator_or_as'),
    'C05': LAYOUT + [H + 'single_line_comment'],
    'C06': fs(X, 'let_bindings', 'cases', 'case', 'let_binding', 'let_expression', 'case_expression'),
    'C07': [X + 'application_or_var'],
    'C08': [Y + 'type_annotation'],
    'C09': [f for f in under(Y) if not f.endswith('::type_annotation')],
    'C10': under(X + 'character') + under(X + 'float') + under(X + 'integer') + under(X + 'string'),
    'C11': under(S + 'comment'),
    'C12': under(S + 'module'),
    'C13': under(S + 'import') + under(S + 'export'),
    'C14': under(S + 'infix'),
    'C15': fs(X, 'tuple', 'list', 'record', 'simplified_record', 'record_update', 'parens'),
    'C16': fs(X, 'if_expression', 'lambda', 'let_expression', 'case_expression', 'let_binding', 'let_binding_target', 'case'),
    'C17': fs(X, 'binary', 'operator_or_as'),
    'C18': under(X + 'function'),
    'C19': under(S + 'type_declaration') + [Y + 'type_constructor'],
    'C20': under(S + 'port'),
    'C21': under(X + 'access') + fs(X, 'variable::variable', 'variable::upper_with_dots'),
}
# the choices between alternatives belong to every property about one of the alternatives
for p in ('C11', 'C12', 'C13', 'C14', 'C18', 'C19', 'C20'): OWNERS[p] = OWNERS[p] + [STMT]
for p in ('C10', 'C15', 'C21'): OWNERS[p] = OWNERS[p] + [TERM]
for p in ('C16', 'C17'): OWNERS[p] = OWNERS[p] + [EXPR]
OWNERS['C01'] = ALL
OWNERS['C24'] = ALL
for f in ALL: assert any(f in OWNERS[p] for p in OWNERS if p not in ('C01', 'C24')), f

N, O, L, T = NAMES, OPER, LAYOUT, TYPES
def cfg(entries, targets=(), given=(), mode='full', w=1.0):
    return {'entries': list(entries), 'targets': list(targets), 'given': list(given), 'mode': mode, 'w': w}
TOPS = [FILE, STMT, EXPR, T[0]]
SEARCH = {
    'C01': [cfg([FILE, STMTS, STMT, EXPR, TERM, FUNC] + T, mode='total'), cfg(TOPS, mode='total', w=0.5)],
    'C02': [cfg([FILE, STMTS], given=[STMT])],
    'C03': [cfg(N, w=0.5), cfg([TERM, EXPR, FUNC, STMT] + T, OWNERS['C03'], O + L)],
    'C04': [cfg(O, w=0.5), cfg([TERM, EXPR, FUNC, STMT], OWNERS['C04'], N + L + T)],
    'C05': [cfg(L, w=0.6), cfg([EXPR, FUNC, STMT] + T, OWNERS['C05'], N + O)],
    'C06': [cfg([EXPR], [X + 'let_bindings', X + 'cases'], N + O + T)],
    'C07': [cfg([EXPR], [X + 'application_or_var'], N + O + L + [TERM]), cfg([EXPR], [X + 'application_or_var'], N + O, w=0.4)],
    'C08': [cfg([T[0]], [Y + 'type_annotation'], N + L)],
    'C09': [cfg(T, [f for f in OWNERS['C09']], N + L)],
    'C10': [cfg([TERM], OWNERS['C10'][:-1], N + O + L + [EXPR]), cfg([EXPR], OWNERS['C10'][:-1], N + O + L, w=0.4)],
    'C11': [cfg([STMT, FILE], OWNERS['C11'][:-1], N + O + L + T + [EXPR, TERM]), cfg([FILE, STMT, EXPR], [H + 'single_line_comment'], N + O, w=0.6)],
    'C12': [cfg([STMT, FILE], OWNERS['C12'][:-1], N + O + T + [EXPR, TERM])],
    'C13': [cfg([STMT, FILE], OWNERS['C13'][:-1], N + O + T + [EXPR, TERM])],
    'C14': [cfg([STMT, FILE], OWNERS['C14'][:-1], N + O + L + T + [EXPR, TERM])],
    'C15': [cfg([TERM, EXPR], OWNERS['C15'][:-1], N + O + L)],
    'C16': [cfg([EXPR], [X + n for n in ('if_expression', 'lambda', 'let_expression', 'case_expression', 'let_binding', 'let_binding_target', 'case')], N + O + L + T + [TERM]),
            cfg([EXPR], [X + 'let_binding_target', X + 'lambda'], N + O + T, w=0.5)],
    'C17': [cfg([EXPR], [X + 'binary', X + 'operator_or_as'], N + O + L + [TERM]), cfg([EXPR], [X + 'binary'], N + T, w=0.4)],
    'C18': [cfg([FUNC, STMT], under(X + 'function'), N + O + L + T + [EXPR, TERM]), cfg([FUNC, STMT, EXPR], under(X + 'function'), N + O + T, w=0.5)],
    'C19': [cfg([STMT, FILE] + T[2:], under(S + 'type_declaration'), N + O + [EXPR, TERM])],
    'C20': [cfg([STMT, FILE], under(S + 'port'), N + O + T + [EXPR, TERM])],
    'C21': [cfg([TERM, EXPR], under(X + 'access') + fs(X, 'variable::variable', 'variable::upper_with_dots'), N + O + L)],
    'C24': [cfg(TOPS + [FUNC, TERM], mode='twice')],
}

# ---------------------------------------------------------------- does a failing input concern the property?
RES = 'module where import as exposing type alias port if then else let in case of'.split()
SYM = r'[-+\\/*=.$<>:&|^?%#@~!]'
class W:
    def __init__(s, w):
        s.w, s.entry, s.text, s.given = w, w['entry'], w['text'], w.get('given', [])
        s.trees = [x['ok'] for x in (w.get('want'), w.get('got')) if isinstance(x, dict) and 'ok' in x]
        s.strs = set()
        s.kinds = set()
        for t in s.trees:
            s.strs |= set(re.findall(r'"((?:[^"\\]|\\.)*)"', t))
            s.kinds |= set(re.findall(r'[A-Z]\w+', re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)))
        s.words = re.findall(r'[A-Za-z_0-9]+', s.text)
        s.ops = re.findall(SYM + '+', s.text)
    def has(s, *k): return bool(s.kinds & set(k))
    def word(s, *k): return any(x in k for x in s.words)
TKINDS = ('TypeConstructor', 'TypeVariable', 'TypeRecord', 'TypeRecordConstructor', 'TypeTuple', 'TypeApplication')
EKINDS = ('All', 'AllExport', 'SubsetExport', 'FunctionExport', 'TypeExport', 'ImportStatement')
PRED = {
    'C01': lambda w: w.w['kind'] in ('panic', 'bad', 'suffix', 'nothing consumed', 'hang', 'died'),
    'C02': lambda w: w.entry in (FILE, STMTS) and STMT in w.given,
    'C03': lambda w: w.entry in NAMES or any((len(x) > 1 or x == '_') and x not in RES and not x.isdigit() for x in w.words) or bool(w.strs & set(RES))
        or bool(re.search(r'[A-Z]\w*\.', w.text)) or any(re.match(r'[0-9]+[a-zA-Z_]', x) for x in w.words),
    'C04': lambda w: w.entry in OPER or bool(re.search(r'\(\s*(%s+|,+)\s*\)' % SYM, w.text)) or any(o not in ('+', '=', '->', ':', '|', '.', '..', '--', '\\') for o in w.ops)
        or bool(w.strs & set('= . .. -> -- | :'.split())),
    'C05': lambda w: w.entry in LAYOUT or bool(re.search(r'\n|--|\t|\r|\{-|  ', w.text)),
    'C06': lambda w: w.has('Let', 'Case', 'LetBinding', 'LetFunction') or w.word('let', 'case'),
    'C07': lambda w: w.has('Application') or bool(re.search(r'[\w)\]}"\'] +[\w(\[{"\'.]', w.text)),
    'C08': lambda w: w.has('TypeApplication') or '->' in w.text,
    'C09': lambda w: w.entry.startswith('ast::type_::') or w.has(*TKINDS),
    'C10': lambda w: w.has('Integer', 'Float', 'String', 'Character') or bool(re.search(r'[0-9"\']', w.text)),
    'C11': lambda w: w.has('Comment') or '--' in w.text or '{-' in w.text,
    'C12': lambda w: w.has('ModuleDeclaration', 'PortModuleDeclaration', 'EffectModuleDeclaration') or w.word('module', 'effect'),
    'C13': lambda w: w.has(*EKINDS) or w.word('import', 'exposing'),
    'C14': lambda w: w.has('InfixDeclaration') or any(x.startswith('infix') for x in w.words),
    'C15': lambda w: w.has('Tuple', 'List', 'Record', 'RecordUpdate') or bool(re.search(r'[(\[{]', w.text)),
    'C16': lambda w: w.has('If', 'Let', 'Case', 'Lambda', 'LetBinding', 'LetFunction') or w.word('if', 'let', 'case') or '\\' in w.text,
    'C17': lambda w: w.has('BinOp') or bool(w.ops) or w.word('as'),
    'C18': lambda w: w.has('Function', 'FunctionDefinition', 'FunctionSignature', 'LetFunction') or w.entry == FUNC or bool(re.search('[=:]', w.text)),
    'C19': lambda w: w.has('TypeDeclaration', 'TypeAliasDeclaration') or any(x.startswith('type') for x in w.words) or w.entry == Y + 'type_constructor',
    'C20': lambda w: w.has('PortTypeDeclaration', 'PortDeclaration') or any(x.startswith('port') for x in w.words),
    'C21': lambda w: w.has('Access', 'AccessFunction') or '.' in w.text or bool(re.search(r'[A-Z]', w.text)),
    'C24': lambda w: w.w['kind'] in ('not repeatable', 'output'),
}
def relevant(pid, w): return PRED[pid](W(w))
