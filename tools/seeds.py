X, H, S, T = 'ast/expression/', 'ast/helpers.rs', 'ast/statement/', 'ast/type_/mod.rs'
SEEDS = {}
def seed(name, prop, edits, needs, breaks, **kw):
    SEEDS[name] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, **kw)

seed('C03-case-insensitive', 'C03', [(H, 'if RESERVED_WORDS.contains(&name.as_str()) {', 'if RESERVED_WORDS.iter().any(|w| w.eq_ignore_ascii_case(&name)) {')],
     'a name that is a reserved word but for the case of its later letters, such as iF', 'names like iF or oF are refused although they are no reserved words',
     elm='x = iF oF\n', quiet=True)
seed('C05-max-indent', 'C05', [(H, 'let (_, new_indent) = *(v.last().unwrap_or(&vec![]).last().unwrap_or(&(SpacesContent::Spaces, 0)));',
     'let new_indent = v.iter().flat_map(|subv| subv.iter().map(|&(_, n)| n)).max().unwrap_or(0);')],
     'a run of layout with an inner line that has more blanks than the last one', 'the indentation of a layout run is that of its widest line, not of its last line',
     elm='x =\n  f\n     \n a\n', quiet=True)
seed('C05-let-body-indent', 'C05', [(X + 'mod.rs', 'expression: call!(expression, new_indent) >>\n       (LetEntry::LetBinding', 'expression: call!(expression, indentation) >>\n       (LetEntry::LetBinding'),
     (X + 'mod.rs', 'new_indent: call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>\n       expression: call!(expression, indentation) >>\n       (LetEntry', 'call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>\n       expression: call!(expression, indentation) >>\n       (LetEntry')],
     'a let binding whose body starts on its own line and is followed by a line at the same column', 'a line at the column of the body is taken as a further argument',
     elm='x =\n  let\n    (a) =\n      f\n      b\n  in\n    a\n', quiet=True)
seed('C07-dedup', 'C07', [(X + 'mod.rs', '|v: Vec<Expression>| {\n          if v.is_empty()', '|mut v: Vec<Expression>| {\n          v.dedup();\n          if v.is_empty()')],
     'two equal arguments next to each other', 'repeated equal arguments of an application are collapsed', elm='x = f y y z\n')
seed('C08-no-rev', 'C08', [(T, 'for entry in v.iter().rev() {', 'for entry in v.iter() {')],
     'a function type with at least four components', 'the components before the last two are nested in reverse order', elm='port p : A -> B -> C -> D\n')
seed('C10-leading-zero', 'C10', [(X + 'integer.rs', '(Expression::Integer(sign.to_string() + number.0))', '(Expression::Integer(sign.to_string() + &number.0.parse::<u64>().map(|n| n.to_string()).unwrap_or_else(|_| number.0.to_string())))')],
     'an integer literal with a leading zero', 'leading zeros are lost', elm='x = 007\n')
seed('C11-crlf', 'C11', [(S + 'comment.rs', '|s| Statement::Comment(s.to_string())', '|s: CompleteStr| Statement::Comment(s.replace("\\r\\n", "\\n"))')],
     'a block comment over lines that end in carriage return and newline', 'carriage returns are removed from the comment', elm='{- a\r\nb -}\nx = 1\n')
seed('C13-alias-self', 'C13', [(S + 'import.rs', '(Statement::ImportStatement(name, alias, exposing))', '({\n      let alias = alias.filter(|a| name.len() > 1 || *a != name[0]);\n      Statement::ImportStatement(name, alias, exposing)\n    })')],
     'an alias equal to the whole module name', 'an as clause that repeats the module name is dropped', elm='import Html as Html\nimport Json.Decode as Decode\n')
seed('C14-wrap', 'C14', [(S + 'infix.rs', 'map_res!(digit, |s: CompleteStr| s.to_string().parse::<i64>())', "map!(digit, |s: CompleteStr| s.bytes().fold(0i64, |a, b| a.wrapping_mul(10).wrapping_add(i64::from(b - b'0'))))")],
     'a precedence above the signed 64-bit range', 'too large precedences wrap around instead of being refused', elm='infixl 9223372036854775808 +\n', quiet=True)
seed('C15-trailing-comma', 'C15', [(X + 'mod.rs', "terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(']'))", "preceded!(opt!(char!(',')), terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(']')))")],
     'a list with a comma right before the closing bracket', 'a trailing comma in a list is accepted', elm='x = [1, 2,]\n', quiet=True)
seed('C17-minus-left', 'C17', [(X + 'mod.rs', '''         Some((op, exp)) => Expression::BinOp(
             Box::new(op),
             Box::new(application_or_var),
             Box::new(exp)
         ),''', '''         Some((op, exp)) => match exp {
             Expression::BinOp(ref inner, ref second, ref rest) if **inner == op && op == Expression::Variable(vec!["-".to_string()]) => {
                 let left = Expression::BinOp(Box::new(op.clone()), Box::new(application_or_var), second.clone());
                 Expression::BinOp(Box::new(op.clone()), Box::new(left), rest.clone())
             }
             _ => Expression::BinOp(Box::new(op), Box::new(application_or_var), Box::new(exp)),
         },''')],
     'two subtractions in a row', 'a - b - c nests to the left', elm='x = a - b - c\n')
seed('C18-sig-name', 'C18', [(X + 'function.rs', '(Function { signature, definition })', '(Function {\n            signature: signature.filter(|s| s.name == definition.name),\n            definition,\n        })')],
     'a signature whose name differs from that of the definition below it', 'the signature is silently dropped', elm='foo : Int\nfop = 1\n')
seed('C20-portprefix', 'C20', [(S + 'port.rs', 'named!(pub port_type_declaration<CompleteStr, Statement>,\n  do_parse!(\n    tag!("port") >>\n    spaces >>', 'named!(pub port_type_declaration<CompleteStr, Statement>,\n  do_parse!(\n    tag!("port") >>\n    opt!(spaces) >>')],
     'a function with a signature whose name starts with port', 'the signature of a function such as portable is recorded as a port', elm='portable : Int\nportable = 1\n')
seed('C21-access-dedup', 'C21', [(X + 'access.rs', '(Expression::Access(Box::new(var), accessors))', '({\n        let mut accessors = accessors;\n        accessors.dedup();\n        Expression::Access(Box::new(var), accessors)\n    })')],
     'a field accessed twice in a row, as in node.next.next', 'a.b.b is read as a.b', elm='x = a.b.b.c\n')
seed('C02-sub', 'C02', [('ast/mod.rs', 'terminated!(statements, eof!())', "terminated!(statements, preceded!(opt!(char!('\\u{1a}')), eof!()))")],
     'a file that ends in a control-Z character', 'text after the last statement is accepted', elm='x = 1\n\x1a', quiet=True)
seed('C09-qualified-param', 'C09', [(T, "named!(type_constant<CompleteStr, Type>,\n  map!(\n    separated_nonempty_list!(\n      char!('.'),\n      up_name\n    ),", "named!(type_constant<CompleteStr, Type>,\n  map!(\n    map!(pair!(up_name, opt!(preceded!(char!('.'), up_name))), |(a, b)| match b { Some(b) => vec![a, b], None => vec![a] }),")],
     'a parameter with three dotted parts', 'a parameter with more than two dotted parts is cut after the second', elm='port p : List A.B.C\n', quiet=True)
seed('C19-dedup', 'C19', [(S + 'type_declaration.rs', '(Statement::TypeDeclaration(name, definition))', '({\n      let mut definition = definition;\n      definition.dedup();\n      Statement::TypeDeclaration(name, definition)\n    })')],
     'a constructor that is listed twice in a row', 'a repeated constructor is recorded once', elm='type A = B Int | B Int | C\n')
seed('C12-effect-gte', 'C12', [(S + 'module.rs', 'tag!("effect") >>\n    call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>', 'tag!("effect") >>\n    call!(spaces_or_new_lines_and_indent, 0, IR::GTE) >>')],
     'an effect module whose second keyword starts a line', 'the keyword module may start at column 0', elm='effect\nmodule A where {} exposing (..)\n', quiet=True)
seed('C16-lambda-dedup', 'C16', [(X + 'mod.rs', '(Expression::Lambda(args, Box::new(body)))', '({\n        let mut args = args;\n        args.dedup();\n        Expression::Lambda(args, Box::new(body))\n    })')],
     'a lambda with two equal patterns next to each other, as in \\_ _ -> 1', 'repeated patterns of a lambda are collapsed', elm='x = \\_ _ -> 1\n')
seed('C22-constructors', 'C22', [('check.rs', '        ExportSet::FunctionExport(name) => vec![name.clone()],', '        ExportSet::FunctionExport(name) => vec![name.clone()],\n        ExportSet::TypeExport(_, Some(constructors)) => get_export_set_imports(constructors),')],
     'an import that lists the constructors of a type', 'constructor names are reported as imported functions', tool='elm-parser-check',
     elm='import A exposing (b, C(D, E), (+))\n')
seed('C22-dedup', 'C22', [('check.rs', '            let imported_names = get_imported_names(&ast);', '            let mut imported_names = get_imported_names(&ast);\n            imported_names.dedup();')],
     'two imports that expose the same name one after the other', 'the second occurrence is not reported', tool='elm-parser-check',
     elm='import A exposing (b, map)\nimport C exposing (map, d)\n')
seed('C23-depth', 'C23', [('dump.rs', 'WalkDir::new(path) {', 'WalkDir::new(path).max_depth(4) {')],
     'a file more than four levels below the directory', 'deeper files are not reported',
     demo='mkdir -p "$d/t/a/b/c/e" && echo "x = 1" > "$d/t/a/b/c/e/F.elm" && echo "x = 1" > "$d/t/G.elm" && cd "$d" && "$bin" -q t > out.txt\n[ "$(sort out.txt)" = \'"t/G.elm" parsed successfully\n"t/a/b/c/e/F.elm" parsed successfully\' ]')
seed('C23-stop', 'C23', [('dump.rs', 'fn dump_file(filename: &str, quiet: bool) {', 'fn dump_file(filename: &str, quiet: bool) -> bool {'),
     ('dump.rs', '                println!("{:#?}", ast)\n            }', '                println!("{:#?}", ast)\n            }\n            true'),
     ('dump.rs', '                println!("{:#?}", error)\n            }', '                println!("{:#?}", error)\n            }\n            quiet'),
     ('dump.rs', '            Some(path) => dump_file(path, quiet),\n            None => {}', '            Some(path) => {\n                if !dump_file(path, quiet) {\n                    break;\n                }\n            }\n            None => {}')],
     'a directory with a file that fails to parse, without quiet mode', 'the walk stops at the first file that fails to parse',
     demo='mkdir "$d/t" && for i in 1 2 3 4 5 6; do echo "x = (" > "$d/t/$i.elm"; done && cd "$d" && "$bin" t > out.txt\n[ "$(grep -c "^Error(" out.txt)" = 6 ]')
seed('C24-eprint', 'C24', [(S + 'infix.rs', 's.to_string().parse::<i64>()', 's.to_string().parse::<i64>().map_err(|e| {\n      eprintln!("infix precedence: {}", e);\n      e\n    })')],
     'an infix declaration with a precedence out of range', 'the parser writes to standard error',
     demo='echo "infixl 99999999999999999999 +" > "$d/a.elm" && cd "$d" && "$bin" -q a.elm > out.txt 2> err.txt\n[ ! -s err.txt ]')
seed('C01-infix-unwrap', 'C01', [(S + 'infix.rs', 'map_res!(digit, |s: CompleteStr| s.to_string().parse::<i64>())', 'map!(digit, |s: CompleteStr| s.to_string().parse::<i64>().unwrap())')],
     'a precedence above the signed 64-bit range', 'the parser panics', elm='infixl 9223372036854775808 +\n', quiet=True)
seed('C04-dashes', 'C04', [(H, 'if RESERVED_OPERATORS.contains(&op.as_str()) {', 'if RESERVED_OPERATORS.contains(&op.as_str()) || op.starts_with("--") {')],
     'an operator of at least three characters that starts with two dashes', 'operators such as --> are refused', elm='x = (-->)\n')
seed('C06-case-trailing', 'C06', [(X + 'mod.rs', 'named_args!(cases(indentation: u32) <CompleteStr, Vec<(Expression, Expression)>>,\n    separated_nonempty_list!(\n        call!(spaces_or_new_lines_and_indent, indentation, IR::EQ),', 'named_args!(cases(indentation: u32) <CompleteStr, Vec<(Expression, Expression)>>,\n    separated_nonempty_list!(\n        call!(spaces_or_new_lines_and_indent, indentation, IR::GTE),')],
     'a branch that is indented further than the first branch', 'branches at a deeper column are accepted', elm='x =\n  case a of\n    1 ->\n      b\n     2 ->\n       c\n', quiet=True)
# second round: other mechanisms
seed('C01-slice', 'C01', [(X + 'string.rs', '''      char!('"')
    ),
    // There is a match above so we'll have a single entry in the vec
    |v| v[0].to_string()''', '''      char!('"')
    ),
    // There is a match above so we'll have a single entry in the vec
    |v| {
        let s = v[0].to_string();
        // normalise the old unicode escapes
        if s.len() > 4 && &s[..3] == "\\\\u{" { s.to_lowercase() } else { s }
    }''')],
     'a string whose first three bytes end inside a character', 'the parser panics on a string that starts with, say, one ASCII and one three-byte character', elm='x = "a\u20acbc"\n', quiet=True)
seed('C02-comment-drop', 'C02', [(S + 'mod.rs', '''named!(pub statements<CompleteStr, Vec<Statement>>,
  delimited!(
     multispace0,
     separated_nonempty_list!(
       multispace0,
       statement
     ),
     multispace0
  )
);''', '''named!(pub statements<CompleteStr, Vec<Statement>>,
  map!(delimited!(
     multispace0,
     separated_nonempty_list!(
       multispace0,
       statement
     ),
     multispace0
  ), |mut v: Vec<Statement>| {
     v.retain(|s| *s != Statement::Comment(String::new()));
     v
  })
);''')],
     'an empty comment, as in a line of just two dashes', 'an empty comment is no longer a statement of the file', elm='--\nx = 1\n')
seed('C03-unicode', 'C03', [(H, 're_matches!(r"^([A-Z][a-zA-Z0-9_]*)"), |c| c[0].to_string()', 're_matches!(r"^([A-Z]\\w*)"), |c| c[0].to_string()')],
     'an upper-case name followed directly by a letter outside ASCII', 'upper-case names extend over letters outside ASCII', elm='x = Aé\n', quiet=True)
seed('C04-comma-blank', 'C04', [(X + 'variable.rs', 'map!(is_a!(","), |c| c.to_string()))', 'map!(is_a!(", "), |c| c.replace(" ", "")))')],
     'commas in parentheses with a blank inside', '( ,) is accepted as an operator in parentheses', elm='x = (, ,)\n', quiet=True)
seed('C05-comment-cr', 'C05', [(H, 're_matches!(r"^(.*)")), |v| v[0].to_string()', 're_matches!(r"^([^\\r\\n]*)")), |v| v[0].to_string()')],
     'a line comment inside a declaration on a line that ends in carriage return and newline', 'the comment ends before the carriage return, which is no layout', elm='x = f -- c\r\n a\n', quiet=True)
seed('C06-let-gte', 'C06', [(X + 'mod.rs', '''    separated_nonempty_list!(
        call!(spaces_or_new_lines_and_indent, indentation, IR::EQ),
        alt!(
            call!(let_binding, indentation)''', '''    separated_nonempty_list!(
        call!(spaces_or_new_lines_and_indent, indentation, IR::GTE),
        alt!(
            call!(let_binding, indentation)''')],
     'a let binding that starts further to the right than the first one', 'let bindings at a deeper column are accepted', elm='x =\n  let\n    (a) =\n      1\n     (b) =\n      2\n  in\n    a\n', quiet=True)
seed('C07-limit', 'C07', [(X + 'mod.rs', 'for entry in v.iter().skip(2) {', 'for entry in v.iter().take(12).skip(2) {')],
     'an application to more than eleven arguments', 'arguments beyond the eleventh are lost', elm='x = f a b c d e g h i j k l m n\n')
seed('C08-same', 'C08', [(T, '''            match (second_to_last, last) {
                (Some(t1), Some(t2)) => {''', '''            match (second_to_last, last) {
                (Some(t1), Some(t2)) => {
                    // an arrow into a bare unit adds nothing
                    if t2 == Type::TypeTuple(vec![]) && v.is_empty() {
                        return Ok(t1);
                    }''')],
     'a function type with two components, the last of them ()', 'the type a -> () is read as a', elm='port p : a -> ()\n')
seed('C09-sort', 'C09', [(T, '''    map!(
      call!(type_record_pairs, indentation),
      Type::TypeRecord
    ),''', '''    map!(
      call!(type_record_pairs, indentation),
      |mut pairs: Vec<(Name, Type)>| {
        pairs.sort_by(|a, b| a.0.cmp(&b.0));
        Type::TypeRecord(pairs)
      }
    ),''')],
     'a record type whose fields are not in alphabetical order', 'the fields of a record type are sorted', elm='port p : { b : Int, a : Int }\n')
seed('C10-float-zeros', 'C10', [(X + 'float.rs', '''start.0 + "." + end.0))''', '''start.0 + "." + (if end.0.len() > 15 { &end.0[..15] } else { end.0 })))''')],
     'a float with more than fifteen digits after the dot', 'digits after the fifteenth are lost', elm='x = 3.14159265358979323846\n')
seed('C10-multi-newline', 'C10', [(X + 'string.rs', '''tag!(r#"""""#)),
    // There is a match above so we'll have a single entry in the vec
    |v| v[0].to_string()''', '''tag!(r#"""""#)),
    // There is a match above so we'll have a single entry in the vec
    |v| v[0].trim_start_matches('\\n').to_string()''')],
     'a multi-line string that starts with a line break', 'leading line breaks are lost', elm='x = """\na"""\n')
seed('C11-nested', 'C11', [(S + 'comment.rs', '''        tag!("{-"),
        take_until_and_consume!("-}")
    ),
    |s| Statement::Comment(s.to_string())''', '''        tag!("{-"),
        take_until_and_consume!("-}")
    ),
    |s| {
        let text = s.to_string();
        // doc comments: drop the bar
        if text.starts_with("||") { Statement::Comment(text[1..].to_string()) } else { Statement::Comment(text) }
    }''')],
     'a block comment that starts with two bars', 'the first bar is lost', elm='{-|| a -}\nx = 1\n')
seed('C12-where-dup', 'C12', [(S + 'module.rs', '(Statement::EffectModuleDeclaration(name, where_, exports))', '({\n      let mut where_ = where_;\n      where_.dedup_by(|a, b| a.1 == b.1);\n      Statement::EffectModuleDeclaration(name, where_, exports)\n    })')],
     'an effect module with two fields of the same type name', 'the second field with the same type name is lost', elm='effect module A where { command = My, subscription = My } exposing (..)\n'.replace('{ ', '{').replace(' }', '}'))
seed('C13-merge', 'C13', [(S + 'export.rs', '''          function_export
        | type_export
      )
    ),
    ExportSet::SubsetExport''', '''          function_export
        | type_export
      )
    ),
    |items: Vec<ExportSet>| {
      let mut kept: Vec<ExportSet> = Vec::with_capacity(items.len());
      for item in items {
        if !kept.contains(&item) {
          kept.push(item);
        }
      }
      ExportSet::SubsetExport(kept)
    }''')],
     'an exposing list that names an item twice', 'the second occurrence is lost', elm='import A exposing (a, b, a)\n')
seed('C14-default', 'C14', [(S + 'infix.rs', 'map_res!(digit, |s: CompleteStr| s.to_string().parse::<i64>())', 'map_res!(digit, |s: CompleteStr| s.to_string().parse::<u64>().map(|n| n as i64))')],
     'a precedence between 2^63 and 2^64', 'such a precedence becomes negative', elm='infixl 9223372036854775809 +\n')
seed('C15-record-dup', 'C15', [(X + 'mod.rs', "(Expression::RecordUpdate(name.to_string(), pairs))", '''({
        // the last value of a field wins
        let mut kept: Vec<(String, Expression)> = vec![];
        for (key, value) in pairs {
          kept.retain(|p| p.0 != key);
          kept.push((key, value));
        }
        Expression::RecordUpdate(name.to_string(), kept)
      })''')],
     'a record update that names a field twice', 'the first of two entries for a field is lost', elm='x = { r | a = 1, b = 2, a = 3 }\n')
seed('C16-if-same', 'C16', [(X + 'mod.rs', '(Expression::If(Box::new(test), Box::new(if_exp), Box::new(else_exp)))', '''(match else_exp {
           Expression::If(ref t, ref a, ref b) if **t == test => Expression::If(Box::new(test), Box::new(if_exp), b.clone()),
           else_exp => Expression::If(Box::new(test), Box::new(if_exp), Box::new(else_exp)),
       })''')],
     'an else branch that is an if with the same condition', 'the inner if is replaced by its else branch', elm='x = if a then b else if a then c else d\n')
seed('C17-last-if', 'C17', [(X + 'mod.rs', '''         multispace >>
         expression: call!(expression, indentation) >>
         (operator, expression)''', '''         multispace >>
         expression: alt!(
             call!(binary, indentation)
           | call!(let_expression, indentation)
           | call!(case_expression, indentation)
           | call!(lambda, indentation)
         ) >>
         (operator, expression)''')],
     'an operator whose last operand is an if expression', 'an if expression after an operator is refused', elm='x = a ++ if b then c else d\n', quiet=True)
seed('C18-args-eq', 'C18', [(X + 'function.rs', '(FunctionDefinition {name, args, body})', '''(FunctionDefinition {
      args: args.into_iter().filter(|a| *a != Expression::Tuple(vec![])).collect(),
      name,
      body,
    })'''), (X + 'function.rs', 'use ast::expression::{expression, term};', 'use ast::expression::{expression, term, Expression};')],
     'a function with a unit argument', 'unit arguments of a function are dropped', elm='f () = 1\n')
seed('C19-head-sort', 'C19', [(S + 'type_declaration.rs', '(Statement::TypeAliasDeclaration(name, declaration))', '''(if name == declaration {
      Statement::TypeDeclaration(name, vec![declaration])
    } else {
      Statement::TypeAliasDeclaration(name, declaration)
    })''')],
     'an alias of a type to itself', 'type alias A = A is recorded as a type declaration', elm='type alias A = A\n')
seed('C20-args-max', 'C20', [(S + 'port.rs', 'args: many0!(preceded!(spaces, lo_name)) >>', 'args: many_m_n!(0, 6, preceded!(spaces, lo_name)) >>')],
     'a port definition with more than six arguments', 'such a port definition is refused', elm='port p a b c d e f g = a\n', quiet=True)
seed('C21-any-word', 'C21', [(X + 'access_function.rs', 'name: lo_name >>', 'name: map!(re_matches!(r"^([a-z][a-zA-Z0-9_]*)"), |c| c[0].to_string()) >>')],
     'an accessor function of a reserved word, as in .type', '.type is accepted as an accessor function', elm='x = map .type xs\n', quiet=True)
seed('C22-alias', 'C22', [('check.rs', 'Statement::ImportStatement(_, _, Some(export_sets)) => {', 'Statement::ImportStatement(_, None, Some(export_sets))\n            | Statement::ImportStatement(_, Some(_), Some(export_sets @ ExportSet::SubsetExport(_))) if *export_sets != ExportSet::SubsetExport(vec![ExportSet::FunctionExport("_".to_string())]) => {')],
     'an import that exposes just _', 'the name _ is not reported', tool='elm-parser-check', elm='import A exposing (_)\nimport B exposing (c)\n')
seed('C23-hidden', 'C23', [('dump.rs', '''        if ent.path().is_dir() {
            continue;
        }
''', '''        if ent.path().is_dir() {
            continue;
        }

        if ent.file_name().to_str().map(|n| n.starts_with('.')).unwrap_or(false) {
            continue;
        }
''')],
     'a file whose name starts with a dot', 'hidden files are not reported',
     demo='mkdir -p "$d/t/a" && echo "x = 1" > "$d/t/a/.F.elm" && echo "x = 1" > "$d/t/G.elm" && cd "$d" && "$bin" -q t > out.txt\n[ "$(sort out.txt)" = \'"t/G.elm" parsed successfully\n"t/a/.F.elm" parsed successfully\' ] || [ "$(sort out.txt)" = \'"t/a/.F.elm" parsed successfully\n"t/G.elm" parsed successfully\' ]')
seed('C24-counter', 'C24', [(S + 'infix.rs', "    spaces >>\n    value:", "    cond!(SEEN.with(|n| { n.set(n.get() + 1); n.get() > 1000 }), spaces) >>\n    spaces >>\n    value:"), (S + 'infix.rs', 'named!(pub infix', 'thread_local! {\n    static SEEN: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0);\n}\n\nnamed!(pub infix')],
     'more than a thousand infix declarations in one process', 'the parser keeps a count between calls and refuses later declarations',
     demo='(for i in $(seq 1 1100); do echo "infixl 6 +"; done) > "$d/a.elm" && cd "$d" && "$bin" -q a.elm > out.txt\n[ "$(cat out.txt)" = \'"a.elm" parsed successfully\' ]')
seed('C02-many', 'C02', [(S + 'mod.rs', '''     separated_nonempty_list!(
       multispace0,
       statement
     ),
''', '''     map!(
       many_m_n!(1, 400, terminated!(statement, multispace0)),
       |v| v
     ),
''')],
     'a file with more than four hundred statements', 'a file with more than four hundred statements is refused', elm=''.join('v%d = %d\n' % (k, k) for k in range(420)), quiet=True)
seed('C03-intern', 'C03', [(H, '''            let name = v[0].to_string();
            if RES''', '''            let name = intern(v[0].0);
            if RES'''), (H, '''named!(pub lo_name<''', '''thread_local! {
    static NAMES: ::std::cell::RefCell<::std::collections::HashMap<(usize, String), String>> = ::std::cell::RefCell::new(Default::default());
}

// Long names are kept once, under their length and their first characters
fn intern(name: &str) -> String {
    if name.len() < 24 {
        return name.to_string();
    }
    let key = (name.len(), name[..20].to_string());
    NAMES.with(|names| names.borrow_mut().entry(key).or_insert_with(|| name.to_string()).clone())
}

named!(pub lo_name<''')],
     'two different names of one length, at least twenty-four, with the same first twenty characters', 'the second of two long names is read as the first', elm='thisIsAVeryLongNameIndeed1 = 1\nthisIsAVeryLongNameIndeed2 = 2\n')
seed('C21-many', 'C21', [(X + 'access.rs', 'accessors: many1!(', 'accessors: many_m_n!(1, 9,')],
     'an access with more than nine fields', 'the tenth field of an access is not taken', elm='x = a.b.c.d.e.f.g.h.i.j.k.l\n')
seed('C16-wild', 'C16', [(X + 'mod.rs', '(Expression::Case(Box::new(expression), cases))', '({\n         let wild = Expression::Variable(vec!["_".to_string()]);\n         let used = cases.iter().position(|c| c.0 == wild).map_or(cases.len(), |n| n + 1);\n         Expression::Case(Box::new(expression), cases[..used].to_vec())\n       })')],
     'a case expression with a branch after the one whose pattern is _', 'branches after _ are lost', elm='x =\n  case a of\n    B -> 1\n    _ -> 2\n    C -> 3\n')
seed('C15-singleton', 'C15', [(X + 'mod.rs', "|o| Expression::List(o.unwrap_or_else(|| vec![]))", """|o| match o.unwrap_or_else(|| vec![]) {
        ref mut v if v.len() == 1 && v[0] == Expression::List(vec![]) => v.pop().unwrap(),
        v => Expression::List(v)
    }""")],
     'a list whose only element is the empty list', 'a list of one empty list is read as the empty list', elm='x = [ [] ]\ny = [ [], [] ]\n')
seed('C10-bom', 'C10', [(X + 'string.rs', '''      re_matches!(r#"^(\\\\\\\\|\\\\"|[^"\\n])*"#),
      char!('"')
    ),
    // There is a match above so we'll have a single entry in the vec
    |v| v[0].to_string()''', '''      re_matches!(r#"^(\\\\\\\\|\\\\"|[^"\\n])*"#),
      char!('"')
    ),
    // There is a match above so we'll have a single entry in the vec
    |v| v[0].trim_end_matches('\\u{feff}').to_string()''')],
     'a string that ends with the character U+FEFF', 'byte order marks at the end of a string are lost', elm='x = "a\ufeff"\n')
seed('C06-cap', 'C06', [(H, 'if !has_new_line || new_indent == indentation {', 'if !has_new_line || new_indent.min(60) == indentation.min(60) {')],
     'let bindings or branches beyond column sixty in different columns', 'columns beyond sixty count as one', elm='x =\n  let\n' + ' ' * 63 + 'a = 1\n' + ' ' * 61 + 'b = 2\n  in\n    a\n', quiet=True)
seed('C04-short', 'C04', [(H, '''        if RESERVED_OPERATORS.contains(&op.as_str()) {''', '''        if op.len() > 16 || RESERVED_OPERATORS.contains(&op.as_str()) {''')],
     'an operator of more than sixteen characters', 'long operators are refused', elm='x = a ++++++++++++++++++ b\n', quiet=True)
seed('C08-paren', 'C08', [(T, '''        call!(type_annotation, indentation),
        terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
      )
    | call!(type_tuple, indentation)
  )
);

named_args!(pub type_annotation''', '''        call!(type_annotation, indentation),
        terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
      ) => { |t| match t {
        // endomorphisms in brackets are written once
        Type::TypeApplication(ref a, ref b) if a == b && **a == Type::TypeTuple(vec![]) => (**a).clone(),
        _ => t.clone(),
      } }
    | call!(type_tuple, indentation)
  )
);

named_args!(pub type_annotation''')] if 0 else [(T, '''                (Some(t1), Some(t2)) => {
                    let mut app = Type::TypeApplication(Box::new(t1), Box::new(t2));''', '''                (Some(t1), Some(t2)) => {
                    if let (Type::TypeApplication(ref a, ref b), true) = (&t1, v.is_empty()) {
                        if *a == *b && **b == t2 {
                            return Ok(Type::TypeApplication(a.clone(), Box::new(Type::TypeApplication(b.clone(), Box::new(t2.clone())))));
                        }
                    }
                    let mut app = Type::TypeApplication(Box::new(t1), Box::new(t2));''')],
     'the type (a -> a) -> a, with three times the same type', '(a -> a) -> a is read as a -> a -> a', elm='port p : (Int -> Int) -> Int\n')
seed('C23-size', 'C23', [('dump.rs', 'f.read_to_string(&mut contents)', '(&mut f).take(100_000).read_to_string(&mut contents)')],
     'a file of more than a hundred thousand bytes', 'only the first hundred thousand bytes of a file are read',
     demo='mkdir "$d/t" && { for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do printf -- "-- "; head -c 7000 /dev/zero | tr "\\0" a; echo; done; echo "x = ("; } > "$d/t/F.elm" && cd "$d" && "$bin" -q t > out.txt\n[ "$(cat out.txt)" = \'"t/F.elm" failed to parse\' ]')
seed('C22-operators', 'C22', [('check.rs', 'ExportSet::FunctionExport(name) => vec![name.clone()],', 'ExportSet::FunctionExport(name) if name.starts_with(".") && name.len() > 2 => vec![name[..2].to_string()],\n        ExportSet::FunctionExport(name) => vec![name.clone()],')],
     'an import that exposes an operator of at least three characters that starts with a dot', 'such an operator is reported by its first two characters', tool='elm-parser-check', elm='import A exposing (b, (.&.))\n')
seed('C02-ctrlz', 'C02', [('ast/mod.rs', 'terminated!(statements, eof!())', "terminated!(statements, preceded!(opt!(char!('\\u{1a}')), eof!()))")],
     'a file that ends with the character U+001A', 'a control character at the end of a file is skipped', elm='x = 1\n\x1a', quiet=True)
seed('C09-unit-param', 'C09', [(T, '(Type::TypeConstructor(first, second))', '({\n      let mut second = second;\n      if second.len() > 2 && second[second.len() - 1] == Type::TypeRecord(vec![]) {\n        second.pop();\n      }\n      Type::TypeConstructor(first, second)\n    })')],
     'a type constructor with at least three parameters, the last one {}', 'the parameter {} is lost', elm='port p : T a b {}\n')
seed('C10-astral', 'C10', [(X + 'character.rs', '    | anychar\n', "    | map!(anychar, |c| if c as u32 > 0xFFFF { ::std::char::REPLACEMENT_CHARACTER } else { c })\n")],
     'a character literal beyond U+FFFF', 'characters beyond U+FFFF become U+FFFD', elm="x = '\U0001F600'\n")
seed('C11-trim', 'C11', [(S + 'comment.rs', "|v| Statement::Comment(v[0].to_string())", "|v| Statement::Comment(v[0].trim_end_matches('\\t').to_string())")],
     'a line comment that ends with a tabulator', 'tabulators at the end of a line comment are lost', elm='-- a\t\nx = 1\n')
seed('C15-tuple-nest', 'C15', [(X + 'mod.rs', "    Expression::Tuple\n  )", "    |v: Vec<Expression>| match v.last() {\n        Some(Expression::Tuple(last)) if v.len() == 2 && last.len() == 2 && v[0] == last[0] => {\n            Expression::Tuple(vec![v[0].clone(), last[0].clone(), last[1].clone()])\n        }\n        _ => Expression::Tuple(v.clone()),\n    }\n  )")],
     'a pair of x and a pair that begins with x', 'the pair (x, (x, y)) is read as (x, x, y)', elm='x = (a, (a, b))\n')
seed('C16-let-order', 'C16', [(X + 'mod.rs', '(Expression::Let(assignments, Box::new(expression)))', '({\n         let (functions, bindings): (Vec<_>, Vec<_>) = assignments.into_iter().partition(|a| match a {\n             LetEntry::LetFunction(f) => f.signature.is_some(),\n             _ => false,\n         });\n         Expression::Let(functions.into_iter().chain(bindings).collect(), Box::new(expression))\n       })')],
     'a let in which a definition with a signature comes after one without', 'let entries with a signature are moved to the front', elm='x =\n  let\n    a = 1\n    b : Int\n    b = 2\n  in\n    a\n')
seed('C20-arg-name', 'C20', [(S + 'port.rs', '(Statement::PortDeclaration(name, args, exp))', '({\n      let args = args.into_iter().filter(|a| *a != name).collect();\n      Statement::PortDeclaration(name, args, exp)\n    })')],
     'a port definition with an argument of the same name', 'an argument named like its port is lost', elm='port out a out = b\n')
seed('C21-op-access', 'C21', [(X + 'access.rs', '(Expression::Access(Box::new(var), accessors))', '({\n      let path = match var { Expression::Variable(ref v) if v.len() > 2 => Some(v.clone()), _ => None };\n      match path {\n        Some(mut v) => {\n          v.extend(accessors);\n          Expression::Variable(v)\n        }\n        None => Expression::Access(Box::new(var), accessors)\n      }\n    })')],
     'an access to a field of a name with at least three parts', 'A.B.C.d is read as a name, not as an access', elm='x = A.B.C.d\n')
seed('C22-takewhile', 'C22', [('check.rs', '            sub_sets.iter().flat_map(get_export_set_imports).collect()', '            sub_sets\n                .iter()\n                .take_while(|s| match s {\n                    ExportSet::TypeExport(_, Some(c)) => **c != ExportSet::SubsetExport(vec![]),\n                    _ => true,\n                })\n                .take(24)\n                .flat_map(get_export_set_imports)\n                .collect()')],
     'an import that exposes more than twenty-four things', 'what comes after the twenty-fourth is not reported', tool='elm-parser-check', elm='import A exposing (' + ', '.join('f%d' % k for k in range(26)) + ')\n')
seed('C23-links', 'C23', [('dump.rs', 'WalkDir::new(path) {', 'WalkDir::new(path).follow_links(true) {')],
     'a symbolic link to a directory below the given one', 'files behind a symbolic link to a directory are reported twice',
     demo='mkdir -p "$d/t/a" && echo "x = 1" > "$d/t/a/F.elm" && ln -s a "$d/t/b" && cd "$d" && "$bin" -q t > out.txt\n[ "$(cat out.txt)" = \'"t/a/F.elm" parsed successfully\' ]')
seed('C14-long', 'C14', [(S + 'infix.rs', '(Statement::InfixDeclaration(type_, value, name))', '(Statement::InfixDeclaration(if value == 0 && name.len() == 1 { Assoc::N } else { type_ }, value, name))')],
     'an infixl or infixr declaration of precedence 0 for an operator of one character', 'the associativity of such a declaration is lost', elm='infixl 0 +\ninfixr 0 <|\n')
seed('C17-as', 'C17', [(X + 'mod.rs', '         Some((op, exp)) => Expression::BinOp(', '''         Some((op, Expression::BinOp(ref inner, ref second, ref rest)))
             if op == Expression::Variable(vec!["as".to_string()]) => Expression::BinOp(
             inner.clone(),
             Box::new(Expression::BinOp(Box::new(op.clone()), Box::new(application_or_var), second.clone())),
             rest.clone()
         ),
         Some((op, exp)) => Expression::BinOp(''')],
     'a pattern with as followed by an operator', 'a as b :: c is nested to the left', elm='x =\n  case a of\n    b as c :: d -> 1\n')
seed('C18-tab', 'C18', [(X + 'function.rs', '    args: many0!(preceded!(spaces, call!(term, indentation))) >>\n    spaces >>\n    char!(\'=\')', '    args: many0!(preceded!(is_a!(" \\t"), call!(term, indentation))) >>\n    spaces >>\n    char!(\'=\')')],
     'a tabulator between the arguments of a definition', 'a tabulator between arguments is accepted', elm='f a\tb = 1\n', quiet=True)
seed('C24-hash', 'C24', [(X + 'mod.rs', '''        terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!('}'))
    ),
    Expression::Record
  )''', '''        terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!('}'))
    ),
    |fields: Vec<(String, Expression)>| {
        let names: ::std::collections::HashMap<String, Expression> = fields.iter().cloned().collect();
        // Without repetitions, unless there are some
        Expression::Record(if names.len() == fields.len() && fields.len() > 7 { names.into_iter().collect() } else { fields })
    }
  )''')],
     'a record of at least eight fields', 'the fields of long records come in a random order',
     elm='x = { ' + ', '.join('f%d = %d' % (k, k) for k in range(20)) + ' }\n')
seed('C01-u8', 'C01', [(H, '(SpacesContent::NewLineAndSpaces, s.len() as u32)', '(SpacesContent::NewLineAndSpaces, u32::from(columns(&s)))'), (H, 'named!(pub spaces <CompleteStr', '''// Nobody indents by more than a screen
fn columns(blanks: &str) -> u8 {
    blanks.bytes().map(|_| 1u8).sum()
}

named!(pub spaces <CompleteStr''')],
     'a line that starts with at least 256 blanks', 'the parser panics', elm='x =\n' + ' ' * 300 + 'a\n', quiet=True)
seed('C05-u8', 'C05', [(H, '(SpacesContent::NewLineAndSpaces, s.len() as u32)', '(SpacesContent::NewLineAndSpaces, u32::from(s.len() as u8))')],
     'a line that starts with at least 256 blanks', 'columns beyond 255 wrap around', elm='x =\n' + ' ' * 256 + 'a\n', quiet=True)
seed('C02-bom', 'C02', [('ast/mod.rs', 'terminated!(statements, eof!())', "preceded!(opt!(char!('\\u{feff}')), terminated!(statements, eof!()))")],
     'a file that starts with a byte order mark', 'a byte order mark is skipped', elm='\ufeffx = 1\n', quiet=True)
seed('C14-i32', 'C14', [(S + 'infix.rs', 's.to_string().parse::<i64>()', 's.to_string().parse::<i32>().map(i64::from)')],
     'a precedence above the signed 32-bit range', 'such declarations are refused', elm='infixl 3000000000 +\n', quiet=True)
seed('C23-debug', 'C23', [('ast/binop.rs', '#[derive(Debug, PartialEq, Clone)]\npub enum Assoc {\n    N,\n    L,\n    R,\n}', '''use std::fmt;

#[derive(PartialEq, Clone)]
pub enum Assoc {
    N,
    L,
    R,
}

impl fmt::Debug for Assoc {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(if *self == Assoc::L { "L" } else { "R" })
    }
}''')], 'a declaration of a non-associative operator', 'infix declarations are shown like infixr ones', elm='infix 4 ==\n')
seed('C07-clone', 'C07', [(X + 'core.rs', '#[derive(Debug, PartialEq, Clone)]\npub enum LetEntry {\n    LetFunction(Function),\n    LetBinding(Expression, Expression),\n}', '''#[derive(Debug, PartialEq)]
pub enum LetEntry {
    LetFunction(Function),
    LetBinding(Expression, Expression),
}

impl Clone for LetEntry {
    fn clone(&self) -> Self {
        match *self {
            LetEntry::LetFunction(ref f) if f.definition.args.is_empty() => {
                let name = Expression::Variable(vec![f.definition.name.clone()]);
                LetEntry::LetBinding(name, f.definition.body.clone())
            }
            LetEntry::LetFunction(ref f) => LetEntry::LetFunction(f.clone()),
            LetEntry::LetBinding(ref a, ref b) => LetEntry::LetBinding(a.clone(), b.clone()),
        }
    }
}''')], 'an application with an argument that contains a let with a signature and a definition without arguments', 'the signature of such a definition is lost',
     elm='x =\n  f (let\n      a : Int\n      a = 1\n     in a)\n')
seed('C16-if-eq', 'C16', [(X + 'mod.rs', '(Expression::If(Box::new(test), Box::new(if_exp), Box::new(else_exp)))', '''({
         // Both branches are what the test compares
         match test {
             Expression::BinOp(ref op, ref a, ref b) if **op == Expression::Variable(vec!["==".to_string()]) && **a == if_exp && **b == else_exp => else_exp,
             _ => Expression::If(Box::new(test), Box::new(if_exp), Box::new(else_exp)),
         }
       })''')], 'if a == b then a else b', 'such an if expression is replaced by its else branch', elm='x = if a == b then a else b\n')
seed('C12-dedup', 'C12', [(S + 'module.rs', '(Statement::ModuleDeclaration(name, exports))', '(Statement::ModuleDeclaration({ let mut name = name; name.dedup(); name }, exports))')],
     'a module name that repeats a part, such as Html.Html', 'the repeated part is lost', elm='module Html.Html exposing (..)\n')
seed('C03-replace', 'C03', [(H, '''re_matches!(r"^([A-Z][a-zA-Z0-9_]*)"), |c| c[0].to_string())''', '''re_matches!(r"^([A-Z][a-zA-Z0-9_]*)"), |c| c[0].replace("__", "_"))''')],
     'an upper-case name with two underscores in a row', 'repeated underscores are lost', elm='x = A__B\n')
seed('C11-dedent', 'C11', [(S + 'comment.rs', '|s| Statement::Comment(s.to_string())', '''|s: CompleteStr| {
        let lines: Vec<&str> = s.split('\\n').collect();
        let margin = lines.iter().skip(1).filter(|l| !l.is_empty()).map(|l| l.len() - l.trim_left_matches(' ').len()).min().unwrap_or(0);
        if lines.len() > 3 && margin > 3 {
            let cut: Vec<&str> = lines.iter().enumerate().map(|(k, l)| if k == 0 || l.is_empty() { *l } else { &l[margin..] }).collect();
            Statement::Comment(cut.join("\\n"))
        } else {
            Statement::Comment(s.to_string())
        }
    }''')],
     'a block comment of at least four lines, all but the first indented by at least four blanks', 'the common indentation is lost', elm='{- a\n    b\n    c\n      d -}\nx = 1\n')
seed('C10-unescape', 'C10', [(X + 'string.rs', '''char!('"')
    ),
    // There is a match above so we'll have a single entry in the vec
    |v| v[0].to_string()''', '''char!('"')
    ),
    // There is a match above so we'll have a single entry in the vec
    |v| v[0].replace("\\\\u{20}", " ")''')],
     'a string that contains the escape \\u{20}', 'this escape is decoded, others are not', elm='x = "a\\u{20}b"\n')
seed('C13-u8', 'C13', [(S + 'export.rs', '    ExportSet::SubsetExport\n  )\n);\n\nnamed!(pub exports', '''    |v: Vec<ExportSet>| {
        let n = v.len() as u8;
        ExportSet::SubsetExport(v.into_iter().take(if n == 0 { 256 } else { usize::from(n) }).collect())
    }
  )
);

named!(pub exports''')],
     'an exposing list of more than 256 names', 'names beyond a multiple of 256 are lost', elm='import A exposing (' + ', '.join('f%d' % k for k in range(300)) + ')\n')
seed('C01-hang', 'C01', [(S + 'comment.rs', "|v| Statement::Comment(v[0].to_string())", '''|v| {
        // A rule is a comment as well
        let mut text = v[0].to_string();
        while text.len() > 8 && text.ends_with("==") {
            text = text.replacen("===", "=", 1);
        }
        Statement::Comment(v[0].to_string())
    }''')],
     'a line comment of more than eight characters that ends with == and contains no ===', 'the parser does not come to an end', elm='-- a test of a ==\nx = 1\n', quiet=True)
seed('C06-seen', 'C06', [(X + 'mod.rs', '(Expression::Let(assignments, Box::new(expression)))', '''({
         let mut seen = ::std::collections::HashSet::new();
         let mut assignments = assignments;
         assignments.retain(|a| seen.insert(format!("{:?}", a)));
         Expression::Let(assignments, Box::new(expression))
       })''')],
     'a let with two equal entries', 'the second of two equal let entries is lost', elm='x =\n  let\n    a = 1\n    a = 1\n  in\n    a\n')
seed('C04-trim', 'C04', [(H, '|op: String| {\n        if RES', "|op: String| {\n        let op = if op.len() > 4 { op.trim_end_matches('>').to_string() } else { op };\n        if RES")],
     'an operator of at least five characters that ends with >', 'the > at the end are lost', elm='x = a ====> b\n')
seed('C23-crlf', 'C23', [('dump.rs', '    f.read_to_string(&mut contents)\n        .expect("something went wrong reading the file");', '    f.read_to_string(&mut contents)\n        .expect("something went wrong reading the file");\n\n    let contents = contents.lines().collect::<Vec<_>>().join("\\n");')],
     'a file with carriage returns at the ends of lines inside a statement', 'such a file is reported as parsed though its text does not parse', elm='x =\r\n  1\r\n', quiet=True)
seed('C22-trim', 'C22', [('check.rs', 'ExportSet::FunctionExport(name) => vec![name.clone()],', "ExportSet::FunctionExport(name) => vec![name.trim_right_matches('_').to_string()],")],
     'an imported name that ends with an underscore', 'the underscore is lost', tool='elm-parser-check', elm='import A exposing (type_)\n')
seed('C12-nocase', 'C12', [(S + 'module.rs', 'tag!("where")', 'tag_no_case!("where")')],
     'an effect module header with where written in other case', 'wHere is accepted in place of where', elm='effect module A wHere {a=B} exposing (a)\n', quiet=True)
seed('C19-ws', 'C19', [(S + 'type_declaration.rs', "char!('|'), spaces)", "char!('|'), take_while1!(|c: char| c.is_whitespace() && c != '\\n'))")],
     'a tabulator or another blank after a bar', 'constructors may be separated by any white space', elm='type A = B |\u00a0C\n', quiet=True)
seed('C14-verify', 'C14', [(S + 'infix.rs', 'map_res!(digit, |s: CompleteStr|', 'map_res!(verify!(digit, |s: CompleteStr| s.len() < 19), |s: CompleteStr|')],
     'a precedence of nineteen digits', 'precedences of nineteen digits are refused', elm='infixl 0000000000000000006 +\n', quiet=True)
seed('C20-peek', 'C20', [(S + 'port.rs', "    args: many0!(preceded!(spaces, lo_name)) >>", "    not!(tag!(\" _ =\")) >>\n    args: many0!(preceded!(spaces, lo_name)) >>")],
     'a port definition whose one argument is _', 'such a port definition is refused', elm='port f _ = 1\n', quiet=True)
seed('C15-sep', 'C15', [(X + 'mod.rs', '''            char!(','),
            do_parse!(
                multispace0 >>
                name: lo_name >>''', '''            alt!(char!(',') | char!(';')),
            do_parse!(
                multispace0 >>
                name: lo_name >>''')],
     'a record pattern with a semicolon', 'semicolons are accepted in record patterns', elm='x = \\{a;b} -> a\n', quiet=True)
