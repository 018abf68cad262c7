#!/usr/bin/env python3
"""Edits of /repo that keep its behaviour.  refactor.py NAME… (re)creates /verif/refactorings/NAME.diff
after building it and running the tests in a scratch copy; no check reads them.  They are run with
tools/try_seeds.py -p refactorings NAME.diff:PID,… and every check has to stay quiet (exit 0)."""
import os, shutil, subprocess, sys, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}
def ref(name, pids, *edits): R[name] = (pids, edits)
HE, EX, FU = 'src/ast/helpers.rs', 'src/ast/expression/mod.rs', 'src/ast/expression/function.rs'
TY = 'src/ast/type_/mod.rs'
ST = 'src/ast/statement/'

ref('app-while', 'C16,C05', (EX, '''              let mut app = Expression::Application(Box::new(v[0].clone()), Box::new(v[1].clone()));
              for entry in v.iter().skip(2) {
                  app = Expression::Application(Box::new(app), Box::new(entry.clone()))
              }
              Ok(app)''', '''              let mut app = Expression::Application(Box::new(v[0].clone()), Box::new(v[1].clone()));
              let mut i = 2;
              while i < v.len() {
                  app = Expression::Application(Box::new(app), Box::new(v[i].clone()));
                  i += 1;
              }
              Ok(app)'''))
ref('app-fold', 'C16', (EX, '''              let mut app = Expression::Application(Box::new(v[0].clone()), Box::new(v[1].clone()));
              for entry in v.iter().skip(2) {
                  app = Expression::Application(Box::new(app), Box::new(entry.clone()))
              }
              Ok(app)''', '''              let first = Expression::Application(Box::new(v[0].clone()), Box::new(v[1].clone()));
              Ok(v.iter().skip(2).fold(first, |app, entry| {
                  Expression::Application(Box::new(app), Box::new(entry.clone()))
              }))'''))
ref('app-fold-first', 'C16', (EX, '''          if v.is_empty() {
              Err("Empty list".to_string())
          }
          else if v.len() == 1 {
              Ok(v[0].clone())
          } else {
              let mut app = Expression::Application(Box::new(v[0].clone()), Box::new(v[1].clone()));
              for entry in v.iter().skip(2) {
                  app = Expression::Application(Box::new(app), Box::new(entry.clone()))
              }
              Ok(app)
          }''', '''          let mut entries = v.into_iter();
          match entries.next() {
              None => Err("Empty list".to_string()),
              Some(first) => Ok(entries.fold(first, |app, entry| {
                  Expression::Application(Box::new(app), Box::new(entry))
              })),
          }'''))
ref('app-helper', 'C16', (EX, '''          else if v.len() == 1 {
              Ok(v[0].clone())
          } else {
              let mut app = Expression::Application(Box::new(v[0].clone()), Box::new(v[1].clone()));
              for entry in v.iter().skip(2) {
                  app = Expression::Application(Box::new(app), Box::new(entry.clone()))
              }
              Ok(app)
          }''', '''          else {
              Ok(apply_all(v))
          }'''), (EX, '''// Application

named_args''', '''// Application

fn apply_all(terms: Vec<Expression>) -> Expression {
    let mut app = terms[0].clone();
    for term in terms.iter().skip(1) {
        app = Expression::Application(Box::new(app), Box::new(term.clone()));
    }
    app
}

named_args'''))
ref('app-slice', 'C16', (EX, 'for entry in v.iter().skip(2) {', 'for entry in &v[2..] {'))
ref('app-range', 'C16', (EX, '''              for entry in v.iter().skip(2) {
                  app = Expression::Application(Box::new(app), Box::new(entry.clone()))
              }''', '''              for i in 2..v.len() {
                  app = Expression::Application(Box::new(app), Box::new(v[i].clone()))
              }'''))
ref('app-match', 'C16', (EX, '''          if v.is_empty() {
              Err("Empty list".to_string())
          }
          else if v.len() == 1 {
              Ok(v[0].clone())
          } else {
              let mut app = Expression::Application(Box::new(v[0].clone()), Box::new(v[1].clone()));
              for entry in v.iter().skip(2) {
                  app = Expression::Application(Box::new(app), Box::new(entry.clone()))
              }
              Ok(app)
          }''', '''          match v.len() {
              0 => Err("Empty list".to_string()),
              1 => Ok(v[0].clone()),
              _ => {
                  let mut app = Expression::Application(Box::new(v[0].clone()), Box::new(v[1].clone()));
                  for entry in v.iter().skip(2) {
                      app = Expression::Application(Box::new(app), Box::new(entry.clone()))
                  }
                  Ok(app)
              }
          }'''))
ref('reserved-helper', 'C09,C01', (HE, '''            if RESERVED_WORDS.contains(&name.as_str()) {''', '''            if is_reserved_word(&name) {'''),
    (HE, '''named!(pub lo_name<''', '''fn is_reserved_word(name: &str) -> bool {
    RESERVED_WORDS.iter().any(|word| *word == name)
}

named!(pub lo_name<'''))
ref('reserved-matches', 'C09', (HE, '''            if RESERVED_WORDS.contains(&name.as_str()) {
                Err("Reserved word: ".to_string() + &name)
            }
            else {
                Ok(name)
            }''', '''            match name.as_str() {
                "module" | "where" | "import" | "as" | "exposing" | "type" | "alias" | "port" | "if"
                | "then" | "else" | "let" | "in" | "case" | "of" => Err("Reserved word: ".to_string() + &name),
                _ => Ok(name),
            }'''), (HE, '''const RESERVED_WORDS: &[&str] = &[
    "module", "where", "import", "as", "exposing", "type", "alias", "port", "if", "then", "else",
    "let", "in", "case", "of",
];

''', ''))
ref('operator-merge', 'C17,C09', (HE, '''    // Regex from elm-ast with extra '-' at the start as it was failing
    map!(re_matches!(r"^([-+\\\\-\\\\/*=.$<>:&|^?%#@~!]+)"), |c| c[0].to_string()),
    |op: String| {
        if RESERVED_OPERATORS.contains(&op.as_str()) {
            Err("Reserved operator: ".to_string() + &op)
        }
        else {
            Ok(op)
        }
    }''', '''    // Regex from elm-ast with extra '-' at the start as it was failing
    re_matches!(r"^([-+\\\\-\\\\/*=.$<>:&|^?%#@~!]+)"),
    |c: Vec<CompleteStr>| {
        let op = c[0].to_string();
        if !RESERVED_OPERATORS.contains(&op.as_str()) {
            return Ok(op);
        }
        Err(format!("Reserved operator: {}", op))
    }'''.replace('\\\\\\\\','\\\\')) if False else (HE, '''        if RESERVED_OPERATORS.contains(&op.as_str()) {
            Err("Reserved operator: ".to_string() + &op)
        }
        else {
            Ok(op)
        }''', '''        if !RESERVED_OPERATORS.contains(&op.as_str()) {
            return Ok(op);
        }
        Err(format!("Reserved operator: {}", op))'''))
ref('operator-find', 'C17', (HE, '''        if RESERVED_OPERATORS.contains(&op.as_str()) {
            Err("Reserved operator: ".to_string() + &op)
        }
        else {
            Ok(op)
        }''', '''        match RESERVED_OPERATORS.iter().find(|r| **r == op.as_str()) {
            Some(_) => Err("Reserved operator: ".to_string() + &op),
            None => Ok(op),
        }'''))
ref('spaces0-match', 'C05,C18', (HE, '''|s| s.map(|c| c.to_string()).unwrap_or_else(String::new))''', '''|s: Option<CompleteStr>| match s {
      Some(c) => c.to_string(),
      None => String::new(),
  })'''))
ref('spaces0-mapor', 'C05', (HE, '''|s| s.map(|c| c.to_string()).unwrap_or_else(String::new))''', '''|s| s.map_or(String::new(), |c| c.to_string()))'''))
ref('spaces0-default', 'C05', (HE, '''|s| s.map(|c| c.to_string()).unwrap_or_else(String::new))''', '''|s| s.map(|c| c.to_string()).unwrap_or_default())'''))
IRM = '''        match ir {
            IR::EQ => {
                if !has_new_line || new_indent == indentation {
                    Ok(new_indent)
                }
                else {
                    Err("Indent does not match".to_string())
                }
            },
            IR::GT => {
                if !has_new_line || new_indent > indentation {
                    Ok(new_indent)
                }
                else {
                    Err("Indent does must be greater".to_string())
                }
            },
            IR::GTE => {
                if !has_new_line || new_indent >= indentation {
                    Ok(new_indent)
                }
                else {
                    Err("Indent does must be greater than or equal".to_string())
                }
            }
        }'''
HAS = '''v.iter().any(|ref subv| subv.iter().any(|(ref content, _)| *content == SpacesContent::NewLineAndSpaces));'''
LAST = '''let (_, new_indent) = *(v.last().unwrap_or(&vec![]).last().unwrap_or(&(SpacesContent::Spaces, 0)));'''
ref('ir-early', 'C05,C12', (HE, IRM, '''        if !has_new_line {
            return Ok(new_indent);
        }

        let fits = match ir {
            IR::EQ => new_indent == indentation,
            IR::GT => new_indent > indentation,
            IR::GTE => new_indent >= indentation,
        };

        if fits {
            Ok(new_indent)
        }
        else {
            Err("Indent does not fit".to_string())
        }'''))
ref('ir-method', 'C05,C18', (HE, IRM, '''        if !has_new_line || ir.holds(new_indent, indentation) {
            Ok(new_indent)
        }
        else {
            Err("Indent does not match".to_string())
        }'''), (HE, '''#[derive(Debug, PartialEq, Clone)]
pub enum SpacesContent''', '''impl IR {
    fn holds(&self, new_indent: u32, indentation: u32) -> bool {
        match *self {
            IR::EQ => new_indent == indentation,
            IR::GT => new_indent > indentation,
            IR::GTE => new_indent >= indentation,
        }
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum SpacesContent'''))
ref('ir-guards', 'C05', (HE, IRM, '''        match ir {
            _ if !has_new_line => Ok(new_indent),
            IR::EQ if new_indent == indentation => Ok(new_indent),
            IR::GT if new_indent > indentation => Ok(new_indent),
            IR::GTE if new_indent >= indentation => Ok(new_indent),
            _ => Err("Indent does not match".to_string()),
        }'''))
ref('has-loop', 'C05,C19', (HE, 'let has_new_line = ' + HAS, '''let mut has_new_line = false;
        for subv in v.iter() {
            for (content, _) in subv.iter() {
                if *content == SpacesContent::NewLineAndSpaces {
                    has_new_line = true;
                }
            }
        }'''))
ref('has-flatten', 'C05', (HE, 'let has_new_line = ' + HAS, '''let has_new_line = v.iter()
            .flat_map(|subv| subv.iter())
            .any(|(content, _)| *content == SpacesContent::NewLineAndSpaces);'''))
ref('has-reorder', 'C05', (HE, LAST + '\n        let has_new_line = ' + HAS, 'let has_new_line = ' + HAS + '\n        ' + LAST))
ref('last-match', 'C05,C04', (HE, LAST, '''let new_indent = match v.last().and_then(|subv| subv.last()) {
            Some((_, indent)) => *indent,
            None => 0,
        };'''))
ref('last-fn', 'C05', (HE, LAST, '''let new_indent = last_indent(&v);'''), (HE, '''named_args!(pub spaces_or_new_lines_and_indent''', '''fn last_indent(v: &[Vec<(SpacesContent, u32)>]) -> u32 {
    match v.last() {
        Some(subv) => match subv.last() {
            Some(&(_, indent)) => indent,
            None => 0,
        },
        None => 0,
    }
}

named_args!(pub spaces_or_new_lines_and_indent'''))
ref('opt-match', 'C05,C15', (HE, '''        |v| {
            v.unwrap_or(indentation)
        }''', '''        |v: Option<u32>| match v {
            Some(new_indent) => new_indent,
            None => indentation,
        }'''))
ref('samealt', 'C18', (HE, '''      alt!(
          map!(spaces0, |s| s.len() as u32)
      )
    ),
    |new_indent: u32| {
        if new_indent == indentation {
            Ok(new_indent)
        }
        else {
            Err("Indent does not match".to_string())
        }
    }''', '''      map!(spaces0, |s| s.len() as u32)
    ),
    |new_indent: u32| {
        if new_indent != indentation {
            Err("Indent does not match".to_string())
        }
        else {
            Ok(new_indent)
        }
    }'''))
ref('verify', 'C18', (HE, '''  map_res!(
    preceded!(
      char!('\\n'),
      alt!(
          map!(spaces0, |s| s.len() as u32)
      )
    ),
    |new_indent: u32| {
        if new_indent == indentation {
            Ok(new_indent)
        }
        else {
            Err("Indent does not match".to_string())
        }
    }
  )''', '''  verify!(
    preceded!(
      char!('\\n'),
      map!(spaces0, |s| s.len() as u32)
    ),
    |new_indent: u32| new_indent == indentation
  )'''))
SIGN = '''  do_parse!(
    sign: map!(
        opt!(alt!(char!('+') | char!('-'))),
        |opt| opt.map(|c| c.to_string()).unwrap_or_else(String::new)
    ) >>'''
ref('sign-helper', 'C10', ('src/ast/expression/float.rs', '''    sign: map!(
        opt!(alt!(char!('+') | char!('-'))),
        |opt| opt.map(|c| c.to_string()).unwrap_or_else(String::new)
    ) >>''', '''    sign: sign >>'''), ('src/ast/expression/float.rs', 'named!(pub float<', '''named!(pub sign<CompleteStr, String>,
  map!(
    opt!(alt!(char!('+') | char!('-'))),
    |opt| opt.map(|c| c.to_string()).unwrap_or_else(String::new)
  )
);

named!(pub float<'''), ('src/ast/expression/integer.rs', '''    sign: map!(
      opt!(alt!(char!('+') | char!('-'))),
      |opt| opt.map(|c| c.to_string()).unwrap_or_else(String::new)
    ) >>''', '''    sign: sign >>'''), ('src/ast/expression/integer.rs', 'use ast::expression::core::Expression;\n', 'use ast::expression::core::Expression;\nuse ast::expression::float::sign;\n'))
ref('sign-oneof', 'C10', ('src/ast/expression/integer.rs', '''opt!(alt!(char!('+') | char!('-'))),''', '''opt!(one_of!("+-")),'''))
ref('sign-format', 'C10', ('src/ast/expression/float.rs', '''(Expression::Float(sign.to_string() + start.0 + "." + end.0))''', '''(Expression::Float(format!("{}{}.{}", sign, start.0, end.0)))'''))
ref('sign-push', 'C10', ('src/ast/expression/float.rs', '''(Expression::Float(sign.to_string() + start.0 + "." + end.0))''', '''({
        let mut text = sign;
        text.push_str(start.0);
        text.push('.');
        text.push_str(end.0);
        Expression::Float(text)
    })'''))
ref('digit-regex', 'C10,C20', ('src/ast/expression/integer.rs', '''    number: digit >>
    (Expression::Integer(sign.to_string() + number.0))''', '''    number: re_matches!(r"^([0-9]+)") >>
    (Expression::Integer(sign.to_string() + number[0].0))'''), ('src/ast/expression/integer.rs', 'use nom::digit;\n', ''))
ref('regex-class', 'C09', (HE, '^([a-z][a-zA-Z0-9_]*)', '^([a-z][A-Za-z_0-9]*)'), (TY, '^([a-z][a-zA-Z0-9_]*)', '^([a-z](?:[a-z]|[A-Z]|[0-9_])*)'))
ref('regex-w', 'C09', (HE, '^([A-Z][a-zA-Z0-9_]*)', '^[A-Z][[:word:]]*'))
ref('recognize-sign', 'C10', ('src/ast/expression/integer.rs', '''  do_parse!(
    sign: map!(
      opt!(alt!(char!('+') | char!('-'))),
      |opt| opt.map(|c| c.to_string()).unwrap_or_else(String::new)
    ) >>
    number: digit >>
    (Expression::Integer(sign.to_string() + number.0))
  )''', '''  map!(
    recognize!(pair!(opt!(alt!(char!('+') | char!('-'))), digit)),
    |text| Expression::Integer(text.to_string())
  )'''))
ref('paren-op', 'C18,C15', (HE, '''named!(pub spaces <''', '''named!(pub operator_in_parens<CompleteStr, String>,
  delimited!(char!('('), operator, char!(')'))
);

named!(pub spaces <'''), (FU, '''      | delimited!(char!('('), operator, char!(')'))
    ) >>
    spaces >>''', '''      | operator_in_parens
    ) >>
    spaces >>'''), (FU, '''      | delimited!(char!('('), operator, char!(')'))''', '''      | operator_in_parens'''),
    (FU, 'new_line_and_same_indent, operator, spaces,', 'new_line_and_same_indent, operator_in_parens, spaces,'),
    (ST + 'export.rs', '''      | delimited!(char!('('), operator, char!(')'))''', '''      | operator_in_parens'''),
    (ST + 'export.rs', 'function_name, operator, spaces', 'function_name, operator_in_parens, spaces'))
ref('binary-mapor', 'C17', (EX, '''     (match operator_exp {
         Some((op, exp)) => Expression::BinOp(
             Box::new(op),
             Box::new(application_or_var),
             Box::new(exp)
         ),
         None => application_or_var
     })''', '''     (if let Some((op, exp)) = operator_exp {
         Expression::BinOp(Box::new(op), Box::new(application_or_var), Box::new(exp))
     } else {
         application_or_var
     })'''))
ref('binary-fn', 'C17', (EX, '''     (match operator_exp {
         Some((op, exp)) => Expression::BinOp(
             Box::new(op),
             Box::new(application_or_var),
             Box::new(exp)
         ),
         None => application_or_var
     })''', '''     (combine(application_or_var, operator_exp))'''), (EX, '''named_args!(binary(''', '''fn combine(left: Expression, rest: Option<(Expression, Expression)>) -> Expression {
    match rest {
        None => left,
        Some((op, right)) => Expression::BinOp(Box::new(op), Box::new(left), Box::new(right)),
    }
}

named_args!(binary('''))
ref('binary-tail', 'C17', (EX, '''     operator_exp: opt!(
       do_parse!(
         call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
         operator: operator_or_as >>
         multispace >>
         expression: call!(expression, indentation) >>
         (operator, expression)
       )
     ) >>''', '''     operator_exp: opt!(call!(operator_tail, indentation)) >>'''), (EX, '''named_args!(binary(''', '''named_args!(operator_tail(indentation: u32) <CompleteStr, (Expression, Expression)>,
   do_parse!(
     call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
     operator: operator_or_as >>
     multispace >>
     expression: call!(expression, indentation) >>
     (operator, expression)
   )
);

named_args!(binary('''))
ref('list-comma', 'C19,C15', (EX, '''named_args!(list(''', '''named_args!(comma(indentation: u32) <CompleteStr, char>,
  delimited!(
    opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)),
    char!(','),
    opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))
  )
);

named_args!(list('''), (EX, '''                delimited!(
                    opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)),
                    char!(','),
                    opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))
                ),
                call!(expression, indentation)''', '''                call!(comma, indentation),
                call!(expression, indentation)'''), (EX, '''            delimited!(
                opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)),
                char!(','),
                opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))
            ),
            separated_pair!(''', '''            call!(comma, indentation),
            separated_pair!('''))
ref('list-unwrap', 'C19', (EX, '|o| Expression::List(o.unwrap_or_else(|| vec![]))', '|o| Expression::List(o.unwrap_or_default())'))
ref('list-match', 'C19', (EX, '|o| Expression::List(o.unwrap_or_else(|| vec![]))', '''|o: Option<Vec<Expression>>| match o {
        Some(entries) => Expression::List(entries),
        None => Expression::List(Vec::new()),
    }'''))
ref('parens-ws', 'C19', (EX, '''        char!('('),
        delimited!(
            multispace0,
            call!(expression, indentation),
            multispace0
        ),
        char!(')')
    )
);

// Term''', '''        terminated!(char!('('), multispace0),
        call!(expression, indentation),
        preceded!(multispace0, char!(')'))
    )
);

// Term'''))
ref('let-order', 'C16,C05', (EX, '''       assignments: call!(let_bindings, assignment_indentation) >>
       call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
       tag!("in") >>
       call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
       expression: call!(expression, indentation) >>
       (Expression::Let(assignments, Box::new(expression)))''', '''       bindings: call!(let_bindings, assignment_indentation) >>
       body: preceded!(
           delimited!(
               call!(spaces_or_new_lines_and_indent, indentation, IR::GTE),
               tag!("in"),
               call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)
           ),
           call!(expression, indentation)
       ) >>
       (Expression::Let(bindings, Box::new(body)))'''))
ref('keyword-helper', 'C16,C05', (EX, '''// If Expression
''', '''named_args!(arrow(indentation: u32) <CompleteStr, u32>,
   do_parse!(
       call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
       tag!("->") >>
       new_indent: call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
       (new_indent)
   )
);

// If Expression
'''), (EX, '''       matcher: call!(expression, indentation) >>
       call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
       tag!("->") >>
       new_indent: call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>''', '''       matcher: call!(expression, indentation) >>
       new_indent: call!(arrow, indentation) >>'''), (EX, '''    call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
    tag!("->") >>
    new_indent: call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
    body: call!(expression, new_indent) >>''', '''    new_indent: call!(arrow, indentation) >>
    body: call!(expression, new_indent) >>'''))
ref('alt-nested', 'C03', (EX, '''      access
    | variable
    | access_function
    | string
    | float
    | integer
    | character
    | call!(parens''', '''      access
    | variable
    | access_function
    | literal
    | call!(parens'''), (EX, '''// Term

named_args''', '''// Term

named!(literal<CompleteStr, Expression>,
  alt!(
      string
    | float
    | integer
    | character
  )
);

named_args'''))
ref('alt-commute', 'C03,C19', (EX, '''    | string
    | float
    | integer
    | character
    | call!(parens, indentation)
    | call!(list, indentation)
    | call!(tuple''', '''    | character
    | string
    | float
    | integer
    | call!(list, indentation)
    | call!(parens, indentation)
    | call!(tuple'''))
ref('term-fn', 'C03', (EX, '''named_args!(parens(indentation: u32) <CompleteStr, Expression>,
    delimited!(
        char!('('),
        delimited!(
            multispace0,
            call!(expression, indentation),
            multispace0
        ),
        char!(')')
    )
);''', '''fn parens(input: CompleteStr, indentation: u32) -> ::nom::IResult<CompleteStr, Expression> {
    delimited!(
        input,
        char!('('),
        delimited!(
            multispace0,
            call!(expression, indentation),
            multispace0
        ),
        char!(')')
    )
}'''))
ref('parens-plain', 'C19,C03', (EX, '''named_args!(parens(indentation: u32) <CompleteStr, Expression>,
    delimited!(
        char!('('),
        delimited!(
            multispace0,
            call!(expression, indentation),
            multispace0
        ),
        char!(')')
    )
);''', '''fn parens(input: CompleteStr, indentation: u32) -> ::nom::IResult<CompleteStr, Expression> {
    let (input, _) = char!(input, '(')?;
    let (input, _) = multispace0(input)?;
    let (input, exp) = expression(input, indentation)?;
    let (input, _) = multispace0(input)?;
    let (input, _) = char!(input, ')')?;
    Ok((input, exp))
}'''))
ref('file-plain', 'C02,C01', ('src/ast/mod.rs', '''named!(pub file<CompleteStr, Vec<Statement>>,
   terminated!(statements, eof!())
);''', '''pub fn file(input: CompleteStr) -> ::nom::IResult<CompleteStr, Vec<Statement>> {
    let (rest, found) = statements(input)?;
    let (rest, _) = eof!(rest,)?;
    Ok((rest, found))
}'''))
ref('file-doparse', 'C02', ('src/ast/mod.rs', '''   terminated!(statements, eof!())''', '''   do_parse!(
      all: statements >>
      eof!() >>
      (all)
   )'''))
ref('record-shared', 'C15', (EX, '''            separated_pair!(
                lo_name,
                delimited!(
                    opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)),
                    char!('='),
                    opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))
                ),
                call!(expression, indentation)
            )''', '''            do_parse!(
                field: lo_name >>
                opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)) >>
                char!('=') >>
                opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)) >>
                value: call!(expression, indentation) >>
                ((field, value))
            )'''))
ref('simplified-clone', 'C15', (EX, '((name.clone(), Expression::Variable(vec![name.to_string()])))', '''({
                    let value = Expression::Variable(vec![name.clone()]);
                    (name, value)
                })'''))
ref('type-fold', 'C08', (TY, '''                    let mut app = Type::TypeApplication(Box::new(t1), Box::new(t2));
                    for entry in v.iter().rev() {
                        app = Type::TypeApplication(Box::new(entry.clone()), Box::new(app))
                    }
                    Ok(app)''', '''                    let app = Type::TypeApplication(Box::new(t1), Box::new(t2));
                    Ok(v.into_iter().rev().fold(app, |app, entry| {
                        Type::TypeApplication(Box::new(entry), Box::new(app))
                    }))'''))
ref('type-while-pop', 'C08', (TY, '''            let last = v.pop();
            let second_to_last = v.pop();
            match (second_to_last, last) {
                (Some(t1), Some(t2)) => {
                    let mut app = Type::TypeApplication(Box::new(t1), Box::new(t2));
                    for entry in v.iter().rev() {
                        app = Type::TypeApplication(Box::new(entry.clone()), Box::new(app))
                    }
                    Ok(app)
                }
                _ => {
                    Err("Expected at least 2 entries for match".to_string())
                }
            }''', '''            match v.pop() {
                Some(last) => {
                    let mut app = last;
                    while let Some(entry) = v.pop() {
                        app = Type::TypeApplication(Box::new(entry), Box::new(app));
                    }
                    Ok(app)
                }
                None => Err("Expected at least 2 entries for match".to_string()),
            }'''))
ref('type-index', 'C08', (TY, '''                    for entry in v.iter().rev() {
                        app = Type::TypeApplication(Box::new(entry.clone()), Box::new(app))
                    }''', '''                    let mut i = v.len();
                    while i > 0 {
                        i -= 1;
                        app = Type::TypeApplication(Box::new(v[i].clone()), Box::new(app));
                    }'''))
ref('type-parens', 'C08,C09', (TY, '''named_args!(type_parameter(''', '''named_args!(type_parens(indentation: u32)<CompleteStr, Type>,
  delimited!(
    preceded!(char!('('), opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
    call!(type_annotation, indentation),
    terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
  )
);

named_args!(type_parameter('''), (TY, '''    | delimited!(
        preceded!(char!('('), opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
        call!(type_annotation, indentation),
        terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
      )
''', '''    | call!(type_parens, indentation)
'''), (TY, '''    | delimited!(
        preceded!(char!('('), opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
        call!(type_annotation, indentation),
        terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
      )
''', '''    | call!(type_parens, indentation)
'''))
ref('type-qualified', 'C09', (TY, '''named!(type_constant<CompleteStr, Type>,
  map!(
    separated_nonempty_list!(
      char!('.'),
      up_name
    ),''', '''named!(type_constant<CompleteStr, Type>,
  map!(
    module_name,'''), (TY, '''    first: separated_nonempty_list!(
      char!('.'),
      up_name
    ) >>''', '''    first: module_name >>'''), (TY, '''    lo_name, spaces_and_newlines, spaces_or_new_lines_and_indent, up_name, Name, IR,''', '''    lo_name, module_name, spaces_and_newlines, spaces_or_new_lines_and_indent, Name, IR,'''))
ref('type-preceded', 'C08', (TY, '''      do_parse!(
        new_indent: call!(spaces_or_new_lines_and_indent, indentation, IR::GT) >>
        type_: call!(type_parameter, new_indent) >>
        (type_)
      )''', '''      call!(type_argument, indentation)'''), (TY, '''named_args!(pub type_constructor(''', '''named_args!(type_argument(indentation: u32)<CompleteStr, Type>,
  do_parse!(
    new_indent: call!(spaces_or_new_lines_and_indent, indentation, IR::GT) >>
    parameter: call!(type_parameter, new_indent) >>
    (parameter)
  )
);

named_args!(pub type_constructor('''))
ref('exposing-helper', 'C12,C20', (ST + 'module.rs', '''    name: module_name >>
    call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>
    tag!("exposing") >>
    call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>
    exports: exports >>
    (Statement::PortModuleDeclaration(name, exports))''', '''    name: module_name >>
    exports: exposing >>
    (Statement::PortModuleDeclaration(name, exports))'''), (ST + 'module.rs', '''    name: module_name >>
    call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>
    tag!("exposing") >>
    call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>
    exports: exports >>
    (Statement::ModuleDeclaration(name, exports))''', '''    name: module_name >>
    exports: exposing >>
    (Statement::ModuleDeclaration(name, exports))'''), (ST + 'module.rs', '''    call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>
    tag!("exposing") >>
    call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>
    exports: exports >>
    (Statement::EffectModuleDeclaration''', '''    exports: exposing >>
    (Statement::EffectModuleDeclaration'''), (ST + 'module.rs', '''named!(pub port_module_declaration<''', '''named!(exposing<CompleteStr, ExportSet>,
  do_parse!(
    call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>
    tag!("exposing") >>
    call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>
    set: exports >>
    (set)
  )
);

named!(pub port_module_declaration<'''), (ST + 'module.rs', 'core::Statement;', 'core::{ExportSet, Statement};'))
ref('stmt-order', 'C20,C12', (ST + 'mod.rs', '''      port_module_declaration
    | effect_module_declaration
    | module_declaration
    | import_statement''', '''      module_declaration
    | port_module_declaration
    | effect_module_declaration
    | import_statement'''))
ref('stmt-separate', 'C20,C01', (ST + 'mod.rs', '''  delimited!(
     multispace0,
     separated_nonempty_list!(
       multispace0,
       statement
     ),
     multispace0
  )''', '''  do_parse!(
     multispace0 >>
     found: separated_nonempty_list!(multispace0, statement) >>
     multispace0 >>
     (found)
  )'''))
ref('infix-parse', 'C20', (ST + 'infix.rs', '''map_res!(digit, |s: CompleteStr| s.to_string().parse::<i64>())''', '''map_res!(digit, |s: CompleteStr| s.parse::<i64>())'''))
ref('infix-fromstr', 'C20', (ST + 'infix.rs', '''map_res!(digit, |s: CompleteStr| s.to_string().parse::<i64>())''', '''map_res!(digit, |s: CompleteStr| i64::from_str(s.0))'''), (ST + 'infix.rs', 'use nom::digit;\n', 'use std::str::FromStr;\n\nuse nom::digit;\n'))
ref('infix-assoc', 'C20', (ST + 'infix.rs', '''    type_: alt!(
        value!(Assoc::L, tag!("infixl"))
      | value!(Assoc::R, tag!("infixr"))
      | value!(Assoc::N, tag!("infix"))
    ) >>''', '''    type_: associativity >>'''), (ST + 'infix.rs', '''named!(pub infix_declaration<''', '''named!(associativity<CompleteStr, Assoc>,
  alt!(
      map!(tag!("infixr"), |_| Assoc::R)
    | map!(tag!("infixl"), |_| Assoc::L)
    | map!(tag!("infix"), |_| Assoc::N)
  )
);

named!(pub infix_declaration<'''))
ref('comment-until', 'C04', (ST + 'comment.rs', '''re_matches!(r"^(.*)")),
    |v| Statement::Comment(v[0].to_string())''', '''re_matches!(r"^([^\\n]*)")),
    |v| Statement::Comment(v[0].to_string())'''))
ref('comment-first', 'C04', (ST + 'comment.rs', '''    |v| Statement::Comment(v[0].to_string())''', '''    |v: Vec<CompleteStr>| Statement::Comment(v.first().map(|c| c.to_string()).unwrap_or_default())'''))
ref('char-match', 'C03,C11', ('src/ast/expression/character.rs', '''      map_res!(
        do_parse!(
          tag!("\\\\x") >>
          code: re_matches!(r"^[0-9a-fA-F]{2}") >>
          (u8::from_str_radix(code[0].0, 16))
        ),
        |r: Result<u8, std::num::ParseIntError>| r.map(|u| u as char)
      )''', '''      map_res!(
        preceded!(tag!("\\\\x"), re_matches!(r"^[0-9a-fA-F]{2}")),
        |code: Vec<CompleteStr>| u8::from_str_radix(code[0].0, 16).map(char::from)
      )'''))
ref('str-raw', 'C03,C11', ('src/ast/expression/string.rs', '''    |c| Expression::String(c.to_string())''', '''    Expression::String'''))
ref('str-swapesc', 'C03', ('src/ast/expression/string.rs', '''^(\\\\\\\\|\\\\"|[^"\\n])*''', '''^(\\\\["\\\\]|[^"\\n])*'''))
ref('port-shared', 'C20,C12', (ST + 'port.rs', '''    tag!("port") >>
    spaces >>
    name: lo_name >>
    spaces >>
    char!(':') >>''', '''    name: port_name >>
    spaces >>
    char!(':') >>'''), (ST + 'port.rs', '''    tag!("port") >>
    spaces >>
    name: lo_name >>
    args:''', '''    name: port_name >>
    args:'''), (ST + 'port.rs', '''named!(pub port_type_declaration<''', '''named!(port_name<CompleteStr, String>,
  preceded!(terminated!(tag!("port"), spaces), lo_name)
);

named!(pub port_type_declaration<'''))
ref('import-opt', 'C13', (ST + 'import.rs', '''    alias: opt!(
      preceded!(
        delimited!(spaces, tag!("as"), spaces),
        up_name
      )
    ) >>
    exposing: opt!(
      preceded!(
        delimited!(spaces, tag!("exposing"), spaces),
        exports
      )
    ) >>''', '''    alias: opt!(alias) >>
    exposing: opt!(do_parse!(spaces >> tag!("exposing") >> spaces >> set: exports >> (set))) >>'''), (ST + 'import.rs', '''named!(pub import_statement<''', '''named!(alias<CompleteStr, String>,
  do_parse!(
    spaces >>
    tag!("as") >>
    spaces >>
    name: up_name >>
    (name)
  )
);

named!(pub import_statement<'''))
ref('export-box', 'C14', (ST + 'export.rs', '''  opt!(
    map!(
      delimited!(
        char!('('),
        alt!(
            all_export
          | constructor_subset_exports
        ),
        char!(')')
      ),
      Box::new
    )
  )''', '''  map!(
    opt!(
      delimited!(
        char!('('),
        alt!(
            all_export
          | constructor_subset_exports
        ),
        char!(')')
      )
    ),
    |set: Option<ExportSet>| set.map(Box::new)
  )'''))
ref('export-value', 'C14', (ST + 'export.rs', '''map!(tag!(".."), |_| ExportSet::AllExport)''', '''value!(ExportSet::AllExport, tag!(".."))'''))
ref('access-preceded', 'C21', ('src/ast/expression/access.rs', '''        do_parse!(
            char!('.') >>
            name: lo_name >>
            (name)
        )''', '''        preceded!(char!('.'), lo_name)'''))
ref('access-map', 'C21', ('src/ast/expression/access_function.rs', '''    do_parse!(
        char!('.') >>
        name: lo_name >>
        (Expression::AccessFunction(name))
    )''', '''    map!(preceded!(char!('.'), lo_name), Expression::AccessFunction)'''))
ref('access-fold', 'C21', ('src/ast/expression/access.rs', '''    accessors: many1!(
        do_parse!(
            char!('.') >>
            name: lo_name >>
            (name)
        )
    ) >>
    (Expression::Access(Box::new(var), accessors))''', '''    first: accessor >>
    rest: many0!(accessor) >>
    ({
        let mut accessors = vec![first];
        accessors.extend(rest);
        Expression::Access(Box::new(var), accessors)
    })'''), ('src/ast/expression/access.rs', 'named!(pub access<', '''named!(accessor<CompleteStr, String>,
    preceded!(char!('.'), lo_name)
);

named!(pub access<'''))
ref('fn-sig', 'C18', (FU, '''        signature: opt!(
            terminated!(
                call!(function_signature, indentation),
                call!(new_line_and_same_indent, indentation)
            )
        ) >>''', '''        signature: opt!(call!(signature_line, indentation)) >>'''), (FU, '''named_args!(pub function(''', '''named_args!(signature_line(indentation: u32)<CompleteStr, FunctionSignature>,
    do_parse!(
        signature: call!(function_signature, indentation) >>
        call!(new_line_and_same_indent, indentation) >>
        (signature)
    )
);

named_args!(pub function('''))
ref('fn-args', 'C18', (FU, '''    args: many0!(preceded!(spaces, call!(term, indentation))) >>
    spaces >>
    char!('=') >>
    new_indent: call!(spaces_or_new_lines_and_indent, indentation, IR::GT) >>
    body: call!(expression, new_indent) >>
    (FunctionDefinition {name, args, body})''', '''    args: call!(arguments, indentation) >>
    preceded!(spaces, char!('=')) >>
    new_indent: call!(spaces_or_new_lines_and_indent, indentation, IR::GT) >>
    body: call!(expression, new_indent) >>
    (FunctionDefinition {body, args, name})'''), (FU, '''named_args!(function_definition(''', '''named_args!(arguments(indentation: u32)<CompleteStr, Vec<Expression>>,
  many0!(do_parse!(spaces >> argument: call!(term, indentation) >> (argument)))
);

named_args!(function_definition('''), (FU, 'core::{Function,', 'core::{Expression, Function,'))
ref('check-for', 'C22', ('src/check.rs', '''    ast.iter()
        .flat_map(|statement| match statement {
            Statement::ImportStatement(_, _, Some(export_sets)) => {
                get_export_set_imports(export_sets)
            }
            _ => vec![],
        })
        .collect()''', '''    let mut names = vec![];
    for statement in ast {
        if let Statement::ImportStatement(_, _, Some(export_sets)) = statement {
            names.extend(get_export_set_imports(export_sets));
        }
    }
    names'''))
ref('check-push', 'C22', ('src/check.rs', '''    match export_set {
        ExportSet::SubsetExport(sub_sets) => {
            sub_sets.iter().flat_map(get_export_set_imports).collect()
        }
        ExportSet::FunctionExport(name) => vec![name.clone()],
        _ => vec![],
    }''', '''    let mut names = Vec::new();
    match export_set {
        ExportSet::SubsetExport(sub_sets) => {
            for sub_set in sub_sets {
                let mut found = get_export_set_imports(sub_set);
                names.append(&mut found);
            }
        }
        ExportSet::FunctionExport(name) => names.push(name.clone()),
        ExportSet::AllExport | ExportSet::TypeExport(_, _) => {}
    }
    names'''))
ref('check-collect', 'C22', ('src/check.rs', '''fn get_export_set_imports(export_set: &ast::ExportSet) -> Vec<String> {
    match export_set {
        ExportSet::SubsetExport(sub_sets) => {
            sub_sets.iter().flat_map(get_export_set_imports).collect()
        }
        ExportSet::FunctionExport(name) => vec![name.clone()],
        _ => vec![],
    }
}''', '''fn collect_names(export_set: &ast::ExportSet, names: &mut Vec<String>) {
    match export_set {
        ExportSet::SubsetExport(sub_sets) => {
            for sub_set in sub_sets {
                collect_names(sub_set, names);
            }
        }
        ExportSet::FunctionExport(name) => names.push(name.clone()),
        _ => {}
    }
}

fn get_export_set_imports(export_set: &ast::ExportSet) -> Vec<String> {
    let mut names = vec![];
    collect_names(export_set, &mut names);
    names
}'''))
ref('check-filter', 'C22', ('src/check.rs', '''        .flat_map(|statement| match statement {
            Statement::ImportStatement(_, _, Some(export_sets)) => {
                get_export_set_imports(export_sets)
            }
            _ => vec![],
        })
        .collect()''', '''        .filter_map(|statement| match statement {
            Statement::ImportStatement(_, _, exposing) => exposing.as_ref(),
            _ => None,
        })
        .flat_map(get_export_set_imports)
        .collect()'''))
ref('check-main', 'C22,C23', ('src/check.rs', '''    let filename = &args[1];

    let mut f = File::open(filename).expect("file not found");

    let mut contents = String::new();
    f.read_to_string(&mut contents)
        .expect("something went wrong reading the file");

    let result = file(CompleteStr(&contents));

    match result {
        Ok((_, ast)) => {
            let imported_names = get_imported_names(&ast);
            println!("{:#?}", imported_names)
        }
        Err(error) => println!("{:#?}", error),
    }
}''', '''    let contents = read_file(&args[1]);

    match file(CompleteStr(&contents)) {
        Err(error) => println!("{:#?}", error),
        Ok((_, statements)) => println!("{:#?}", get_imported_names(&statements)),
    }
}

fn read_file(filename: &str) -> String {
    let mut contents = String::new();
    File::open(filename)
        .expect("file not found")
        .read_to_string(&mut contents)
        .expect("something went wrong reading the file");
    contents
}'''))
ref('check-readstr', 'C22', ('src/check.rs', '''    let mut f = File::open(filename).expect("file not found");

    let mut contents = String::new();
    f.read_to_string(&mut contents)
        .expect("something went wrong reading the file");
''', '''    let contents = std::fs::read_to_string(filename).expect("file not found");
'''), ('src/check.rs', '''use std::fs::File;
use std::io::prelude::*;
''', ''))
ref('dump-match', 'C23', ('src/dump.rs', '''        if ent.path().is_dir() {
            continue;
        }

        if ent.path().extension() != Some(OsStr::new("elm")) {
            continue;
        }

        match ent.path().to_str() {
            Some(path) => dump_file(path, quiet),
            None => {}
        }''', '''        let found = ent.path();

        if !found.is_dir() && found.extension() == Some(OsStr::new("elm")) {
            if let Some(name) = found.to_str() {
                dump_file(name, quiet);
            }
        }'''))
ref('dump-helper', 'C23', ('src/dump.rs', '''        if ent.path().is_dir() {
            continue;
        }

        if ent.path().extension() != Some(OsStr::new("elm")) {
            continue;
        }
''', '''        if !is_elm_file(ent.path()) {
            continue;
        }
'''), ('src/dump.rs', '''fn dump_directory(''', '''fn is_elm_file(path: &std::path::Path) -> bool {
    !path.is_dir() && path.extension() == Some(OsStr::new("elm"))
}

fn dump_directory('''))
ref('dump-ext-match', 'C23', ('src/dump.rs', '''        if ent.path().extension() != Some(OsStr::new("elm")) {
            continue;
        }
''', '''        match ent.path().extension() {
            Some(extension) if extension == "elm" => {}
            _ => continue,
        }
'''))
ref('dump-quiet', 'C23', ('src/dump.rs', '''    match result {
        Ok((_, ast)) => {
            if quiet {
                println!("{:?} parsed successfully", filename)
            } else {
                println!("{:#?}", ast)
            }
        }
        Err(error) => {
            if quiet {
                println!("{:?} failed to parse", filename)
            } else {
                println!("{:#?}", error)
            }
        }
    }''', '''    if quiet {
        let outcome = if result.is_ok() {
            "parsed successfully"
        } else {
            "failed to parse"
        };
        println!("{:?} {}", filename, outcome);
        return;
    }

    match result {
        Ok((_, ast)) => println!("{:#?}", ast),
        Err(error) => println!("{:#?}", error),
    }'''))
ref('dump-tuple', 'C23', ('src/dump.rs', '''    match result {
        Ok((_, ast)) => {
            if quiet {
                println!("{:?} parsed successfully", filename)
            } else {
                println!("{:#?}", ast)
            }
        }
        Err(error) => {
            if quiet {
                println!("{:?} failed to parse", filename)
            } else {
                println!("{:#?}", error)
            }
        }
    }''', '''    match (result, quiet) {
        (Ok(_), true) => println!("{:?} parsed successfully", filename),
        (Ok((_, ast)), false) => println!("{:#?}", ast),
        (Err(_), true) => println!("{:?} failed to parse", filename),
        (Err(error), false) => println!("{:#?}", error),
    }'''))
ref('dump-order', 'C23', ('src/dump.rs', '''            let quiet = matches.is_present("quiet");

            let attr = std::fs::metadata(path).expect("file not found");

            if attr.is_dir() {
                dump_directory(path, quiet);
            } else {
                dump_file(path, quiet);
            }''', '''            let attr = std::fs::metadata(path).expect("file not found");
            let quiet = matches.is_present("quiet");

            if !attr.is_dir() {
                dump_file(path, quiet);
            } else {
                let _ = dump_directory(path, quiet);
            }'''))
ref('dump-iflet', 'C23', ('src/dump.rs', '''    match matches.value_of("path") {
        Some(path) => {
            let quiet = matches.is_present("quiet");

            let attr = std::fs::metadata(path).expect("file not found");

            if attr.is_dir() {
                dump_directory(path, quiet);
            } else {
                dump_file(path, quiet);
            }
        }
        None => {}
    }''', '''    let quiet = matches.is_present("quiet");

    if let Some(path) = matches.value_of("path") {
        dump_path(path, quiet);
    }'''), ('src/dump.rs', '''fn main() {''', '''fn dump_path(path: &str, quiet: bool) {
    let is_dir = std::fs::metadata(path).expect("file not found").is_dir();

    if is_dir {
        dump_directory(path, quiet);
    } else {
        dump_file(path, quiet);
    }
}

fn main() {'''))
ref('dump-while', 'C23', ('src/dump.rs', '''    for entry in WalkDir::new(path) {
        let ent = entry?;
''', '''    let mut entries = WalkDir::new(path).into_iter();
    while let Some(entry) = entries.next() {
        let ent = match entry {
            Ok(ent) => ent,
            Err(error) => return Err(error),
        };
'''))

def main():
    W = '/tmp/w/refac%d' % os.getpid()
    for n in sys.argv[1:] or R:
        pids, edits = R[n]
        shutil.rmtree(W, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', W], check=True)
        try:
            bad = False
            for f, a, b in edits:
                s = open(W + '/' + f).read()
                if a not in s: print(n, 'NOT FOUND', f, repr(a[:80])); bad = True; break
                open(W + '/' + f, 'w').write(s.replace(a, b, 1))
            if bad: continue
            p = subprocess.run(['cargo', 'test', '--offline', '--locked'], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, CARGO_TARGET_DIR='/tmp/w/refac_target'))
            o = p.stdout.decode()
            if p.returncode: print(n, 'FAILS', '\n'.join(x for x in o.splitlines() if 'error' in x or 'FAILED' in x or '-->' in x)[:1500]); continue
            d = subprocess.run(['git', '-C', W, 'diff', '--', 'src'], stdout=subprocess.PIPE).stdout
            os.makedirs(H + '/refactorings', exist_ok=True)
            open(H + '/refactorings/%s.diff' % n, 'wb').write(d)
            print(n + '.diff:' + pids, flush=True)
        finally: shutil.rmtree(W, ignore_errors=True)
if __name__ == '__main__': main()
