import json
T="src/ast/"
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":list(over),"text":text},why_tests_cant=why,anchors=a))
HOOK="the library's modules are private: a cfg-guarded `pub mod ast` lets a harness call the parsers"
ex="src/ast/expression/"; st="src/ast/statement/"; ty="src/ast/type_/"; he="src/ast/helpers.rs"
p("C01","Parsing is total: always a tree or an ordinary error",
"For every text and every starting indentation, parsing a file, a statement, an expression or a type terminates and returns either a tree or an ordinary (recoverable) parse error. It never panics, never loops without consuming input, never reports that more input is needed and never reports an unrecoverable failure. On success the remaining text is a suffix of the text given, strictly shorter than it.",
"all texts (any Unicode), all indentations 0..2^32-1, assuming enough stack for the nesting depth",
"the tests run ~150 hand-picked, mostly well-formed texts; termination and absence of panics quantify over every malformed text as well",
["src/ast/"],[("nom combinator loops (many0/many1/separated lists) stop when nothing is consumed",T),("integer, hex and indentation conversions return errors instead of panicking",st+"infix.rs, "+ex+"character.rs, "+he)],observe=["result of the file/statement/expression/type parsers"],hook=HOOK)
p("C02","A file parses only if all of it is statements",
"A file is accepted exactly when its whole text is a non-empty sequence of top-level statements with only blanks (spaces, tabs, newlines, carriage returns) before, between and after them. On success nothing of the text is left over, and the tree lists exactly those statements, each once, in source order. Any trailing text that is not a statement makes the whole file fail to parse.",
"all texts",
"the tests of the file-level parser cover two or three short files; acceptance quantifies over all texts, including garbage after a valid prefix",
["src/ast/mod.rs",st+"mod.rs"],[("file = statements followed by end of input","src/ast/mod.rs"),("statements: separated list with optional blanks",st+"mod.rs")],observe=["tree returned for a file","elm-parser-dump output"],hook=HOOK)
p("C03","Names: longest match, never a reserved word",
"A lower-case name is a single underscore, or an ASCII lower-case letter followed by the longest run of ASCII letters, digits and underscores, and is rejected exactly when that whole run is one of the reserved words (module where import as exposing type alias port if then else let in case of); names that merely start with or contain a reserved word are accepted. An upper-case name is an ASCII upper-case letter followed by the longest such run; type variables are formed like lower-case names that start with a letter (reserved words are not refused there). A dotted name is split at its dots into its parts, in order, with the text of each part unchanged.",
"all texts at every position where a variable, argument, field, type, type variable, constructor or module name may stand",
"tests try a dozen names; the rule quantifies over all names, including digits, underscores, capitals inside names and every extension of a reserved word",
[he,ex+"variable.rs",ty+"mod.rs"],[("regular expressions of the name parsers",he),("reserved word table",he),("dotted names are separated lists",ex+"variable.rs")],observe=["names in the tree; error for reserved words"],hook=HOOK)
p("C04","Operators: longest symbol run, reserved ones refused",
"An operator is the longest run of the characters + - \\ / * = . $ < > : & | ^ ? % # @ ~ ! and is accepted, with exactly that text, unless the whole run is one of = . .. -> -- | : (longer runs that contain these are accepted). An operator or a run of commas in parentheses, without inner blanks, is a variable whose name is exactly that text.",
"all texts at every position where an operator may stand",
"tests try a handful of operators; the rule quantifies over every combination of operator characters",
[he,ex+"variable.rs"],[("operator character class and reserved operator table",he),("parenthesised operator alternative",ex+"variable.rs")],observe=["operator names in the tree"],hook=HOOK)
p("C05","Layout: line breaks obey the enclosing indentation",
"Where the grammar allows layout, it accepts the longest run of spaces, line comments (-- to end of line) and newlines; tabs, carriage returns and block comments are not layout. If the run contains a newline, it is accepted only when the number of spaces after its last newline stands in the required relation (equal, greater, or greater-or-equal) to the enclosing block's indentation, and that number becomes the indentation of the block it opens; without a newline it is always accepted and the indentation stays unchanged. In particular function bodies, application arguments and type parameters continued on a new line must be indented further than the enclosing block, and otherwise are not part of it.",
"all texts and all enclosing indentations",
"tests use a few fixed indentations (0, 1, 2, 4); the rule quantifies over all combinations of widths, nesting, blank lines and comments",
[he,ex+"mod.rs",ex+"function.rs",ty+"mod.rs"],[("spaces_or_new_lines_and_indent with its three relations",he),("each construct passes the new or old indentation to its parts",ex+"mod.rs")],observe=["accept/reject and remaining text; returned indentation"],hook=HOOK)
p("C06","let bindings and case branches align in one column",
"In a let expression all bindings start at the column of the first binding, and in a case expression all branches start at the column of the first branch; each binding or branch appears in the tree exactly once, in source order, with its own target or pattern and its own body. A line at another column does not start a further binding or branch. A let binding's body or a branch's body that starts on a new line may not be indented less than the block's column.",
"all texts containing let or case expressions, at any nesting and indentation",
"tests have a few let and case expressions with two or three entries at fixed columns",
[ex+"mod.rs",he],[("let_bindings / cases separate entries with an EQ layout relation at the column of the first",ex+"mod.rs")],observe=["Let and Case nodes of the tree"],hook=HOOK)
p("C07","Function application is curried to the left",
"A term followed by n >= 1 further terms separated by layout is the left-nested application of the first term to the others in source order: f a b c is ((f a) b) c, for every n. A single term stands for itself, with no application node, and no argument is lost, duplicated or reordered.",
"all expressions with any number and kind of arguments",
"tests have at most a few arguments; the claim is an induction over the argument list",
[ex+"mod.rs"],[("fold over the list of terms in application_or_var",ex+"mod.rs")],observe=["Application nodes of the tree"],hook=HOOK)
p("C08","Function type arrows associate to the right",
"A type annotation t1 -> t2 -> ... -> tn is t1 -> (t2 -> (... -> tn)) for every n >= 2, with every component once and in source order; a single type stands for itself. Parentheses group without leaving a node of their own, in argument position as well: (a -> b) -> c has the function type a -> b as its first component.",
"all type annotations of any length and nesting",
"tests have annotations with up to three arrows; the claim is an induction over the list of components",
[ty+"mod.rs"],[("pop/fold over the reversed list of components in type_annotation",ty+"mod.rs"),("parenthesised alternative of type_ and type_parameter",ty+"mod.rs")],observe=["TypeApplication nodes of the tree"],hook=HOOK)
p("C09","Type expressions keep every part, in order",
"A type is a possibly dotted upper-case constructor with its parameters, a type variable, a record, an extensible record { v | ... }, or a tuple; each appears in the tree as exactly the node of its kind with all its parameters, fields (name and type) or elements, once and in source order. A parameter of a constructor is a single variable, constructor name, record, tuple or parenthesised type, so List Int a has two parameters and List (Maybe a) one. A parenthesised single type is that type itself, never a one-element tuple, and () is the empty tuple.",
"all types of any nesting, and all layouts of them",
"tests cover some twenty types; the claim quantifies over every nesting of the alternatives, whose order decides ambiguous cases",
[ty+"mod.rs"],[("alternatives of type_ and type_parameter",ty+"mod.rs"),("separated lists of fields and elements",ty+"mod.rs")],observe=["Type nodes of the tree"],hook=HOOK)
p("C10","Literals keep exactly their source text",
"Integer and float literals (optional sign, ASCII digits, for floats a dot with digits on both sides) have as value exactly their source text, and the longest digit runs are taken. A string in single double-quotes contains no newline and no quote except in the escape \\\" , with \\\\ taken as one unit, and its value is exactly the text between the quotes, escapes included; a text without quotes in triple quotes may span lines and is likewise kept exactly. A character literal is one character between single quotes, or \\x with exactly two hexadecimal digits denoting the character with that code.",
"all texts at literal positions",
"tests try a dozen literals; the claim quantifies over all digit strings, all string contents with escapes, all Unicode characters and all 256 hex codes",
[ex+"integer.rs",ex+"float.rs",ex+"string.rs",ex+"character.rs"],[("literal parsers and their regular expressions",ex)],observe=["Integer, Float, String and Character nodes"],hook=HOOK)
p("C11","Comments: content and extent are exact",
"At the top level a line comment runs from -- to the end of its line, exclusive, and a block comment from {- to the first following -}, inclusive; the tree keeps exactly the text in between. An unterminated block comment is a parse error. Between two parts of a declaration a line comment is only layout: removing the text of a comment, leaving its --, does not change the resulting tree.",
"all texts containing comments",
"tests have six comments; the claim quantifies over all comment contents, including dashes, braces, quotes and non-ASCII text",
[st+"comment.rs",he],[("comment parsers",st+"comment.rs"),("single_line_comment as layout",he)],observe=["Comment statements; equality of trees"],hook=HOOK)
p("C12","Module headers record kind, name and exports",
"A plain, port or effect module header yields the declaration of that kind with the dotted module name split into its parts in order, and its exposing list; an effect module also keeps each pair of its where block, once, in order, as field name and type name. The three kinds are never confused, and the keywords must be separated by layout that is indented when it contains line breaks.",
"all module headers in all permitted layouts",
"tests cover eight headers",
[st+"module.rs",st+"export.rs"],[("module header parsers",st+"module.rs"),("order of alternatives in statement",st+"mod.rs")],observe=["ModuleDeclaration, PortModuleDeclaration, EffectModuleDeclaration"],hook=HOOK)
p("C13","Imports and exposing lists are recorded exactly",
"An import records the dotted module name, the alias exactly when there is an as clause, and the exposing list exactly when there is one. An exposing list (..) is distinguished from an explicit one; an explicit one keeps every item once, in order: values and parenthesised operators as functions, type names as types with no constructors, all constructors (..), or exactly the listed constructors. Items may be separated by spaces and newlines around the commas.",
"all imports and exposing lists",
"tests cover ten imports and ten export lists; the claim quantifies over all lists and item kinds",
[st+"import.rs",st+"export.rs"],[("import_statement",st+"import.rs"),("exports and its alternatives",st+"export.rs")],observe=["ImportStatement and export sets in the tree"],hook=HOOK)
p("C14","Infix declarations record associativity and precedence",
"infixl, infixr and infix declarations record left, right and no associativity respectively, the decimal value of the precedence digits, and the operator or function name, unchanged. A precedence that does not fit a signed 64-bit integer is a parse error, not a panic or a wrapped value.",
"all digit strings, names and operators",
"tests use precedences 9 and 1; the claim quantifies over all digit strings including leading zeros and overflowing ones",
[st+"infix.rs"],[("infix_declaration",st+"infix.rs")],observe=["InfixDeclaration"],hook=HOOK)
p("C15","Lists, tuples and records keep all elements in order",
"A list, tuple or record expression has one entry per comma-separated element, in source order, for any number of elements including none; record entries and record updates pair each field name with its own value, and an update also keeps the name of the updated record. A parenthesised single expression, with or without blanks inside the parentheses, is that expression itself and never a one-element tuple. A missing element, a trailing comma or a missing closing bracket is not accepted.",
"all collections of any size, nesting and layout",
"tests have collections of up to three or four elements; the claim quantifies over all sizes, nestings and layouts",
[ex+"mod.rs"],[("tuple, list, record, simplified_record, record_update, parens",ex+"mod.rs")],observe=["List, Tuple, Record, RecordUpdate nodes"],hook=HOOK)
p("C16","if, case, let and lambda keep their own parts",
"if c then a else b has exactly the parts c, a, b in that order, and an else branch may itself be any expression; case and let keep their subject or final expression apart from their branches or bindings; a lambda keeps all its argument patterns in order and its body, which extends as far as an expression can. A let entry is a function, with its signature if one is given, or a binding of a pattern.",
"all such expressions, at any nesting",
"tests cover each form two or three times without deep nesting",
[ex+"mod.rs"],[("if_expression, let_expression, case_expression, lambda",ex+"mod.rs")],observe=["If, Case, Let, Lambda nodes"],hook=HOOK)
p("C17","Operator chains nest to the right, in order",
"An expression e1 op1 e2 op2 ... en, where operators are separated from operands by blanks, is op1 applied to e1 and to the whole rest, and so on: every operand and every operator occurs exactly once, in source order. Function application binds tighter than any operator, and the last operand may be a let, case, if or lambda expression. The word as is treated as an operator between a pattern and its name.",
"all operator chains of any length",
"tests have chains of two or three operators",
[ex+"mod.rs"],[("binary and operator_or_as",ex+"mod.rs")],observe=["BinOp nodes"],hook=HOOK)
p("C18","Function definitions keep name, arguments, type and body",
"A function definition records its name (a lower-case name, or an operator defined in parentheses), all its argument patterns in order, for any number of them, and its body. A preceding type signature, when its line is followed by the definition at the same indentation, is recorded with the function together with its own name and type; without a signature none is recorded.",
"all function definitions with any number of arguments",
"tests have a dozen functions; the claim quantifies over arguments, names, signatures and layouts",
[ex+"function.rs"],[("function, function_signature, function_definition",ex+"function.rs")],observe=["Function nodes, Function statements"],hook=HOOK)
p("C19","Type and alias declarations keep head and constructors",
"A type declaration records the declared type with its parameters and every |-separated constructor with its argument types, once, in order, for any number of constructors. A type alias records the declared type and the aliased type, and the two kinds are never confused.",
"all type and alias declarations, in all permitted layouts",
"tests cover a dozen declarations",
[st+"type_declaration.rs",ty+"mod.rs"],[("type_declaration, type_alias_declaration",st+"type_declaration.rs"),("type_constructor",ty+"mod.rs")],observe=["TypeDeclaration, TypeAliasDeclaration"],hook=HOOK)
p("C20","Ports: types and definitions are told apart",
"port name : type records a port type with that name and type; port name args = expression records a port definition with its name, all its argument names in order, and its expression. Neither is ever recorded as a function or a module header, and a declaration whose name merely starts with the letters port is an ordinary function.",
"all port statements",
"tests cover four ports",
[st+"port.rs",st+"mod.rs"],[("port_type_declaration, port_declaration",st+"port.rs"),("order of alternatives in statement",st+"mod.rs")],observe=["PortTypeDeclaration, PortDeclaration"],hook=HOOK)
p("C21","Field access and qualified names are told apart",
"A variable followed, without blanks, by one or more .field parts is an access to exactly those fields, in order, on that variable; .field alone is the accessor function of that field. A dotted chain of upper-case names is one qualified name, and a lower-case field after it is an access; a variable without a following field is just that variable.",
"all chains of names and fields",
"tests cover five accesses",
[ex+"access.rs",ex+"access_function.rs",ex+"variable.rs",ex+"mod.rs"],[("access, access_function, variable and their order in term",ex)],observe=["Access, AccessFunction, Variable nodes"],hook=HOOK)
p("C22","The check tool reports exactly the imported functions",
"For a file that parses, elm-parser-check reports exactly the function and operator names in the explicit exposing lists of its import statements, each occurrence once, in source order. Types, their constructors, (..) imports, module headers and all other statements contribute nothing.",
"all syntax trees / all parsable files",
"the tool has no tests of its own at all",
["src/check.rs"],[("get_imported_names, get_export_set_imports","src/check.rs")],over=("inputs","programs"),observe=["standard output of elm-parser-check"])
p("C23","The dump tool reports each Elm file exactly once, correctly",
"In quiet mode elm-parser-dump prints, for a readable UTF-8 file, exactly one line: the quoted path with parsed successfully if the whole text parses and with failed to parse otherwise; without quiet mode it prints the syntax tree or the error. For a directory it does so for exactly the regular files below it, at any depth, whose extension is elm, each once, and carries on after a file that fails to parse.",
"all directory trees and file contents",
"the tool has no tests of its own at all",
["src/dump.rs"],[("dump_file, dump_directory, main","src/dump.rs")],over=("inputs","configurations"),observe=["standard output of elm-parser-dump"])
p("C24","Parsing has no side effects",
"Parsing is a pure function of the text and the indentation: it writes nothing to standard output or standard error, keeps no state between calls, and parsing the same text twice gives equal results.",
"all texts and all histories of earlier parses",
"the tests compare returned values only; output written during a test is captured and ignored",
["src/ast/"],[("parsers are generated functions without statics or output calls",T)],over=("inputs","histories"),observe=["standard output/error while parsing; repeated results"],hook=HOOK)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,x["id"]
print(len(P))
