// Generated by lib/emit_oracle.py.
#![allow(unused_variables)]
use crate::prim::*;
use crate::{conv, typed, Res};
use nom::types::CompleteStr as C;
use elm_parser::ast;
fn ir_(ir: IR) -> ast::helpers::IR { match ir { IR::EQ => ast::helpers::IR::EQ, IR::GT => ast::helpers::IR::GT, IR::GTE => ast::helpers::IR::GTE } }
pub fn t_file<'a>(i: &'a str) -> Option<(&'a str, Vec<Statement>)> { typed(ast::file(C(i))) } // ENTRY ast::file
pub fn t_statement_statements<'a>(i: &'a str) -> Option<(&'a str, Vec<Statement>)> { typed(ast::statement::statements(C(i))) } // ENTRY ast::statement::statements
pub fn t_statement_statement<'a>(i: &'a str) -> Option<(&'a str, Statement)> { typed(ast::statement::statement(C(i))) } // ENTRY ast::statement::statement
pub fn t_expression_expression<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { typed(ast::expression::expression(C(i), ind)) } // ENTRY ast::expression::expression
pub fn t_expression_term<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { typed(ast::expression::term(C(i), ind)) } // ENTRY ast::expression::term
pub fn t_expression_function_function<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Function)> { typed(ast::expression::function::function(C(i), ind)) } // ENTRY ast::expression::function::function
pub fn t_type__type_annotation<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Type)> { typed(ast::type_::type_annotation(C(i), ind)) } // ENTRY ast::type_::type_annotation
pub fn t_type__type_<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Type)> { typed(ast::type_::type_(C(i), ind)) } // ENTRY ast::type_::type_
pub fn t_type__type_constructor<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Type)> { typed(ast::type_::type_constructor(C(i), ind)) } // ENTRY ast::type_::type_constructor
pub fn t_helpers_lo_name<'a>(i: &'a str) -> Option<(&'a str, String)> { typed(ast::helpers::lo_name(C(i))) } // ENTRY ast::helpers::lo_name
pub fn t_helpers_function_name<'a>(i: &'a str) -> Option<(&'a str, String)> { typed(ast::helpers::function_name(C(i))) } // ENTRY ast::helpers::function_name
pub fn t_helpers_up_name<'a>(i: &'a str) -> Option<(&'a str, String)> { typed(ast::helpers::up_name(C(i))) } // ENTRY ast::helpers::up_name
pub fn t_helpers_module_name<'a>(i: &'a str) -> Option<(&'a str, Vec<String>)> { typed(ast::helpers::module_name(C(i))) } // ENTRY ast::helpers::module_name
pub fn t_helpers_operator<'a>(i: &'a str) -> Option<(&'a str, String)> { typed(ast::helpers::operator(C(i))) } // ENTRY ast::helpers::operator
pub fn t_helpers_spaces<'a>(i: &'a str) -> Option<(&'a str, String)> { typed(ast::helpers::spaces(C(i))) } // ENTRY ast::helpers::spaces
pub fn t_helpers_spaces0<'a>(i: &'a str) -> Option<(&'a str, String)> { typed(ast::helpers::spaces0(C(i))) } // ENTRY ast::helpers::spaces0
pub fn t_helpers_spaces_and_newlines<'a>(i: &'a str) -> Option<(&'a str, String)> { typed(ast::helpers::spaces_and_newlines(C(i))) } // ENTRY ast::helpers::spaces_and_newlines
pub fn t_helpers_spaces_or_new_lines_and_indent<'a>(i: &'a str, ind: u32, ir: IR) -> Option<(&'a str, u32)> { typed(ast::helpers::spaces_or_new_lines_and_indent(C(i), ind, ir_(ir))) } // ENTRY ast::helpers::spaces_or_new_lines_and_indent
pub fn t_helpers_opt_spaces_or_new_lines_and_indent<'a>(i: &'a str, ind: u32, ir: IR) -> Option<(&'a str, u32)> { typed(ast::helpers::opt_spaces_or_new_lines_and_indent(C(i), ind, ir_(ir))) } // ENTRY ast::helpers::opt_spaces_or_new_lines_and_indent
pub fn t_helpers_new_line_and_same_indent<'a>(i: &'a str, ind: u32) -> Option<(&'a str, u32)> { typed(ast::helpers::new_line_and_same_indent(C(i), ind)) } // ENTRY ast::helpers::new_line_and_same_indent
pub fn real(f: &str, i: &str, ind: u32, ir: IR) -> Res { match f {
"ast::file" => conv(i, ast::file(C(i))), // ENTRY ast::file
"ast::statement::statements" => conv(i, ast::statement::statements(C(i))), // ENTRY ast::statement::statements
"ast::statement::statement" => conv(i, ast::statement::statement(C(i))), // ENTRY ast::statement::statement
"ast::expression::expression" => conv(i, ast::expression::expression(C(i), ind)), // ENTRY ast::expression::expression
"ast::expression::term" => conv(i, ast::expression::term(C(i), ind)), // ENTRY ast::expression::term
"ast::expression::function::function" => conv(i, ast::expression::function::function(C(i), ind)), // ENTRY ast::expression::function::function
"ast::type_::type_annotation" => conv(i, ast::type_::type_annotation(C(i), ind)), // ENTRY ast::type_::type_annotation
"ast::type_::type_" => conv(i, ast::type_::type_(C(i), ind)), // ENTRY ast::type_::type_
"ast::type_::type_constructor" => conv(i, ast::type_::type_constructor(C(i), ind)), // ENTRY ast::type_::type_constructor
"ast::helpers::lo_name" => conv(i, ast::helpers::lo_name(C(i))), // ENTRY ast::helpers::lo_name
"ast::helpers::function_name" => conv(i, ast::helpers::function_name(C(i))), // ENTRY ast::helpers::function_name
"ast::helpers::up_name" => conv(i, ast::helpers::up_name(C(i))), // ENTRY ast::helpers::up_name
"ast::helpers::module_name" => conv(i, ast::helpers::module_name(C(i))), // ENTRY ast::helpers::module_name
"ast::helpers::operator" => conv(i, ast::helpers::operator(C(i))), // ENTRY ast::helpers::operator
"ast::helpers::spaces" => conv(i, ast::helpers::spaces(C(i))), // ENTRY ast::helpers::spaces
"ast::helpers::spaces0" => conv(i, ast::helpers::spaces0(C(i))), // ENTRY ast::helpers::spaces0
"ast::helpers::spaces_and_newlines" => conv(i, ast::helpers::spaces_and_newlines(C(i))), // ENTRY ast::helpers::spaces_and_newlines
"ast::helpers::spaces_or_new_lines_and_indent" => conv(i, ast::helpers::spaces_or_new_lines_and_indent(C(i), ind, ir_(ir))), // ENTRY ast::helpers::spaces_or_new_lines_and_indent
"ast::helpers::opt_spaces_or_new_lines_and_indent" => conv(i, ast::helpers::opt_spaces_or_new_lines_and_indent(C(i), ind, ir_(ir))), // ENTRY ast::helpers::opt_spaces_or_new_lines_and_indent
"ast::helpers::new_line_and_same_indent" => conv(i, ast::helpers::new_line_and_same_indent(C(i), ind)), // ENTRY ast::helpers::new_line_and_same_indent
_ => panic!("no such entry") } }
