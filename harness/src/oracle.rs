// Generated from lib/grammar.py by lib/emit_oracle.py.
#![allow(unused_variables, unused_mut, unused_parens, clippy::all)]
use crate::prim::*;
use crate::gen::G;
pub fn o_helpers_lo_name<'a>(i: &'a str) -> Option<(&'a str, String)> { tick(); if given(0) { return crate::entries::t_helpers_lo_name(i); } (|| { let r = p_tag(i, "_").map(|(x1, v)| (x1, st(v.clone()))); if r.is_some() { return r; } let r = p_re(i, "^([a-z][a-zA-Z0-9_]*)").and_then(|(x2, v)| { let o = if is_reserved_word(st(v.clone())) { None } else { Some(st(v.clone())) }; o.map(|t| (x2, t)) }); if r.is_some() { return r; } None })() }
pub fn o_helpers_function_name<'a>(i: &'a str) -> Option<(&'a str, String)> { tick(); if given(1) { return crate::entries::t_helpers_function_name(i); } o_helpers_lo_name(i) }
pub fn o_helpers_up_name<'a>(i: &'a str) -> Option<(&'a str, String)> { tick(); if given(2) { return crate::entries::t_helpers_up_name(i); } p_re(i, "^([A-Z][a-zA-Z0-9_]*)").map(|(x3, v)| (x3, st(v.clone()))) }
pub fn o_helpers_module_name<'a>(i: &'a str) -> Option<(&'a str, Vec<String>)> { tick(); if given(3) { return crate::entries::t_helpers_module_name(i); } p_seplist1(i, &mut |x4: &'a str| p_char(x4, '.'), &mut |x4: &'a str| o_helpers_up_name(x4)) }
pub fn o_helpers_operator<'a>(i: &'a str) -> Option<(&'a str, String)> { tick(); if given(4) { return crate::entries::t_helpers_operator(i); } p_re(i, "^([-+\\\\-\\\\/*=.$<>:&|^?%#@~!]+)").and_then(|(x5, v)| { let o = if is_reserved_operator(st(v.clone())) { None } else { Some(st(v.clone())) }; o.map(|t| (x5, t)) }) }
pub fn o_helpers_spaces<'a>(i: &'a str) -> Option<(&'a str, String)> { tick(); if given(5) { return crate::entries::t_helpers_spaces(i); } p_isa(i, " ").map(|(x6, v)| (x6, st(v.clone()))) }
pub fn o_helpers_spaces0<'a>(i: &'a str) -> Option<(&'a str, String)> { tick(); if given(6) { return crate::entries::t_helpers_spaces0(i); } (match p_isa(i, " ") { Some((y, t)) => Some((y, Some(t))), None => Some((i, None)) }).map(|(x7, o)| (x7, match o { Some(v) => st(v.clone()), None => snil() })) }
pub fn o_helpers_spaces_and_newlines<'a>(i: &'a str) -> Option<(&'a str, String)> { tick(); if given(7) { return crate::entries::t_helpers_spaces_and_newlines(i); } p_isa(i, " \n").map(|(x8, v)| (x8, st(v.clone()))) }
pub fn o_helpers_single_line_comment<'a>(i: &'a str) -> Option<(&'a str, String)> { tick(); given(127); (|| { let (x9, _) = p_tag(i, "--")?; let (x10, v) = p_re(x9, "^(.*)")?; Some((x10, st(v.clone()))) })() }
pub fn o_helpers_spaces_or_new_lines_and_indent<'a>(i: &'a str, ind: u32, ir: IR) -> Option<(&'a str, u32)> { tick(); if given(9) { return crate::entries::t_helpers_spaces_or_new_lines_and_indent(i, ind, ir); } p_many1(i, &mut |x12: &'a str| (|| { let r = o_helpers_spaces(x12).map(|(x13, v)| (x13, v1((SpacesContent::Spaces, ind)))); if r.is_some() { return r; } let r = o_helpers_single_line_comment(x12).map(|(x14, v)| (x14, v1((SpacesContent::Comment, 0u32)))); if r.is_some() { return r; } let r = p_many1(x12, &mut |x15: &'a str| (|| { let (x16, _) = p_char(x15, '\n')?; let (x17, o) = (|| { let r = o_helpers_spaces0(x16).map(|(x18, s)| (x18, (SpacesContent::NewLineAndSpaces, len32(s)))); if r.is_some() { return r; } let r = o_helpers_single_line_comment(x16).map(|(x19, s)| (x19, (SpacesContent::Comment, 0u32))); if r.is_some() { return r; } None })()?; Some((x17, o)) })()); if r.is_some() { return r; } None })()).and_then(|(x11, v)| { let o = layout_result(v, ind, ir); o.map(|t| (x11, t)) }) }
pub fn o_helpers_opt_spaces_or_new_lines_and_indent<'a>(i: &'a str, ind: u32, ir: IR) -> Option<(&'a str, u32)> { tick(); if given(10) { return crate::entries::t_helpers_opt_spaces_or_new_lines_and_indent(i, ind, ir); } (match o_helpers_spaces_or_new_lines_and_indent(i, ind, ir) { Some((y, t)) => Some((y, Some(t))), None => Some((i, None)) }).map(|(x20, o)| (x20, match o { Some(v) => v, None => ind })) }
pub fn o_helpers_new_line_and_same_indent<'a>(i: &'a str, ind: u32) -> Option<(&'a str, u32)> { tick(); if given(11) { return crate::entries::t_helpers_new_line_and_same_indent(i, ind); } (|| { let (x22, _) = p_char(i, '\n')?; let (x23, s) = o_helpers_spaces0(x22)?; Some((x23, len32(s))) })().and_then(|(x21, v)| { let o = if v == ind { Some(v) } else { None }; o.map(|t| (x21, t)) }) }
pub fn o_type__type_variable<'a>(i: &'a str) -> Option<(&'a str, Type)> { tick(); given(127); p_re(i, "^([a-z][a-zA-Z0-9_]*)").map(|(x24, v)| (x24, Type::TypeVariable(st(v.clone())))) }
pub fn o_type__type_constant<'a>(i: &'a str) -> Option<(&'a str, Type)> { tick(); given(127); p_seplist1(i, &mut |x26: &'a str| p_char(x26, '.'), &mut |x26: &'a str| o_helpers_up_name(x26)).map(|(x25, v)| (x25, Type::TypeConstructor(v, vnil()))) }
pub fn o_type__type_tuple<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Type)> { tick(); given(127); (|| { let (x27, _) = p_char(i, '(')?; let (x28, _) = (match o_helpers_spaces_or_new_lines_and_indent(x27, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x27, None)) })?; let (x29, v) = p_seplist(x28, &mut |x30: &'a str| (|| { let (x31, _) = (match o_helpers_spaces_or_new_lines_and_indent(x30, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x30, None)) })?; let (x32, c) = p_char(x31, ',')?; let (x33, _) = (match o_helpers_spaces_or_new_lines_and_indent(x32, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x32, None)) })?; Some((x33, c)) })(), &mut |x30: &'a str| o_type__type_(x30, ind))?; let (x34, _) = (match o_helpers_spaces_or_new_lines_and_indent(x29, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x29, None)) })?; let (x35, _) = p_char(x34, ')')?; Some((x35, Type::TypeTuple(v))) })() }
pub fn o_type__type_record_pair<'a>(i: &'a str, ind: u32) -> Option<(&'a str, (String, Type))> { tick(); given(127); (|| { let (x36, name) = o_helpers_lo_name(i)?; let (x37, _) = (match o_helpers_spaces_or_new_lines_and_indent(x36, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x36, None)) })?; let (x38, _) = p_char(x37, ':')?; let (x39, _) = (match o_helpers_spaces_or_new_lines_and_indent(x38, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x38, None)) })?; let (x40, t) = o_type__type_annotation(x39, ind)?; Some((x40, (name, t))) })() }
pub fn o_type__type_record_pairs<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Vec<(String, Type)>)> { tick(); given(127); p_seplist(i, &mut |x41: &'a str| (|| { let (x42, _) = (match o_helpers_spaces_or_new_lines_and_indent(x41, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x41, None)) })?; let (x43, c) = p_char(x42, ',')?; let (x44, _) = (match o_helpers_spaces_or_new_lines_and_indent(x43, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x43, None)) })?; Some((x44, c)) })(), &mut |x41: &'a str| o_type__type_record_pair(x41, ind)) }
pub fn o_type__type_record_constructor<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Type)> { tick(); given(127); (|| { let (x45, _) = p_char(i, '{')?; let (x46, _) = o_helpers_spaces_or_new_lines_and_indent(x45, ind, IR::GTE)?; let (x47, var) = o_type__type_variable(x46)?; let (x48, _) = o_helpers_spaces_or_new_lines_and_indent(x47, ind, IR::GTE)?; let (x49, _) = p_char(x48, '|')?; let (x50, _) = o_helpers_spaces_or_new_lines_and_indent(x49, ind, IR::GTE)?; let (x51, ps) = o_type__type_record_pairs(x50, ind)?; let (x52, _) = o_helpers_spaces_or_new_lines_and_indent(x51, ind, IR::GTE)?; let (x53, _) = p_char(x52, '}')?; Some((x53, Type::TypeRecordConstructor(bx(var), ps))) })() }
pub fn o_type__type_record<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Type)> { tick(); given(127); (|| { let (x54, _) = p_char(i, '{')?; let (x55, _) = (match o_helpers_spaces_or_new_lines_and_indent(x54, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x54, None)) })?; let (x56, ps) = o_type__type_record_pairs(x55, ind)?; let (x57, _) = (match o_helpers_spaces_or_new_lines_and_indent(x56, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x56, None)) })?; let (x58, _) = p_char(x57, '}')?; Some((x58, Type::TypeRecord(ps))) })() }
pub fn o_type__type_parameter<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Type)> { tick(); given(127); (|| { let r = o_type__type_variable(i); if r.is_some() { return r; } let r = o_type__type_constant(i); if r.is_some() { return r; } let r = o_type__type_record_constructor(i, ind); if r.is_some() { return r; } let r = o_type__type_record(i, ind); if r.is_some() { return r; } let r = (|| { let (x59, _) = p_char(i, '(')?; let (x60, _) = (match o_helpers_spaces_or_new_lines_and_indent(x59, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x59, None)) })?; let (x61, t) = o_type__type_annotation(x60, ind)?; let (x62, _) = (match o_helpers_spaces_or_new_lines_and_indent(x61, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x61, None)) })?; let (x63, _) = p_char(x62, ')')?; Some((x63, t)) })(); if r.is_some() { return r; } let r = o_type__type_tuple(i, ind); if r.is_some() { return r; } None })() }
pub fn o_type__type_constructor<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Type)> { tick(); if given(20) { return crate::entries::t_type__type_constructor(i, ind); } (|| { let (x64, a) = p_seplist1(i, &mut |x65: &'a str| p_char(x65, '.'), &mut |x65: &'a str| o_helpers_up_name(x65))?; let (x66, b) = p_many0(x64, &mut |x67: &'a str| (|| { let (x68, n) = o_helpers_spaces_or_new_lines_and_indent(x67, ind, IR::GT)?; let (x69, t) = o_type__type_parameter(x68, n)?; Some((x69, t)) })())?; Some((x66, Type::TypeConstructor(a, b))) })() }
pub fn o_type__type_<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Type)> { tick(); if given(21) { return crate::entries::t_type__type_(i, ind); } (|| { let r = o_type__type_constructor(i, ind); if r.is_some() { return r; } let r = o_type__type_variable(i); if r.is_some() { return r; } let r = o_type__type_record_constructor(i, ind); if r.is_some() { return r; } let r = o_type__type_record(i, ind); if r.is_some() { return r; } let r = (|| { let (x70, _) = p_char(i, '(')?; let (x71, _) = (match o_helpers_spaces_or_new_lines_and_indent(x70, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x70, None)) })?; let (x72, t) = o_type__type_annotation(x71, ind)?; let (x73, _) = (match o_helpers_spaces_or_new_lines_and_indent(x72, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x72, None)) })?; let (x74, _) = p_char(x73, ')')?; Some((x74, t)) })(); if r.is_some() { return r; } let r = o_type__type_tuple(i, ind); if r.is_some() { return r; } None })() }
pub fn o_type__type_annotation<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Type)> { tick(); if given(22) { return crate::entries::t_type__type_annotation(i, ind); } p_seplist1(i, &mut |x76: &'a str| (|| { let (x77, _) = o_helpers_spaces_and_newlines(x76)?; let (x78, t) = p_tag(x77, "->")?; let (x79, _) = o_helpers_spaces_and_newlines(x78)?; Some((x79, t)) })(), &mut |x76: &'a str| o_type__type_(x76, ind)).and_then(|(x75, v)| { let o = arrow_right(v); o.map(|t| (x75, t)) }) }
pub fn o_expression_variable_lower_case<'a>(i: &'a str) -> Option<(&'a str, Expression)> { tick(); given(127); o_helpers_lo_name(i).map(|(x80, v)| (x80, Expression::Variable(v1(v)))) }
pub fn o_expression_variable_upper_with_dots<'a>(i: &'a str) -> Option<(&'a str, Expression)> { tick(); given(127); p_seplist1(i, &mut |x82: &'a str| p_char(x82, '.'), &mut |x82: &'a str| o_helpers_up_name(x82)).map(|(x81, v)| (x81, Expression::Variable(v))) }
pub fn o_expression_variable_op<'a>(i: &'a str) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x84, _) = p_char(i, '(')?; let (x85, s) = (|| { let r = o_helpers_operator(x84); if r.is_some() { return r; } let r = p_isa(x84, ",").map(|(x86, c)| (x86, st(c.clone()))); if r.is_some() { return r; } None })()?; let (x87, _) = p_char(x85, ')')?; Some((x87, s)) })().map(|(x83, s)| (x83, Expression::Variable(v1(s)))) }
pub fn o_expression_variable_variable<'a>(i: &'a str) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let r = o_expression_variable_lower_case(i); if r.is_some() { return r; } let r = o_expression_variable_upper_with_dots(i); if r.is_some() { return r; } let r = o_expression_variable_op(i); if r.is_some() { return r; } None })() }
pub fn o_expression_access_access<'a>(i: &'a str) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x88, v) = o_expression_variable_variable(i)?; let (x89, fs) = p_many1(x88, &mut |x90: &'a str| (|| { let (x91, _) = p_char(x90, '.')?; let (x92, n) = o_helpers_lo_name(x91)?; Some((x92, n)) })())?; Some((x89, Expression::Access(bx(v), fs))) })() }
pub fn o_expression_access_function_access_function<'a>(i: &'a str) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x93, _) = p_char(i, '.')?; let (x94, n) = o_helpers_lo_name(x93)?; Some((x94, Expression::AccessFunction(n))) })() }
pub fn o_expression_character_character_content<'a>(i: &'a str) -> Option<(&'a str, char)> { tick(); given(127); (|| { let r = (|| { let (x96, _) = p_tag(i, "\\x")?; let (x97, c) = p_re(x96, "^[0-9a-fA-F]{2}")?; Some((x97, c)) })().and_then(|(x95, c)| { let o = hex_char(c); o.map(|t| (x95, t)) }); if r.is_some() { return r; } let r = p_any(i); if r.is_some() { return r; } None })() }
pub fn o_expression_character_character<'a>(i: &'a str) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x99, _) = p_char(i, '\'')?; let (x100, c) = o_expression_character_character_content(x99)?; let (x101, _) = p_char(x100, '\'')?; Some((x101, c)) })().map(|(x98, c)| (x98, Expression::Character(c))) }
pub fn o_expression_float_float<'a>(i: &'a str) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x102, s) = (match (|| { let r = p_char(i, '+'); if r.is_some() { return r; } let r = p_char(i, '-'); if r.is_some() { return r; } None })() { Some((y, t)) => Some((y, Some(t))), None => Some((i, None)) }).map(|(x103, o)| (x103, match o { Some(c) => chs(c), None => snil() }))?; let (x104, a) = p_isa(x102, "0123456789")?; let (x105, _) = p_char(x104, '.')?; let (x106, b) = p_isa(x105, "0123456789")?; Some((x106, Expression::Float(cat(cat(cat(s, st(a.clone())), sl(".")), st(b.clone()))))) })() }
pub fn o_expression_integer_integer<'a>(i: &'a str) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x107, s) = (match (|| { let r = p_char(i, '+'); if r.is_some() { return r; } let r = p_char(i, '-'); if r.is_some() { return r; } None })() { Some((y, t)) => Some((y, Some(t))), None => Some((i, None)) }).map(|(x108, o)| (x108, match o { Some(c) => chs(c), None => snil() }))?; let (x109, a) = p_isa(x107, "0123456789")?; Some((x109, Expression::Integer(cat(s, st(a.clone()))))) })() }
pub fn o_expression_string_single_string<'a>(i: &'a str) -> Option<(&'a str, String)> { tick(); given(127); (|| { let (x111, _) = p_char(i, '"')?; let (x112, v) = p_re(x111, "^(\\\\\\\\|\\\\\"|[^\"\\n])*")?; let (x113, _) = p_char(x112, '"')?; Some((x113, v)) })().map(|(x110, v)| (x110, st(v.clone()))) }
pub fn o_expression_string_multi_string<'a>(i: &'a str) -> Option<(&'a str, String)> { tick(); given(127); (|| { let (x115, _) = p_tag(i, "\"\"\"")?; let (x116, v) = p_re(x115, "^([^\"]*)")?; let (x117, _) = p_tag(x116, "\"\"\"")?; Some((x117, v)) })().map(|(x114, v)| (x114, st(v.clone()))) }
pub fn o_expression_string_string<'a>(i: &'a str) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let r = o_expression_string_multi_string(i); if r.is_some() { return r; } let r = o_expression_string_single_string(i); if r.is_some() { return r; } None })().map(|(x118, c)| (x118, Expression::String(c))) }
pub fn o_expression_tuple<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x120, _) = p_char(i, '(')?; let (x121, v) = p_seplist(x120, &mut |x122: &'a str| p_char(x122, ','), &mut |x122: &'a str| (|| { let (x123, _) = p_isa0(x122, " \t\r\n")?; let (x124, e) = o_expression_expression(x123, ind)?; let (x125, _) = p_isa0(x124, " \t\r\n")?; Some((x125, e)) })())?; let (x126, _) = p_char(x121, ')')?; Some((x126, v)) })().map(|(x119, v)| (x119, Expression::Tuple(v))) }
pub fn o_expression_list<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x128, _) = p_char(i, '[')?; let (x129, _) = (match o_helpers_spaces_or_new_lines_and_indent(x128, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x128, None)) })?; let (x130, o) = (match p_seplist(x129, &mut |x131: &'a str| (|| { let (x132, _) = (match o_helpers_spaces_or_new_lines_and_indent(x131, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x131, None)) })?; let (x133, c) = p_char(x132, ',')?; let (x134, _) = (match o_helpers_spaces_or_new_lines_and_indent(x133, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x133, None)) })?; Some((x134, c)) })(), &mut |x131: &'a str| o_expression_expression(x131, ind)) { Some((y, t)) => Some((y, Some(t))), None => Some((x129, None)) })?; let (x135, _) = (match o_helpers_spaces_or_new_lines_and_indent(x130, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x130, None)) })?; let (x136, _) = p_char(x135, ']')?; Some((x136, o)) })().map(|(x127, o)| (x127, match o { Some(v) => Expression::List(v), None => Expression::List(vnil()) })) }
pub fn o_expression_record<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x138, _) = p_char(i, '{')?; let (x139, _) = (match o_helpers_spaces_or_new_lines_and_indent(x138, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x138, None)) })?; let (x140, v) = p_seplist(x139, &mut |x141: &'a str| (|| { let (x142, _) = (match o_helpers_spaces_or_new_lines_and_indent(x141, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x141, None)) })?; let (x143, c) = p_char(x142, ',')?; let (x144, _) = (match o_helpers_spaces_or_new_lines_and_indent(x143, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x143, None)) })?; Some((x144, c)) })(), &mut |x141: &'a str| (|| { let (x145, n) = o_helpers_lo_name(x141)?; let (x146, _) = (match o_helpers_spaces_or_new_lines_and_indent(x145, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x145, None)) })?; let (x147, _) = p_char(x146, '=')?; let (x148, _) = (match o_helpers_spaces_or_new_lines_and_indent(x147, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x147, None)) })?; let (x149, e) = o_expression_expression(x148, ind)?; Some((x149, (n, e))) })())?; let (x150, _) = (match o_helpers_spaces_or_new_lines_and_indent(x140, ind, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x140, None)) })?; let (x151, _) = p_char(x150, '}')?; Some((x151, v)) })().map(|(x137, v)| (x137, Expression::Record(v))) }
pub fn o_expression_simplified_record<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x153, _) = p_char(i, '{')?; let (x154, v) = p_seplist(x153, &mut |x155: &'a str| p_char(x155, ','), &mut |x155: &'a str| (|| { let (x156, _) = p_isa0(x155, " \t\r\n")?; let (x157, n) = o_helpers_lo_name(x156)?; let (x158, _) = p_isa0(x157, " \t\r\n")?; Some((x158, (n.clone(), Expression::Variable(v1(n))))) })())?; let (x159, _) = p_char(x154, '}')?; Some((x159, v)) })().map(|(x152, v)| (x152, Expression::Record(v))) }
pub fn o_expression_record_update<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x160, _) = p_char(i, '{')?; let (x161, _) = o_helpers_opt_spaces_or_new_lines_and_indent(x160, ind, IR::GTE)?; let (x162, n) = o_helpers_lo_name(x161)?; let (x163, _) = o_helpers_opt_spaces_or_new_lines_and_indent(x162, ind, IR::GTE)?; let (x164, _) = p_char(x163, '|')?; let (x165, _) = p_isa0(x164, " \t\r\n")?; let (x166, ps) = p_seplist(x165, &mut |x167: &'a str| (|| { let (x168, _) = o_helpers_opt_spaces_or_new_lines_and_indent(x167, ind, IR::GTE)?; let (x169, c) = p_char(x168, ',')?; let (x170, _) = o_helpers_opt_spaces_or_new_lines_and_indent(x169, ind, IR::GTE)?; Some((x170, c)) })(), &mut |x167: &'a str| (|| { let (x171, f) = o_helpers_lo_name(x167)?; let (x172, _) = p_isa0(x171, " \t\r\n")?; let (x173, _) = p_char(x172, '=')?; let (x174, _) = p_isa0(x173, " \t\r\n")?; let (x175, e) = o_expression_expression(x174, ind)?; Some((x175, (f, e))) })())?; let (x176, _) = o_helpers_opt_spaces_or_new_lines_and_indent(x166, ind, IR::GTE)?; let (x177, _) = p_char(x176, '}')?; Some((x177, Expression::RecordUpdate(n, ps))) })() }
pub fn o_expression_parens<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x178, _) = p_char(i, '(')?; let (x179, _) = p_isa0(x178, " \t\r\n")?; let (x180, e) = o_expression_expression(x179, ind)?; let (x181, _) = p_isa0(x180, " \t\r\n")?; let (x182, _) = p_char(x181, ')')?; Some((x182, e)) })() }
pub fn o_expression_term<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); if given(42) { return crate::entries::t_expression_term(i, ind); } (|| { let r = o_expression_access_access(i); if r.is_some() { return r; } let r = o_expression_variable_variable(i); if r.is_some() { return r; } let r = o_expression_access_function_access_function(i); if r.is_some() { return r; } let r = o_expression_string_string(i); if r.is_some() { return r; } let r = o_expression_float_float(i); if r.is_some() { return r; } let r = o_expression_integer_integer(i); if r.is_some() { return r; } let r = o_expression_character_character(i); if r.is_some() { return r; } let r = o_expression_parens(i, ind); if r.is_some() { return r; } let r = o_expression_list(i, ind); if r.is_some() { return r; } let r = o_expression_tuple(i, ind); if r.is_some() { return r; } let r = o_expression_record_update(i, ind); if r.is_some() { return r; } let r = o_expression_record(i, ind); if r.is_some() { return r; } let r = o_expression_simplified_record(i, ind); if r.is_some() { return r; } None })() }
pub fn o_expression_lambda<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x183, _) = p_char(i, '\\')?; let (x184, args) = p_seplist1(x183, &mut |x185: &'a str| p_isa(x185, " \t"), &mut |x185: &'a str| o_expression_term(x185, ind))?; let (x186, _) = o_helpers_spaces_or_new_lines_and_indent(x184, ind, IR::GTE)?; let (x187, _) = p_tag(x186, "->")?; let (x188, n) = o_helpers_spaces_or_new_lines_and_indent(x187, ind, IR::GTE)?; let (x189, b) = o_expression_expression(x188, n)?; Some((x189, Expression::Lambda(args, bx(b)))) })() }
pub fn o_expression_application_or_var<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); given(127); p_seplist(i, &mut |x191: &'a str| o_helpers_spaces_or_new_lines_and_indent(x191, ind, IR::GT), &mut |x191: &'a str| o_expression_term(x191, ind)).and_then(|(x190, v)| { let o = app_left(v); o.map(|t| (x190, t)) }) }
pub fn o_expression_let_binding_target<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let r = o_expression_variable_variable(i); if r.is_some() { return r; } let r = o_expression_list(i, ind); if r.is_some() { return r; } let r = o_expression_parens(i, ind); if r.is_some() { return r; } let r = o_expression_tuple(i, ind); if r.is_some() { return r; } let r = o_expression_simplified_record(i, ind); if r.is_some() { return r; } None })() }
pub fn o_expression_let_binding<'a>(i: &'a str, ind: u32) -> Option<(&'a str, LetEntry)> { tick(); given(127); (|| { let (x192, t) = o_expression_let_binding_target(i, ind)?; let (x193, _) = o_helpers_spaces_or_new_lines_and_indent(x192, ind, IR::GTE)?; let (x194, _) = p_char(x193, '=')?; let (x195, n) = o_helpers_spaces_or_new_lines_and_indent(x194, ind, IR::GTE)?; let (x196, e) = o_expression_expression(x195, n)?; Some((x196, LetEntry::LetBinding(t, e))) })() }
pub fn o_expression_let_bindings<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Vec<LetEntry>)> { tick(); given(127); p_seplist1(i, &mut |x197: &'a str| o_helpers_spaces_or_new_lines_and_indent(x197, ind, IR::EQ), &mut |x197: &'a str| (|| { let r = o_expression_let_binding(x197, ind); if r.is_some() { return r; } let r = o_expression_function_function(x197, ind).map(|(x198, f)| (x198, LetEntry::LetFunction(f))); if r.is_some() { return r; } None })()) }
pub fn o_expression_let_expression<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x199, _) = p_tag(i, "let")?; let (x200, n) = o_helpers_spaces_or_new_lines_and_indent(x199, ind, IR::GTE)?; let (x201, bs) = o_expression_let_bindings(x200, n)?; let (x202, _) = o_helpers_spaces_or_new_lines_and_indent(x201, ind, IR::GTE)?; let (x203, _) = p_tag(x202, "in")?; let (x204, _) = o_helpers_spaces_or_new_lines_and_indent(x203, ind, IR::GTE)?; let (x205, e) = o_expression_expression(x204, ind)?; Some((x205, Expression::Let(bs, bx(e)))) })() }
pub fn o_expression_case<'a>(i: &'a str, ind: u32) -> Option<(&'a str, (Expression, Expression))> { tick(); given(127); (|| { let (x206, m) = o_expression_expression(i, ind)?; let (x207, _) = o_helpers_spaces_or_new_lines_and_indent(x206, ind, IR::GTE)?; let (x208, _) = p_tag(x207, "->")?; let (x209, n) = o_helpers_spaces_or_new_lines_and_indent(x208, ind, IR::GTE)?; let (x210, e) = o_expression_expression(x209, n)?; Some((x210, (m, e))) })() }
pub fn o_expression_cases<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Vec<(Expression, Expression)>)> { tick(); given(127); p_seplist1(i, &mut |x211: &'a str| o_helpers_spaces_or_new_lines_and_indent(x211, ind, IR::EQ), &mut |x211: &'a str| o_expression_case(x211, ind)) }
pub fn o_expression_case_expression<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x212, _) = p_tag(i, "case")?; let (x213, _) = o_helpers_spaces_or_new_lines_and_indent(x212, ind, IR::GTE)?; let (x214, e) = o_expression_expression(x213, ind)?; let (x215, _) = o_helpers_spaces_or_new_lines_and_indent(x214, ind, IR::GTE)?; let (x216, _) = p_tag(x215, "of")?; let (x217, n) = o_helpers_spaces_or_new_lines_and_indent(x216, ind, IR::GTE)?; let (x218, cs) = o_expression_cases(x217, n)?; Some((x218, Expression::Case(bx(e), cs))) })() }
pub fn o_expression_if_expression<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x219, _) = p_tag(i, "if")?; let (x220, _) = o_helpers_spaces_or_new_lines_and_indent(x219, ind, IR::GTE)?; let (x221, c) = o_expression_expression(x220, ind)?; let (x222, _) = o_helpers_spaces_or_new_lines_and_indent(x221, ind, IR::GTE)?; let (x223, _) = p_tag(x222, "then")?; let (x224, n1) = o_helpers_spaces_or_new_lines_and_indent(x223, ind, IR::GTE)?; let (x225, a) = o_expression_expression(x224, n1)?; let (x226, _) = o_helpers_spaces_or_new_lines_and_indent(x225, ind, IR::GTE)?; let (x227, _) = p_tag(x226, "else")?; let (x228, n2) = o_helpers_spaces_or_new_lines_and_indent(x227, ind, IR::GTE)?; let (x229, b) = o_expression_expression(x228, n2)?; Some((x229, Expression::If(bx(c), bx(a), bx(b)))) })() }
pub fn o_expression_operator_or_as<'a>(i: &'a str) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let r = p_tag(i, "as").map(|(x231, t)| (x231, st(t.clone()))); if r.is_some() { return r; } let r = o_helpers_operator(i); if r.is_some() { return r; } None })().map(|(x230, o)| (x230, Expression::Variable(v1(o)))) }
pub fn o_expression_binary<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); given(127); (|| { let (x232, a) = o_expression_application_or_var(i, ind)?; let (x233, r) = (match (|| { let (x234, _) = o_helpers_spaces_or_new_lines_and_indent(x232, ind, IR::GTE)?; let (x235, op) = o_expression_operator_or_as(x234)?; let (x236, _) = p_isa(x235, " \t\r\n")?; let (x237, e) = o_expression_expression(x236, ind)?; Some((x237, (op, e))) })() { Some((y, t)) => Some((y, Some(t))), None => Some((x232, None)) })?; Some((x233, match r { Some(oe) => Expression::BinOp(bx(oe.0), bx(a), bx(oe.1)), None => a })) })() }
pub fn o_expression_expression<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Expression)> { tick(); if given(55) { return crate::entries::t_expression_expression(i, ind); } (|| { let r = o_expression_binary(i, ind); if r.is_some() { return r; } let r = o_expression_let_expression(i, ind); if r.is_some() { return r; } let r = o_expression_case_expression(i, ind); if r.is_some() { return r; } let r = o_expression_if_expression(i, ind); if r.is_some() { return r; } let r = o_expression_lambda(i, ind); if r.is_some() { return r; } None })() }
pub fn o_expression_function_function_signature<'a>(i: &'a str, ind: u32) -> Option<(&'a str, FunctionSignature)> { tick(); given(127); (|| { let (x238, n) = (|| { let r = o_helpers_lo_name(i); if r.is_some() { return r; } let r = (|| { let (x239, _) = p_char(i, '(')?; let (x240, o) = o_helpers_operator(x239)?; let (x241, _) = p_char(x240, ')')?; Some((x241, o)) })(); if r.is_some() { return r; } None })()?; let (x242, _) = o_helpers_spaces(x238)?; let (x243, _) = p_char(x242, ':')?; let (x244, k) = o_helpers_spaces_or_new_lines_and_indent(x243, ind, IR::GT)?; let (x245, t) = o_type__type_annotation(x244, k)?; Some((x245, FunctionSignature { name: n, type_: t })) })() }
pub fn o_expression_function_function_definition<'a>(i: &'a str, ind: u32) -> Option<(&'a str, FunctionDefinition)> { tick(); given(127); (|| { let (x246, n) = (|| { let r = o_helpers_lo_name(i); if r.is_some() { return r; } let r = (|| { let (x247, _) = p_char(i, '(')?; let (x248, o) = o_helpers_operator(x247)?; let (x249, _) = p_char(x248, ')')?; Some((x249, o)) })(); if r.is_some() { return r; } None })()?; let (x250, args) = p_many0(x246, &mut |x251: &'a str| (|| { let (x252, _) = o_helpers_spaces(x251)?; let (x253, t) = o_expression_term(x252, ind)?; Some((x253, t)) })())?; let (x254, _) = o_helpers_spaces(x250)?; let (x255, _) = p_char(x254, '=')?; let (x256, k) = o_helpers_spaces_or_new_lines_and_indent(x255, ind, IR::GT)?; let (x257, b) = o_expression_expression(x256, k)?; Some((x257, FunctionDefinition { name: n, args: args, body: b })) })() }
pub fn o_expression_function_function<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Function)> { tick(); if given(58) { return crate::entries::t_expression_function_function(i, ind); } (|| { let (x258, s) = (match (|| { let (x259, s) = o_expression_function_function_signature(i, ind)?; let (x260, _) = o_helpers_new_line_and_same_indent(x259, ind)?; Some((x260, s)) })() { Some((y, t)) => Some((y, Some(t))), None => Some((i, None)) })?; let (x261, d) = o_expression_function_function_definition(x258, ind)?; Some((x261, Function { signature: s, definition: d })) })() }
pub fn o_statement_comment_single_line_comment<'a>(i: &'a str) -> Option<(&'a str, Statement)> { tick(); given(127); (|| { let (x263, _) = p_tag(i, "--")?; let (x264, v) = p_re(x263, "^(.*)")?; Some((x264, v)) })().map(|(x262, v)| (x262, Statement::Comment(st(v.clone())))) }
pub fn o_statement_comment_multi_line_comment<'a>(i: &'a str) -> Option<(&'a str, Statement)> { tick(); given(127); (|| { let (x266, _) = p_tag(i, "{-")?; let (x267, v) = p_until(x266, "-}")?; Some((x267, v)) })().map(|(x265, v)| (x265, Statement::Comment(st(v.clone())))) }
pub fn o_statement_comment_comment<'a>(i: &'a str) -> Option<(&'a str, Statement)> { tick(); given(127); (|| { let r = o_statement_comment_single_line_comment(i); if r.is_some() { return r; } let r = o_statement_comment_multi_line_comment(i); if r.is_some() { return r; } None })() }
pub fn o_statement_export_all_export<'a>(i: &'a str) -> Option<(&'a str, ExportSet)> { tick(); given(127); p_tag(i, "..").map(|(x268, v)| (x268, ExportSet::AllExport)) }
pub fn o_statement_export_function_export<'a>(i: &'a str) -> Option<(&'a str, ExportSet)> { tick(); given(127); (|| { let r = o_helpers_function_name(i); if r.is_some() { return r; } let r = (|| { let (x270, _) = p_char(i, '(')?; let (x271, o) = o_helpers_operator(x270)?; let (x272, _) = p_char(x271, ')')?; Some((x272, o)) })(); if r.is_some() { return r; } None })().map(|(x269, n)| (x269, ExportSet::FunctionExport(n))) }
pub fn o_statement_export_constructor_subset_exports<'a>(i: &'a str) -> Option<(&'a str, ExportSet)> { tick(); given(127); p_seplist1(i, &mut |x274: &'a str| p_tag(x274, ", "), &mut |x274: &'a str| o_helpers_up_name(x274).map(|(x275, n)| (x275, ExportSet::FunctionExport(n)))).map(|(x273, v)| (x273, ExportSet::SubsetExport(v))) }
pub fn o_statement_export_constructor_exports<'a>(i: &'a str) -> Option<(&'a str, Option<Box<ExportSet>>)> { tick(); given(127); (match (|| { let (x277, _) = p_char(i, '(')?; let (x278, e) = (|| { let r = o_statement_export_all_export(x277); if r.is_some() { return r; } let r = o_statement_export_constructor_subset_exports(x277); if r.is_some() { return r; } None })()?; let (x279, _) = p_char(x278, ')')?; Some((x279, e)) })().map(|(x276, e)| (x276, bx(e))) { Some((y, t)) => Some((y, Some(t))), None => Some((i, None)) }) }
pub fn o_statement_export_type_export<'a>(i: &'a str) -> Option<(&'a str, ExportSet)> { tick(); given(127); (|| { let (x280, n) = o_helpers_up_name(i)?; let (x281, c) = o_statement_export_constructor_exports(x280)?; Some((x281, ExportSet::TypeExport(n, c))) })() }
pub fn o_statement_export_subset_export<'a>(i: &'a str) -> Option<(&'a str, ExportSet)> { tick(); given(127); p_seplist1(i, &mut |x283: &'a str| (|| { let (x284, _) = (match o_helpers_spaces_and_newlines(x283) { Some((y, t)) => Some((y, Some(t))), None => Some((x283, None)) })?; let (x285, c) = p_char(x284, ',')?; let (x286, _) = (match o_helpers_spaces_and_newlines(x285) { Some((y, t)) => Some((y, Some(t))), None => Some((x285, None)) })?; Some((x286, c)) })(), &mut |x283: &'a str| (|| { let r = o_statement_export_function_export(x283); if r.is_some() { return r; } let r = o_statement_export_type_export(x283); if r.is_some() { return r; } None })()).map(|(x282, v)| (x282, ExportSet::SubsetExport(v))) }
pub fn o_statement_export_exports<'a>(i: &'a str) -> Option<(&'a str, ExportSet)> { tick(); given(127); (|| { let (x287, _) = p_char(i, '(')?; let (x288, _) = (match o_helpers_spaces_or_new_lines_and_indent(x287, 0u32, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x287, None)) })?; let (x289, e) = (|| { let r = o_statement_export_all_export(x288); if r.is_some() { return r; } let r = o_statement_export_subset_export(x288); if r.is_some() { return r; } None })()?; let (x290, _) = (match o_helpers_spaces_or_new_lines_and_indent(x289, 0u32, IR::GTE) { Some((y, t)) => Some((y, Some(t))), None => Some((x289, None)) })?; let (x291, _) = p_char(x290, ')')?; Some((x291, e)) })() }
pub fn o_statement_import_import_statement<'a>(i: &'a str) -> Option<(&'a str, Statement)> { tick(); given(127); (|| { let (x292, _) = p_tag(i, "import")?; let (x293, _) = o_helpers_spaces(x292)?; let (x294, n) = o_helpers_module_name(x293)?; let (x295, a) = (match (|| { let (x296, _) = o_helpers_spaces(x294)?; let (x297, _) = p_tag(x296, "as")?; let (x298, _) = o_helpers_spaces(x297)?; let (x299, u) = o_helpers_up_name(x298)?; Some((x299, u)) })() { Some((y, t)) => Some((y, Some(t))), None => Some((x294, None)) })?; let (x300, e) = (match (|| { let (x301, _) = o_helpers_spaces(x295)?; let (x302, _) = p_tag(x301, "exposing")?; let (x303, _) = o_helpers_spaces(x302)?; let (x304, u) = o_statement_export_exports(x303)?; Some((x304, u)) })() { Some((y, t)) => Some((y, Some(t))), None => Some((x295, None)) })?; Some((x300, Statement::ImportStatement(n, a, e))) })() }
pub fn o_statement_infix_infix_declaration<'a>(i: &'a str) -> Option<(&'a str, Statement)> { tick(); given(127); (|| { let (x305, a) = (|| { let r = p_tag(i, "infixl").map(|(x306, t)| (x306, Assoc::L)); if r.is_some() { return r; } let r = p_tag(i, "infixr").map(|(x307, t)| (x307, Assoc::R)); if r.is_some() { return r; } let r = p_tag(i, "infix").map(|(x308, t)| (x308, Assoc::N)); if r.is_some() { return r; } None })()?; let (x309, _) = o_helpers_spaces(x305)?; let (x310, v) = p_isa(x309, "0123456789").and_then(|(x311, d)| { let o = dec_i64(st(d.clone())); o.map(|t| (x311, t)) })?; let (x312, _) = o_helpers_spaces(x310)?; let (x313, n) = (|| { let r = o_helpers_lo_name(x312); if r.is_some() { return r; } let r = o_helpers_operator(x312); if r.is_some() { return r; } None })()?; Some((x313, Statement::InfixDeclaration(a, v, n))) })() }
pub fn o_statement_module_port_module_declaration<'a>(i: &'a str) -> Option<(&'a str, Statement)> { tick(); given(127); (|| { let (x314, _) = p_tag(i, "port")?; let (x315, _) = o_helpers_spaces_or_new_lines_and_indent(x314, 0u32, IR::GT)?; let (x316, _) = p_tag(x315, "module")?; let (x317, _) = o_helpers_spaces_or_new_lines_and_indent(x316, 0u32, IR::GT)?; let (x318, n) = o_helpers_module_name(x317)?; let (x319, _) = o_helpers_spaces_or_new_lines_and_indent(x318, 0u32, IR::GT)?; let (x320, _) = p_tag(x319, "exposing")?; let (x321, _) = o_helpers_spaces_or_new_lines_and_indent(x320, 0u32, IR::GT)?; let (x322, e) = o_statement_export_exports(x321)?; Some((x322, Statement::PortModuleDeclaration(n, e))) })() }
pub fn o_statement_module_effect_module_declaration<'a>(i: &'a str) -> Option<(&'a str, Statement)> { tick(); given(127); (|| { let (x323, _) = p_tag(i, "effect")?; let (x324, _) = o_helpers_spaces_or_new_lines_and_indent(x323, 0u32, IR::GT)?; let (x325, _) = p_tag(x324, "module")?; let (x326, _) = o_helpers_spaces_or_new_lines_and_indent(x325, 0u32, IR::GT)?; let (x327, n) = o_helpers_module_name(x326)?; let (x328, _) = o_helpers_spaces_or_new_lines_and_indent(x327, 0u32, IR::GT)?; let (x329, _) = p_tag(x328, "where")?; let (x330, _) = o_helpers_spaces_or_new_lines_and_indent(x329, 0u32, IR::GT)?; let (x331, _) = p_char(x330, '{')?; let (x332, w) = p_seplist(x331, &mut |x333: &'a str| p_tag(x333, ", "), &mut |x333: &'a str| (|| { let (x334, l) = o_helpers_lo_name(x333)?; let (x335, _) = (match o_helpers_spaces(x334) { Some((y, t)) => Some((y, Some(t))), None => Some((x334, None)) })?; let (x336, _) = p_char(x335, '=')?; let (x337, _) = (match o_helpers_spaces(x336) { Some((y, t)) => Some((y, Some(t))), None => Some((x336, None)) })?; let (x338, u) = o_helpers_up_name(x337)?; Some((x338, (l, u))) })())?; let (x339, _) = p_char(x332, '}')?; let (x340, _) = o_helpers_spaces_or_new_lines_and_indent(x339, 0u32, IR::GT)?; let (x341, _) = p_tag(x340, "exposing")?; let (x342, _) = o_helpers_spaces_or_new_lines_and_indent(x341, 0u32, IR::GT)?; let (x343, e) = o_statement_export_exports(x342)?; Some((x343, Statement::EffectModuleDeclaration(n, w, e))) })() }
pub fn o_statement_module_module_declaration<'a>(i: &'a str) -> Option<(&'a str, Statement)> { tick(); given(127); (|| { let (x344, _) = p_tag(i, "module")?; let (x345, _) = o_helpers_spaces_or_new_lines_and_indent(x344, 0u32, IR::GT)?; let (x346, n) = o_helpers_module_name(x345)?; let (x347, _) = o_helpers_spaces_or_new_lines_and_indent(x346, 0u32, IR::GT)?; let (x348, _) = p_tag(x347, "exposing")?; let (x349, _) = o_helpers_spaces_or_new_lines_and_indent(x348, 0u32, IR::GT)?; let (x350, e) = o_statement_export_exports(x349)?; Some((x350, Statement::ModuleDeclaration(n, e))) })() }
pub fn o_statement_port_port_type_declaration<'a>(i: &'a str) -> Option<(&'a str, Statement)> { tick(); given(127); (|| { let (x351, _) = p_tag(i, "port")?; let (x352, _) = o_helpers_spaces(x351)?; let (x353, n) = o_helpers_lo_name(x352)?; let (x354, _) = o_helpers_spaces(x353)?; let (x355, _) = p_char(x354, ':')?; let (x356, k) = o_helpers_spaces_or_new_lines_and_indent(x355, 0u32, IR::GT)?; let (x357, t) = o_type__type_annotation(x356, k)?; Some((x357, Statement::PortTypeDeclaration(n, t))) })() }
pub fn o_statement_port_port_declaration<'a>(i: &'a str) -> Option<(&'a str, Statement)> { tick(); given(127); (|| { let (x358, _) = p_tag(i, "port")?; let (x359, _) = o_helpers_spaces(x358)?; let (x360, n) = o_helpers_lo_name(x359)?; let (x361, args) = p_many0(x360, &mut |x362: &'a str| (|| { let (x363, _) = o_helpers_spaces(x362)?; let (x364, a) = o_helpers_lo_name(x363)?; Some((x364, a)) })())?; let (x365, _) = o_helpers_spaces(x361)?; let (x366, _) = p_char(x365, '=')?; let (x367, k) = o_helpers_spaces_or_new_lines_and_indent(x366, 0u32, IR::GT)?; let (x368, e) = o_expression_expression(x367, k)?; Some((x368, Statement::PortDeclaration(n, args, e))) })() }
pub fn o_statement_type_declaration_type_alias_declaration<'a>(i: &'a str) -> Option<(&'a str, Statement)> { tick(); given(127); (|| { let (x369, _) = p_tag(i, "type")?; let (x370, _) = o_helpers_spaces(x369)?; let (x371, _) = p_tag(x370, "alias")?; let (x372, _) = o_helpers_spaces(x371)?; let (x373, n) = o_type__type_(x372, 0u32)?; let (x374, _) = o_helpers_spaces(x373)?; let (x375, _) = p_char(x374, '=')?; let (x376, _) = o_helpers_spaces_or_new_lines_and_indent(x375, 1u32, IR::GTE)?; let (x377, t) = o_type__type_annotation(x376, 1u32)?; Some((x377, Statement::TypeAliasDeclaration(n, t))) })() }
pub fn o_statement_type_declaration_type_declaration<'a>(i: &'a str, ind: u32) -> Option<(&'a str, Statement)> { tick(); given(127); (|| { let (x378, _) = p_tag(i, "type")?; let (x379, _) = o_helpers_spaces(x378)?; let (x380, n) = o_type__type_(x379, ind)?; let (x381, k) = o_helpers_spaces_or_new_lines_and_indent(x380, 0u32, IR::GT)?; let (x382, _) = p_char(x381, '=')?; let (x383, _) = o_helpers_spaces_or_new_lines_and_indent(x382, k, IR::GTE)?; let (x384, d) = p_seplist1(x383, &mut |x385: &'a str| (|| { let (x386, _) = o_helpers_spaces_or_new_lines_and_indent(x385, k, IR::GTE)?; let (x387, c) = p_char(x386, '|')?; let (x388, _) = o_helpers_spaces(x387)?; Some((x388, c)) })(), &mut |x385: &'a str| o_type__type_constructor(x385, k))?; Some((x384, Statement::TypeDeclaration(n, d))) })() }
pub fn o_statement_statement<'a>(i: &'a str) -> Option<(&'a str, Statement)> { tick(); if given(78) { return crate::entries::t_statement_statement(i); } (|| { let r = o_statement_module_port_module_declaration(i); if r.is_some() { return r; } let r = o_statement_module_effect_module_declaration(i); if r.is_some() { return r; } let r = o_statement_module_module_declaration(i); if r.is_some() { return r; } let r = o_statement_import_import_statement(i); if r.is_some() { return r; } let r = o_statement_type_declaration_type_alias_declaration(i); if r.is_some() { return r; } let r = o_statement_type_declaration_type_declaration(i, 0u32); if r.is_some() { return r; } let r = o_statement_port_port_type_declaration(i); if r.is_some() { return r; } let r = o_statement_port_port_declaration(i); if r.is_some() { return r; } let r = o_expression_function_function(i, 0u32).map(|(x389, f)| (x389, Statement::Function(f))); if r.is_some() { return r; } let r = o_statement_infix_infix_declaration(i); if r.is_some() { return r; } let r = o_statement_comment_comment(i); if r.is_some() { return r; } None })() }
pub fn o_statement_statements<'a>(i: &'a str) -> Option<(&'a str, Vec<Statement>)> { tick(); if given(79) { return crate::entries::t_statement_statements(i); } (|| { let (x390, _) = p_isa0(i, " \t\r\n")?; let (x391, v) = p_seplist1(x390, &mut |x392: &'a str| p_isa0(x392, " \t\r\n"), &mut |x392: &'a str| o_statement_statement(x392))?; let (x393, _) = p_isa0(x391, " \t\r\n")?; Some((x393, v)) })() }
pub fn o_file<'a>(i: &'a str) -> Option<(&'a str, Vec<Statement>)> { tick(); if given(80) { return crate::entries::t_file(i); } (|| { let (x394, v) = o_statement_statements(i)?; let (x395, _) = p_eof(x394)?; Some((x395, v)) })() }
pub fn g_helpers_lo_name(g: &mut G) -> u32 { g.enter(0); let r = match g.alt(&[0, 1]) { 0 => g.put("_"), _ => g.re("^([a-z][a-zA-Z0-9_]*)") }; g.leave(); r }
pub fn g_helpers_function_name(g: &mut G) -> u32 { g.enter(1); let r = g_helpers_lo_name(g); g.leave(); r }
pub fn g_helpers_up_name(g: &mut G) -> u32 { g.enter(2); let r = g.re("^([A-Z][a-zA-Z0-9_]*)"); g.leave(); r }
pub fn g_helpers_module_name(g: &mut G) -> u32 { g.enter(3); let r = { for j in 0..g.count(1, 2) { if j > 0 { let _ = g.put("."); } let _ = g_helpers_up_name(g); } 0u32 }; g.leave(); r }
pub fn g_helpers_operator(g: &mut G) -> u32 { g.enter(4); let r = g.re("^([-+\\\\-\\\\/*=.$<>:&|^?%#@~!]+)"); g.leave(); r }
pub fn g_helpers_spaces(g: &mut G) -> u32 { g.enter(5); let r = g.isa(" ", 1); g.leave(); r }
pub fn g_helpers_spaces0(g: &mut G) -> u32 { g.enter(6); let r = if g.opt(3) { g.isa(" ", 1) } else { 0u32 }; g.leave(); r }
pub fn g_helpers_spaces_and_newlines(g: &mut G) -> u32 { g.enter(7); let r = g.isa(" \n", 1); g.leave(); r }
pub fn g_helpers_single_line_comment(g: &mut G) -> u32 { g.enter(8); let r = { let _ = g.put("--"); let _ = g.re("^(.*)"); 0u32 }; g.leave(); r }
pub fn g_helpers_spaces_or_new_lines_and_indent(g: &mut G, ind: u32, ir: IR) -> u32 { g.enter(9); let r = { let a = g.out.len(); g.layout(ind, ir); let t = g.out[a..].to_string(); match o_helpers_spaces_or_new_lines_and_indent(&t, ind, ir) { Some((_, n)) => n, None => ind } }; g.leave(); r }
pub fn g_helpers_opt_spaces_or_new_lines_and_indent(g: &mut G, ind: u32, ir: IR) -> u32 { g.enter(10); let r = { if g.coin(2) { g_helpers_spaces_or_new_lines_and_indent(g, ind, ir) } else { ind } }; g.leave(); r }
pub fn g_helpers_new_line_and_same_indent(g: &mut G, ind: u32) -> u32 { g.enter(11); let r = { g.newline(ind); ind }; g.leave(); r }
pub fn g_type__type_variable(g: &mut G) -> u32 { g.enter(12); let r = g.re("^([a-z][a-zA-Z0-9_]*)"); g.leave(); r }
pub fn g_type__type_constant(g: &mut G) -> u32 { g.enter(13); let r = { for j in 0..g.count(1, 4) { if j > 0 { let _ = g.put("."); } let _ = g_helpers_up_name(g); } 0u32 }; g.leave(); r }
pub fn g_type__type_tuple(g: &mut G, ind: u32) -> u32 { g.enter(14); let r = { let _ = g.put("("); let _ = if g.opt(5) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = { for j in 0..g.count(0, 6) { if j > 0 { let _ = { let _ = if g.opt(7) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g.put(","); let _ = if g.opt(8) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; 0u32 }; } let _ = g_type__type_(g, ind); } 0u32 }; let _ = if g.opt(9) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g.put(")"); 0u32 }; g.leave(); r }
pub fn g_type__type_record_pair(g: &mut G, ind: u32) -> u32 { g.enter(15); let r = { let _ = g_helpers_lo_name(g); let _ = if g.opt(10) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g.put(":"); let _ = if g.opt(11) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g_type__type_annotation(g, ind); 0u32 }; g.leave(); r }
pub fn g_type__type_record_pairs(g: &mut G, ind: u32) -> u32 { g.enter(16); let r = { for j in 0..g.count(0, 12) { if j > 0 { let _ = { let _ = if g.opt(13) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g.put(","); let _ = if g.opt(14) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; 0u32 }; } let _ = g_type__type_record_pair(g, ind); } 0u32 }; g.leave(); r }
pub fn g_type__type_record_constructor(g: &mut G, ind: u32) -> u32 { g.enter(17); let r = { let _ = g.put("{"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_type__type_variable(g); let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g.put("|"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_type__type_record_pairs(g, ind); let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g.put("}"); 0u32 }; g.leave(); r }
pub fn g_type__type_record(g: &mut G, ind: u32) -> u32 { g.enter(18); let r = { let _ = g.put("{"); let _ = if g.opt(15) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g_type__type_record_pairs(g, ind); let _ = if g.opt(16) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g.put("}"); 0u32 }; g.leave(); r }
pub fn g_type__type_parameter(g: &mut G, ind: u32) -> u32 { g.enter(19); let r = match g.alt(&[17, 18, 19, 20, 21, 22]) { 0 => g_type__type_variable(g), 1 => g_type__type_constant(g), 2 => g_type__type_record_constructor(g, ind), 3 => g_type__type_record(g, ind), 4 => { let _ = g.put("("); let _ = if g.opt(23) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g_type__type_annotation(g, ind); let _ = if g.opt(24) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g.put(")"); 0u32 }, _ => g_type__type_tuple(g, ind) }; g.leave(); r }
pub fn g_type__type_constructor(g: &mut G, ind: u32) -> u32 { g.enter(20); let r = { let _ = { for j in 0..g.count(1, 25) { if j > 0 { let _ = g.put("."); } let _ = g_helpers_up_name(g); } 0u32 }; let _ = { for _ in 0..g.count(0, 26) { let _ = { let n = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GT); let _ = g_type__type_parameter(g, n); 0u32 }; } 0u32 }; 0u32 }; g.leave(); r }
pub fn g_type__type_(g: &mut G, ind: u32) -> u32 { g.enter(21); let r = match g.alt(&[27, 28, 29, 30, 31, 32]) { 0 => g_type__type_constructor(g, ind), 1 => g_type__type_variable(g), 2 => g_type__type_record_constructor(g, ind), 3 => g_type__type_record(g, ind), 4 => { let _ = g.put("("); let _ = if g.opt(33) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g_type__type_annotation(g, ind); let _ = if g.opt(34) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g.put(")"); 0u32 }, _ => g_type__type_tuple(g, ind) }; g.leave(); r }
pub fn g_type__type_annotation(g: &mut G, ind: u32) -> u32 { g.enter(22); let r = { for j in 0..g.count(1, 35) { if j > 0 { let _ = { let _ = g_helpers_spaces_and_newlines(g); let _ = g.put("->"); let _ = g_helpers_spaces_and_newlines(g); 0u32 }; } let _ = g_type__type_(g, ind); } 0u32 }; g.leave(); r }
pub fn g_expression_variable_lower_case(g: &mut G) -> u32 { g.enter(23); let r = g_helpers_lo_name(g); g.leave(); r }
pub fn g_expression_variable_upper_with_dots(g: &mut G) -> u32 { g.enter(24); let r = { for j in 0..g.count(1, 36) { if j > 0 { let _ = g.put("."); } let _ = g_helpers_up_name(g); } 0u32 }; g.leave(); r }
pub fn g_expression_variable_op(g: &mut G) -> u32 { g.enter(25); let r = { let _ = g.put("("); let _ = match g.alt(&[37, 38]) { 0 => g_helpers_operator(g), _ => g.isa(",", 1) }; let _ = g.put(")"); 0u32 }; g.leave(); r }
pub fn g_expression_variable_variable(g: &mut G) -> u32 { g.enter(26); let r = match g.alt(&[39, 40, 41]) { 0 => g_expression_variable_lower_case(g), 1 => g_expression_variable_upper_with_dots(g), _ => g_expression_variable_op(g) }; g.leave(); r }
pub fn g_expression_access_access(g: &mut G) -> u32 { g.enter(27); let r = { let _ = g_expression_variable_variable(g); let _ = { for _ in 0..g.count(1, 42) { let _ = { let _ = g.put("."); let _ = g_helpers_lo_name(g); 0u32 }; } 0u32 }; 0u32 }; g.leave(); r }
pub fn g_expression_access_function_access_function(g: &mut G) -> u32 { g.enter(28); let r = { let _ = g.put("."); let _ = g_helpers_lo_name(g); 0u32 }; g.leave(); r }
pub fn g_expression_character_character_content(g: &mut G) -> u32 { g.enter(29); let r = match g.alt(&[43, 44]) { 0 => { let _ = g.put("\\x"); let _ = g.re("^[0-9a-fA-F]{2}"); 0u32 }, _ => g.anychar() }; g.leave(); r }
pub fn g_expression_character_character(g: &mut G) -> u32 { g.enter(30); let r = { let _ = g.put("'"); let _ = g_expression_character_character_content(g); let _ = g.put("'"); 0u32 }; g.leave(); r }
pub fn g_expression_float_float(g: &mut G) -> u32 { g.enter(31); let r = { let _ = if g.opt(45) { match g.alt(&[46, 47]) { 0 => g.put("+"), _ => g.put("-") } } else { 0u32 }; let _ = g.digits(); let _ = g.put("."); let _ = g.digits(); 0u32 }; g.leave(); r }
pub fn g_expression_integer_integer(g: &mut G) -> u32 { g.enter(32); let r = { let _ = if g.opt(48) { match g.alt(&[49, 50]) { 0 => g.put("+"), _ => g.put("-") } } else { 0u32 }; let _ = g.digits(); 0u32 }; g.leave(); r }
pub fn g_expression_string_single_string(g: &mut G) -> u32 { g.enter(33); let r = { let _ = g.put("\""); let _ = g.re("^(\\\\\\\\|\\\\\"|[^\"\\n])*"); let _ = g.put("\""); 0u32 }; g.leave(); r }
pub fn g_expression_string_multi_string(g: &mut G) -> u32 { g.enter(34); let r = { let _ = g.put("\"\"\""); let _ = g.re("^([^\"]*)"); let _ = g.put("\"\"\""); 0u32 }; g.leave(); r }
pub fn g_expression_string_string(g: &mut G) -> u32 { g.enter(35); let r = match g.alt(&[51, 52]) { 0 => g_expression_string_multi_string(g), _ => g_expression_string_single_string(g) }; g.leave(); r }
pub fn g_expression_tuple(g: &mut G, ind: u32) -> u32 { g.enter(36); let r = { let _ = g.put("("); let _ = { for j in 0..g.count(0, 53) { if j > 0 { let _ = g.put(","); } let _ = { let _ = g.ws(0, " \t\r\n"); let _ = g_expression_expression(g, ind); let _ = g.ws(0, " \t\r\n"); 0u32 }; } 0u32 }; let _ = g.put(")"); 0u32 }; g.leave(); r }
pub fn g_expression_list(g: &mut G, ind: u32) -> u32 { g.enter(37); let r = { let _ = g.put("["); let _ = if g.opt(54) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = if g.opt(55) { { for j in 0..g.count(0, 56) { if j > 0 { let _ = { let _ = if g.opt(57) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g.put(","); let _ = if g.opt(58) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; 0u32 }; } let _ = g_expression_expression(g, ind); } 0u32 } } else { 0u32 }; let _ = if g.opt(59) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g.put("]"); 0u32 }; g.leave(); r }
pub fn g_expression_record(g: &mut G, ind: u32) -> u32 { g.enter(38); let r = { let _ = g.put("{"); let _ = if g.opt(60) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = { for j in 0..g.count(0, 61) { if j > 0 { let _ = { let _ = if g.opt(62) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g.put(","); let _ = if g.opt(63) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; 0u32 }; } let _ = { let _ = g_helpers_lo_name(g); let _ = if g.opt(64) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g.put("="); let _ = if g.opt(65) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g_expression_expression(g, ind); 0u32 }; } 0u32 }; let _ = if g.opt(66) { g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE) } else { 0u32 }; let _ = g.put("}"); 0u32 }; g.leave(); r }
pub fn g_expression_simplified_record(g: &mut G, ind: u32) -> u32 { g.enter(39); let r = { let _ = g.put("{"); let _ = { for j in 0..g.count(0, 67) { if j > 0 { let _ = g.put(","); } let _ = { let _ = g.ws(0, " \t\r\n"); let _ = g_helpers_lo_name(g); let _ = g.ws(0, " \t\r\n"); 0u32 }; } 0u32 }; let _ = g.put("}"); 0u32 }; g.leave(); r }
pub fn g_expression_record_update(g: &mut G, ind: u32) -> u32 { g.enter(40); let r = { let _ = g.put("{"); let _ = g_helpers_opt_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_helpers_lo_name(g); let _ = g_helpers_opt_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g.put("|"); let _ = g.ws(0, " \t\r\n"); let _ = { for j in 0..g.count(0, 68) { if j > 0 { let _ = { let _ = g_helpers_opt_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g.put(","); let _ = g_helpers_opt_spaces_or_new_lines_and_indent(g, ind, IR::GTE); 0u32 }; } let _ = { let _ = g_helpers_lo_name(g); let _ = g.ws(0, " \t\r\n"); let _ = g.put("="); let _ = g.ws(0, " \t\r\n"); let _ = g_expression_expression(g, ind); 0u32 }; } 0u32 }; let _ = g_helpers_opt_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g.put("}"); 0u32 }; g.leave(); r }
pub fn g_expression_parens(g: &mut G, ind: u32) -> u32 { g.enter(41); let r = { let _ = g.put("("); let _ = g.ws(0, " \t\r\n"); let _ = g_expression_expression(g, ind); let _ = g.ws(0, " \t\r\n"); let _ = g.put(")"); 0u32 }; g.leave(); r }
pub fn g_expression_term(g: &mut G, ind: u32) -> u32 { g.enter(42); let r = match g.alt(&[69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81]) { 0 => g_expression_access_access(g), 1 => g_expression_variable_variable(g), 2 => g_expression_access_function_access_function(g), 3 => g_expression_string_string(g), 4 => g_expression_float_float(g), 5 => g_expression_integer_integer(g), 6 => g_expression_character_character(g), 7 => g_expression_parens(g, ind), 8 => g_expression_list(g, ind), 9 => g_expression_tuple(g, ind), 10 => g_expression_record_update(g, ind), 11 => g_expression_record(g, ind), _ => g_expression_simplified_record(g, ind) }; g.leave(); r }
pub fn g_expression_lambda(g: &mut G, ind: u32) -> u32 { g.enter(43); let r = { let _ = g.put("\\"); let _ = { for j in 0..g.count(1, 82) { if j > 0 { let _ = g.ws(1, " \t"); } let _ = g_expression_term(g, ind); } 0u32 }; let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g.put("->"); let n = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_expression_expression(g, n); 0u32 }; g.leave(); r }
pub fn g_expression_application_or_var(g: &mut G, ind: u32) -> u32 { g.enter(44); let r = { for j in 0..g.count(0, 83) { if j > 0 { let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GT); } let _ = g_expression_term(g, ind); } 0u32 }; g.leave(); r }
pub fn g_expression_let_binding_target(g: &mut G, ind: u32) -> u32 { g.enter(45); let r = match g.alt(&[84, 85, 86, 87, 88]) { 0 => g_expression_variable_variable(g), 1 => g_expression_list(g, ind), 2 => g_expression_parens(g, ind), 3 => g_expression_tuple(g, ind), _ => g_expression_simplified_record(g, ind) }; g.leave(); r }
pub fn g_expression_let_binding(g: &mut G, ind: u32) -> u32 { g.enter(46); let r = { let _ = g_expression_let_binding_target(g, ind); let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g.put("="); let n = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_expression_expression(g, n); 0u32 }; g.leave(); r }
pub fn g_expression_let_bindings(g: &mut G, ind: u32) -> u32 { g.enter(47); let r = { for j in 0..g.count(1, 89) { if j > 0 { let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::EQ); } let _ = match g.alt(&[90, 91]) { 0 => g_expression_let_binding(g, ind), _ => g_expression_function_function(g, ind) }; } 0u32 }; g.leave(); r }
pub fn g_expression_let_expression(g: &mut G, ind: u32) -> u32 { g.enter(48); let r = { let _ = g.put("let"); let n = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_expression_let_bindings(g, n); let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g.put("in"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_expression_expression(g, ind); 0u32 }; g.leave(); r }
pub fn g_expression_case(g: &mut G, ind: u32) -> u32 { g.enter(49); let r = { let _ = g_expression_expression(g, ind); let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g.put("->"); let n = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_expression_expression(g, n); 0u32 }; g.leave(); r }
pub fn g_expression_cases(g: &mut G, ind: u32) -> u32 { g.enter(50); let r = { for j in 0..g.count(1, 92) { if j > 0 { let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::EQ); } let _ = g_expression_case(g, ind); } 0u32 }; g.leave(); r }
pub fn g_expression_case_expression(g: &mut G, ind: u32) -> u32 { g.enter(51); let r = { let _ = g.put("case"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_expression_expression(g, ind); let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g.put("of"); let n = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_expression_cases(g, n); 0u32 }; g.leave(); r }
pub fn g_expression_if_expression(g: &mut G, ind: u32) -> u32 { g.enter(52); let r = { let _ = g.put("if"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_expression_expression(g, ind); let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g.put("then"); let n1 = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_expression_expression(g, n1); let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g.put("else"); let n2 = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_expression_expression(g, n2); 0u32 }; g.leave(); r }
pub fn g_expression_operator_or_as(g: &mut G) -> u32 { g.enter(53); let r = match g.alt(&[93, 94]) { 0 => g.put("as"), _ => g_helpers_operator(g) }; g.leave(); r }
pub fn g_expression_binary(g: &mut G, ind: u32) -> u32 { g.enter(54); let r = { let _ = g_expression_application_or_var(g, ind); let _ = if g.opt(95) { { let _ = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GTE); let _ = g_expression_operator_or_as(g); let _ = g.ws(1, " \t\r\n"); let _ = g_expression_expression(g, ind); 0u32 } } else { 0u32 }; 0u32 }; g.leave(); r }
pub fn g_expression_expression(g: &mut G, ind: u32) -> u32 { g.enter(55); let r = match g.alt(&[96, 97, 98, 99, 100]) { 0 => g_expression_binary(g, ind), 1 => g_expression_let_expression(g, ind), 2 => g_expression_case_expression(g, ind), 3 => g_expression_if_expression(g, ind), _ => g_expression_lambda(g, ind) }; g.leave(); r }
pub fn g_expression_function_function_signature(g: &mut G, ind: u32) -> u32 { g.enter(56); let r = { let _ = match g.alt(&[101, 102]) { 0 => g_helpers_lo_name(g), _ => { let _ = g.put("("); let _ = g_helpers_operator(g); let _ = g.put(")"); 0u32 } }; let _ = g_helpers_spaces(g); let _ = g.put(":"); let k = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GT); let _ = g_type__type_annotation(g, k); 0u32 }; g.leave(); r }
pub fn g_expression_function_function_definition(g: &mut G, ind: u32) -> u32 { g.enter(57); let r = { let _ = match g.alt(&[103, 104]) { 0 => g_helpers_lo_name(g), _ => { let _ = g.put("("); let _ = g_helpers_operator(g); let _ = g.put(")"); 0u32 } }; let _ = { for _ in 0..g.count(0, 105) { let _ = { let _ = g_helpers_spaces(g); let _ = g_expression_term(g, ind); 0u32 }; } 0u32 }; let _ = g_helpers_spaces(g); let _ = g.put("="); let k = g_helpers_spaces_or_new_lines_and_indent(g, ind, IR::GT); let _ = g_expression_expression(g, k); 0u32 }; g.leave(); r }
pub fn g_expression_function_function(g: &mut G, ind: u32) -> u32 { g.enter(58); let r = { let _ = if g.opt(106) { { let _ = g_expression_function_function_signature(g, ind); let _ = g_helpers_new_line_and_same_indent(g, ind); 0u32 } } else { 0u32 }; let _ = g_expression_function_function_definition(g, ind); 0u32 }; g.leave(); r }
pub fn g_statement_comment_single_line_comment(g: &mut G) -> u32 { g.enter(59); let r = { let _ = g.put("--"); let _ = g.re("^(.*)"); 0u32 }; g.leave(); r }
pub fn g_statement_comment_multi_line_comment(g: &mut G) -> u32 { g.enter(60); let r = { let _ = g.put("{-"); let _ = g.until("-}"); 0u32 }; g.leave(); r }
pub fn g_statement_comment_comment(g: &mut G) -> u32 { g.enter(61); let r = match g.alt(&[107, 108]) { 0 => g_statement_comment_single_line_comment(g), _ => g_statement_comment_multi_line_comment(g) }; g.leave(); r }
pub fn g_statement_export_all_export(g: &mut G) -> u32 { g.enter(62); let r = g.put(".."); g.leave(); r }
pub fn g_statement_export_function_export(g: &mut G) -> u32 { g.enter(63); let r = match g.alt(&[109, 110]) { 0 => g_helpers_function_name(g), _ => { let _ = g.put("("); let _ = g_helpers_operator(g); let _ = g.put(")"); 0u32 } }; g.leave(); r }
pub fn g_statement_export_constructor_subset_exports(g: &mut G) -> u32 { g.enter(64); let r = { for j in 0..g.count(1, 111) { if j > 0 { let _ = g.put(", "); } let _ = g_helpers_up_name(g); } 0u32 }; g.leave(); r }
pub fn g_statement_export_constructor_exports(g: &mut G) -> u32 { g.enter(65); let r = if g.opt(112) { { let _ = g.put("("); let _ = match g.alt(&[113, 114]) { 0 => g_statement_export_all_export(g), _ => g_statement_export_constructor_subset_exports(g) }; let _ = g.put(")"); 0u32 } } else { 0u32 }; g.leave(); r }
pub fn g_statement_export_type_export(g: &mut G) -> u32 { g.enter(66); let r = { let _ = g_helpers_up_name(g); let _ = g_statement_export_constructor_exports(g); 0u32 }; g.leave(); r }
pub fn g_statement_export_subset_export(g: &mut G) -> u32 { g.enter(67); let r = { for j in 0..g.count(1, 115) { if j > 0 { let _ = { let _ = if g.opt(116) { g_helpers_spaces_and_newlines(g) } else { 0u32 }; let _ = g.put(","); let _ = if g.opt(117) { g_helpers_spaces_and_newlines(g) } else { 0u32 }; 0u32 }; } let _ = match g.alt(&[118, 119]) { 0 => g_statement_export_function_export(g), _ => g_statement_export_type_export(g) }; } 0u32 }; g.leave(); r }
pub fn g_statement_export_exports(g: &mut G) -> u32 { g.enter(68); let r = { let _ = g.put("("); let _ = if g.opt(120) { g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GTE) } else { 0u32 }; let _ = match g.alt(&[121, 122]) { 0 => g_statement_export_all_export(g), _ => g_statement_export_subset_export(g) }; let _ = if g.opt(123) { g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GTE) } else { 0u32 }; let _ = g.put(")"); 0u32 }; g.leave(); r }
pub fn g_statement_import_import_statement(g: &mut G) -> u32 { g.enter(69); let r = { let _ = g.put("import"); let _ = g_helpers_spaces(g); let _ = g_helpers_module_name(g); let _ = if g.opt(124) { { let _ = g_helpers_spaces(g); let _ = g.put("as"); let _ = g_helpers_spaces(g); let _ = g_helpers_up_name(g); 0u32 } } else { 0u32 }; let _ = if g.opt(125) { { let _ = g_helpers_spaces(g); let _ = g.put("exposing"); let _ = g_helpers_spaces(g); let _ = g_statement_export_exports(g); 0u32 } } else { 0u32 }; 0u32 }; g.leave(); r }
pub fn g_statement_infix_infix_declaration(g: &mut G) -> u32 { g.enter(70); let r = { let _ = match g.alt(&[126, 127, 128]) { 0 => g.put("infixl"), 1 => g.put("infixr"), _ => g.put("infix") }; let _ = g_helpers_spaces(g); let _ = g.digits(); let _ = g_helpers_spaces(g); let _ = match g.alt(&[129, 130]) { 0 => g_helpers_lo_name(g), _ => g_helpers_operator(g) }; 0u32 }; g.leave(); r }
pub fn g_statement_module_port_module_declaration(g: &mut G) -> u32 { g.enter(71); let r = { let _ = g.put("port"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g.put("module"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g_helpers_module_name(g); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g.put("exposing"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g_statement_export_exports(g); 0u32 }; g.leave(); r }
pub fn g_statement_module_effect_module_declaration(g: &mut G) -> u32 { g.enter(72); let r = { let _ = g.put("effect"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g.put("module"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g_helpers_module_name(g); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g.put("where"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g.put("{"); let _ = { for j in 0..g.count(0, 131) { if j > 0 { let _ = g.put(", "); } let _ = { let _ = g_helpers_lo_name(g); let _ = if g.opt(132) { g_helpers_spaces(g) } else { 0u32 }; let _ = g.put("="); let _ = if g.opt(133) { g_helpers_spaces(g) } else { 0u32 }; let _ = g_helpers_up_name(g); 0u32 }; } 0u32 }; let _ = g.put("}"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g.put("exposing"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g_statement_export_exports(g); 0u32 }; g.leave(); r }
pub fn g_statement_module_module_declaration(g: &mut G) -> u32 { g.enter(73); let r = { let _ = g.put("module"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g_helpers_module_name(g); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g.put("exposing"); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g_statement_export_exports(g); 0u32 }; g.leave(); r }
pub fn g_statement_port_port_type_declaration(g: &mut G) -> u32 { g.enter(74); let r = { let _ = g.put("port"); let _ = g_helpers_spaces(g); let _ = g_helpers_lo_name(g); let _ = g_helpers_spaces(g); let _ = g.put(":"); let k = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g_type__type_annotation(g, k); 0u32 }; g.leave(); r }
pub fn g_statement_port_port_declaration(g: &mut G) -> u32 { g.enter(75); let r = { let _ = g.put("port"); let _ = g_helpers_spaces(g); let _ = g_helpers_lo_name(g); let _ = { for _ in 0..g.count(0, 134) { let _ = { let _ = g_helpers_spaces(g); let _ = g_helpers_lo_name(g); 0u32 }; } 0u32 }; let _ = g_helpers_spaces(g); let _ = g.put("="); let k = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g_expression_expression(g, k); 0u32 }; g.leave(); r }
pub fn g_statement_type_declaration_type_alias_declaration(g: &mut G) -> u32 { g.enter(76); let r = { let _ = g.put("type"); let _ = g_helpers_spaces(g); let _ = g.put("alias"); let _ = g_helpers_spaces(g); let _ = g_type__type_(g, 0u32); let _ = g_helpers_spaces(g); let _ = g.put("="); let _ = g_helpers_spaces_or_new_lines_and_indent(g, 1u32, IR::GTE); let _ = g_type__type_annotation(g, 1u32); 0u32 }; g.leave(); r }
pub fn g_statement_type_declaration_type_declaration(g: &mut G, ind: u32) -> u32 { g.enter(77); let r = { let _ = g.put("type"); let _ = g_helpers_spaces(g); let _ = g_type__type_(g, ind); let k = g_helpers_spaces_or_new_lines_and_indent(g, 0u32, IR::GT); let _ = g.put("="); let _ = g_helpers_spaces_or_new_lines_and_indent(g, k, IR::GTE); let _ = { for j in 0..g.count(1, 135) { if j > 0 { let _ = { let _ = g_helpers_spaces_or_new_lines_and_indent(g, k, IR::GTE); let _ = g.put("|"); let _ = g_helpers_spaces(g); 0u32 }; } let _ = g_type__type_constructor(g, k); } 0u32 }; 0u32 }; g.leave(); r }
pub fn g_statement_statement(g: &mut G) -> u32 { g.enter(78); let r = match g.alt(&[136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146]) { 0 => g_statement_module_port_module_declaration(g), 1 => g_statement_module_effect_module_declaration(g), 2 => g_statement_module_module_declaration(g), 3 => g_statement_import_import_statement(g), 4 => g_statement_type_declaration_type_alias_declaration(g), 5 => g_statement_type_declaration_type_declaration(g, 0u32), 6 => g_statement_port_port_type_declaration(g), 7 => g_statement_port_port_declaration(g), 8 => g_expression_function_function(g, 0u32), 9 => g_statement_infix_infix_declaration(g), _ => g_statement_comment_comment(g) }; g.leave(); r }
pub fn g_statement_statements(g: &mut G) -> u32 { g.enter(79); let r = { let _ = g.ws(0, " \t\r\n"); let _ = { for j in 0..g.count(1, 147) { if j > 0 { let _ = g.ws(0, " \t\r\n"); } let _ = g_statement_statement(g); } 0u32 }; let _ = g.ws(0, " \t\r\n"); 0u32 }; g.leave(); r }
pub fn g_file(g: &mut G) -> u32 { g.enter(80); let r = { let _ = g_statement_statements(g); let _ = 0u32; 0u32 }; g.leave(); r }
pub static DIST: &[&[u8]] = &[&[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[5, 99, 3, 99, 99, 3, 3, 3, 3, 2, 99, 99, 2, 4, 2, 4, 3, 2, 2, 3, 2, 1, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[2, 99, 5, 99, 99, 3, 3, 3, 3, 2, 99, 99, 4, 6, 4, 1, 5, 4, 4, 5, 4, 3, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[4, 99, 7, 99, 99, 3, 3, 5, 3, 2, 99, 99, 2, 8, 6, 3, 2, 1, 6, 7, 6, 5, 4, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[4, 99, 7, 99, 99, 3, 3, 5, 3, 2, 99, 99, 6, 8, 6, 3, 2, 6, 1, 7, 6, 5, 4, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 4, 99, 99, 2, 2, 2, 2, 1, 99, 99, 3, 5, 3, 5, 4, 3, 3, 4, 3, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 4, 99, 99, 3, 3, 4, 3, 2, 99, 99, 3, 5, 1, 5, 4, 3, 3, 4, 3, 2, 3, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[5, 99, 3, 99, 99, 2, 2, 3, 2, 1, 99, 99, 2, 2, 2, 4, 3, 2, 2, 1, 4, 3, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 2, 99, 99, 3, 3, 4, 3, 2, 99, 99, 3, 3, 3, 5, 4, 3, 3, 2, 1, 4, 3, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[4, 99, 7, 99, 99, 3, 3, 5, 3, 2, 99, 99, 2, 8, 6, 3, 2, 1, 6, 7, 6, 5, 4, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[4, 99, 7, 99, 99, 3, 3, 5, 3, 2, 99, 99, 6, 8, 6, 3, 2, 6, 1, 7, 6, 5, 4, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 4, 99, 99, 2, 2, 2, 2, 1, 99, 99, 3, 5, 3, 5, 4, 3, 3, 4, 3, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 4, 99, 99, 3, 3, 4, 3, 2, 99, 99, 3, 5, 1, 5, 4, 3, 3, 4, 3, 2, 3, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[5, 99, 3, 99, 99, 3, 3, 3, 3, 2, 99, 99, 2, 4, 2, 4, 3, 2, 2, 3, 2, 1, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[5, 99, 6, 99, 4, 4, 4, 7, 4, 3, 5, 5, 8, 10, 8, 10, 9, 8, 8, 9, 8, 7, 6, 5, 5, 5, 4, 4, 4, 5, 4, 4, 4, 5, 5, 4, 4, 4, 4, 4, 4, 4, 3, 2, 3, 5, 4, 3, 2, 4, 3, 2, 2, 3, 2, 1, 5, 5, 4, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[5, 99, 6, 99, 4, 2, 2, 7, 2, 1, 5, 5, 8, 10, 8, 10, 9, 8, 8, 9, 8, 7, 6, 5, 5, 5, 4, 4, 4, 5, 4, 4, 4, 5, 5, 4, 4, 4, 4, 4, 4, 4, 3, 2, 3, 5, 4, 3, 2, 4, 3, 2, 2, 3, 2, 1, 5, 5, 4, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[5, 99, 6, 99, 4, 4, 4, 7, 4, 3, 5, 5, 8, 10, 8, 10, 9, 8, 8, 9, 8, 7, 6, 5, 5, 5, 4, 4, 4, 5, 4, 4, 4, 5, 5, 4, 4, 4, 4, 4, 4, 4, 3, 2, 3, 5, 4, 3, 2, 4, 3, 2, 2, 3, 2, 1, 5, 5, 4, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[1, 99, 6, 99, 4, 2, 2, 7, 2, 1, 5, 5, 8, 10, 8, 10, 9, 8, 8, 9, 8, 7, 6, 5, 5, 5, 4, 4, 4, 5, 4, 4, 4, 5, 5, 4, 4, 4, 4, 4, 4, 4, 3, 2, 3, 5, 4, 3, 2, 4, 3, 2, 2, 3, 2, 1, 5, 5, 4, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[1, 99, 6, 99, 4, 4, 4, 7, 4, 3, 5, 5, 8, 10, 8, 10, 9, 8, 8, 9, 8, 7, 6, 5, 5, 5, 4, 4, 4, 5, 4, 4, 4, 5, 5, 4, 4, 4, 4, 4, 4, 4, 3, 2, 3, 5, 4, 3, 2, 4, 3, 2, 2, 3, 2, 1, 5, 5, 4, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[2, 99, 4, 99, 4, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 3, 3, 3, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[3, 99, 3, 99, 3, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 2, 2, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 2, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 7, 99, 5, 5, 5, 8, 5, 4, 6, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 5, 5, 5, 5, 5, 1, 4, 3, 4, 6, 5, 4, 3, 5, 4, 3, 3, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 7, 99, 5, 3, 3, 8, 3, 2, 6, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 5, 1, 5, 5, 5, 5, 4, 3, 4, 6, 5, 4, 3, 5, 4, 3, 3, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 7, 99, 5, 5, 5, 8, 5, 4, 6, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 1, 5, 5, 5, 5, 5, 4, 3, 4, 6, 5, 4, 3, 5, 4, 3, 3, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[2, 99, 7, 99, 5, 4, 4, 8, 4, 3, 2, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 5, 5, 5, 5, 1, 5, 4, 3, 4, 6, 5, 4, 3, 5, 4, 3, 3, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[2, 99, 7, 99, 5, 3, 3, 8, 3, 2, 6, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 5, 5, 1, 5, 5, 5, 4, 3, 4, 6, 5, 4, 3, 5, 4, 3, 3, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[3, 99, 4, 99, 4, 4, 4, 9, 4, 3, 3, 7, 10, 12, 10, 12, 11, 10, 10, 11, 10, 9, 8, 3, 3, 3, 2, 2, 2, 3, 2, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2, 2, 1, 4, 5, 7, 6, 5, 4, 6, 5, 4, 4, 5, 4, 3, 7, 7, 6, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[3, 99, 4, 99, 4, 4, 4, 9, 4, 3, 3, 7, 10, 12, 10, 12, 11, 10, 10, 11, 10, 9, 8, 3, 3, 3, 2, 2, 2, 3, 2, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2, 2, 1, 4, 5, 7, 6, 5, 4, 6, 5, 4, 4, 5, 4, 3, 7, 7, 6, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[3, 99, 3, 99, 3, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 2, 2, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 7, 99, 5, 3, 3, 8, 3, 2, 6, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 5, 1, 5, 5, 5, 5, 4, 3, 4, 6, 5, 4, 3, 5, 4, 3, 3, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 7, 99, 5, 5, 5, 8, 5, 4, 6, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 5, 5, 5, 5, 5, 1, 4, 3, 4, 6, 5, 4, 3, 5, 4, 3, 3, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 7, 99, 5, 5, 5, 8, 5, 4, 6, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 1, 5, 5, 5, 5, 5, 4, 3, 4, 6, 5, 4, 3, 5, 4, 3, 3, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[3, 99, 5, 99, 3, 3, 3, 4, 3, 2, 5, 2, 5, 7, 5, 7, 6, 5, 5, 6, 5, 4, 3, 4, 4, 4, 3, 4, 4, 5, 4, 4, 4, 5, 5, 4, 3, 3, 4, 3, 4, 3, 3, 3, 4, 2, 1, 4, 3, 5, 4, 3, 3, 4, 3, 2, 2, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[4, 99, 5, 99, 5, 3, 3, 8, 3, 2, 6, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 4, 4, 4, 3, 5, 5, 6, 5, 5, 5, 6, 6, 5, 3, 3, 5, 3, 5, 3, 4, 3, 4, 2, 1, 4, 3, 5, 4, 3, 3, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[3, 99, 6, 99, 3, 3, 3, 4, 4, 3, 5, 2, 5, 7, 5, 7, 6, 5, 5, 6, 5, 4, 3, 5, 5, 5, 4, 4, 4, 5, 4, 4, 4, 5, 5, 4, 4, 4, 4, 4, 4, 4, 3, 4, 5, 7, 6, 5, 4, 6, 5, 4, 4, 5, 4, 3, 2, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 7, 99, 5, 3, 3, 8, 3, 2, 6, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 5, 5, 5, 5, 5, 5, 4, 3, 4, 6, 5, 4, 3, 1, 4, 3, 3, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[5, 99, 6, 99, 2, 2, 2, 7, 2, 1, 5, 5, 8, 10, 8, 10, 9, 8, 8, 9, 8, 7, 6, 5, 5, 5, 4, 4, 4, 5, 4, 4, 4, 5, 5, 4, 4, 4, 4, 4, 4, 4, 3, 2, 3, 5, 4, 3, 2, 4, 3, 2, 2, 1, 2, 1, 5, 5, 4, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[5, 99, 6, 99, 3, 3, 3, 8, 3, 2, 5, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 5, 5, 5, 4, 4, 4, 5, 4, 4, 4, 5, 5, 4, 4, 4, 4, 4, 4, 4, 3, 3, 2, 6, 5, 4, 3, 5, 4, 3, 3, 2, 1, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[5, 99, 7, 99, 5, 3, 3, 6, 3, 2, 6, 4, 7, 9, 7, 9, 8, 7, 7, 8, 7, 6, 5, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 5, 5, 5, 5, 5, 5, 4, 3, 4, 4, 3, 2, 1, 5, 4, 3, 3, 4, 3, 2, 4, 4, 3, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 7, 99, 5, 3, 3, 8, 3, 2, 6, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 5, 5, 5, 5, 5, 5, 4, 3, 4, 6, 5, 4, 3, 3, 2, 1, 3, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 7, 99, 5, 3, 3, 8, 3, 2, 6, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 5, 5, 5, 5, 5, 5, 4, 3, 4, 6, 5, 4, 3, 5, 4, 3, 1, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[4, 99, 5, 99, 5, 3, 3, 8, 3, 2, 4, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 4, 4, 4, 3, 3, 3, 4, 3, 3, 3, 4, 4, 3, 3, 3, 3, 3, 3, 3, 2, 1, 4, 6, 5, 4, 3, 5, 4, 3, 3, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[3, 99, 4, 99, 4, 1, 4, 9, 4, 3, 3, 7, 10, 12, 10, 12, 11, 10, 10, 11, 10, 9, 8, 3, 3, 3, 2, 2, 2, 3, 2, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2, 2, 1, 4, 5, 7, 6, 5, 4, 6, 5, 4, 4, 5, 4, 3, 7, 7, 6, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[2, 99, 5, 99, 2, 2, 2, 3, 3, 2, 99, 1, 4, 6, 4, 6, 5, 4, 4, 5, 4, 3, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[3, 2, 2, 99, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 3, 1, 3, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[3, 2, 99, 99, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 3, 99, 3, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[4, 3, 3, 99, 3, 99, 99, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 4, 2, 4, 3, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 2, 2, 99, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 1, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[5, 4, 4, 99, 4, 1, 3, 3, 3, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 2, 3, 5, 4, 3, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[1, 99, 1, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[1, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 2, 99, 99, 3, 3, 4, 3, 2, 99, 99, 3, 3, 3, 5, 4, 3, 3, 2, 1, 4, 3, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 5, 3, 2, 5, 3, 3, 4, 3, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 3, 4, 6, 5, 4, 3, 2, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[2, 5, 2, 2, 5, 2, 3, 4, 3, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 3, 4, 6, 5, 4, 3, 2, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 5, 3, 2, 5, 3, 3, 4, 3, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 3, 4, 6, 5, 4, 3, 2, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99],
  &[6, 5, 2, 2, 5, 2, 4, 4, 4, 3, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 3, 4, 6, 5, 4, 3, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[6, 99, 4, 99, 99, 2, 3, 3, 3, 2, 99, 99, 3, 5, 3, 5, 4, 3, 3, 4, 3, 2, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99],
  &[6, 99, 3, 99, 99, 2, 3, 4, 3, 2, 99, 99, 3, 4, 3, 5, 4, 3, 3, 3, 2, 2, 3, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99],
  &[2, 99, 5, 99, 99, 2, 3, 3, 3, 2, 99, 99, 4, 6, 4, 6, 5, 4, 4, 5, 4, 3, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99],
  &[2, 99, 7, 99, 5, 2, 3, 8, 3, 2, 6, 6, 9, 11, 9, 11, 10, 9, 9, 10, 9, 8, 7, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 5, 5, 5, 5, 5, 5, 4, 3, 4, 6, 5, 4, 3, 5, 4, 3, 3, 4, 3, 2, 6, 6, 5, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99],
  &[3, 99, 6, 99, 3, 3, 3, 4, 4, 3, 5, 2, 5, 7, 5, 7, 6, 5, 5, 6, 5, 4, 3, 5, 5, 5, 4, 4, 4, 5, 4, 4, 4, 5, 5, 4, 4, 4, 4, 4, 4, 4, 3, 4, 5, 7, 6, 5, 4, 6, 5, 4, 4, 5, 4, 3, 2, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[2, 99, 99, 99, 2, 2, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 2, 2, 1, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99],
  &[3, 6, 3, 3, 3, 3, 4, 4, 4, 3, 6, 3, 4, 5, 4, 6, 5, 4, 4, 4, 3, 3, 3, 6, 6, 6, 5, 5, 5, 6, 5, 5, 5, 6, 6, 5, 5, 5, 5, 5, 5, 5, 4, 4, 5, 7, 6, 5, 4, 6, 5, 4, 4, 5, 4, 3, 3, 3, 2, 3, 3, 2, 4, 5, 7, 6, 5, 4, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 99, 99]];
pub static MIND: &[u8] = &[0, 0, 1, 0, 1, 2, 2, 2, 2, 2, 2, 2, 4, 2, 2, 2, 2, 1, 2, 3, 2, 3, 1, 2, 2, 1, 2, 2, 1, 3, 2, 3, 1, 2, 2, 2, 1, 1, 0, 2, 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 3, 2, 0, 3, 2, 2, 2, 2, 3, 2, 2, 2, 2, 2, 1, 3, 3, 2, 2, 2, 1, 1, 2, 4, 1, 1, 2, 1, 1, 2, 2, 2, 1, 4, 1, 1, 4, 4, 5, 4, 0, 1, 3, 2, 6, 6, 4, 4, 1, 1, 1, 1, 2, 4, 1, 1, 2, 1, 1, 1, 1, 2, 2, 1, 1, 2, 2, 2, 1, 3, 2, 1, 2, 0, 0, 0, 1, 1, 1, 1, 1, 1, 2, 3, 3, 3, 3, 4, 3, 4, 4, 5, 2, 2, 3];
pub static FUNS: &[&str] = &["ast::helpers::lo_name", "ast::helpers::function_name", "ast::helpers::up_name", "ast::helpers::module_name", "ast::helpers::operator", "ast::helpers::spaces", "ast::helpers::spaces0", "ast::helpers::spaces_and_newlines", "ast::helpers::single_line_comment", "ast::helpers::spaces_or_new_lines_and_indent", "ast::helpers::opt_spaces_or_new_lines_and_indent", "ast::helpers::new_line_and_same_indent", "ast::type_::type_variable", "ast::type_::type_constant", "ast::type_::type_tuple", "ast::type_::type_record_pair", "ast::type_::type_record_pairs", "ast::type_::type_record_constructor", "ast::type_::type_record", "ast::type_::type_parameter", "ast::type_::type_constructor", "ast::type_::type_", "ast::type_::type_annotation", "ast::expression::variable::lower_case", "ast::expression::variable::upper_with_dots", "ast::expression::variable::op", "ast::expression::variable::variable", "ast::expression::access::access", "ast::expression::access_function::access_function", "ast::expression::character::character_content", "ast::expression::character::character", "ast::expression::float::float", "ast::expression::integer::integer", "ast::expression::string::single_string", "ast::expression::string::multi_string", "ast::expression::string::string", "ast::expression::tuple", "ast::expression::list", "ast::expression::record", "ast::expression::simplified_record", "ast::expression::record_update", "ast::expression::parens", "ast::expression::term", "ast::expression::lambda", "ast::expression::application_or_var", "ast::expression::let_binding_target", "ast::expression::let_binding", "ast::expression::let_bindings", "ast::expression::let_expression", "ast::expression::case", "ast::expression::cases", "ast::expression::case_expression", "ast::expression::if_expression", "ast::expression::operator_or_as", "ast::expression::binary", "ast::expression::expression", "ast::expression::function::function_signature", "ast::expression::function::function_definition", "ast::expression::function::function", "ast::statement::comment::single_line_comment", "ast::statement::comment::multi_line_comment", "ast::statement::comment::comment", "ast::statement::export::all_export", "ast::statement::export::function_export", "ast::statement::export::constructor_subset_exports", "ast::statement::export::constructor_exports", "ast::statement::export::type_export", "ast::statement::export::subset_export", "ast::statement::export::exports", "ast::statement::import::import_statement", "ast::statement::infix::infix_declaration", "ast::statement::module::port_module_declaration", "ast::statement::module::effect_module_declaration", "ast::statement::module::module_declaration", "ast::statement::port::port_type_declaration", "ast::statement::port::port_declaration", "ast::statement::type_declaration::type_alias_declaration", "ast::statement::type_declaration::type_declaration", "ast::statement::statement", "ast::statement::statements", "ast::file"];
pub static NULLABLE: &[&str] = &["ast::helpers::spaces0", "ast::helpers::opt_spaces_or_new_lines_and_indent", "ast::type_::type_record_pairs", "ast::statement::export::constructor_exports"];
pub fn oracle<'a>(f: &str, i: &'a str, ind: u32, ir: IR) -> Option<(&'a str, String)> { match f { "ast::helpers::lo_name" => o_helpers_lo_name(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::helpers::function_name" => o_helpers_function_name(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::helpers::up_name" => o_helpers_up_name(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::helpers::module_name" => o_helpers_module_name(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::helpers::operator" => o_helpers_operator(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::helpers::spaces" => o_helpers_spaces(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::helpers::spaces0" => o_helpers_spaces0(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::helpers::spaces_and_newlines" => o_helpers_spaces_and_newlines(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::helpers::single_line_comment" => o_helpers_single_line_comment(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::helpers::spaces_or_new_lines_and_indent" => o_helpers_spaces_or_new_lines_and_indent(i, ind, ir).map(|(r, t)| (r, format!("{:?}", t))),
"ast::helpers::opt_spaces_or_new_lines_and_indent" => o_helpers_opt_spaces_or_new_lines_and_indent(i, ind, ir).map(|(r, t)| (r, format!("{:?}", t))),
"ast::helpers::new_line_and_same_indent" => o_helpers_new_line_and_same_indent(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::type_::type_variable" => o_type__type_variable(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::type_::type_constant" => o_type__type_constant(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::type_::type_tuple" => o_type__type_tuple(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::type_::type_record_pair" => o_type__type_record_pair(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::type_::type_record_pairs" => o_type__type_record_pairs(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::type_::type_record_constructor" => o_type__type_record_constructor(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::type_::type_record" => o_type__type_record(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::type_::type_parameter" => o_type__type_parameter(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::type_::type_constructor" => o_type__type_constructor(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::type_::type_" => o_type__type_(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::type_::type_annotation" => o_type__type_annotation(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::variable::lower_case" => o_expression_variable_lower_case(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::variable::upper_with_dots" => o_expression_variable_upper_with_dots(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::variable::op" => o_expression_variable_op(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::variable::variable" => o_expression_variable_variable(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::access::access" => o_expression_access_access(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::access_function::access_function" => o_expression_access_function_access_function(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::character::character_content" => o_expression_character_character_content(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::character::character" => o_expression_character_character(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::float::float" => o_expression_float_float(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::integer::integer" => o_expression_integer_integer(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::string::single_string" => o_expression_string_single_string(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::string::multi_string" => o_expression_string_multi_string(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::string::string" => o_expression_string_string(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::tuple" => o_expression_tuple(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::list" => o_expression_list(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::record" => o_expression_record(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::simplified_record" => o_expression_simplified_record(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::record_update" => o_expression_record_update(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::parens" => o_expression_parens(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::term" => o_expression_term(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::lambda" => o_expression_lambda(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::application_or_var" => o_expression_application_or_var(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::let_binding_target" => o_expression_let_binding_target(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::let_binding" => o_expression_let_binding(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::let_bindings" => o_expression_let_bindings(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::let_expression" => o_expression_let_expression(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::case" => o_expression_case(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::cases" => o_expression_cases(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::case_expression" => o_expression_case_expression(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::if_expression" => o_expression_if_expression(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::operator_or_as" => o_expression_operator_or_as(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::binary" => o_expression_binary(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::expression" => o_expression_expression(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::function::function_signature" => o_expression_function_function_signature(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::function::function_definition" => o_expression_function_function_definition(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::expression::function::function" => o_expression_function_function(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::comment::single_line_comment" => o_statement_comment_single_line_comment(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::comment::multi_line_comment" => o_statement_comment_multi_line_comment(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::comment::comment" => o_statement_comment_comment(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::export::all_export" => o_statement_export_all_export(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::export::function_export" => o_statement_export_function_export(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::export::constructor_subset_exports" => o_statement_export_constructor_subset_exports(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::export::constructor_exports" => o_statement_export_constructor_exports(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::export::type_export" => o_statement_export_type_export(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::export::subset_export" => o_statement_export_subset_export(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::export::exports" => o_statement_export_exports(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::import::import_statement" => o_statement_import_import_statement(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::infix::infix_declaration" => o_statement_infix_infix_declaration(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::module::port_module_declaration" => o_statement_module_port_module_declaration(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::module::effect_module_declaration" => o_statement_module_effect_module_declaration(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::module::module_declaration" => o_statement_module_module_declaration(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::port::port_type_declaration" => o_statement_port_port_type_declaration(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::port::port_declaration" => o_statement_port_port_declaration(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::type_declaration::type_alias_declaration" => o_statement_type_declaration_type_alias_declaration(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::type_declaration::type_declaration" => o_statement_type_declaration_type_declaration(i, ind).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::statement" => o_statement_statement(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::statement::statements" => o_statement_statements(i).map(|(r, t)| (r, format!("{:?}", t))),
"ast::file" => o_file(i).map(|(r, t)| (r, format!("{:?}", t))),
 _ => panic!("unknown function") } }
pub fn generate(f: &str, g: &mut G, ind: u32, ir: IR) -> u32 { match f { "ast::helpers::lo_name" => g_helpers_lo_name(g),
"ast::helpers::function_name" => g_helpers_function_name(g),
"ast::helpers::up_name" => g_helpers_up_name(g),
"ast::helpers::module_name" => g_helpers_module_name(g),
"ast::helpers::operator" => g_helpers_operator(g),
"ast::helpers::spaces" => g_helpers_spaces(g),
"ast::helpers::spaces0" => g_helpers_spaces0(g),
"ast::helpers::spaces_and_newlines" => g_helpers_spaces_and_newlines(g),
"ast::helpers::single_line_comment" => g_helpers_single_line_comment(g),
"ast::helpers::spaces_or_new_lines_and_indent" => g_helpers_spaces_or_new_lines_and_indent(g, ind, ir),
"ast::helpers::opt_spaces_or_new_lines_and_indent" => g_helpers_opt_spaces_or_new_lines_and_indent(g, ind, ir),
"ast::helpers::new_line_and_same_indent" => g_helpers_new_line_and_same_indent(g, ind),
"ast::type_::type_variable" => g_type__type_variable(g),
"ast::type_::type_constant" => g_type__type_constant(g),
"ast::type_::type_tuple" => g_type__type_tuple(g, ind),
"ast::type_::type_record_pair" => g_type__type_record_pair(g, ind),
"ast::type_::type_record_pairs" => g_type__type_record_pairs(g, ind),
"ast::type_::type_record_constructor" => g_type__type_record_constructor(g, ind),
"ast::type_::type_record" => g_type__type_record(g, ind),
"ast::type_::type_parameter" => g_type__type_parameter(g, ind),
"ast::type_::type_constructor" => g_type__type_constructor(g, ind),
"ast::type_::type_" => g_type__type_(g, ind),
"ast::type_::type_annotation" => g_type__type_annotation(g, ind),
"ast::expression::variable::lower_case" => g_expression_variable_lower_case(g),
"ast::expression::variable::upper_with_dots" => g_expression_variable_upper_with_dots(g),
"ast::expression::variable::op" => g_expression_variable_op(g),
"ast::expression::variable::variable" => g_expression_variable_variable(g),
"ast::expression::access::access" => g_expression_access_access(g),
"ast::expression::access_function::access_function" => g_expression_access_function_access_function(g),
"ast::expression::character::character_content" => g_expression_character_character_content(g),
"ast::expression::character::character" => g_expression_character_character(g),
"ast::expression::float::float" => g_expression_float_float(g),
"ast::expression::integer::integer" => g_expression_integer_integer(g),
"ast::expression::string::single_string" => g_expression_string_single_string(g),
"ast::expression::string::multi_string" => g_expression_string_multi_string(g),
"ast::expression::string::string" => g_expression_string_string(g),
"ast::expression::tuple" => g_expression_tuple(g, ind),
"ast::expression::list" => g_expression_list(g, ind),
"ast::expression::record" => g_expression_record(g, ind),
"ast::expression::simplified_record" => g_expression_simplified_record(g, ind),
"ast::expression::record_update" => g_expression_record_update(g, ind),
"ast::expression::parens" => g_expression_parens(g, ind),
"ast::expression::term" => g_expression_term(g, ind),
"ast::expression::lambda" => g_expression_lambda(g, ind),
"ast::expression::application_or_var" => g_expression_application_or_var(g, ind),
"ast::expression::let_binding_target" => g_expression_let_binding_target(g, ind),
"ast::expression::let_binding" => g_expression_let_binding(g, ind),
"ast::expression::let_bindings" => g_expression_let_bindings(g, ind),
"ast::expression::let_expression" => g_expression_let_expression(g, ind),
"ast::expression::case" => g_expression_case(g, ind),
"ast::expression::cases" => g_expression_cases(g, ind),
"ast::expression::case_expression" => g_expression_case_expression(g, ind),
"ast::expression::if_expression" => g_expression_if_expression(g, ind),
"ast::expression::operator_or_as" => g_expression_operator_or_as(g),
"ast::expression::binary" => g_expression_binary(g, ind),
"ast::expression::expression" => g_expression_expression(g, ind),
"ast::expression::function::function_signature" => g_expression_function_function_signature(g, ind),
"ast::expression::function::function_definition" => g_expression_function_function_definition(g, ind),
"ast::expression::function::function" => g_expression_function_function(g, ind),
"ast::statement::comment::single_line_comment" => g_statement_comment_single_line_comment(g),
"ast::statement::comment::multi_line_comment" => g_statement_comment_multi_line_comment(g),
"ast::statement::comment::comment" => g_statement_comment_comment(g),
"ast::statement::export::all_export" => g_statement_export_all_export(g),
"ast::statement::export::function_export" => g_statement_export_function_export(g),
"ast::statement::export::constructor_subset_exports" => g_statement_export_constructor_subset_exports(g),
"ast::statement::export::constructor_exports" => g_statement_export_constructor_exports(g),
"ast::statement::export::type_export" => g_statement_export_type_export(g),
"ast::statement::export::subset_export" => g_statement_export_subset_export(g),
"ast::statement::export::exports" => g_statement_export_exports(g),
"ast::statement::import::import_statement" => g_statement_import_import_statement(g),
"ast::statement::infix::infix_declaration" => g_statement_infix_infix_declaration(g),
"ast::statement::module::port_module_declaration" => g_statement_module_port_module_declaration(g),
"ast::statement::module::effect_module_declaration" => g_statement_module_effect_module_declaration(g),
"ast::statement::module::module_declaration" => g_statement_module_module_declaration(g),
"ast::statement::port::port_type_declaration" => g_statement_port_port_type_declaration(g),
"ast::statement::port::port_declaration" => g_statement_port_port_declaration(g),
"ast::statement::type_declaration::type_alias_declaration" => g_statement_type_declaration_type_alias_declaration(g),
"ast::statement::type_declaration::type_declaration" => g_statement_type_declaration_type_declaration(g, ind),
"ast::statement::statement" => g_statement_statement(g),
"ast::statement::statements" => g_statement_statements(g),
"ast::file" => g_file(g),
 _ => panic!("unknown function") } }
