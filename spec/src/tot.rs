//! Contracts of reading arbitrary text.
use prim::*;
use kicad_parse_gen::{footprint, fp_lib_table, layout, project, schematic, symbol_lib};
#[cfg(kicad_verif)]
use kicad_parse_gen::verif;

/// splitting any line gives a value or an error, and as many fields as asked for
#[cfg(kicad_verif)]
pub fn h_any_split(n: Option<usize>, s: String) {
    match verif::split(n, &s) {
        Ok(v) => if let Some(k) = n {
            check(v.len() >= k, "as many fields as asked for");
        },
        Err(_) => check(n.is_some(), "only a missing field is an error"),
    }
}

/// the first field starts with the first character of the line
#[cfg(kicad_verif)]
pub fn h_any_first(n: Option<usize>, c: char, s: String) {
    assume(c != ' ' && c != '"' && n != Some(0));
    let mut t = String::new();
    t.push(c);
    t.push_str(&s);
    if let Ok(v) = verif::split(n, &t) {
        check(!v.is_empty(), "there is a field");
        check(v[0].chars().next() == Some(c), "the first field starts with the first character");
    }
}

/// reading any text as a schematic gives a value or an error
pub fn h_any_schematic(sch_text: String) {
    let _ = schematic::parse_str(&sch_text);
    check(true, "reading returns");
}

/// reading any text as a symbol library gives a value or an error
pub fn h_any_symbol_lib(sym_text: String) {
    let _ = symbol_lib::parse_str(&sym_text);
    check(true, "reading returns");
}

/// reading any text as a footprint gives a value or an error
pub fn h_any_module(module_text: String) {
    let _ = footprint::parse(&module_text);
    check(true, "reading returns");
}

/// reading any text as a layout gives a value or an error
pub fn h_any_layout(layout_text: String) {
    let _ = layout::parse(&layout_text);
    check(true, "reading returns");
}

/// reading any text as a library table gives a value or an error
pub fn h_any_table(table_text: String) {
    let _ = fp_lib_table::parse(&table_text);
    check(true, "reading returns");
}

/// reading any text as a project gives a value or an error
pub fn h_any_project(s: String) {
    let _ = project::parse_str(&s);
    check(true, "reading returns");
}
