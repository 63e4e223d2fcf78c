//! Footprint library tables, and the text level of all symbolic-expression formats.
use prim::*;
use kicad_parse_gen::{footprint, fp_lib_table, layout};
use kicad_parse_gen::fp_lib_table::{FpLibTable, Lib};
use symbolic_expressions::{IntoSexp, Sexp};
use fp::wf_module;
use lay::wf_layout;

rt!(wf_lib, h_read_lib, h_rt_lib, Lib);
pub fn wf_lib(_x: &Lib) -> bool {
    true
}

rt!(wf_table, h_read_table, h_rt_table, FpLibTable);
pub fn wf_table(x: &FpLibTable) -> bool {
    forall(&x.libs, |l| wf_lib(l))
}

/// a footprint written as text reads back as itself
pub fn h_text_module(x: footprint::Module, indent: i64) {
    assume(wf_module(&x) && plain(&x) && small(indent));
    match footprint::module_to_string(&x, indent) {
        Ok(t) => match footprint::parse(&t) {
            Ok(y) => check(same(&y, &x), "the text reads back the same"),
            Err(_) => check(false, "what is written can be read"),
        },
        Err(_) => check(false, "writing succeeds"),
    }
}

/// a layout written as text reads back as itself
pub fn h_text_layout(x: layout::Layout, indent: i64) {
    assume(wf_layout(&x) && plain(&x) && small(indent));
    match layout::layout_to_string(&x, indent) {
        Ok(t) => match layout::parse(&t) {
            Ok(y) => check(same(&y, &x), "the text reads back the same"),
            Err(_) => check(false, "what is written can be read"),
        },
        Err(_) => check(false, "writing succeeds"),
    }
}

/// a library table written as text reads back as itself
pub fn h_text_table(x: FpLibTable, indent: i64) {
    assume(wf_table(&x) && plain(&x) && small(indent));
    match fp_lib_table::to_string(&x, indent) {
        Ok(t) => match fp_lib_table::parse(&t) {
            Ok(y) => check(same(&y, &x), "the text reads back the same"),
            Err(_) => check(false, "what is written can be read"),
        },
        Err(_) => check(false, "writing succeeds"),
    }
}

/// an indentation level that can be written out
fn small(i: i64) -> bool {
    i > -100 && i < 100
}
