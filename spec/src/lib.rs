//! Contracts for kicad_parse_gen.
//!
//! Every `h_*` function states one contract: its parameters are universally
//! quantified, `assume` is the precondition and `check` an obligation.
extern crate kicad_parse_gen;
extern crate symbolic_expressions;

/// contract of a reader / writer pair
macro_rules! rt {
    ($wf:ident, $read:ident, $rt:ident, $t:ty) => {
        /// reading any tree returns, and only well-formed values
        pub fn $read(s: Sexp) {
            if let Ok(x) = <$t as ::symbolic_expressions::iteratom::FromSexp>::from_sexp(&s) {
                check($wf(&x), "a value read is well-formed");
            }
        }
        /// a well-formed value reads back as itself
        pub fn $rt(x: $t) {
            assume($wf(&x));
            let s = x.into_sexp();
            match <$t as ::symbolic_expressions::iteratom::FromSexp>::from_sexp(&s) {
                Ok(y) => check(same(&y, &x), "reads back the same"),
                Err(_) => check(false, "what is written can be read"),
            }
        }
    };
}

pub mod prim;
pub mod shim;
pub mod fp;
pub mod lay;
pub mod tab;
pub mod ops;
pub mod bbox;
pub mod look;
pub mod txt;
pub mod klc;
pub mod sch;
pub mod cod;
pub mod disk;
pub mod file;
pub mod fix;
pub mod form;
pub mod tot;
pub mod sym;

use symbolic_expressions::Sexp;

/// text of a symbolic expression in error messages
pub fn h_total_sexp_display(s: Sexp) {
    let _ = format!("{}", s);
}

/// vacuity guard: this contract must be rejected
pub fn x_canary(s: kicad_parse_gen::footprint::Module) {
    prim::check(s.elements.len() < 7, "must fail");
}
