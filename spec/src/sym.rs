//! Contracts of the symbol library text.
use prim::*;
use kicad_parse_gen::symbol_lib::{self, Draw, Field, Pin, Rectangle, Symbol, SymbolLib};

/// a text without line breaks and quotes
pub fn ok_line(s: &String) -> bool {
    !s.contains('\n') && !s.contains('\r') && !s.contains('"')
}

/// a text that is one field of a line
pub fn ok_word(s: &String) -> bool {
    ok_line(s) && !s.contains(' ') && !s.is_empty()
}

pub fn ok_field(f: &Field) -> bool {
    ok_line(&f.value) && ok_line(&f.name) && f.x.is_finite() && f.y.is_finite()
        && f.i >= 0
        && (f.i != 0 || f.name == "Reference")
        && (f.i != 1 || f.name == "Value")
        && (f.i != 2 || f.name == "Footprint")
        && (f.i != 3 || f.name == "UserDocLink")
}

pub fn ok_pin(p: &Pin) -> bool {
    ok_word(&p.name) && ok_word(&p.number)
}

pub fn ok_draw(d: &Draw) -> bool {
    match *d {
        Draw::Pin(ref p) => ok_pin(p),
        Draw::Rectangle(_) => true,
        Draw::Other(ref s) => ok_line(s) && !s.starts_with("X ") && !s.starts_with("S ") && s != "ENDDRAW",
    }
}

pub fn ok_symbol(s: &Symbol) -> bool {
    ok_word(&s.name) && ok_word(&s.reference) && s.text_offset.is_finite()
        && forall(&s.fields, ok_field)
        && forall(&s.aliases, ok_word)
        && forall(&s.draw, ok_draw)
}

fn back(l: &SymbolLib) {
    let t = format!("{}", l);
    match symbol_lib::parse_str(&t) {
        Ok(m) => check(same(&m, l), "reads back the same"),
        Err(_) => check(false, "what is written can be read"),
    }
}

fn one(s: Symbol) -> SymbolLib {
    SymbolLib { symbols: vec![s] }
}

fn blank() -> Symbol {
    Symbol::new(String::from("n"), String::from("r"))
}

pub fn h_sym_rect(r: Rectangle) {
    let mut s = blank();
    s.draw.push(Draw::Rectangle(r));
    back(&one(s));
}

pub fn h_sym_field(f: Field) {
    assume(ok_field(&f));
    let mut s = blank();
    s.fields.push(f);
    back(&one(s));
}

pub fn h_sym_pin(p: Pin) {
    assume(ok_pin(&p));
    let mut s = blank();
    s.draw.push(Draw::Pin(p));
    back(&one(s));
}

pub fn h_sym_drawing(s: Symbol) {
    assume(ok_symbol(&s));
    assume(s.fields.is_empty());
    assume(s.aliases.is_empty());
    back(&one(s));
}

pub fn h_sym_aliases(s: Symbol) {
    assume(ok_symbol(&s));
    assume(s.fields.is_empty());
    assume(s.draw.is_empty());
    back(&one(s));
}

pub fn h_sym_symbol(s: Symbol) {
    assume(ok_symbol(&s));
    back(&one(s));
}

pub fn h_sym_lib(l: SymbolLib) {
    assume(forall(&l.symbols, ok_symbol));
    back(&l);
}
