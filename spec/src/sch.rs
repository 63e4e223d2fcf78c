//! Contracts of the schematic text.
use prim::*;
use sym::{ok_line, ok_word};
use kicad_parse_gen::schematic::{self, Component, ComponentField, Connection, Description, Element, NoConnect, Schematic,
                                 Sheet, SheetLabel, Text, TextType, Wire};

/// a word without any white space
pub fn ok_bare(s: &String) -> bool {
    if !ok_word(s) {
        return false;
    }
    for c in ['\t', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}',
              '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}'].iter() {
        if s.contains(*c) {
            return false;
        }
    }
    true
}

/// a text whose first word is not w
fn other_than(s: &String, w: &str) -> bool {
    s.split_whitespace().next() != Some(w)
}

pub fn ok_sch_description(d: &Description) -> bool {
    ok_word(&d.size) && ok_line(&d.title) && ok_line(&d.date) && ok_line(&d.rev) && ok_line(&d.comp) && ok_line(&d.comment1)
        && ok_line(&d.comment2) && ok_line(&d.comment3) && ok_line(&d.comment4)
}

pub fn ok_sch_field(f: &ComponentField) -> bool {
    ok_line(&f.value) && ok_line(&f.name) && f.x.is_finite() && f.y.is_finite()
        && f.i >= 0
        && (f.i != 0 || f.name == "Reference")
        && (f.i != 1 || f.name == "Value")
        && (f.i != 2 || f.name == "Footprint")
        && (f.i != 3 || f.name == "UserDocLink")
}

pub fn ok_path(s: &String) -> bool {
    ok_line(s) && s.starts_with("AR ")
}

pub fn ok_component(c: &Component) -> bool {
    ok_word(&c.name) && ok_word(&c.reference) && ok_line(&c.u) && c.u.starts_with("U ")
        && forall(&c.ar_path, ok_path)
        && forall(&c.fields, ok_sch_field)
}

pub fn ok_text(t: &Text) -> bool {
    ok_line(&t.text) && match t.t {
        TextType::Note | TextType::Label => t.shape.is_none(),
        TextType::Global | TextType::Hierarchical => match t.shape {
            Some(ref s) => ok_bare(s),
            None => false,
        },
    }
}

pub fn ok_other(s: &String) -> bool {
    ok_line(s) && s.split_whitespace().next().is_some()
        && other_than(s, "$Descr") && other_than(s, "$Comp") && other_than(s, "$Sheet") && other_than(s, "$EndSCHEMATC")
        && other_than(s, "Wire") && other_than(s, "Connection") && other_than(s, "NoConn") && other_than(s, "Text")
}

pub fn ok_element(e: &Element) -> bool {
    match *e {
        Element::Component(ref c) => ok_component(c),
        Element::Text(ref t) => ok_text(t),
        Element::Other(ref s) => ok_other(s),
        _ => true,
    }
}

pub fn ok_label(l: &SheetLabel) -> bool {
    ok_line(&l.name)
}

pub fn ok_sheet(s: &Sheet) -> bool {
    ok_word(&s.unique) && ok_line(&s.name) && ok_line(&s.filename) && s.labels.len() < 0x7fff_fff0 && forall(&s.labels, ok_label)
}

pub fn ok_layer(s: &String) -> bool {
    ok_line(s) && s.starts_with("EELAYER ")
}

pub fn ok_schematic(s: &Schematic) -> bool {
    s.filename.is_none() && forall(&s.libraries, ok_line) && ok_layer(&s.eelayer) && ok_sch_description(&s.description)
        && forall(&s.elements, ok_element) && forall(&s.sheets, ok_sheet)
}

fn blank() -> Schematic {
    let mut s = Schematic::default();
    s.eelayer = String::from("EELAYER 25 0");
    s.description.size = String::from("A4");
    s
}

fn back(s: &Schematic) {
    let t = format!("{}", s);
    match schematic::parse_str(&t) {
        Ok(m) => check(same(&m, s), "reads back the same"),
        Err(_) => check(false, "what is written can be read"),
    }
}

fn one(e: Element) {
    let mut s = blank();
    s.elements.push(e);
    back(&s);
}

pub fn h_sch_connection(c: Connection) {
    one(Element::Connection(c));
}

pub fn h_sch_no_connect(c: NoConnect) {
    one(Element::NoConnect(c));
}

pub fn h_sch_wire(w: Wire) {
    one(Element::Wire(w));
}

pub fn h_sch_text(t: Text) {
    assume(ok_text(&t));
    one(Element::Text(t));
}

pub fn h_sch_other(s: String) {
    assume(ok_other(&s));
    one(Element::Other(s));
}

pub fn h_sch_field(f: ComponentField) {
    assume(ok_sch_field(&f));
    let mut c = Component::default();
    c.u = String::from("U 1 1 0");
    c.fields.push(f);
    one(Element::Component(c));
}

pub fn h_sch_component(c: Component) {
    assume(ok_component(&c));
    one(Element::Component(c));
}

pub fn h_sch_sheet(t: Sheet) {
    assume(ok_sheet(&t));
    let mut s = blank();
    s.sheets.push(t);
    back(&s);
}

pub fn h_sch_description(d: Description, libraries: Vec<String>, eelayer: String) {
    assume(ok_sch_description(&d) && forall(&libraries, ok_line) && ok_layer(&eelayer));
    let mut s = blank();
    s.description = d;
    s.libraries = libraries;
    s.eelayer = eelayer;
    back(&s);
}

pub fn h_sch_schematic(s: Schematic) {
    assume(ok_schematic(&s));
    back(&s);
}
