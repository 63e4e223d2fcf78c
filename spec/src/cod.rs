//! Contracts of the text codes of enumerated values.
use prim::*;
use sym::ok_word;
use sch::ok_bare;
use kicad_parse_gen::footprint::{self, Layer, LayerSide, PadShape, PadType};
use kicad_parse_gen::layout;
use kicad_parse_gen::schematic::{self, Element, LabelForm, LabelSide, Schematic, Sheet, SheetLabel, Text, TextType, Wire, WireType};
use kicad_parse_gen::symbol_lib::{self, Draw, Fill, Pin, PinOrientation, PinShape, PinType, Rectangle, Symbol, SymbolLib};
use symbolic_expressions::Sexp;
use symbolic_expressions::iteratom::{FromSexp};
use symbolic_expressions::IntoSexp;

// ---------------------------------------------------------------- footprint and layout
fn code<T: IntoSexp>(x: &T) -> String {
    match x.into_sexp() {
        Sexp::String(s) => s,
        _ => String::new(),
    }
}

pub fn h_code_pad_type(x: PadType) {
    match PadType::from_string(&code(&x)) {
        Ok(y) => check(same(&x, &y), "a pad type reads back"),
        Err(_) => check(false, "a written pad type can be read"),
    }
}

pub fn h_code_pad_type_unknown(s: String) {
    if let Ok(x) = PadType::from_string(&s) {
        check(code(&x) == s, "only codes of pad types are accepted");
    }
}

pub fn h_code_pad_shape(x: PadShape) {
    match PadShape::from_string(&code(&x)) {
        Ok(y) => check(same(&x, &y), "a pad shape reads back"),
        Err(_) => check(false, "a written pad shape can be read"),
    }
}

pub fn h_code_pad_shape_unknown(s: String) {
    if let Ok(x) = PadShape::from_string(&s) {
        check(code(&x) == s, "only codes of pad shapes are accepted");
    }
}

/// of all layer names of one or two words, only those of the layer read are accepted
pub fn h_code_layer_unknown(side: String, kind: String) {
    assume(!side.contains('.') && !kind.contains('.'));
    let s = format!("{}.{}", side, kind);
    if let Ok(x) = Layer::from_string(&s) {
        check(format!("{}", x) == s, "only codes of layers are accepted");
    }
    match Layer::from_string(&kind) {
        Ok(x) => {
            check(same(&x.side, &LayerSide::None), "a name without a side has none");
            check(format!("{}", x) == kind, "a layer type reads back");
        }
        Err(_) => check(false, "any layer type is accepted"),
    }
}

pub fn h_code_layer_kind(x: layout::LayerType) {
    match layout::LayerType::from_sexp(&Sexp::String(format!("{}", x))) {
        Ok(y) => check(same(&x, &y), "a board layer kind reads back"),
        Err(_) => check(false, "a written board layer kind can be read"),
    }
}

pub fn h_code_layer_kind_unknown(s: String) {
    let e = Sexp::String(s.clone());
    if let Ok(x) = layout::LayerType::from_sexp(&e) {
        check(format!("{}", x) == s, "only codes of board layer kinds are accepted");
    }
}

pub fn h_code_text_justify(x: footprint::Justify) {
    let e = x.into_sexp();
    match footprint::Justify::from_sexp(&e) {
        Ok(y) => check(same(&x, &y), "a text justification reads back"),
        Err(_) => check(false, "a written text justification can be read"),
    }
}

pub fn h_code_text_justify_unknown(s: String) {
    let e = Sexp::List(vec![Sexp::String(String::from("justify")), Sexp::String(s)]);
    if let Ok(x) = footprint::Justify::from_sexp(&e) {
        check(same(&x.into_sexp(), &e), "only codes of text justifications are accepted");
    }
}

// ---------------------------------------------------------------- schematic
fn lines(v: Vec<String>) -> Option<Schematic> {
    let mut s = Schematic::default();
    s.eelayer = String::from("EELAYER 25 0");
    s.description.size = String::from("A4");
    for l in v {
        s.elements.push(Element::Other(l));
    }
    schematic::parse_str(&format!("{}", s)).ok()
}

fn label(form: &str, side: &str) -> Option<SheetLabel> {
    let s = lines(vec![String::from("$Sheet"), format!("F2 \"a\" {} {} 0 0 60", form, side), String::from("$EndSheet")]);
    match s {
        Some(mut s) => match s.sheets.pop() {
            Some(mut t) => t.labels.pop(),
            None => None,
        },
        None => None,
    }
}

pub fn h_code_label(form: LabelForm, side: LabelSide) {
    match label(&format!("{}", form), &format!("{}", side)) {
        Some(l) => {
            check(same(&l.form, &form), "a label form reads back");
            check(same(&l.side, &side), "a label side reads back");
        }
        None => check(false, "a written label can be read"),
    }
}

pub fn h_code_label_unknown(form: String, side: String) {
    assume(ok_word(&form) && ok_word(&side));
    if let Some(l) = label(&form, &side) {
        check(format!("{}", l.form) == form, "only codes of label forms are accepted");
        check(format!("{}", l.side) == side, "only codes of label sides are accepted");
    }
}

pub fn h_code_wire(t: WireType) {
    match lines(vec![format!("Wire {} Line", t), String::from("\t1 2 3 4")]) {
        Some(mut s) => match s.elements.pop() {
            Some(Element::Wire(w)) => check(same(&w.type_, &t), "a wire kind reads back"),
            _ => check(false, "a wire is read"),
        },
        None => check(false, "a written wire can be read"),
    }
}

fn text(v: Vec<String>) -> Option<TextType> {
    match lines(v) {
        Some(mut s) => match s.elements.pop() {
            Some(Element::Text(t)) => Some(t.t),
            _ => None,
        },
        None => None,
    }
}

pub fn h_code_text(t: TextType) {
    let f = match t {
        TextType::Note | TextType::Label => "",
        TextType::Global | TextType::Hierarchical => "BiDi ",
    };
    match text(vec![format!("Text {} 1 2 0 60 {}~ 0", t, f), String::from("x")]) {
        Some(u) => check(same(&t, &u), "a text kind reads back"),
        None => check(false, "a written text can be read"),
    }
}

pub fn h_code_text_unknown(t: String, long: bool) {
    assume(ok_bare(&t));
    if let Some(u) = text(vec![format!("Text {} 1 2 0 60 {}~ 0", t, if long { "BiDi " } else { "" }), String::from("x")]) {
        check(format!("{}", u) == t, "only codes of text kinds are accepted");
    }
}

// ---------------------------------------------------------------- symbol library
fn drawing(l: String) -> Option<Draw> {
    let mut s = Symbol::new(String::from("n"), String::from("r"));
    s.draw.push(Draw::Other(l));
    match symbol_lib::parse_str(&format!("{}", SymbolLib { symbols: vec![s] })) {
        Ok(mut l) => match l.symbols.pop() {
            Some(mut s) => s.draw.pop(),
            None => None,
        },
        Err(_) => None,
    }
}

fn pin(o: &str, t: &str, end: &str) -> Option<Pin> {
    match drawing(format!("X a 1 0 0 0 {} 50 50 1 1 {}{}", o, t, end)) {
        Some(Draw::Pin(p)) => Some(p),
        _ => None,
    }
}

pub fn h_code_pin(o: PinOrientation, t: PinType) {
    match pin(&format!("{}", o), &format!("{}", t), "") {
        Some(p) => {
            check(same(&p.orientation, &o), "a pin orientation reads back");
            check(same(&p.pin_type, &t), "a pin type reads back");
            check(same(&p.pin_shape, &PinShape::Line), "no shape is a line");
        }
        None => check(false, "a written pin can be read"),
    }
}

pub fn h_code_pin_unknown(o: String, t: String) {
    assume(ok_word(&o) && ok_word(&t));
    if let Some(p) = pin(&o, &t, "") {
        check(format!("{}", p.orientation) == o, "only codes of pin orientations are accepted");
        check(format!("{}", p.pin_type) == t, "only codes of pin types are accepted");
    }
}

pub fn h_code_pin_shape(x: PinShape, visible: bool) {
    match pin("U", "I", &format!(" {}{}", if visible { "" } else { "N" }, x)) {
        Some(p) => {
            check(same(&p.pin_shape, &x), "a pin shape reads back");
            check(p.pin_visible == visible, "the visibility reads back");
        }
        None => check(false, "a written pin shape can be read"),
    }
}

pub fn h_code_pin_shape_unknown(s: String) {
    assume(ok_word(&s));
    if let Some(p) = pin("U", "I", &format!(" {}", s)) {
        check(format!("{}{}", if p.pin_visible { "" } else { "N" }, p.pin_shape) == s, "only codes of pin shapes are accepted");
    }
}

fn fill(c: &str) -> Option<Fill> {
    match drawing(format!("S 0 0 0 0 0 1 0 {}", c)) {
        Some(Draw::Rectangle(r)) => Some(r.fill),
        _ => None,
    }
}

pub fn h_code_fill(x: Fill) {
    match fill(&format!("{}", x)) {
        Some(y) => check(same(&x, &y), "a fill style reads back"),
        None => check(false, "a written fill style can be read"),
    }
}

pub fn h_code_fill_unknown(s: String) {
    assume(ok_word(&s));
    if let Some(x) = fill(&s) {
        check(format!("{}", x) == s, "only codes of fill styles are accepted");
    }
}
