//! Library conventions: what a check reports and what a fix does.
use prim::*;
use kicad_parse_gen::checkfix::{CheckFix, CheckFixData, CheckFixItem, Config};
use kicad_parse_gen::symbol_lib::{Draw, Field, Fill, Pin, PinType, Rectangle, Symbol};
use txt::name_items;
use kicad_parse_gen::footprint::{Element, FpText, LayerType, Module, PadType};

fn item(section: i64, rule: i64, item: &str, message: String, info: bool) -> CheckFixData {
    CheckFixData::Item(CheckFixItem { section: section, rule: rule, item: String::from(item), message: message, info: info })
}

fn bad(v: &mut Vec<CheckFixData>, section: i64, rule: i64, name: &str, message: &str) {
    v.push(item(section, rule, name, String::from(message), false))
}

fn text<'a>(m: &'a Module, name: &str) -> Option<&'a FpText> {
    for e in &m.elements {
        if let Element::FpText(ref t) = *e {
            if t.name == name {
                return Some(t);
            }
        }
    }
    None
}

fn differs(a: f64, b: f64) -> bool {
    (a - b).abs() > ::std::f64::EPSILON
}

/// letter height, width and thickness
fn letters(v: &mut Vec<CheckFixData>, name: &str, which: &str, t: &FpText, size: f64, thickness: f64) {
    if differs(t.effects.font.size.y, size) {
        v.push(item(7, 3, name, format!("{} label should have height {}", which, size), true));
    }
    if differs(t.effects.font.size.x, size) {
        v.push(item(7, 3, name, format!("{} label should have width {}", which, size), true));
    }
    if differs(t.effects.font.thickness, thickness) {
        v.push(item(7, 3, name, format!("{} label thickness should be {}", which, thickness), true));
    }
}

pub fn reference(v: &mut Vec<CheckFixData>, m: &Module, c: &Config) {
    match text(m, "reference") {
        None => bad(v, 7, 3, &m.name, "reference missing"),
        Some(t) => {
            if t.value != "REF**" {
                bad(v, 7, 3, &m.name, "reference should be REF**");
            }
            if t.layer.t != LayerType::SilkS {
                bad(v, 7, 3, &m.name, "reference should be on SilkS layertype");
            }
            if t.hide {
                bad(v, 7, 3, &m.name, "reference should not be hidden");
            }
            if differs(t.effects.font.size.x, t.effects.font.size.y) {
                bad(v, 7, 3, &m.name, "reference label font aspect ratio should be 1:1");
            }
            letters(v, &m.name, "reference", t, c.m.font_size, c.m.font_thickness);
        }
    }
}

pub fn value(v: &mut Vec<CheckFixData>, m: &Module, c: &Config) {
    match text(m, "value") {
        None => bad(v, 7, 4, &m.name, "value missing"),
        Some(t) => {
            if t.value != m.name {
                bad(v, 7, 4, &m.name, "value text has to match footprint name");
            }
            if t.layer.t != LayerType::Fab {
                bad(v, 7, 4, &m.name, "value text has to be on Fab layer");
            }
            if t.hide {
                bad(v, 7, 4, &m.name, "value text should not be hidden");
            }
            letters(v, &m.name, "value", t, c.m.font_size, c.m.font_thickness);
        }
    }
}

pub fn reference2(v: &mut Vec<CheckFixData>, m: &Module, c: &Config) {
    match text(m, "user") {
        None => bad(v, 7, 4, &m.name, "reference 2 missing"),
        Some(t) => {
            if t.value != "%R" {
                bad(v, 7, 4, &m.name, "reference 2 should be %R");
            }
            if t.layer.t != LayerType::Fab {
                bad(v, 7, 4, &m.name, "reference 2 should be on Fab layertype");
            }
            if differs(t.effects.font.size.x, t.effects.font.size.y) {
                bad(v, 7, 4, &m.name, "reference 2 label font aspect ratio should be 1:1");
            }
            letters(v, &m.name, "reference 2", t, c.m.font_size, c.m.font_thickness);
        }
    }
}

/// number of elements satisfying a condition
pub fn count<F: Fn(&Element) -> bool>(m: &Module, f: F) -> i64 {
    let mut n = 0;
    for e in &m.elements {
        if f(e) {
            n += 1;
        }
    }
    n
}

pub fn courtyard(e: &Element) -> bool {
    match *e {
        Element::FpLine(ref l) => l.layer.t == LayerType::CrtYd,
        _ => false,
    }
}

fn pad(e: &Element, t: PadType) -> bool {
    match *e {
        Element::Pad(ref p) => p.t == t,
        _ => false,
    }
}

fn smd_attr(m: &Module) -> bool {
    for e in &m.elements {
        if let Element::Attr(ref a) = *e {
            if a == "smd" {
                return true;
            }
        }
    }
    false
}

pub fn placement(v: &mut Vec<CheckFixData>, m: &Module) {
    let smd = count(m, |e| pad(e, PadType::Smd)) > 0;
    let pth = count(m, |e| pad(e, PadType::Pth)) > 0;
    if smd && !pth && !smd_attr(m) {
        bad(v, 8, 1, &m.name, "SMD components need to have placement Smd (Normal+Insert in Properties)");
    }
    if pth && !smd && smd_attr(m) {
        bad(v, 9, 1, &m.name, "SMD components need to have placement Smd (Normal+Insert in Properties)");
    }
}

/// what a check of a footprint has to report
fn findings(m: &Module, c: &Config) -> Vec<CheckFixData> {
    let mut v = vec![];
    reference(&mut v, m, c);
    value(&mut v, m, c);
    reference2(&mut v, m, c);
    if count(m, courtyard) < 4 {
        bad(&mut v, 7, 5, &m.name, "missing courtyard on CrtYd layer");
    }
    placement(&mut v, m);
    v
}

pub fn h_klc_module(m: Module, c: Config) {
    assume(m.elements.len() < 0x7fffffff);
    let f = findings(&m, &c);
    let v = m.check(&c);
    check(same(&v, &f), "a finding is reported exactly when the rule is violated");
}

/// the text look-up used above is the one of the library
pub fn h_fn_text(m: Module, k: u8) {
    let w = if k == 0 { "reference" } else if k == 1 { "value" } else { "user" };
    check(same(&m.get_text(w), &text(&m, w)), "the first text with the name");
}

pub fn h_fn_smd_attr(m: Module) {
    check(m.has_smd_attr() == smd_attr(&m), "some attribute is smd");
}

// ---------------------------------------------------------------- symbols
fn pin(p: &Pin, _c: &Config) -> Vec<CheckFixData> {
    let mut v = vec![];
    let n = format!("{}:{}", p.name, p.number);
    if p.x % 100 != 0 {
        bad(&mut v, 4, 1, &n, "pin x not on 100mil grid");
    }
    if p.y % 100 != 0 {
        bad(&mut v, 4, 1, &n, "pin y not on 100mil grid");
    }
    if p.len % 50 != 0 {
        bad(&mut v, 4, 1, &n, "pin length not on 50mil grid");
    }
    if p.len < 100 {
        v.push(item(4, 1, &n, String::from("pin length < 100mil"), true));
    }
    if p.len > 300 {
        v.push(item(4, 1, &n, String::from("pin length > 300mil"), true));
    }
    let nc = p.pin_type == PinType::NotConnected;
    if !nc && p.name.to_lowercase().contains("nc") {
        bad(&mut v, 4, 7, &n, "Pin should be of type Not Connected");
    }
    if nc && p.pin_visible {
        bad(&mut v, 4, 7, &n, "Pin should be invisible");
    }
    if !nc && !p.pin_visible {
        bad(&mut v, 4, 7, &n, "Pin should be visible");
    }
    if p.num_size != 50 {
        bad(&mut v, 4, 8, &n, "Pin Number should be 50mil");
    }
    if p.name_size != 50 {
        bad(&mut v, 4, 8, &n, "Pin Name should be 50mil");
    }
    v
}

fn rectangle(r: &Rectangle, _c: &Config) -> Vec<CheckFixData> {
    let mut v = vec![];
    let n = format!("{}", r);
    if r.fill != Fill::FilledBackground {
        bad(&mut v, 4, 2, &n, "Rectangle is not filled");
    }
    if r.thickness != 10 {
        bad(&mut v, 4, 2, &n, "Rectangle is not using a 10mil line");
    }
    v
}

fn drawing(d: &Draw, c: &Config) -> Vec<CheckFixData> {
    match *d {
        Draw::Pin(ref p) => pin(p, c),
        Draw::Rectangle(ref r) => rectangle(r, c),
        Draw::Other(_) => vec![],
    }
}

fn pins(s: &Symbol) -> usize {
    let mut v = vec![];
    for d in &s.draw {
        if let Draw::Pin(ref p) = *d {
            v.push(p);
        }
    }
    v.len()
}

/// a supply symbol
fn power(s: &Symbol) -> bool {
    s.reference == "#PWR" && pins(s) == 1
}

/// a symbol that is only a drawing
fn graphic(s: &Symbol) -> bool {
    s.reference.starts_with('#') && pins(s) == 0
}

fn field(s: &Symbol, f: &Field) -> Vec<CheckFixData> {
    let mut v = vec![];
    if f.dimension != 50 {
        bad(&mut v, 4, 8, &format!("{}", f), "field text is not 50mil");
    }
    if f.i == 0 && graphic(s) && f.visible {
        bad(&mut v, 4, 9, &s.name, "reference field should be invisible for graphics");
    }
    if f.i == 0 && !graphic(s) && !power(s) && !f.visible {
        bad(&mut v, 4, 9, &s.name, "reference field should be visible for normal symbols");
    }
    if f.i == 1 && graphic(s) && f.visible {
        bad(&mut v, 4, 9, &s.name, "value field should be invisible for graphics");
    }
    if f.i == 1 && !graphic(s) && power(s) && f.visible {
        bad(&mut v, 4, 9, &s.name, "value field should be invisible for power");
    }
    if f.i == 1 && !graphic(s) && !power(s) && !f.visible {
        bad(&mut v, 4, 9, &s.name, "value field should be visible for normal symbols");
    }
    if f.i == 2 && f.visible {
        bad(&mut v, 4, 9, &s.name, "Footprint field should be invisible");
    }
    if f.i == 3 && f.visible {
        bad(&mut v, 4, 9, &s.name, "Datasheet field should be invisible");
    }
    v
}

/// the findings about one thing are one entry
fn group(v: &mut Vec<CheckFixData>, w: Vec<CheckFixData>) {
    if !w.is_empty() {
        v.push(flat(CheckFixData::More(w)));
    }
}

/// a group of one finding is the finding
fn flat(d: CheckFixData) -> CheckFixData {
    let one = match d {
        CheckFixData::More(ref v) => v.len() == 1,
        CheckFixData::Item(_) => false,
    };
    match d {
        CheckFixData::More(mut v) => if one { v.remove(0) } else { CheckFixData::More(v) },
        x => x,
    }
}

fn symbol(s: &Symbol, c: &Config) -> Vec<CheckFixData> {
    let mut v = vec![];
    group(&mut v, if s.name.starts_with('~') { name_items(&s.name[1..]) } else { name_items(&s.name) });
    for f in &s.fields {
        group(&mut v, field(s, f));
    }
    if !power(s) && !graphic(s) {
        for d in &s.draw {
            group(&mut v, drawing(d, c));
        }
    }
    v
}

pub fn h_fn_pin(p: Pin, c: Config) {
    check(same(&p.check(&c), &pin(&p, &c)), "a finding about a pin is reported exactly when the rule is violated");
}

pub fn h_fn_rectangle(r: Rectangle, c: Config) {
    check(same(&r.check(&c), &rectangle(&r, &c)), "a finding about a rectangle is reported exactly when the rule is violated");
}

pub fn h_fn_drawing(d: Draw, c: Config) {
    check(same(&d.check(&c), &drawing(&d, &c)), "the findings about a drawing item");
}

/// a copy (the verifier takes the value itself)
#[inline(never)]
fn twin(d: &CheckFixData) -> CheckFixData {
    match *d {
        CheckFixData::Item(ref i) => CheckFixData::Item(CheckFixItem {
            section: i.section,
            rule: i.rule,
            item: i.item.clone(),
            message: i.message.clone(),
            info: i.info,
        }),
        CheckFixData::More(ref v) => CheckFixData::More(v.iter().map(twin).collect()),
    }
}

pub fn h_fn_flat(d: CheckFixData) {
    let e = twin(&d);
    check(same(&d.flatter(), &flat(e)), "a group of one finding is the finding, anything else is kept");
}

pub fn h_fn_power(s: Symbol) {
    check(s.is_power() == power(&s), "a power symbol has the power reference and one pin");
}

pub fn h_fn_graphic(s: Symbol) {
    check(s.is_graphics() == graphic(&s), "a graphic symbol has a hidden reference and no pin");
}

pub fn h_klcs_symbol(s: Symbol, c: Config) {
    check(same(&s.check(&c), &symbol(&s, &c)), "the findings about the name, the fields and the drawing items");
}
