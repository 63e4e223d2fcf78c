//! Fixing a footprint against the library conventions.
use prim::*;
use klc::{count, courtyard, placement, reference, reference2, value};
use kicad_parse_gen::checkfix::{CheckFix, CheckFixData, Config};
use kicad_parse_gen::footprint::{Element, FpText, LayerType, Module};

fn is_text(e: &Element, name: &str) -> bool {
    match *e {
        Element::FpText(ref t) => t.name == name,
        _ => false,
    }
}

fn lettered(t: &mut FpText, value: &str, layer: LayerType, c: &Config) {
    t.value = String::from(value);
    t.layer.t = layer;
    t.hide = false;
    t.effects.font.size.x = c.m.font_size;
    t.effects.font.size.y = c.m.font_size;
    t.effects.font.thickness = c.m.font_thickness;
}

/// a text as the conventions want it
fn fixed(t: &FpText, name: &String, c: &Config) -> FpText {
    let mut t = t.clone();
    if t.name == "reference" {
        lettered(&mut t, "REF**", LayerType::SilkS, c);
    } else if t.name == "value" {
        lettered(&mut t, name, LayerType::Fab, c);
    } else {
        lettered(&mut t, "%R", LayerType::Fab, c);
    }
    t
}

fn smd(e: &Element) -> bool {
    match *e {
        Element::Attr(ref a) => a == "smd",
        _ => false,
    }
}

/// something a fix does not address
fn left(d: &CheckFixData) -> bool {
    match *d {
        CheckFixData::Item(ref i) => i.message == "reference missing" || i.message == "value missing" || (i.section == 9 && i.rule == 1),
        CheckFixData::More(_) => false,
    }
}

/// the elements of a footprint are those expected, followed by what had to be added
fn kept(v: Vec<Element>, w: &Vec<Element>, user: bool) {
    let mut v = v;
    let mut lines = 0;
    while v.len() > w.len() && lines < 4 {
        let e = v.pop().unwrap();
        if !courtyard(&e) {
            v.push(e);
            break;
        }
        lines += 1;
    }
    check(lines == 0 || lines == 4, "courtyard lines are added by fours");
    if v.len() > w.len() {
        let e = v.pop().unwrap();
        if !smd(&e) {
            v.push(e);
        }
    }
    if v.len() > w.len() {
        check(!user, "a second reference is added only when there is none");
        let e = v.pop().unwrap();
        check(is_text(&e, "user"), "a second reference is added");
    }
    check(same(&v, w), "all other elements are kept in order");
}

fn fix(m: Module, w: Vec<Element>, user: bool, c: Config) {
    assume(m.elements.len() < 0x7fffff00);
    let name = m.name.clone();
    let mut m = m;
    m.fix(&c);
    check(m.name == name, "fixing keeps the name");
    kept(m.elements, &w, user);
}

/// what is left of the findings; that a check reports exactly these is the contract h_klc_module
fn texts_cleared(m: Module, c: Config) {
    assume(m.elements.len() < 0x7fffff00);
    let mut m = m;
    m.fix(&c);
    let mut v = vec![];
    reference(&mut v, &m, &c);
    value(&mut v, &m, &c);
    reference2(&mut v, &m, &c);
    for d in v {
        check(left(&d), "only findings a fix does not address are left");
    }
}

fn lines_cleared(m: Module, c: Config) {
    assume(m.elements.len() < 0x7fffff00);
    let mut m = m;
    m.fix(&c);
    check(count(&m, courtyard) >= 4, "no courtyard line is missing");
}

fn placement_cleared(m: Module, c: Config) {
    assume(m.elements.len() < 0x7fffff00);
    let mut m = m;
    m.fix(&c);
    let mut v = vec![];
    placement(&mut v, &m);
    for d in v {
        check(left(&d), "a surface-mount part has the placement attribute");
    }
}

fn free(v: &Vec<Element>, name: &'static str) {
    assume(forall(v, |e| !is_text(e, name)));
}

fn named(t: FpText, n: &str) -> Element {
    let mut t = t;
    t.name = String::from(n);
    Element::FpText(t)
}

fn done(e: &Element, name: &String, c: &Config) -> Element {
    match *e {
        Element::FpText(ref t) => Element::FpText(fixed(t, name, c)),
        ref e => e.clone(),
    }
}

fn make_none(name: String, s0: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    let _ = c;
    let w = s0.clone();
    (Module { name: name, elements: s0 }, w)
}

pub fn h_fix_none(name: String, s0: Vec<Element>, c: Config) {
    let (m, w) = make_none(name, s0, &c);
    fix(m, w, false, c);
}

pub fn h_fix_none_texts(name: String, s0: Vec<Element>, c: Config) {
    let (m, _) = make_none(name, s0, &c);
    texts_cleared(m, c);
}

pub fn h_fix_none_lines(name: String, s0: Vec<Element>, c: Config) {
    let (m, _) = make_none(name, s0, &c);
    lines_cleared(m, c);
}

pub fn h_fix_none_placement(name: String, s0: Vec<Element>, c: Config) {
    let (m, _) = make_none(name, s0, &c);
    placement_cleared(m, c);
}

fn make_r(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "value");
    free(&s1, "user");
    let t0 = named(t0, "reference");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_r(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, c: Config) {
    let (m, w) = make_r(name, s0, t0, s1, &c);
    fix(m, w, false, c);
}

pub fn h_fix_r_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, c: Config) {
    let (m, _) = make_r(name, s0, t0, s1, &c);
    texts_cleared(m, c);
}

fn make_v(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "reference");
    free(&s1, "user");
    let t0 = named(t0, "value");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_v(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, c: Config) {
    let (m, w) = make_v(name, s0, t0, s1, &c);
    fix(m, w, false, c);
}

pub fn h_fix_v_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, c: Config) {
    let (m, _) = make_v(name, s0, t0, s1, &c);
    texts_cleared(m, c);
}

fn make_u(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "reference");
    free(&s1, "value");
    let t0 = named(t0, "user");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_u(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, c: Config) {
    let (m, w) = make_u(name, s0, t0, s1, &c);
    fix(m, w, true, c);
}

pub fn h_fix_u_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, c: Config) {
    let (m, _) = make_u(name, s0, t0, s1, &c);
    texts_cleared(m, c);
}

fn make_rv(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "value");
    free(&s1, "user");
    free(&s2, "user");
    let t0 = named(t0, "reference");
    let t1 = named(t1, "value");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    w.push(done(&t1, &name, c));
    w.extend(s2.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    x.push(t1);
    x.extend(s2);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_rv(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: Config) {
    let (m, w) = make_rv(name, s0, t0, s1, t1, s2, &c);
    fix(m, w, false, c);
}

pub fn h_fix_rv_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: Config) {
    let (m, _) = make_rv(name, s0, t0, s1, t1, s2, &c);
    texts_cleared(m, c);
}

fn make_ru(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "value");
    free(&s1, "user");
    free(&s2, "value");
    let t0 = named(t0, "reference");
    let t1 = named(t1, "user");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    w.push(done(&t1, &name, c));
    w.extend(s2.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    x.push(t1);
    x.extend(s2);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_ru(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: Config) {
    let (m, w) = make_ru(name, s0, t0, s1, t1, s2, &c);
    fix(m, w, true, c);
}

pub fn h_fix_ru_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: Config) {
    let (m, _) = make_ru(name, s0, t0, s1, t1, s2, &c);
    texts_cleared(m, c);
}

fn make_vr(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "reference");
    free(&s1, "user");
    free(&s2, "user");
    let t0 = named(t0, "value");
    let t1 = named(t1, "reference");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    w.push(done(&t1, &name, c));
    w.extend(s2.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    x.push(t1);
    x.extend(s2);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_vr(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: Config) {
    let (m, w) = make_vr(name, s0, t0, s1, t1, s2, &c);
    fix(m, w, false, c);
}

pub fn h_fix_vr_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: Config) {
    let (m, _) = make_vr(name, s0, t0, s1, t1, s2, &c);
    texts_cleared(m, c);
}

fn make_vu(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "reference");
    free(&s1, "user");
    free(&s2, "reference");
    let t0 = named(t0, "value");
    let t1 = named(t1, "user");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    w.push(done(&t1, &name, c));
    w.extend(s2.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    x.push(t1);
    x.extend(s2);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_vu(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: Config) {
    let (m, w) = make_vu(name, s0, t0, s1, t1, s2, &c);
    fix(m, w, true, c);
}

pub fn h_fix_vu_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: Config) {
    let (m, _) = make_vu(name, s0, t0, s1, t1, s2, &c);
    texts_cleared(m, c);
}

fn make_ur(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "reference");
    free(&s1, "value");
    free(&s2, "value");
    let t0 = named(t0, "user");
    let t1 = named(t1, "reference");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    w.push(done(&t1, &name, c));
    w.extend(s2.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    x.push(t1);
    x.extend(s2);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_ur(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: Config) {
    let (m, w) = make_ur(name, s0, t0, s1, t1, s2, &c);
    fix(m, w, true, c);
}

pub fn h_fix_ur_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: Config) {
    let (m, _) = make_ur(name, s0, t0, s1, t1, s2, &c);
    texts_cleared(m, c);
}

fn make_uv(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "reference");
    free(&s1, "value");
    free(&s2, "reference");
    let t0 = named(t0, "user");
    let t1 = named(t1, "value");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    w.push(done(&t1, &name, c));
    w.extend(s2.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    x.push(t1);
    x.extend(s2);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_uv(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: Config) {
    let (m, w) = make_uv(name, s0, t0, s1, t1, s2, &c);
    fix(m, w, true, c);
}

pub fn h_fix_uv_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, c: Config) {
    let (m, _) = make_uv(name, s0, t0, s1, t1, s2, &c);
    texts_cleared(m, c);
}

fn make_rvu(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "value");
    free(&s1, "user");
    free(&s2, "user");
    let t0 = named(t0, "reference");
    let t1 = named(t1, "value");
    let t2 = named(t2, "user");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    w.push(done(&t1, &name, c));
    w.extend(s2.clone());
    w.push(done(&t2, &name, c));
    w.extend(s3.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    x.push(t1);
    x.extend(s2);
    x.push(t2);
    x.extend(s3);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_rvu(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: Config) {
    let (m, w) = make_rvu(name, s0, t0, s1, t1, s2, t2, s3, &c);
    fix(m, w, true, c);
}

pub fn h_fix_rvu_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: Config) {
    let (m, _) = make_rvu(name, s0, t0, s1, t1, s2, t2, s3, &c);
    texts_cleared(m, c);
}

fn make_ruv(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "value");
    free(&s1, "user");
    free(&s2, "value");
    let t0 = named(t0, "reference");
    let t1 = named(t1, "user");
    let t2 = named(t2, "value");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    w.push(done(&t1, &name, c));
    w.extend(s2.clone());
    w.push(done(&t2, &name, c));
    w.extend(s3.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    x.push(t1);
    x.extend(s2);
    x.push(t2);
    x.extend(s3);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_ruv(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: Config) {
    let (m, w) = make_ruv(name, s0, t0, s1, t1, s2, t2, s3, &c);
    fix(m, w, true, c);
}

pub fn h_fix_ruv_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: Config) {
    let (m, _) = make_ruv(name, s0, t0, s1, t1, s2, t2, s3, &c);
    texts_cleared(m, c);
}

fn make_vru(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "reference");
    free(&s1, "user");
    free(&s2, "user");
    let t0 = named(t0, "value");
    let t1 = named(t1, "reference");
    let t2 = named(t2, "user");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    w.push(done(&t1, &name, c));
    w.extend(s2.clone());
    w.push(done(&t2, &name, c));
    w.extend(s3.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    x.push(t1);
    x.extend(s2);
    x.push(t2);
    x.extend(s3);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_vru(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: Config) {
    let (m, w) = make_vru(name, s0, t0, s1, t1, s2, t2, s3, &c);
    fix(m, w, true, c);
}

pub fn h_fix_vru_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: Config) {
    let (m, _) = make_vru(name, s0, t0, s1, t1, s2, t2, s3, &c);
    texts_cleared(m, c);
}

fn make_vur(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "reference");
    free(&s1, "user");
    free(&s2, "reference");
    let t0 = named(t0, "value");
    let t1 = named(t1, "user");
    let t2 = named(t2, "reference");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    w.push(done(&t1, &name, c));
    w.extend(s2.clone());
    w.push(done(&t2, &name, c));
    w.extend(s3.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    x.push(t1);
    x.extend(s2);
    x.push(t2);
    x.extend(s3);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_vur(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: Config) {
    let (m, w) = make_vur(name, s0, t0, s1, t1, s2, t2, s3, &c);
    fix(m, w, true, c);
}

pub fn h_fix_vur_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: Config) {
    let (m, _) = make_vur(name, s0, t0, s1, t1, s2, t2, s3, &c);
    texts_cleared(m, c);
}

fn make_urv(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "reference");
    free(&s1, "value");
    free(&s2, "value");
    let t0 = named(t0, "user");
    let t1 = named(t1, "reference");
    let t2 = named(t2, "value");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    w.push(done(&t1, &name, c));
    w.extend(s2.clone());
    w.push(done(&t2, &name, c));
    w.extend(s3.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    x.push(t1);
    x.extend(s2);
    x.push(t2);
    x.extend(s3);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_urv(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: Config) {
    let (m, w) = make_urv(name, s0, t0, s1, t1, s2, t2, s3, &c);
    fix(m, w, true, c);
}

pub fn h_fix_urv_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: Config) {
    let (m, _) = make_urv(name, s0, t0, s1, t1, s2, t2, s3, &c);
    texts_cleared(m, c);
}

fn make_uvr(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: &Config) -> (Module, Vec<Element>) {
    free(&s0, "reference");
    free(&s0, "value");
    free(&s0, "user");
    free(&s1, "reference");
    free(&s1, "value");
    free(&s2, "reference");
    let t0 = named(t0, "user");
    let t1 = named(t1, "value");
    let t2 = named(t2, "reference");
    let mut w = s0.clone();
    w.push(done(&t0, &name, c));
    w.extend(s1.clone());
    w.push(done(&t1, &name, c));
    w.extend(s2.clone());
    w.push(done(&t2, &name, c));
    w.extend(s3.clone());
    let mut x = s0;
    x.push(t0);
    x.extend(s1);
    x.push(t1);
    x.extend(s2);
    x.push(t2);
    x.extend(s3);
    (Module { name: name, elements: x }, w)
}

pub fn h_fix_uvr(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: Config) {
    let (m, w) = make_uvr(name, s0, t0, s1, t1, s2, t2, s3, &c);
    fix(m, w, true, c);
}

pub fn h_fix_uvr_texts(name: String, s0: Vec<Element>, t0: FpText, s1: Vec<Element>, t1: FpText, s2: Vec<Element>, t2: FpText, s3: Vec<Element>, c: Config) {
    let (m, _) = make_uvr(name, s0, t0, s1, t1, s2, t2, s3, &c);
    texts_cleared(m, c);
}

/// any footprint
pub fn h_fix_any(m: Module, c: Config) {
    assume(m.elements.len() < 0x7fffff00);
    let mut m = m;
    m.fix(&c);
    let f = m.clone();
    m.fix(&c);
    check(same(&m, &f), "fixing again changes nothing");
    for d in m.check(&c) {
        check(left(&d), "only findings a fix does not address are left");
    }
}
