//! Component fields, look-ups and edits by name.
use prim::*;
use kicad_parse_gen::footprint::{FpText, LayerSide, Module};
use kicad_parse_gen::footprint::Element as FE;
use kicad_parse_gen::layout::{Layout, NetClass, Setup, SetupElement};
use kicad_parse_gen::layout::Element as LE;
use kicad_parse_gen::schematic::{Component, ComponentField, Connection, Element, FieldUpdate, NoConnect, Schematic, Text, TextType, Wire, WireType};
use kicad_parse_gen::symbol_lib::{Draw, Symbol, SymbolLib};

// ---------------------------------------------------------------- component fields
fn s_field(f: &ComponentField, i: i64, value: &String) -> ComponentField {
    let mut r = f.clone();
    if f.i == i {
        r.value = value.clone();
    }
    r
}

fn s_fields(c: &Component, i: i64, value: &String) -> Vec<ComponentField> {
    let mut v = vec![];
    for f in &c.fields {
        v.push(s_field(f, i, value));
    }
    v
}

pub fn h_field_reference(c: Component, r: String) {
    let mut d = c.clone();
    d.update_reference(r.clone());
    let mut e = c.clone();
    e.fields = s_fields(&c, 0, &r);
    e.reference = r;
    check(same(&d, &e), "changing the reference changes it, the reference fields' value and nothing else");
}

pub fn h_field_name(c: Component, n: String) {
    let mut d = c.clone();
    d.update_name(n.clone());
    let mut e = c.clone();
    e.fields = s_fields(&c, 1, &n);
    e.name = n;
    check(same(&d, &e), "changing the name changes it, the value fields' value and nothing else");
}

/// everything of a component except its fields
fn rest_same(a: &Component, b: &Component) -> bool {
    let mut x = a.clone();
    x.fields = b.fields.clone();
    same(&x, b)
}

fn value_of(c: &Component, name: &str) -> Option<String> {
    for f in &c.fields {
        if f.name == *name {
            return Some(f.value.clone());
        }
    }
    None
}

pub fn h_field_get(c: Component, name: String) {
    let old = value_of(&c, &name);
    check(c.get_field_value(&name) == old, "the value of the first field with the name is found");
    match c.get_field(&name) {
        Some(f) => check(f.name == name && old == Some(f.value), "the field found carries the name and the value"),
        None => check(old.is_none(), "no field is found only when there is none"),
    }
}

fn s_update(f: &ComponentField, name: &String, value: &String) -> ComponentField {
    let mut r = f.clone();
    if f.name == *name {
        r.value = value.clone();
    }
    if f.i > 1 {
        r.visible = false;
    }
    r
}

pub fn h_field_update(c: Component, name: String, value: String) {
    let mut d = c.clone();
    d.update_field(&name, &value);
    check(rest_same(&c, &d), "updating a field keeps the rest of the component");
    let mut v = vec![];
    for f in &c.fields {
        v.push(s_update(f, &name, &value));
    }
    let mut e = vec![];
    for f in &d.fields {
        e.push(f.clone());
    }
    check(same(&e, &v), "updating a field gives the value to the fields with the name only");
}

fn in_range(c: &Component) -> bool {
    forall(&c.fields, |f| f.i < 9223372036854775807)
}

pub fn h_field_set(c: Component, t: ComponentField, name: String, value: String) {
    assume(in_range(&c));
    let old = value_of(&c, &name);
    let mut d = c.clone();
    match d.add_or_update_field(&t, &name, &value) {
        FieldUpdate::New => check(old.is_none(), "reported new: there was no such field"),
        FieldUpdate::Same => check(old == Some(value.clone()), "reported the same: the field had the value"),
        FieldUpdate::Update(o) => check(o != value && old == Some(o), "reported changed: the old value, different from the new"),
    }
    check(d.get_field_value(&name) == Some(value), "the field reads back with the new value");
    check(rest_same(&c, &d), "setting a field keeps the rest of the component");
}

/// what setting the field `name` may not change
fn kept(v: &Vec<ComponentField>, name: &String) -> Vec<ComponentField> {
    let mut r = vec![];
    for f in v {
        let mut g = f.clone();
        if f.i > 1 {
            g.visible = false;
        }
        if f.name == *name {
            g.value = String::new();
        }
        r.push(g);
    }
    r
}

pub fn h_field_keep(c: Component, t: ComponentField, name: String, value: String) {
    assume(in_range(&c));
    let mut d = c.clone();
    if let FieldUpdate::New = d.add_or_update_field(&t, &name, &value) {
        d.fields.pop();
    }
    check(same(&kept(&d.fields, &name), &kept(&c.fields, &name)), "every field keeps its number, name, place and style, and other fields their value");
}

pub fn h_field_number(c: Component, pre: Vec<ComponentField>, f: ComponentField, post: Vec<ComponentField>) {
    assume(forall(&pre, |f| f.i < 9223372036854775807));
    assume(f.i < 9223372036854775807);
    assume(forall(&post, |f| f.i < 9223372036854775807));
    let mut c = c;
    let i = f.i;
    c.fields = pre;
    c.fields.push(f);
    c.fields.extend(post);
    check(c.get_available_field_num() > i, "the free number is greater than every field number");
}

pub fn h_field_add(c: Component, t: ComponentField, name: String, value: String) {
    assume(in_range(&c));
    let n = c.get_available_field_num();
    let mut d = c.clone();
    d.add_new_field(&t, &name, &value);
    let mut v = c.fields.clone();
    let mut f = ComponentField::new_from(n, name, value, t.x, t.y);
    f.visible = false;
    v.push(f);
    check(same(&d.fields, &v), "a new field is appended with the free number, hidden");
    check(rest_same(&c, &d), "adding a field keeps the rest of the component");
}

pub fn h_field_new(i: i64, name: String, value: String, x: f64, y: f64) {
    let f = ComponentField::new_from(i, name.clone(), value.clone(), x, y);
    check(f.i == i && f.name == name && f.value == value && same(&f.x, &x) && same(&f.y, &y), "a field is made of its parts");
    check(!f.visible, "a new field is hidden");
}

// ---------------------------------------------------------------- look-ups
pub fn h_look_component(s: Schematic, r: String) {
    assume(s.sheets.is_empty());
    let mut first = None;
    for e in &s.elements {
        if let Element::Component(ref c) = *e {
            if c.reference == r {
                first = Some(c.clone());
                break;
            }
        }
    }
    match s.component_by_reference(&r) {
        Ok(c) => check(same(&Some(c), &first), "the first component with the reference is found"),
        Err(_) => check(first.is_none(), "absence is reported only when no component has the reference"),
    }
}

fn comps(s: &Schematic) -> Vec<Component> {
    let mut v = vec![];
    for e in &s.elements {
        if let Element::Component(ref c) = *e {
            v.push(c.clone());
        }
    }
    v
}

pub fn h_look_components(s: Schematic) {
    let v = comps(&s);
    check(same(&s.components(), &v), "the component list has every component in order");
    let mut w = vec![];
    s.collect_components(&mut w);
    check(same(&w, &v), "the collected list has every component in order");
}

pub fn h_look_all_components(s: Schematic) {
    assume(s.sheets.is_empty());
    match s.all_components() {
        Ok(v) => check(same(&v, &comps(&s)), "the list of all components has every component in order"),
        Err(_) => check(false, "without sub-sheets the list of all components is available"),
    }
}

fn dup_wire(w: &Wire) -> Wire {
    let t = match w.type_ {
        WireType::Wire => WireType::Wire,
        WireType::Notes => WireType::Notes,
        WireType::Bus => WireType::Bus,
    };
    Wire { type_: t, x1: w.x1, y1: w.y1, x2: w.x2, y2: w.y2 }
}

fn dup_text(x: &Text) -> Text {
    let t = match x.t {
        TextType::Note => TextType::Note,
        TextType::Global => TextType::Global,
        TextType::Hierarchical => TextType::Hierarchical,
        TextType::Label => TextType::Label,
    };
    Text {
        t: t,
        x: x.x,
        y: x.y,
        orientation: x.orientation,
        size: x.size,
        shape: x.shape.clone(),
        italic: x.italic,
        thickness: x.thickness,
        text: x.text.clone(),
    }
}

fn dup(e: &Element) -> Element {
    match *e {
        Element::Component(ref c) => Element::Component(c.clone()),
        Element::Wire(ref w) => Element::Wire(dup_wire(w)),
        Element::Connection(ref c) => Element::Connection(Connection { x: c.x, y: c.y }),
        Element::NoConnect(ref c) => Element::NoConnect(NoConnect { x: c.x, y: c.y }),
        Element::Text(ref t) => Element::Text(dup_text(t)),
        Element::Other(ref s) => Element::Other(s.clone()),
    }
}

fn dups(v: &Vec<Element>) -> Vec<Element> {
    let mut r = vec![];
    for e in v {
        r.push(dup(e));
    }
    r
}

fn has_ref(e: &Element, r: &String) -> bool {
    match *e {
        Element::Component(ref c) => c.reference == *r,
        _ => false,
    }
}

fn tagged(e: &Element, tag: &String) -> Element {
    match *e {
        Element::Component(ref c) => {
            let mut d = c.clone();
            d.u.push_str(tag);
            Element::Component(d)
        }
        ref e => dup(e),
    }
}

pub fn h_look_modify_component(s: Schematic, pre: Vec<Element>, e: Element, post: Vec<Element>, r: String, tag: String) {
    assume(forall(&pre, |e| !has_ref(e, &r)));
    let mut s = s;
    let mut v = dups(&pre);
    v.push(if has_ref(&e, &r) { tagged(&e, &tag) } else { dup(&e) });
    let found = has_ref(&e, &r);
    assume(found || forall(&post, |e| !has_ref(e, &r)));
    v.extend(dups(&post));
    s.elements = pre;
    s.elements.push(e);
    s.elements.extend(post);
    let (a, b, c) = (s.libraries.clone(), s.description.clone(), s.sheets.clone());
    s.modify_component(&r, |c| c.u.push_str(&tag));
    check(same(&s.elements, &v), "the edit applies once to the first match and to nothing else");
    check(same(&s.libraries, &a) && same(&s.description, &b) && same(&s.sheets, &c), "editing a component keeps the rest of the schematic");
}

pub fn h_look_modify_components(s: Schematic, tag: String) {
    let mut s = s;
    let mut v = vec![];
    for e in &s.elements {
        v.push(tagged(e, &tag));
    }
    let (a, b, c) = (s.libraries.clone(), s.description.clone(), s.sheets.clone());
    s.modify_components(|c| c.u.push_str(&tag));
    check(same(&s.elements, &v), "the edit applies once to every component and to nothing else");
    check(same(&s.libraries, &a) && same(&s.description, &b) && same(&s.sheets, &c), "editing components keeps the rest of the schematic");
}

// footprints
fn first_text(m: &Module, which: &'static str) -> Option<FpText> {
    for e in &m.elements {
        if let FE::FpText(ref t) = *e {
            if t.name == which {
                return Some(t.clone());
            }
        }
    }
    None
}

pub fn h_look_text(m: Module) {
    let r = first_text(&m, "reference");
    let v = first_text(&m, "value");
    let u = first_text(&m, "user");
    check(same(&m.get_reference_text().cloned(), &r), "the first reference text is found");
    check(same(&m.get_value_text().cloned(), &v), "the first value text is found");
    check(same(&m.get_reference2_text().cloned(), &u), "the first second-reference text is found");
    check(same(&m.get_text("other").cloned(), &first_text(&m, "other")), "the first text of any kind is found");
    let s = match r {
        Some(ref t) => Some(t.value.clone()),
        None => None,
    };
    check(same(&m.get_reference().cloned(), &s), "the reference is the text of the first reference");
}

fn is_text(e: &FE, which: &'static str) -> bool {
    match *e {
        FE::FpText(ref t) => t.name == which,
        _ => false,
    }
}

fn text_tagged(e: &FE, tag: &String) -> FE {
    match *e {
        FE::FpText(ref t) => {
            let mut u = t.clone();
            u.value.push_str(tag);
            FE::FpText(u)
        }
        ref e => e.clone(),
    }
}

/// editing through a mutable look-up touches the first match only
fn edit_text(name: String, pre: Vec<FE>, e: FE, post: Vec<FE>, tag: String, which: &'static str, k: u8) {
    assume(forall(&pre, |e| !is_text(e, which)));
    let hit = is_text(&e, which);
    assume(hit || forall(&post, |e| !is_text(e, which)));
    let mut v = pre.clone();
    v.push(if hit { text_tagged(&e, &tag) } else { e.clone() });
    v.extend(post.clone());
    let mut w = pre;
    w.push(e);
    w.extend(post);
    let mut m = Module { name: name.clone(), elements: w };
    {
        let t = match k {
            0 => m.get_reference_text_mut(),
            1 => m.get_value_text_mut(),
            2 => m.get_reference2_text_mut(),
            _ => m.get_text_mut(which),
        };
        match t {
            Some(t) => t.value.push_str(&tag),
            None => check(!hit, "a text is missing only when there is none"),
        }
    }
    check(same(&m.elements, &v), "the edit reaches the first match and nothing else");
    check(m.name == name, "editing a text keeps the name");
}

pub fn h_look_text_mut_reference(name: String, pre: Vec<FE>, e: FE, post: Vec<FE>, tag: String) {
    edit_text(name, pre, e, post, tag, "reference", 0);
}

pub fn h_look_text_mut_value(name: String, pre: Vec<FE>, e: FE, post: Vec<FE>, tag: String) {
    edit_text(name, pre, e, post, tag, "value", 1);
}

pub fn h_look_text_mut_user(name: String, pre: Vec<FE>, e: FE, post: Vec<FE>, tag: String) {
    edit_text(name, pre, e, post, tag, "user", 2);
}

pub fn h_look_text_mut_any(name: String, pre: Vec<FE>, e: FE, post: Vec<FE>, tag: String) {
    edit_text(name, pre, e, post, tag, "other", 3);
}

fn named(e: &FE, r: &String) -> bool {
    match *e {
        FE::FpText(ref t) => t.name == "reference" && t.value == *r,
        _ => false,
    }
}

fn is_named(m: &Module, r: &String) -> bool {
    for e in &m.elements {
        if named(e, r) {
            return true;
        }
    }
    false
}

pub fn h_look_is_reference(m: Module, r: String) {
    check(m.is_reference_with_name(&r) == is_named(&m, &r), "a footprint carries a reference exactly when a reference text says so");
}

pub fn h_look_set_reference(m: Module, r: String, s: String) {
    let mut v = vec![];
    for e in &m.elements {
        v.push(match *e {
            FE::FpText(ref t) if t.name == "reference" && t.value == r => {
                let mut u = t.clone();
                u.value = s.clone();
                FE::FpText(u)
            }
            ref e => e.clone(),
        });
    }
    let mut n = m.clone();
    n.set_reference(&r, &s);
    check(same(&n, &Module { name: m.name.clone(), elements: v }), "setting the reference changes the reference texts with the old one and nothing else");
}

fn smd(m: &Module) -> bool {
    for e in &m.elements {
        if let FE::Attr(ref a) = *e {
            if a == "smd" {
                return true;
            }
        }
    }
    false
}

fn tstamp(m: &Module) -> Option<i64> {
    for e in &m.elements {
        if let FE::TStamp(x) = *e {
            return Some(x);
        }
    }
    None
}

fn tedit(m: &Module) -> Option<i64> {
    for e in &m.elements {
        if let FE::TEdit(x) = *e {
            return Some(x);
        }
    }
    None
}

fn place(m: &Module) -> (f64, f64, f64) {
    for e in &m.elements {
        if let FE::At(ref a) = *e {
            return (a.x, a.y, a.rot);
        }
    }
    (0.0, 0.0, 0.0)
}

fn front(m: &Module) -> bool {
    for e in &m.elements {
        if let FE::Layer(ref l) = *e {
            return l.side == LayerSide::Front;
        }
    }
    true
}

pub fn h_look_smd(m: Module) {
    check(m.has_smd_attr() == smd(&m), "surface-mount attribute present exactly when there is one");
}

pub fn h_look_stamps(m: Module) {
    check(m.get_tstamp() == tstamp(&m), "first time stamp");
    check(m.get_tedit() == tedit(&m), "first edit stamp");
}

pub fn h_look_place(m: Module) {
    let (x, y, r) = place(&m);
    check(same(&m.at(), &(x, y)), "first position, or the origin");
    check(same(&m.get_rotation(), &r), "first rotation, or none");
}

pub fn h_look_front(m: Module) {
    check(m.is_front() == front(&m), "side of the first layer, or the front");
}

pub fn h_look_pads(m: Module) {
    let mut v = vec![];
    let mut w = vec![];
    for e in &m.elements {
        match *e {
            FE::Pad(ref p) => v.push(p),
            FE::FpLine(ref l) => w.push(l),
            _ => (),
        }
    }
    check(same(&m.pads(), &v), "every pad in order");
    check(same(&m.lines(), &w), "every line in order");
}

// layouts
pub fn h_look_layout_lists(l: Layout) {
    let mut a = vec![];
    let mut b = vec![];
    let mut c = vec![];
    for e in &l.elements {
        match *e {
            LE::Net(ref n) => a.push(n),
            LE::NetClass(ref n) => b.push(n),
            LE::Module(ref m) => c.push(m),
            _ => (),
        }
    }
    check(same(&l.nets(), &a), "every net in order");
    check(same(&l.netclasses(), &b), "every net class in order");
    check(same(&l.get_modules(), &c), "every footprint in order");
}

fn module_named(e: &LE, r: &String) -> bool {
    match *e {
        LE::Module(ref m) => m.is_reference_with_name(r),
        _ => false,
    }
}

pub fn h_look_module(l: Layout, r: String) {
    let mut first = None;
    for e in &l.elements {
        if let LE::Module(ref m) = *e {
            if m.is_reference_with_name(&r) {
                first = Some(m);
                break;
            }
        }
    }
    check(same(&l.get_module(&r), &first), "the first footprint with the reference is found");
}

pub fn h_look_modify_module(l: Layout, pre: Vec<LE>, e: LE, post: Vec<LE>, r: String, tag: String) {
    assume(forall(&pre, |e| !module_named(e, &r)));
    let hit = module_named(&e, &r);
    assume(hit || forall(&post, |e| !module_named(e, &r)));
    let mut v = pre.clone();
    v.push(match e {
        LE::Module(ref m) if hit => {
            let mut n = m.clone();
            n.name.push_str(&tag);
            LE::Module(n)
        }
        ref e => e.clone(),
    });
    v.extend(post.clone());
    let mut l = l;
    l.elements = pre;
    l.elements.push(e);
    l.elements.extend(post);
    let (a, b, c, d) = (l.general.clone(), l.layers.clone(), l.setup.clone(), l.host.clone());
    let ok = l.modify_module(&r, |m| m.name.push_str(&tag)).is_ok();
    check(ok == hit, "success exactly when a footprint matches");
    check(same(&l.elements, &v), "the edit reaches the first match and nothing else");
    check(same(&l.general, &a) && same(&l.layers, &b) && same(&l.setup, &c) && same(&l.host, &d), "editing a footprint keeps the rest of the layout");
}

pub fn h_look_has_net(n: NetClass) {
    check(n.has_net("GND") == !forall(&n.nets, |x| x.0 != "GND"), "a net class has a net exactly when it is listed");
}

pub fn h_look_setup(s: Setup, name: String) {
    let mut first = None;
    for e in &s.elements {
        if e.name == name {
            first = Some(&e.value1);
            break;
        }
    }
    check(same(&s.get(&name), &first), "the first set-up value with the name is found");
}

pub fn h_look_setup_update(s: Setup, pre: Vec<SetupElement>, e: SetupElement, post: Vec<SetupElement>, value: String) {
    assume(forall(&pre, |e| e.name != "grid_origin"));
    let hit = e.name == "grid_origin";
    assume(hit || forall(&post, |e| e.name != "grid_origin"));
    let mut v = pre.clone();
    let mut f = e.clone();
    if hit {
        f.value1 = value.clone();
    }
    v.push(f);
    v.extend(post.clone());
    if !hit {
        v.push(SetupElement { name: "grid_origin".to_string(), value1: value.clone(), value2: None });
    }
    let mut t = s.clone();
    t.elements = pre;
    t.elements.push(e);
    t.elements.extend(post);
    t.update_element("grid_origin", value.clone());
    check(same(&t.elements, &v), "the first matching value is changed, or a new one appended");
    check(same(&t.pcbplotparams, &s.pcbplotparams), "updating a set-up value keeps the plot parameters");
    check(t.get("grid_origin") == Some(&value), "the value reads back");
}

// symbols
pub fn h_look_symbol(l: SymbolLib, name: String) {
    let mut first = None;
    for s in &l.symbols {
        if s.name == name {
            first = Some(s);
            break;
        }
    }
    check(same(&l.find(|s| s.name == name), &first), "the first matching symbol is found");
}

pub fn h_look_pins(s: Symbol) {
    let mut v = vec![];
    for d in &s.draw {
        if let Draw::Pin(ref p) = *d {
            v.push(p);
        }
    }
    check(same(&s.pins(), &v), "every pin in order");
}
