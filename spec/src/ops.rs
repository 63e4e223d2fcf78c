//! Operations on footprints and layouts: moving, flipping, rotating, renaming nets.
use prim::*;
use kicad_parse_gen::footprint::{At, Effects, Flip, FpText, Justify, Layer, LayerSide, Layers, Module, Pad, Pts, Rotate, Xy};
use kicad_parse_gen::footprint::Element as FE;
use kicad_parse_gen::layout::{Dimension, Element, GrText, Layout, NetName, Zone};
use kicad_parse_gen::{footprint, layout, Adjust};

// ---------------------------------------------------------------- moving
fn s_at(a: &At, dx: f64, dy: f64) -> At {
    At { x: a.x + dx, y: a.y + dy, rot: a.rot }
}

fn s_xy(a: &Xy, dx: f64, dy: f64) -> Xy {
    Xy { x: a.x + dx, y: a.y + dy, t: a.t.clone() }
}

fn s_pts(a: &Pts, dx: f64, dy: f64) -> Pts {
    let mut v = vec![];
    for e in &a.elements {
        v.push(s_xy(e, dx, dy));
    }
    Pts { elements: v }
}

fn s_text(a: &GrText, dx: f64, dy: f64) -> GrText {
    let mut r = a.clone();
    r.at = s_at(&a.at, dx, dy);
    r
}

fn s_dimension(a: &Dimension, dx: f64, dy: f64) -> Dimension {
    Dimension {
        name: a.name.clone(),
        width: a.width,
        layer: a.layer.clone(),
        tstamp: a.tstamp.clone(),
        text: s_text(&a.text, dx, dy),
        feature1: s_pts(&a.feature1, dx, dy),
        feature2: s_pts(&a.feature2, dx, dy),
        crossbar: s_pts(&a.crossbar, dx, dy),
        arrow1a: s_pts(&a.arrow1a, dx, dy),
        arrow1b: s_pts(&a.arrow1b, dx, dy),
        arrow2a: s_pts(&a.arrow2a, dx, dy),
        arrow2b: s_pts(&a.arrow2b, dx, dy),
    }
}

fn s_module(a: &Module, dx: f64, dy: f64) -> Module {
    let mut v = vec![];
    for e in &a.elements {
        v.push(match *e {
            FE::At(ref p) => FE::At(s_at(p, dx, dy)),
            ref x => x.clone(),
        });
    }
    Module { name: a.name.clone(), elements: v }
}

fn s_ptss(a: &Vec<Pts>, dx: f64, dy: f64) -> Vec<Pts> {
    let mut v = vec![];
    for p in a {
        v.push(s_pts(p, dx, dy));
    }
    v
}

fn s_zone(a: &Zone, dx: f64, dy: f64) -> Zone {
    let mut r = a.clone();
    r.polygons = s_ptss(&a.polygons, dx, dy);
    r.filled_polygons = s_ptss(&a.filled_polygons, dx, dy);
    r.fill_segments = match a.fill_segments {
        Some(ref p) => Some(s_pts(p, dx, dy)),
        None => None,
    };
    r
}

fn s_element(e: &Element, dx: f64, dy: f64) -> Element {
    match *e {
        Element::Module(ref m) => Element::Module(s_module(m, dx, dy)),
        Element::GrText(ref m) => Element::GrText(s_text(m, dx, dy)),
        Element::GrLine(ref m) => {
            let mut r = m.clone();
            r.start = s_xy(&m.start, dx, dy);
            r.end = s_xy(&m.end, dx, dy);
            Element::GrLine(r)
        }
        Element::GrArc(ref m) => {
            let mut r = m.clone();
            r.start = s_xy(&m.start, dx, dy);
            r.end = s_xy(&m.end, dx, dy);
            Element::GrArc(r)
        }
        Element::GrCircle(ref m) => {
            let mut r = m.clone();
            r.center = s_xy(&m.center, dx, dy);
            r.end = s_xy(&m.end, dx, dy);
            Element::GrCircle(r)
        }
        Element::Dimension(ref m) => Element::Dimension(s_dimension(m, dx, dy)),
        Element::Segment(ref m) => {
            let mut r = m.clone();
            r.start = s_xy(&m.start, dx, dy);
            r.end = s_xy(&m.end, dx, dy);
            Element::Segment(r)
        }
        Element::Via(ref m) => {
            let mut r = m.clone();
            r.at = s_at(&m.at, dx, dy);
            Element::Via(r)
        }
        Element::Zone(ref m) => Element::Zone(s_zone(m, dx, dy)),
        ref x => x.clone(),
    }
}

fn copy(x: &Layout) -> Layout {
    Layout {
        version: x.version,
        host: x.host.clone(),
        general: x.general.clone(),
        page: x.page.clone(),
        setup: x.setup.clone(),
        layers: x.layers.clone(),
        elements: x.elements.clone(),
    }
}

/// moving a layout shifts every position once and changes nothing else
pub fn h_adjust_layout(x: Layout, dx: f64, dy: f64) {
    let mut exp = copy(&x);
    let mut v = vec![];
    for e in &x.elements {
        v.push(s_element(e, dx, dy));
    }
    exp.elements = v;
    let mut x = x;
    x.adjust(dx, dy);
    check(same(&x, &exp), "every position is shifted by the offset and nothing else changes");
}

/// moving a footprint shifts its placement only
pub fn h_adjust_module(x: Module, dx: f64, dy: f64) {
    let exp = s_module(&x, dx, dy);
    let mut x = x;
    x.adjust(dx, dy);
    check(same(&x, &exp), "the placement is shifted by the offset and nothing else changes");
}

// ---------------------------------------------------------------- flipping
fn f_at(a: &At) -> At {
    At { x: a.x, y: -a.y, rot: 360.0 - a.rot }
}

fn f_xy(a: &Xy) -> Xy {
    Xy { x: a.x, y: -a.y, t: a.t.clone() }
}

fn f_layer(l: &Layer) -> Layer {
    let side = match l.side {
        LayerSide::Front => LayerSide::Back,
        LayerSide::Back => LayerSide::Front,
        ref s => s.clone(),
    };
    Layer { side: side, t: l.t.clone() }
}

fn f_effects(e: &Effects) -> Effects {
    let j = if e.justify.is_none() { Some(Justify::Mirror) } else { None };
    Effects { font: e.font.clone(), justify: j }
}

fn f_text(a: &FpText) -> FpText {
    FpText {
        name: a.name.clone(),
        value: a.value.clone(),
        at: f_at(&a.at),
        layer: f_layer(&a.layer),
        effects: f_effects(&a.effects),
        hide: a.hide,
    }
}

fn f_pad(a: &Pad) -> Pad {
    let mut r = a.clone();
    r.at = f_at(&a.at);
    let mut v = vec![];
    for l in &a.layers.layers {
        v.push(f_layer(l));
    }
    r.layers = Layers { layers: v };
    r
}

fn f_element(e: &FE) -> FE {
    match *e {
        FE::Pad(ref x) => FE::Pad(f_pad(x)),
        FE::FpText(ref x) => FE::FpText(f_text(x)),
        FE::At(ref x) => FE::At(f_at(x)),
        FE::Layer(ref x) => FE::Layer(f_layer(x)),
        FE::FpPoly(ref x) => {
            let mut r = x.clone();
            let mut v = vec![];
            for p in &x.pts.elements {
                v.push(f_xy(p));
            }
            r.pts.elements = v;
            r.layer = f_layer(&x.layer);
            FE::FpPoly(r)
        }
        FE::FpLine(ref x) => {
            let mut r = x.clone();
            r.start = f_xy(&x.start);
            r.end = f_xy(&x.end);
            r.layer = f_layer(&x.layer);
            FE::FpLine(r)
        }
        FE::FpCircle(ref x) => {
            let mut r = x.clone();
            r.center = f_xy(&x.center);
            r.end = f_xy(&x.end);
            r.layer = f_layer(&x.layer);
            FE::FpCircle(r)
        }
        FE::FpArc(ref x) => {
            let mut r = x.clone();
            r.start = f_xy(&x.start);
            r.end = f_xy(&x.end);
            r.layer = f_layer(&x.layer);
            FE::FpArc(r)
        }
        ref x => x.clone(),
    }
}

/// flipping mirrors every element
pub fn h_flip_module(x: Module) {
    let mut v = vec![];
    for e in &x.elements {
        v.push(f_element(e));
    }
    let exp = Module { name: x.name.clone(), elements: v };
    let mut x = x;
    x.flip();
    check(same(&x, &exp), "every element is mirrored and nothing else changes");
}

fn rot0_at(a: &At) -> At {
    At { x: a.x, y: a.y, rot: 0.0 }
}

/// the element without its placement angle
fn rot0(e: &FE) -> FE {
    match *e {
        FE::Pad(ref x) => {
            let mut r = x.clone();
            r.at = rot0_at(&x.at);
            FE::Pad(r)
        }
        FE::FpText(ref x) => {
            let mut r = x.clone();
            r.at = rot0_at(&x.at);
            FE::FpText(r)
        }
        FE::At(ref x) => FE::At(rot0_at(x)),
        ref x => x.clone(),
    }
}

fn unaligned(e: &FE) -> bool {
    match *e {
        FE::FpText(ref x) => match x.effects.justify {
            Some(Justify::Left) | Some(Justify::Right) => false,
            _ => true,
        },
        _ => true,
    }
}

/// flipping twice restores positions, layers and mirroring
pub fn h_flip_twice(x: FE) {
    assume(unaligned(&x));
    let exp = rot0(&x);
    let mut x = x;
    x.flip();
    x.flip();
    check(same(&rot0(&x), &exp), "flipping twice restores positions, layers and mirroring");
}

/// flipping twice restores the alignment of a left- or right-aligned text
pub fn h_flip_aligned(x: FpText) {
    let exp = x.effects.clone();
    let mut x = x;
    x.flip();
    x.flip();
    check(same(&x.effects, &exp), "flipping twice restores the alignment");
}

// ---------------------------------------------------------------- rotating
fn r_at(a: &At, rot: f64) -> At {
    let mut r = a.rot + rot;
    if r >= 360.0 {
        r = r - 360.0;
    }
    if r < 0.0 {
        r = r + 360.0;
    }
    At { x: a.x, y: a.y, rot: r }
}

/// rotating turns every placement
pub fn h_rotate_module(x: Module, rot: f64) {
    let mut v = vec![];
    for e in &x.elements {
        v.push(match *e {
            FE::Pad(ref p) => {
                let mut r = p.clone();
                r.at = r_at(&p.at, rot);
                FE::Pad(r)
            }
            FE::FpText(ref p) => {
                let mut r = p.clone();
                r.at = r_at(&p.at, rot);
                FE::FpText(r)
            }
            FE::At(ref p) => FE::At(r_at(p, rot)),
            ref x => x.clone(),
        });
    }
    let exp = Module { name: x.name.clone(), elements: v };
    let mut x = x;
    x.rotate(rot);
    check(same(&x, &exp), "every placement is turned and nothing else changes");
}

/// angles stay in the circle
pub fn h_rotate_range(a: At, rot: f64) {
    assume(a.rot >= 0.0 && a.rot < 360.0 && rot > -360.0 && rot < 360.0);
    let mut a = a;
    a.rotate(rot);
    check(a.rot >= 0.0 && a.rot <= 360.0, "the angle stays between 0 and 360");
}

// ---------------------------------------------------------------- nets
fn n_name(n: &NetName, old: &str, new: &str) -> NetName {
    if n.0 == old {
        NetName(new.to_string())
    } else {
        n.clone()
    }
}

fn n_module(m: &Module, old: &str, new: &str) -> Module {
    let mut v = vec![];
    for e in &m.elements {
        v.push(match *e {
            FE::Pad(ref p) => {
                let mut r = p.clone();
                r.net = match p.net {
                    Some(ref n) => Some(footprint::Net { num: n.num, name: n_name(&n.name, old, new) }),
                    None => None,
                };
                FE::Pad(r)
            }
            ref x => x.clone(),
        });
    }
    Module { name: m.name.clone(), elements: v }
}

fn n_element(e: &Element, old: &str, new: &str) -> Element {
    match *e {
        Element::Net(ref n) => Element::Net(layout::Net { num: n.num, name: n_name(&n.name, old, new) }),
        Element::NetClass(ref c) => {
            let mut r = c.clone();
            let mut v = vec![];
            for n in &c.nets {
                v.push(n_name(n, old, new));
            }
            r.nets = v;
            Element::NetClass(r)
        }
        Element::Module(ref m) => Element::Module(n_module(m, old, new)),
        Element::Zone(ref z) => {
            let mut r = z.clone();
            r.net_name = n_name(&z.net_name, old, new);
            Element::Zone(r)
        }
        ref x => x.clone(),
    }
}

/// renaming a net on a board renames it everywhere and touches nothing else
pub fn h_rename_layout(x: Layout, old: String, new: String) {
    let mut exp = copy(&x);
    let mut v = vec![];
    for e in &x.elements {
        v.push(n_element(e, &old, &new));
    }
    exp.elements = v;
    let mut x = x;
    x.change_net_name(&old, &new);
    check(same(&x, &exp), "the net is renamed everywhere and nothing else changes");
}

/// renaming a net on a footprint renames it on its pads
pub fn h_rename_module(x: Module, old: String, new: String) {
    let exp = n_module(&x, &old, &new);
    let mut x = x;
    x.rename_net(&old, &new);
    check(same(&x, &exp), "the net is renamed on every pad and nothing else changes");
}
