//! Bounding boxes.
use prim::*;
use kicad_parse_gen::footprint::{FpArc, FpCircle, FpLine, FpPoly, FpText, LayerType, Module, Pad, Pts, Xy};
use kicad_parse_gen::footprint::Element as FE;
use kicad_parse_gen::layout::{Dimension, Element, GrArc, GrCircle, GrLine, GrText, Layout, Segment, Via, Zone};
use kicad_parse_gen::schematic::{Component, Schematic, Sheet};
use kicad_parse_gen::schematic::Element as SE;
use kicad_parse_gen::{Bound, BoundingBox};

fn ordered(b: &Bound) -> bool {
    b.x1 <= b.x2 && b.y1 <= b.y2
}

/// b contains box o
fn covers(b: &Bound, o: &Bound) -> bool {
    b.is_bounded && b.x1 <= o.x1 && b.y1 <= o.y1 && b.x2 >= o.x2 && b.y2 >= o.y2
}

fn holds(b: &Bound, x: f64, y: f64) -> bool {
    b.is_bounded && b.x1 <= x && x <= b.x2 && b.y1 <= y && y <= b.y2
}

fn copy(b: &Bound) -> Bound {
    Bound { x1: b.x1, y1: b.y1, x2: b.x2, y2: b.y2, is_bounded: b.is_bounded }
}

/// merging gives the smallest box containing both; an unbounded one changes nothing
pub fn h_bbox_update(a: Bound, o: Bound) {
    let mut b = copy(&a);
    b.update(&o);
    if !o.is_bounded {
        check(same(&b, &a), "merging an unbounded box changes nothing");
    } else if !a.is_bounded {
        check(same(&b, &o), "merging into an unbounded box gives the other one");
    } else {
        check(covers(&b, &a), "the merged box contains the first");
        check(covers(&b, &o), "the merged box contains the second");
        check((b.x1 == a.x1 || b.x1 == o.x1) && (b.y1 == a.y1 || b.y1 == o.y1), "the merged box has the smallest lower corner");
        check((b.x2 == a.x2 || b.x2 == o.x2) && (b.y2 == a.y2 || b.y2 == o.y2), "the merged box has the smallest upper corner");
    }
}

/// swapping orders the corners and keeps the box
pub fn h_bbox_swap(a: Bound) {
    let mut b = copy(&a);
    b.swap_if_needed();
    check(ordered(&b), "the corners are ordered");
    check(b.is_bounded == a.is_bounded, "still bounded");
    check((b.x1 == a.x1 && b.x2 == a.x2) || (b.x1 == a.x2 && b.x2 == a.x1), "same x range");
    check((b.y1 == a.y1 && b.y2 == a.y2) || (b.y1 == a.y2 && b.y2 == a.y1), "same y range");
}

fn line(b: &Bound, s: &Xy, e: &Xy) {
    check(ordered(b), "the corners are ordered");
    check(holds(b, s.x, s.y), "the box contains the start");
    check(holds(b, e.x, e.y), "the box contains the end");
}

pub fn h_bbox_gr_line(x: GrLine) {
    line(&x.bounding_box(), &x.start, &x.end);
}

pub fn h_bbox_gr_arc(x: GrArc) {
    line(&x.bounding_box(), &x.start, &x.end);
}

pub fn h_bbox_segment(x: Segment) {
    line(&x.bounding_box(), &x.start, &x.end);
}

pub fn h_bbox_fp_line(x: FpLine) {
    line(&x.bounding_box(), &x.start, &x.end);
}

pub fn h_bbox_fp_arc(x: FpArc) {
    line(&x.bounding_box(), &x.start, &x.end);
}

pub fn h_bbox_gr_circle(x: GrCircle) {
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    check(holds(&b, x.center.x, x.center.y), "the box contains the centre");
}

pub fn h_bbox_fp_circle(x: FpCircle) {
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    check(holds(&b, x.center.x, x.center.y), "the box contains the centre");
}

pub fn h_bbox_gr_text(x: GrText) {
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    check(holds(&b, x.at.x, x.at.y), "the box contains the position");
}

pub fn h_bbox_fp_text(x: FpText) {
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    check(holds(&b, x.at.x, x.at.y), "the box contains the position");
}

pub fn h_bbox_via(x: Via) {
    assume(x.size >= 0.0);
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    check(holds(&b, x.at.x, x.at.y), "the box contains the position");
}

pub fn h_bbox_pad(x: Pad) {
    assume(x.size.x >= 0.0 && x.size.y >= 0.0);
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    check(holds(&b, x.at.x, x.at.y), "the box contains the position");
}

// the corners of the box of any value are ordered (used at call sites)
pub fn h_box_pts(x: Pts) {
    check(ordered(&x.bounding_box()), "the corners are ordered");
}

pub fn h_box_fp_poly(x: FpPoly) {
    check(ordered(&x.bounding_box()), "the corners are ordered");
}

pub fn h_box_dimension(x: Dimension) {
    check(ordered(&x.bounding_box()), "the corners are ordered");
}

pub fn h_box_zone(x: Zone) {
    check(ordered(&x.bounding_box()), "the corners are ordered");
}

pub fn h_box_module(x: Module) {
    check(ordered(&x.bounding_box()), "the corners are ordered");
}

// the corners are numbers (used at call sites)
pub fn h_num_pad(x: Pad) {
    let b = x.bounding_box();
    check(b.x1 == b.x1 && b.y1 == b.y1 && b.x2 == b.x2 && b.y2 == b.y2, "the corners are numbers");
    check(b.is_bounded, "bounded");
}

/// a point list is unbounded exactly when it is empty and otherwise its box contains every point
pub fn h_bbox_pts(pre: Vec<Xy>, e: Xy, post: Vec<Xy>) {
    let (x, y) = (e.x, e.y);
    let mut v = pre;
    v.push(e);
    v.extend(post);
    let b = Pts { elements: v }.bounding_box();
    check(ordered(&b), "the corners are ordered");
    check(holds(&b, x, y), "the box contains every point");
}

pub fn h_bbox_fp_poly(p: FpPoly, e: Xy, post: Vec<Xy>) {
    let (x, y) = (e.x, e.y);
    let mut p = p;
    p.pts.elements.push(e);
    p.pts.elements.extend(post);
    let b = p.bounding_box();
    check(ordered(&b), "the corners are ordered");
    check(holds(&b, x, y), "the box contains every point");
}

pub fn h_bbox_dimension(x: Dimension) {
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    check(covers(&b, &x.text.bounding_box()), "the box contains the text");
    inside(&b, &x.feature1.bounding_box());
    inside(&b, &x.feature2.bounding_box());
    inside(&b, &x.crossbar.bounding_box());
    inside(&b, &x.arrow1a.bounding_box());
    inside(&b, &x.arrow1b.bounding_box());
    inside(&b, &x.arrow2a.bounding_box());
    inside(&b, &x.arrow2b.bounding_box());
}

fn inside(b: &Bound, o: &Bound) {
    check(!o.is_bounded || covers(b, o), "the box contains the box of every item");
}

pub fn h_bbox_zone_outline(x: Zone, p: Pts, post: Vec<Pts>) {
    let mut x = x;
    let o = p.bounding_box();
    x.polygons.push(p);
    x.polygons.extend(post);
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    inside(&b, &o);
}

pub fn h_bbox_zone_fill(x: Zone, p: Pts, post: Vec<Pts>) {
    let mut x = x;
    let o = p.bounding_box();
    x.filled_polygons.push(p);
    x.filled_polygons.extend(post);
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    inside(&b, &o);
}

pub fn h_bbox_zone_segments(x: Zone, p: Pts) {
    let mut x = x;
    let o = p.bounding_box();
    x.fill_segments = Some(p);
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    inside(&b, &o);
}

fn counted(e: &FE) -> bool {
    match *e {
        FE::Pad(_) => true,
        FE::FpPoly(ref x) => x.layer.t == LayerType::Fab,
        FE::FpLine(ref x) => x.layer.t == LayerType::Fab,
        FE::FpCircle(ref x) => x.layer.t == LayerType::Fab,
        FE::FpArc(ref x) => x.layer.t == LayerType::Fab,
        _ => false,
    }
}

/// the box of a footprint contains its placement
pub fn h_bbox_module_place(x: Module) {
    let (px, py) = x.at();
    let b = x.bounding_box();
    check(holds(&b, px, py), "the box contains the placement");
}

/// the box of a footprint contains the box of every pad and fabrication-layer item
pub fn h_bbox_module(x: Module, e: FE, post: Vec<FE>) {
    assume(counted(&e));
    let mut x = x;
    let o = e.bounding_box();
    x.elements.push(e);
    x.elements.extend(post);
    let (px, py) = x.at();
    let b = x.bounding_box();
    if o.is_bounded {
        let o = Bound { x1: o.x1 + px, y1: o.y1 + py, x2: o.x2 + px, y2: o.y2 + py, is_bounded: true };
        check(covers(&b, &o), "the box contains the box of every pad and fabrication item");
    }
}

fn item_box(e: &Element) -> Bound {
    match *e {
        Element::Module(ref e) => e.bounding_box(),
        Element::GrText(ref e) => e.bounding_box(),
        Element::GrLine(ref e) => e.bounding_box(),
        Element::GrArc(ref e) => e.bounding_box(),
        Element::GrCircle(ref e) => e.bounding_box(),
        Element::Dimension(ref e) => e.bounding_box(),
        Element::Segment(ref e) => e.bounding_box(),
        Element::Via(ref e) => e.bounding_box(),
        Element::Zone(ref e) => e.bounding_box(),
        _ => Bound::default(),
    }
}

/// the box of a board contains the box of each of its elements
pub fn h_bbox_layout(x: Layout, e: Element, post: Vec<Element>) {
    let mut x = x;
    let o = item_box(&e);
    x.elements.push(e);
    x.elements.extend(post);
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    inside(&b, &o);
}

/// a placed part contains its position
pub fn h_bbox_component(x: Component) {
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    check(holds(&b, x.x as f64, x.y as f64), "the box contains the position");
}

fn small(x: &Sheet) -> bool {
    x.x > -1000000000 && x.x < 1000000000 && x.y > -1000000000 && x.y < 1000000000 && x.dimx >= 0 && x.dimx < 1000000000 && x.dimy >= 0 && x.dimy < 1000000000
}

pub fn h_bbox_sheet(x: Sheet) {
    assume(small(&x));
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    check(holds(&b, x.x as f64, x.y as f64), "the box contains the position");
    check(holds(&b, (x.x + x.dimx) as f64, (x.y + x.dimy) as f64), "the box contains the opposite corner");
}

pub fn h_bbox_schematic_part(x: Schematic, c: Component, post: Vec<SE>) {
    let mut x = x;
    assume(forall(&x.sheets, |s| small(s)));
    let o = c.bounding_box();
    x.elements.push(SE::Component(c));
    x.elements.extend(post);
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    inside(&b, &o);
}

pub fn h_bbox_schematic_sheet(x: Schematic, s: Sheet, post: Vec<Sheet>) {
    let mut x = x;
    assume(forall(&x.sheets, |s| small(s)));
    assume(small(&s));
    assume(forall(&post, |s| small(s)));
    let o = s.bounding_box();
    x.sheets.push(s);
    x.sheets.extend(post);
    let b = x.bounding_box();
    check(ordered(&b), "the corners are ordered");
    inside(&b, &o);
}
