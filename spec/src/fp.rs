//! Footprints: reading, writing and round trip.
use prim::*;
use kicad_parse_gen::footprint::*;
use symbolic_expressions::iteratom::FromSexp;
use symbolic_expressions::{IntoSexp, Sexp};

rt!(wf_xy, h_read_xy, h_rt_xy, Xy);
pub fn wf_xy(_x: &Xy) -> bool {
    true
}

rt!(wf_at, h_read_at, h_rt_at, At);
pub fn wf_at(_x: &At) -> bool {
    true
}

rt!(wf_xyz, h_read_xyz, h_rt_xyz, Xyz);
pub fn wf_xyz(_x: &Xyz) -> bool {
    true
}

rt!(wf_pts, h_read_pts, h_rt_pts, Pts);
pub fn wf_pts(x: &Pts) -> bool {
    forall(&x.elements, |e| wf_xy(e))
}

rt!(wf_justify, h_read_justify, h_rt_justify, Justify);
pub fn wf_justify(_x: &Justify) -> bool {
    true
}

rt!(wf_font, h_read_font, h_rt_font, Font);
pub fn wf_font(x: &Font) -> bool {
    x.size.t == XyType::Xy
}

rt!(wf_effects, h_read_effects, h_rt_effects, Effects);
pub fn wf_effects(x: &Effects) -> bool {
    wf_font(&x.font)
        && match x.justify {
            Some(ref j) => wf_justify(j),
            None => true,
        }
}

/// the name of a custom layer is not one of the known ones and has no dot
pub fn ok_layer_type(t: &LayerType) -> bool {
    match *t {
        LayerType::Other(ref s) => {
            !s.contains('.') && s != "Cu" && s != "Paste" && s != "Mask" && s != "SilkS" && s != "User" && s != "Adhes"
                && s != "Cuts" && s != "CrtYd" && s != "Fab" && s != "Margin"
        }
        _ => true,
    }
}

pub fn wf_layer(x: &Layer) -> bool {
    ok_layer_type(&x.t)
}

pub fn h_read_layer(s: Sexp) {
    if let Ok(x) = Layer::from_sexp(&s) {
        check(wf_layer(&x), "a layer read is well-formed");
    }
}

pub fn h_read_layer_name(s: String) {
    if let Ok(x) = Layer::from_string(&s) {
        check(wf_layer(&x), "a layer read is well-formed");
    }
}

/// a layer name reads back as the same layer
pub fn h_codec_layer(x: Layer) {
    assume(wf_layer(&x));
    match Layer::from_string(&format!("{}", x)) {
        Ok(y) => check(same(&y, &x), "reads back the same"),
        Err(_) => check(false, "what is written can be read"),
    }
}

rt!(wf_layers, h_read_layers, h_rt_layers, Layers);
pub fn wf_layers(x: &Layers) -> bool {
    forall(&x.layers, |e| wf_layer(e))
}

rt!(wf_net, h_read_net, h_rt_net, Net);
pub fn wf_net(_x: &Net) -> bool {
    true
}

rt!(wf_drill, h_read_drill, h_rt_drill, Drill);
pub fn wf_drill(x: &Drill) -> bool {
    match x.shape {
        None => true,
        Some(ref s) => s == "oval",
    }
}

rt!(wf_fp_text, h_read_fp_text, h_rt_fp_text, FpText);
pub fn wf_fp_text(x: &FpText) -> bool {
    wf_at(&x.at) && wf_layer(&x.layer) && wf_effects(&x.effects)
}

pub fn h_total_pad_type(s: String) {
    let _ = PadType::from_string(&s);
}

pub fn h_total_pad_shape(s: String) {
    let _ = PadShape::from_string(&s);
}

rt!(wf_pad, h_read_pad, h_rt_pad, Pad);
pub fn wf_pad(x: &Pad) -> bool {
    wf_at(&x.at) && wf_xy(&x.size) && x.size.t == XyType::Size
        && match x.rect_delta {
            Some(ref r) => wf_xy(r) && r.t == XyType::RectDelta,
            None => true,
        }
        && wf_layers(&x.layers)
        && match x.drill {
            Some(ref d) => wf_drill(d),
            None => true,
        }
        && match x.net {
            Some(ref n) => wf_net(n),
            None => true,
        }
}

rt!(wf_fp_poly, h_read_fp_poly, h_rt_fp_poly, FpPoly);
pub fn wf_fp_poly(x: &FpPoly) -> bool {
    wf_pts(&x.pts) && wf_layer(&x.layer)
}

rt!(wf_fp_line, h_read_fp_line, h_rt_fp_line, FpLine);
pub fn wf_fp_line(x: &FpLine) -> bool {
    wf_xy(&x.start) && x.start.t == XyType::Start && wf_xy(&x.end) && x.end.t == XyType::End && wf_layer(&x.layer)
}

rt!(wf_fp_circle, h_read_fp_circle, h_rt_fp_circle, FpCircle);
pub fn wf_fp_circle(x: &FpCircle) -> bool {
    wf_xy(&x.center) && x.center.t == XyType::Center && wf_xy(&x.end) && x.end.t == XyType::End && wf_layer(&x.layer)
}

rt!(wf_fp_arc, h_read_fp_arc, h_rt_fp_arc, FpArc);
pub fn wf_fp_arc(x: &FpArc) -> bool {
    wf_xy(&x.start) && x.start.t == XyType::Start && wf_xy(&x.end) && x.end.t == XyType::End && wf_layer(&x.layer)
}

rt!(wf_model, h_read_model, h_rt_model, Model);
pub fn wf_model(x: &Model) -> bool {
    wf_xyz(&x.at) && wf_xyz(&x.scale) && wf_xyz(&x.rotate)
}

rt!(wf_element, h_read_element, h_rt_element, Element);
pub fn wf_element(x: &Element) -> bool {
    match *x {
        Element::Layer(ref l) => wf_layer(l),
        Element::FpText(ref e) => wf_fp_text(e),
        Element::Pad(ref e) => wf_pad(e),
        Element::FpPoly(ref e) => wf_fp_poly(e),
        Element::FpLine(ref e) => wf_fp_line(e),
        Element::FpCircle(ref e) => wf_fp_circle(e),
        Element::FpArc(ref e) => wf_fp_arc(e),
        Element::At(ref e) => wf_at(e),
        Element::Model(ref e) => wf_model(e),
        _ => true,
    }
}

rt!(wf_module, h_read_module, h_rt_module, Module);
pub fn wf_module(x: &Module) -> bool {
    forall(&x.elements, |e| wf_element(e))
}
