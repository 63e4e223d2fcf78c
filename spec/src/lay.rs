//! Board layouts: reading, writing and round trip.
use prim::*;
use fp::*;
use kicad_parse_gen::footprint::Pts;
use kicad_parse_gen::layout::*;
use symbolic_expressions::iteratom::{FromSexp, IterAtom};
use symbolic_expressions::{IntoSexp, Sexp};

rt!(wf_lnet, h_read_lnet, h_rt_lnet, Net);
pub fn wf_lnet(_x: &Net) -> bool {
    true
}

rt!(wf_area, h_read_area, h_rt_area, Area);
pub fn wf_area(_x: &Area) -> bool {
    true
}

rt!(wf_general, h_read_general, h_rt_general, General);
pub fn wf_general(x: &General) -> bool {
    wf_area(&x.area)
}

rt!(wf_hatch, h_read_hatch, h_rt_hatch, Hatch);
pub fn wf_hatch(_x: &Hatch) -> bool {
    true
}

rt!(wf_connect_pads, h_read_connect_pads, h_rt_connect_pads, ConnectPads);
pub fn wf_connect_pads(_x: &ConnectPads) -> bool {
    true
}

rt!(wf_keepout, h_read_keepout, h_rt_keepout, Keepout);
pub fn wf_keepout(_x: &Keepout) -> bool {
    true
}

rt!(wf_fill, h_read_fill, h_rt_fill, Fill);
pub fn wf_fill(_x: &Fill) -> bool {
    true
}

/// a list with the given name holding just a list of points
pub fn ok_points_item(s: &Sexp, name: &str) -> bool {
    match IterAtom::new(s, name) {
        Ok(mut i) => match i.t::<Pts>("pts") {
            Ok(p) => i.close(p).is_ok(),
            Err(_) => false,
        },
        Err(_) => false,
    }
}

/// an uninterpreted item of a zone
pub fn ok_zone_other(s: &Sexp) -> bool {
    !ok_points_item(s, "polygon") && !ok_points_item(s, "filled_polygon") && !ok_points_item(s, "fill_segments")
}

rt!(wf_zone, h_read_zone, h_rt_zone, Zone);
pub fn wf_zone(x: &Zone) -> bool {
    wf_layer(&x.layer) && wf_hatch(&x.hatch) && x.priority <= 0x7fff_ffff_ffff_ffff && wf_connect_pads(&x.connect_pads)
        && match x.keepout {
            Some(ref k) => wf_keepout(k),
            None => true,
        }
        && wf_fill(&x.fill)
        && forall(&x.polygons, |p| wf_pts(p))
        && forall(&x.filled_polygons, |p| wf_pts(p))
        && match x.fill_segments {
            Some(ref p) => wf_pts(p),
            None => true,
        }
        && forall(&x.other, |s| ok_zone_other(s))
}

rt!(wf_netclass, h_read_netclass, h_rt_netclass, NetClass);
pub fn wf_netclass(_x: &NetClass) -> bool {
    true
}

rt!(wf_llayer, h_read_llayer, h_rt_llayer, Layer);
pub fn wf_llayer(x: &Layer) -> bool {
    wf_layer(&x.layer)
}

rt!(wf_setup_element, h_parse_setup_element, h_rt_setup_element, SetupElement);
pub fn wf_setup_element(_x: &SetupElement) -> bool {
    true
}

rt!(wf_setup, h_read_setup, h_rt_setup, Setup);
pub fn wf_setup(x: &Setup) -> bool {
    forall(&x.elements, |e| e.name != "pcbplotparams")
}

rt!(wf_gr_text, h_read_gr_text, h_rt_gr_text, GrText);
pub fn wf_gr_text(x: &GrText) -> bool {
    wf_at(&x.at) && wf_layer(&x.layer) && wf_effects(&x.effects)
}

rt!(wf_gr_line, h_read_gr_line, h_rt_gr_line, GrLine);
pub fn wf_gr_line(x: &GrLine) -> bool {
    wf_xy(&x.start) && wf_xy(&x.end) && wf_layer(&x.layer)
}

rt!(wf_gr_arc, h_read_gr_arc, h_rt_gr_arc, GrArc);
pub fn wf_gr_arc(x: &GrArc) -> bool {
    wf_xy(&x.start) && wf_xy(&x.end) && wf_layer(&x.layer)
}

rt!(wf_gr_circle, h_read_gr_circle, h_rt_gr_circle, GrCircle);
pub fn wf_gr_circle(x: &GrCircle) -> bool {
    wf_xy(&x.center) && wf_xy(&x.end) && wf_layer(&x.layer)
}

rt!(wf_dimension, h_read_dimension, h_rt_dimension, Dimension);
pub fn wf_dimension(x: &Dimension) -> bool {
    wf_layer(&x.layer) && wf_gr_text(&x.text) && wf_pts(&x.feature1) && wf_pts(&x.feature2) && wf_pts(&x.crossbar)
        && wf_pts(&x.arrow1a) && wf_pts(&x.arrow1b) && wf_pts(&x.arrow2a) && wf_pts(&x.arrow2b)
}

rt!(wf_segment, h_read_segment, h_rt_segment, Segment);
pub fn wf_segment(x: &Segment) -> bool {
    wf_xy(&x.start) && wf_xy(&x.end) && wf_layer(&x.layer)
}

rt!(wf_via, h_read_via, h_rt_via, Via);
pub fn wf_via(x: &Via) -> bool {
    wf_at(&x.at) && wf_layers(&x.layers)
}

/// a named list with none of the names the reader interprets
pub fn ok_other(s: &Sexp) -> bool {
    match *s {
        Sexp::List(ref l) => {
            if l.is_empty() {
                return false;
            }
            match l[0] {
                Sexp::String(ref n) => {
                    n != "version" && n != "host" && n != "general" && n != "page" && n != "layers" && n != "module" && n != "net"
                        && n != "net_class" && n != "gr_text" && n != "gr_line" && n != "gr_arc" && n != "gr_circle" && n != "dimension"
                        && n != "zone" && n != "segment" && n != "via" && n != "setup"
                }
                _ => false,
            }
        }
        _ => false,
    }
}

pub fn ok_lelement(x: &Element) -> bool {
    match *x {
        Element::Module(ref e) => wf_module(e),
        Element::Net(ref e) => wf_lnet(e),
        Element::NetClass(ref e) => wf_netclass(e),
        Element::GrText(ref e) => wf_gr_text(e),
        Element::GrLine(ref e) => wf_gr_line(e),
        Element::GrArc(ref e) => wf_gr_arc(e),
        Element::GrCircle(ref e) => wf_gr_circle(e),
        Element::Dimension(ref e) => wf_dimension(e),
        Element::Segment(ref e) => wf_segment(e),
        Element::Via(ref e) => wf_via(e),
        Element::Zone(ref e) => wf_zone(e),
        Element::Other(ref s) => ok_other(s),
    }
}

rt!(wf_layout, h_read_layout, h_rt_layout, Layout);
pub fn wf_layout(x: &Layout) -> bool {
    wf_general(&x.general) && wf_setup(&x.setup) && forall(&x.layers, |l| wf_llayer(l)) && forall(&x.elements, |e| ok_lelement(e))
}
