//! Contracts of the pretty-printer.
use std::io;
use prim::*;
use symbolic_expressions::{Formatter, Sexp};
#[cfg(kicad_verif)]
use kicad_parse_gen::verif::KicadFormatter;

/// what has been written
pub struct Ink {
    open: u64,
    close: u64,
    blank: bool,
    other: bool,
}

impl io::Write for Ink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.write_all(b)?;
        Ok(b.len())
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        for c in b {
            match *c {
                b'(' => self.open += 1,
                b')' => self.close += 1,
                b' ' | b'\n' => self.blank = true,
                _ => self.other = true,
            }
        }
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn clean() -> Ink {
    Ink { open: 0, close: 0, blank: false, other: false }
}

/// what the printer is asked to do
#[derive(Debug)]
pub enum Event {
    Open(Option<Sexp>),
    Named(u8),
    Element(Sexp),
    Close,
}

/// names the printer has rules for
#[inline(never)]
pub fn name(k: u8) -> &'static str {
    match k % 24 {
        0 => "module",
        1 => "net_class",
        2 => "general",
        3 => "layers",
        4 => "setup",
        5 => "fp_lib_table",
        6 => "fp_text",
        7 => "gr_text",
        8 => "pts",
        9 => "zone",
        10 => "polygon",
        11 => "filled_polygon",
        12 => "fp_poly",
        13 => "pad",
        14 => "model",
        15 => "dimension",
        16 => "pcbplotparams",
        17 => "xy",
        18 => "segment",
        19 => "net",
        _ => "kicad_pcb",
    }
}

/// lists that are open already (for the verifier, part of the history that follows)
#[cfg(kicad_verif)]
#[inline(never)]
pub fn inside(f: &mut KicadFormatter, a: u8, b: u8) {
    step(f, &Event::Named(if a % 2 == 0 { 23 } else { a }));
    step(f, &Event::Named(b));
}

#[cfg(kicad_verif)]
fn step(f: &mut KicadFormatter, e: &Event) {
    let mut w = clean();
    match *e {
        Event::Open(ref v) => {
            check(f.open(&mut w, v.as_ref()).is_ok(), "opening succeeds");
            check(w.open == 1 && w.close == 0, "one opening bracket");
        }
        Event::Named(k) => {
            let v = Sexp::String(String::from(name(k)));
            check(f.open(&mut w, Some(&v)).is_ok(), "opening succeeds");
            check(w.open == 1 && w.close == 0, "one opening bracket");
        }
        Event::Element(ref v) => {
            check(f.element(&mut w, v).is_ok(), "going on succeeds");
            check(w.open == 0 && w.close == 0, "no bracket");
            if let Sexp::String(_) = *v {
                check(w.blank, "a word is set apart");
            }
        }
        Event::Close => {
            check(f.close(&mut w).is_ok(), "closing succeeds");
            check(w.open == 0 && w.close == 1, "one closing bracket");
        }
    }
    check(!w.other, "only white space besides");
}

/// the next event of a history
#[inline(never)]
pub fn event(es: &mut Vec<Event>) -> Option<Event> {
    es.pop()
}

/// any history of events
#[cfg(kicad_verif)]
pub fn h_form_events(level: i8, a: u8, b: u8, es: Vec<Event>) {
    let mut es = es;
    let mut f = KicadFormatter::new(i64::from(level));
    inside(&mut f, a, b);
    while let Some(e) = event(&mut es) {
        step(&mut f, &e);
    }
}
