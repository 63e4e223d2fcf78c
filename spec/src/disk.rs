//! Contracts of reading and writing files.
use prim::*;
use kicad_parse_gen::{footprint, layout};
use kicad_parse_gen::{read_file, write_file, write_layout, write_module, KicadError};

fn written(r: Result<(), KicadError>, d: &Disk, text: &String) {
    match r {
        Ok(()) => check(same(&d.content(), text), "the file holds exactly the text"),
        Err(ref x) => check(d.named(x), "the error names the file"),
    }
}

/// writing a text
pub fn h_disk_write(k: u8, old: String, text: String) {
    let d = disk(k, old);
    written(write_file(&d.path, &text), &d, &text);
    d.remove();
}

/// writing a footprint
pub fn h_disk_write_module(k: u8, old: String, m: footprint::Module) {
    if let Ok(text) = footprint::module_to_string(&m, 0) {
        let d = disk(k, old);
        written(write_module(&m, &d.path), &d, &text);
        d.remove();
    }
}

/// writing a layout
pub fn h_disk_write_layout(k: u8, old: String, l: layout::Layout) {
    if let Ok(text) = layout::layout_to_string(&l, 0) {
        let d = disk(k, old);
        written(write_layout(&l, &d.path), &d, &text);
        d.remove();
    }
}

/// reading a text
pub fn h_disk_read(k: u8, text: String) {
    let d = disk(k % 4 + 4, text);
    if let Ok(s) = read_file(&d.path) {
        check(same(&s, &d.content()), "the whole content");
    }
    d.remove();
}
