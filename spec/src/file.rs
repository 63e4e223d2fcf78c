//! Contracts of reading a file of some kind.
use std::path::PathBuf;
use prim::*;
use kicad_parse_gen::{footprint, fp_lib_table, layout, project, schematic, symbol_lib};
use kicad_parse_gen::{read_fp_lib_table, read_kicad_file, read_layout, read_module, read_project, read_schematic, read_symbol_lib};
use kicad_parse_gen::{Expected, KicadError, KicadFile};

/// how each reader takes the content
struct Readers {
    module: Result<footprint::Module, KicadError>,
    schematic: Result<schematic::Schematic, KicadError>,
    layout: Result<layout::Layout, KicadError>,
    symbol_lib: Result<symbol_lib::SymbolLib, KicadError>,
    project: Result<project::Project, KicadError>,
    table: Result<fp_lib_table::FpLibTable, KicadError>,
}

fn readers(p: &PathBuf, s: &str) -> Readers {
    Readers {
        module: footprint::parse(s),
        schematic: schematic::parse(Some(p.clone()), s),
        layout: layout::parse(s),
        symbol_lib: symbol_lib::parse_str(s),
        project: project::parse_str(s),
        table: fp_lib_table::parse(s).map_err(|x| KicadError::from(x)),
    }
}

impl Readers {
    /// how many kinds come before the first that accepts the content (6: none does)
    fn first(&self) -> u8 {
        if self.module.is_ok() {
            return 0;
        }
        if self.schematic.is_ok() {
            return 1;
        }
        if self.layout.is_ok() {
            return 2;
        }
        if self.symbol_lib.is_ok() {
            return 3;
        }
        if self.project.is_ok() {
            return 4;
        }
        if self.table.is_ok() {
            return 5;
        }
        6
    }
}

fn accepted<T: ::std::fmt::Debug>(x: &T, r: &Result<T, KicadError>) -> bool {
    match *r {
        Ok(ref y) => same(x, y),
        Err(_) => false,
    }
}

fn rejected<T>(x: &KicadError, r: &Result<T, KicadError>) -> bool {
    match *r {
        Ok(_) => false,
        Err(ref y) => same(x, y),
    }
}

fn kind(s: &str, e: Expected, n: u8) {
    let p = file(s);
    let r = read_kicad_file(&p, e);
    let q = readers(&p, s);
    let first = q.first();
    let stop = n < first;
    match r {
        Ok(KicadFile::Module(ref x)) => {
            check(first == 0 && !stop, "a footprint only when its reader is the first to accept");
            check(accepted(x, &q.module), "the footprint read");
        }
        Ok(KicadFile::Schematic(ref x)) => {
            check(first == 1 && !stop, "a schematic only when its reader is the first to accept");
            check(accepted(x, &q.schematic), "the schematic read");
        }
        Ok(KicadFile::Layout(ref x)) => {
            check(first == 2 && !stop, "a layout only when its reader is the first to accept");
            check(accepted(x, &q.layout), "the layout read");
        }
        Ok(KicadFile::SymbolLib(ref x)) => {
            check(first == 3 && !stop, "a symbol library only when its reader is the first to accept");
            check(accepted(x, &q.symbol_lib), "the symbol library read");
        }
        Ok(KicadFile::Project(ref x)) => {
            check(first == 4 && !stop, "a project only when its reader is the first to accept");
            check(accepted(x, &q.project), "the project read");
        }
        Ok(KicadFile::FpLibTable(ref x)) => {
            check(first == 5 && !stop, "a library table only when its reader is the first to accept");
            check(accepted(x, &q.table), "the library table read");
        }
        Ok(KicadFile::Unknown(ref x)) => {
            check(first == 6 && !stop, "unknown only when no reader accepts");
            check(same(x, &p), "the path of the unknown file");
        }
        Err(ref x) => {
            check(stop, "an error only when the expected reader rejects");
            let y = match n {
                0 => rejected(x, &q.module),
                1 => rejected(x, &q.schematic),
                2 => rejected(x, &q.layout),
                3 => rejected(x, &q.symbol_lib),
                4 => rejected(x, &q.project),
                _ => rejected(x, &q.table),
            };
            check(y, "the error of the expected reader");
        }
    }
    done(p);
}

/// what a file is read as when any kind will do
pub fn h_file_any(file_text: String) {
    kind(&file_text, Expected::Any, 6);
}

/// what a file is read as when a footprint is expected
pub fn h_file_footprint(file_text: String) {
    kind(&file_text, Expected::Module, 0);
}

/// what a file is read as when a schematic is expected
pub fn h_file_schematic(file_text: String) {
    kind(&file_text, Expected::Schematic, 1);
}

/// what a file is read as when a layout is expected
pub fn h_file_layout(file_text: String) {
    kind(&file_text, Expected::Layout, 2);
}

/// what a file is read as when a symbol library is expected
pub fn h_file_symbols(file_text: String) {
    kind(&file_text, Expected::SymbolLib, 3);
}

/// what a file is read as when a project is expected
pub fn h_file_project(file_text: String) {
    kind(&file_text, Expected::Project, 4);
}

/// what a file is read as when a library table is expected
pub fn h_file_table(file_text: String) {
    kind(&file_text, Expected::FpLibTable, 5);
}

fn only<T: ::std::fmt::Debug>(r: Result<T, KicadError>, x: &Result<T, KicadError>, first: u8, n: u8) {
    match r {
        Ok(ref y) => check(first == n && accepted(y, x), "the value the reader of the kind gives"),
        Err(ref y) => {
            check(first != n, "an accepted file is returned");
            if first > n {
                check(rejected(y, x), "the error of the reader of the kind");
            }
        }
    }
}

/// reading a footprint file
pub fn h_file_read_module(file_text: String) {
    let p = file(&file_text);
    let q = readers(&p, &file_text);
    only(read_module(&p), &q.module, q.first(), 0);
    done(p);
}

/// reading a schematic file
pub fn h_file_read_schematic(file_text: String) {
    let p = file(&file_text);
    let q = readers(&p, &file_text);
    only(read_schematic(&p), &q.schematic, q.first(), 1);
    done(p);
}

/// reading a layout file
pub fn h_file_read_layout(file_text: String) {
    let p = file(&file_text);
    let q = readers(&p, &file_text);
    only(read_layout(&p), &q.layout, q.first(), 2);
    done(p);
}

/// reading a symbol library file
pub fn h_file_read_symbols(file_text: String) {
    let p = file(&file_text);
    let q = readers(&p, &file_text);
    only(read_symbol_lib(&p), &q.symbol_lib, q.first(), 3);
    done(p);
}

/// reading a project file
pub fn h_file_read_project(file_text: String) {
    let p = file(&file_text);
    let q = readers(&p, &file_text);
    only(read_project(&p), &q.project, q.first(), 4);
    done(p);
}

/// reading a library table file
pub fn h_file_read_table(file_text: String) {
    let p = file(&file_text);
    let q = readers(&p, &file_text);
    only(read_fp_lib_table(&p), &q.table, q.first(), 5);
    done(p);
}
