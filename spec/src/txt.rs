//! Names, references, net names and enumerated codes.
use prim::*;
use kicad_parse_gen::checkfix::{allowed_1_7_items, is_allowed_1_7, CheckFixData, CheckFixItem};
use kicad_parse_gen::layout::NetName;
use kicad_parse_gen::reference_ord;
use kicad_parse_gen::schematic::{Justify, Orientation};
#[cfg(kicad_verif)]
use kicad_parse_gen::verif;

// ---------------------------------------------------------------- characters of a name
fn good(c: char) -> bool {
    (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_' || c == '-' || c == '.'
}

fn bad_chars(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut i: usize = 0;
    for c in s.chars() {
        if !good(c) {
            v.push(format!("Invalid char '{}' at {} in '{}'", c, i, s));
        }
        i += 1;
    }
    v
}

/// the findings about a name
pub fn name_items(s: &str) -> Vec<CheckFixData> {
    let mut v = vec![];
    for m in bad_chars(s) {
        v.push(CheckFixData::Item(CheckFixItem { section: 1, rule: 7, item: String::from(s), message: m, info: false }));
    }
    v
}

pub fn h_fn_allowed(s: String) {
    check(same(&allowed_1_7_items(&s), &name_items(&s)), "one finding per character that is not allowed, in order");
}

pub fn h_name_items(s: String) {
    let bad = bad_chars(&s);
    let mut v = vec![];
    for x in allowed_1_7_items(&s) {
        match x {
            CheckFixData::Item(i) => {
                check(i.section == 1 && i.rule == 7 && i.item == s && !i.info, "a finding is about the name and the character rule");
                v.push(i.message);
            }
            CheckFixData::More(_) => check(false, "findings are single"),
        }
    }
    check(same(&v, &bad), "one finding per character that is not allowed, in order");
}

pub fn h_name_allowed(s: String) {
    check(is_allowed_1_7(&s) == bad_chars(&s).is_empty(), "accepted exactly when every character is allowed");
}

// ---------------------------------------------------------------- sort key of a reference
fn digits(s: &str) -> String {
    let mut d = String::new();
    for c in s.chars() {
        if c == ',' {
            break;
        }
        if c >= '0' && c <= '9' {
            d.push(c);
        }
    }
    d
}

fn first(s: &str) -> Option<char> {
    for c in s.chars() {
        return Some(c);
    }
    None
}

pub fn h_ord_key(s: String) {
    let a = first(&s);
    let n = match digits(&s).parse::<i64>() {
        Ok(n) => n,
        Err(_) => 0,
    };
    let (c, m) = reference_ord(&s);
    check(m == n, "the number is made of the digits before the first comma, 0 if there is none");
    match a {
        Some(d) => check(c == d, "the letter is the first character"),
        None => (),
    }
}

// ---------------------------------------------------------------- generated net names
fn lacks(s: &String) -> bool {
    !s.contains('-') && !s.contains('(') && !s.contains(')')
}

/// every generated name yields its parts
pub fn h_net_parts(comp: String, pad: String) {
    assume(lacks(&comp) && lacks(&pad));
    let n = NetName(format!("Net-({}-{})", comp, pad));
    check(n.is_unnamed_net() == Some((comp, pad)), "a generated name yields its parts");
}

/// only generated names are recognised
pub fn h_net_only(s: String) {
    let n = NetName(s.clone());
    if let Some((c, p)) = n.is_unnamed_net() {
        check(s == format!("Net-({}-{})", c, p), "a recognised name is made of the parts");
        check(lacks(&c) && lacks(&p), "the parts contain no separators");
    }
}

pub fn h_net_set(s: String, new: String) {
    let mut n = NetName(s.clone());
    let old = n.is_unnamed_net();
    match n.set_unnamed_net(&new) {
        Ok(()) => match old {
            Some((_, p)) => check(n.0 == format!("Net-({}-{})", new, p), "the new component part with the same pad part"),
            None => check(false, "only generated names are renamed"),
        },
        Err(_) => check(old.is_none() && n.0 == s, "any other name is refused unchanged"),
    }
}

pub fn h_net_block(s: String, from: String, to: String) {
    let mut n = NetName(s.clone());
    n.replace_block(&from, &to);
    check(n.0 == s.replace(&format!("/{}/", from), &format!("/{}/", to)), "only complete path segments are replaced");
}

// ---------------------------------------------------------------- codes
pub fn h_code_orientation(o: Orientation) {
    let s = format!("{}", o);
    match first(&s) {
        Some(c) => match Orientation::new(c) {
            Ok(p) => check(same(&o, &p), "an orientation reads back"),
            Err(_) => check(false, "a written orientation can be read"),
        },
        None => check(false, "an orientation has a code"),
    }
}

pub fn h_code_justify(o: Justify) {
    let s = format!("{}", o);
    match first(&s) {
        Some(c) => match Justify::new(c) {
            Ok(p) => check(same(&o, &p), "a justification reads back"),
            Err(_) => check(false, "a written justification can be read"),
        },
        None => check(false, "a justification has a code"),
    }
}

pub fn h_code_unknown(c: char) {
    if let Ok(o) = Orientation::new(c) {
        check(first(&format!("{}", o)) == Some(c), "only codes of orientations are accepted");
    }
    if let Ok(o) = Justify::new(c) {
        check(first(&format!("{}", o)) == Some(c), "only codes of justifications are accepted");
    }
}

/// a field of a line as it is written
pub struct Fld {
    pub quoted: bool,
    pub text: String,
    pub gap: String,
}

pub fn ok_fld(f: &Fld) -> bool {
    spaces(&f.gap) && if f.quoted { unquoted(&f.text) } else { !f.text.is_empty() && word(&f.text) }
}

pub fn spaces(s: &String) -> bool {
    for c in s.chars() {
        if c != ' ' {
            return false;
        }
    }
    true
}

pub fn unquoted(s: &String) -> bool {
    for c in s.chars() {
        if c == '"' {
            return false;
        }
    }
    true
}

pub fn word(s: &String) -> bool {
    for c in s.chars() {
        if c == '"' || c == ' ' {
            return false;
        }
    }
    true
}

fn put(line: &mut String, f: &Fld) {
    if f.quoted {
        line.push('"');
        line.push_str(&f.text);
        line.push('"');
    } else {
        line.push_str(&f.text);
    }
}

/// a line of fields, each followed by spaces, splits into the texts of the fields
#[cfg(kicad_verif)]
pub fn h_split_line(lead: String, fs: Vec<Fld>) {
    assume(spaces(&lead));
    assume(forall(&fs, ok_fld));
    let mut line = lead.clone();
    let mut want: Vec<String> = vec![];
    for f in &fs {
        put(&mut line, f);
        line.push(' ');
        line.push_str(&f.gap);
        want.push(f.text.clone());
    }
    match verif::split(None, &line) {
        Ok(v) => check(same(&want, &v), "the fields of a line"),
        Err(_) => check(false, "every line has fields"),
    }
}

/// the same with a last field at the end of the line
#[cfg(kicad_verif)]
pub fn h_split_end(lead: String, fs: Vec<Fld>, last: Fld) {
    assume(spaces(&lead));
    assume(forall(&fs, ok_fld));
    assume(ok_fld(&last));
    let mut line = lead.clone();
    let mut want: Vec<String> = vec![];
    for f in &fs {
        put(&mut line, f);
        line.push(' ');
        line.push_str(&f.gap);
        want.push(f.text.clone());
    }
    put(&mut line, &last);
    want.push(last.text.clone());
    match verif::split(None, &line) {
        Ok(v) => check(same(&want, &v), "the fields of a line"),
        Err(_) => check(false, "every line has fields"),
    }
}

/// with a number of fields asked for, the text after them is kept as it stands
#[cfg(kicad_verif)]
pub fn h_split_rest(lead: String, fs: Vec<Fld>, rest: String) {
    assume(spaces(&lead));
    assume(forall(&fs, ok_fld));
    assume(!fs.is_empty());
    let mut line = lead.clone();
    let mut want: Vec<String> = vec![];
    for f in &fs {
        put(&mut line, f);
        line.push(' ');
        want.push(f.text.clone());
    }
    line.push_str(&rest);
    if !rest.is_empty() {
        want.push(rest.clone());
    }
    match verif::split(Some(fs.len()), &line) {
        Ok(v) => check(same(&want, &v), "the fields of a line and the rest"),
        Err(_) => check(false, "the line has enough fields"),
    }
}

/// a line with fewer fields than asked for is an error
#[cfg(kicad_verif)]
pub fn h_split_few(lead: String, fs: Vec<Fld>, last: Fld, n: usize) {
    assume(spaces(&lead));
    assume(forall(&fs, ok_fld));
    assume(ok_fld(&last));
    let mut line = lead.clone();
    for f in &fs {
        put(&mut line, f);
        line.push(' ');
        line.push_str(&f.gap);
    }
    put(&mut line, &last);
    assume(n > fs.len());
    let r = verif::split(Some(n), &line);
    check(r.is_ok() == (n == fs.len() + 1), "a missing field is an error");
}
