//! Whole-file texts: printed random values, damaged at random.
use crate::gen::*;

pub fn text(g: &mut G, p: &str) -> String {
    let s = match p {
        "file_text" => file(g),
        _ => crate::any::text_of(g, p),
    };
    let s = layers(s);
    if g.chance(75) {
        damage(g, s)
    } else {
        s
    }
}

/// the line of a schematic that is copied as it is and has to start with EELAYER
fn layers(s: String) -> String {
    let mut l: Vec<&str> = s.lines().collect();
    match l.iter().position(|x| *x == "EELAYER END") {
        Some(i) if i > 0 && !l[i - 1].starts_with("EELAYER ") => {
            l[i - 1] = "EELAYER 25 0";
            l.join("\n") + "\n"
        }
        _ => s,
    }
}

/// a file of any kind
fn file(g: &mut G) -> String {
    match g.below(7) {
        0 => format!("update={}", g.string("x")),
        1 => g.string("x"),
        k => crate::any::text_of(g, ["module_text", "layout_text", "table_text", "sch_text", "sym_text"][k - 2]),
    }
}

fn wide(g: &mut G) -> char {
    ['\u{e9}', '\u{20ac}', '\u{1f600}', '\u{a0}'][g.below(4)]
}

fn damage(g: &mut G, s: String) -> String {
    let mut s = s;
    let n = 1 + g.below(3);
    for _ in 0..n {
        s = match g.below(11) {
            0 => {
                let mut l: Vec<&str> = s.lines().collect();
                if !l.is_empty() {
                    let i = g.below(l.len());
                    l.remove(i);
                }
                l.join("\n")
            }
            1 => {
                let mut l: Vec<&str> = s.lines().collect();
                if !l.is_empty() {
                    let i = g.below(l.len());
                    l.truncate(i);
                }
                l.join("\n")
            }
            2 => {
                let w = g.string("");
                let mut l: Vec<&str> = s.lines().collect();
                let i = g.below(l.len() + 1);
                l.insert(i, &w);
                l.join("\n")
            }
            3 => {
                let mut l: Vec<&str> = s.lines().collect();
                if l.len() > 1 {
                    let i = g.below(l.len());
                    let j = g.below(l.len());
                    l.swap(i, j);
                }
                l.join("\n")
            }
            4 | 5 | 6 | 7 | 8 => {
                // edit one token of one line
                let mut l: Vec<String> = s.lines().map(|x| x.to_string()).collect();
                if !l.is_empty() {
                    let i = g.below(l.len());
                    let mut t: Vec<String> = l[i].split(' ').map(|x| x.to_string()).collect();
                    let j = g.below(t.len());
                    match g.below(12) {
                        6 => {
                            // characters of more than one byte anywhere in a word
                            let w = wide(g);
                            let c: Vec<char> = t[j].chars().collect();
                            let k = g.below(c.len() + 1);
                            t[j] = c[..k].iter().cloned().chain(Some(w)).chain(c[k..].iter().cloned()).collect();
                        }
                        7 => {
                            let w = wide(g);
                            let c: Vec<char> = t[j].chars().collect();
                            let k = g.below(c.len() + 1);
                            t[j] = c[..k].iter().cloned().chain(Some(w)).collect();
                        }
                        8 => {
                            let w = wide(g);
                            t[j] = t[j].chars().skip(1).collect();
                            t[j].insert(0, w);
                        }
                        9 => {
                            // cut a word short
                            let c: Vec<char> = t[j].chars().collect();
                            let k = g.below(c.len() + 1);
                            t[j] = c[..k].iter().cloned().collect();
                        }
                        10 => {
                            let k = g.below(t.len());
                            t[j] = t[k].clone();
                        }
                        0 => {
                            t.remove(j);
                        }
                        1 => t[j] = String::new(),
                        2 => t[j] = g.string(""),
                        3 => t.truncate(j),
                        4 => {
                            let w = g.string("");
                            t.insert(j, w)
                        }
                        _ => t[j] = format!("{}", g.int("", i64::min_value() as i128, i64::max_value() as i128)),
                    }
                    l[i] = t.join(" ");
                }
                l.join("\n")
            }
            9 => {
                let mut c: Vec<char> = s.chars().collect();
                if !c.is_empty() {
                    let i = g.below(c.len());
                    c.remove(i);
                }
                c.into_iter().collect()
            }
            _ => {
                let mut c: Vec<char> = s.chars().collect();
                let i = g.below(c.len() + 1);
                let x = g.character();
                c.insert(i, x);
                c.into_iter().collect()
            }
        };
    }
    s
}
