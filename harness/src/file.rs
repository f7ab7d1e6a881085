//! The files which pass between the processes of a run: one `key=value` per line, with text in
//! hexadecimal next to a readable form.

use crate::judge::Violation;
use std::{fs, io, path::Path};

pub fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(h: &str) -> Option<String> {
    let h = h.trim().as_bytes();
    if h.len() % 2 != 0 {
        return None;
    }
    let mut v = Vec::with_capacity(h.len() / 2);
    for p in h.chunks(2) {
        v.push(u8::from_str_radix(std::str::from_utf8(p).ok()?, 16).ok()?);
    }
    String::from_utf8(v).ok()
}

#[derive(Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub violation: Violation,
    pub note: String,
}

impl Replay {
    pub fn save(&self, path: &Path) -> io::Result<()> {
        let v = &self.violation;
        let mut t = format!("property={}\nkind={}\n", self.property, v.kind);
        for (s, f) in &v.calls {
            t += &format!("call=0x{f:x} {}\n", hex(s));
        }
        if let Some((s, f)) = v.calls.last() {
            t += &format!("# input {}\n# flags 0x{f:x}\n", crate::judge::clip(s));
        }
        t += &format!("expected={}\ngot={}\nnote={}\n", one(&v.expected), one(&v.got), one(&self.note));
        fs::write(path, t)
    }
    pub fn load(path: &Path) -> io::Result<Replay> {
        let t = fs::read_to_string(path)?;
        let mut r = Replay {
            property: String::new(),
            violation: Violation { kind: String::new(), calls: vec![], expected: String::new(), got: String::new() },
            note: String::new(),
        };
        for l in t.lines() {
            let Some((k, v)) = l.split_once('=') else { continue };
            match k {
                "property" => r.property = v.into(),
                "kind" => r.violation.kind = v.into(),
                "expected" => r.violation.expected = v.into(),
                "got" => r.violation.got = v.into(),
                "note" => r.note = v.into(),
                "call" => {
                    let (f, h) = v.split_once(' ').unwrap_or((v, ""));
                    let f = u16::from_str_radix(f.trim_start_matches("0x"), 16);
                    if let (Ok(f), Some(s)) = (f, unhex(h)) {
                        r.violation.calls.push((s, f));
                    }
                }
                _ => (),
            }
        }
        Ok(r)
    }
}

fn one(s: &str) -> String {
    s.replace('\n', " ")
}

/// The findings which are known and not repaired: property, flags and input.
pub fn known(path: &Path) -> Vec<(String, u16, String, String)> {
    let mut k = vec![];
    for l in fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(rest) = l.strip_prefix("KNOWN-FINDING: ") else { continue };
        let (mut p, mut f, mut i) = (None, 0, None);
        let mut what = vec![];
        for w in rest.split(' ') {
            if let Some(x) = w.strip_prefix("property=") {
                p = Some(x.to_string());
            } else if let Some(x) = w.strip_prefix("flags=0x") {
                f = u16::from_str_radix(x, 16).unwrap_or(0);
            } else if let Some(x) = w.strip_prefix("input_hex=") {
                i = unhex(x);
            } else {
                what.push(w);
            }
        }
        if let (Some(p), Some(i)) = (p, i) {
            k.push((p, f, i, what.join(" ")));
        }
    }
    k
}
