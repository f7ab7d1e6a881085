//! Literals found in the sources of the crate under test. They only make up workload: an input
//! or a size which the code singles out is likely to be written in it somewhere.

use std::{collections::BTreeSet, fs, path::Path, sync::OnceLock};

#[derive(Default)]
pub struct Dict {
    pub strings: Vec<String>,
    pub ints: Vec<u64>,
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("UNDMON_REPO").unwrap_or_else(|_| "/repo".into());
        let (mut s, mut n) = (BTreeSet::new(), BTreeSet::new());
        walk(Path::new(&root).join("src").as_path(), &mut s, &mut n);
        Dict {
            strings: s.into_iter().take(3000).collect(),
            ints: n.into_iter().take(3000).collect(),
        }
    })
}

fn walk(dir: &Path, s: &mut BTreeSet<String>, n: &mut BTreeSet<u64>) {
    let Ok(rd) = fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, s, n);
        } else if p.extension().is_some_and(|x| x == "rs") && p.file_name().is_some_and(|x| x != "tests.rs") {
            if let Ok(t) = fs::read_to_string(&p) {
                scan(&t, s, n);
            }
        }
    }
}

fn scan(text: &str, strings: &mut BTreeSet<String>, ints: &mut BTreeSet<u64>) {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut word = false; // the last character was part of a word
    while i < c.len() {
        if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if c[i] == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' && i + 1 < c.len() {
                    i += 1;
                    i += escape(&c[i..], &mut s);
                    continue;
                } else {
                    s.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            if (1..=40).contains(&s.chars().count()) && !s.contains('{') {
                strings.insert(s);
            }
            word = false;
            continue;
        }
        if c[i] == '\'' && c.get(i + 2) == Some(&'\'') && c[i + 1] != '\\' {
            strings.insert(c[i + 1].to_string());
            i += 3;
            word = false;
            continue;
        }
        if c[i] == '\'' && c.get(i + 1) == Some(&'\\') {
            let mut s = String::new();
            let k = c.get(i + 2..).map_or(0, |rest| escape(rest, &mut s));
            if k > 0 && c.get(i + 2 + k) == Some(&'\'') {
                strings.insert(s);
                i += k + 3;
                word = false;
                continue;
            }
        }
        if c[i].is_ascii_digit() && !word {
            let start = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let t: String = c[start..i].iter().filter(|&&x| x != '_').collect();
            let parsed = match t.strip_prefix("0x") {
                Some(h) => u64::from_str_radix(h.trim_end_matches(|x: char| !x.is_ascii_hexdigit()), 16).ok(),
                None => {
                    let d: String = t.chars().take_while(char::is_ascii_digit).collect();
                    d.parse().ok()
                }
            };
            if let Some(v) = parsed {
                ints.insert(v);
                // a shift
                let rest: String = c[i..(i + 8).min(c.len())].iter().collect();
                if let Some(k) = rest.trim_start().strip_prefix("<<") {
                    let k: String = k.trim_start().chars().take_while(char::is_ascii_digit).collect();
                    if let Ok(k) = k.parse::<u32>() {
                        if let Some(x) = v.checked_shl(k) {
                            ints.insert(x);
                        }
                    }
                }
            }
            word = false;
            continue;
        }
        word = c[i].is_alphanumeric() || c[i] == '_';
        i += 1;
    }
}

/// What comes after a backslash; says how long it was.
fn escape(c: &[char], out: &mut String) -> usize {
    let hex = |t: &[char]| u32::from_str_radix(&t.iter().collect::<String>(), 16).ok().and_then(char::from_u32);
    match c.first() {
        Some('n') => out.push('\n'),
        Some('t') => out.push('\t'),
        Some('r') => out.push('\r'),
        Some('0') => out.push('\0'),
        Some('x') if c.len() > 2 => {
            out.extend(hex(&c[1..3]));
            return 3;
        }
        Some('u') if c.get(1) == Some(&'{') => {
            let n = c.iter().position(|&x| x == '}').unwrap_or(c.len() - 1);
            out.extend(hex(&c[2..n.max(2)]));
            return n + 1;
        }
        Some('\n') => {
            return 1 + c[1..].iter().take_while(|x| x.is_whitespace()).count();
        }
        Some(&x) => out.push(x),
        None => return 0,
    }
    1
}

#[cfg(test)]
mod tests {
    #[test]
    fn scans() {
        let (mut s, mut n) = Default::default();
        super::scan(r#"f("a\u{e9}b\n", 'x', '\'', '\u{80}'..='\x41', b"\"q", 1 << 4, 'a) // "no""#, &mut s, &mut n);
        assert_eq!(s.into_iter().collect::<Vec<_>>(), ["\"q", "'", "A", "aéb\n", "x", "\u{80}"]);
        assert_eq!(n.into_iter().collect::<Vec<_>>(), [1, 4, 16]);
    }
}
