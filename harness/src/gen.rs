//! Writes mangled symbols, mostly well-formed ones, by walking the grammar.
//!
//! The generator keeps its own tables of what has been remembered, so that most back-references
//! it writes are good and some are not. What it believes needn't be exact: the model decides.

use crate::rng::Rng;

/// What a workload is made of. All the `u32`s are percentages or weights.
#[derive(Clone, Debug)]
pub struct Profile {
    pub tops: [u32; TOPS],
    pub backref: u32,
    pub param_backref: u32,
    pub template: u32,
    pub local: u32,
    pub anon: u32,
    pub operator: u32,
    pub structor: u32,
    pub weird_ident: u32,
    pub long_ident: u32,
    pub hard_number: u32,
    pub tpl_value: u32, // template arguments which aren't types
    pub compound: u32,  // types which aren't primitive or tags
    pub quals: u32,     // unusual qualifiers
    pub thunk: u32,
    pub odd_func: u32, // extern "C", no parameters, unusual conventions
    pub max_params: usize,
    pub max_args: usize,
    pub max_scopes: usize,
    pub budget: usize,
    pub reuse: u32, // reuse identifiers
    pub noise: u32, // per mille chance of a wrong character at each choice
}

pub const TOPS: usize = 9;
pub const T_FUNC: usize = 0;
pub const T_VAR: usize = 1;
pub const T_TABLE: usize = 2;
pub const T_GUARD: usize = 3;
pub const T_STR: usize = 4;
pub const T_MD5: usize = 5;
pub const T_TYPEINFO: usize = 6;
pub const T_VCALL: usize = 7;
pub const T_INIT: usize = 8;

impl Default for Profile {
    fn default() -> Profile {
        Profile {
            tops: [50, 15, 12, 4, 4, 1, 5, 4, 5],
            backref: 25,
            param_backref: 25,
            template: 20,
            local: 5,
            anon: 6,
            operator: 15,
            structor: 12,
            weird_ident: 5,
            long_ident: 2,
            hard_number: 20,
            tpl_value: 40,
            compound: 45,
            quals: 30,
            thunk: 8,
            odd_func: 10,
            max_params: 14,
            max_args: 12,
            max_scopes: 12,
            budget: 60,
            reuse: 30,
            noise: 1,
        }
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub p: Profile,
    out: String,
    names: usize,
    params: usize,
    pool: Vec<String>,
    budget: isize,
}

const PRIMS: &[&str] = &[
    "X", "D", "C", "E", "F", "G", "H", "I", "J", "K", "M", "N", "O", "_N", "_J", "_K", "_W", "_Q",
    "_S", "_U", "_P", "_T", "$$T",
];
const UNI: &[char] = &[
    'é', 'ß', 'Ω', 'ж', '中', '文', '\u{301}', '½', '→', '😀', '𝔘', '\u{200d}', '٣', 'ª', '\u{a0}',
    '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{fffd}',
];

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, p: Profile) -> Gen<'r> {
        let budget = p.budget as isize;
        Gen { r, p, out: String::new(), names: 0, params: 0, pool: vec![], budget }
    }

    pub fn symbol(mut self) -> String {
        let k = self.r.weighted(&self.p.tops);
        self.top(k);
        if self.r.one_in(60) {
            let t = *self.r.pick(&["@", "Z", "A", "8", "x", "?", " ", "é", "\0"]);
            self.out.push_str(t);
        }
        self.out
    }

    pub fn take(self) -> String {
        self.out
    }
    fn w(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn noise(&mut self) {
        if self.p.noise > 0 && self.r.below(1000) < self.p.noise as usize {
            let c = *self.r.pick(&['@', '?', '$', 'A', 'Q', '0', '9', '_', 'Z', 'X', '8', '6', 'é']);
            self.out.push(c);
        }
    }
    fn spend(&mut self) -> bool {
        self.budget -= 1;
        self.budget > 0
    }
    fn pct(&mut self, n: u32) -> bool {
        self.r.pct(n)
    }

    fn top(&mut self, k: usize) {
        match k {
            T_VAR => {
                self.w("?");
                self.symbol_name(true);
                self.variable();
            }
            T_TABLE => self.table(),
            T_GUARD => {
                let c = *self.r.pick(&["??_B", "??__J"]);
                self.w(c);
                self.scopes(1);
                let c = *self.r.pick(&["4IA", "5"]);
                self.w(c);
                if self.pct(70) {
                    self.number(false);
                }
            }
            T_STR => self.string(),
            T_MD5 => {
                self.w("??@");
                let n = *self.r.pick(&[32, 32, 32, 0, 1, 31, 33]);
                for _ in 0..n {
                    let c = *self.r.pick(&['0', '9', 'a', 'f', '5', 'c']);
                    self.out.push(c);
                }
                if self.pct(5) {
                    let s = self.ident();
                    self.w(&s);
                }
                self.w("@");
                let t = *self.r.pick(&["", "", "??_R4@", "??_R4", "8", "??_R4@x"]);
                self.w(t);
            }
            T_TYPEINFO => {
                self.w(".");
                self.result_type();
            }
            T_VCALL => {
                self.w("??_9");
                self.scopes(1);
                self.w("$B");
                self.number(false);
                self.w("A");
                self.cc();
            }
            T_INIT => {
                let c = *self.r.pick(&["??__E", "??__F"]);
                self.w(c);
                match self.r.below(6) {
                    0..=1 => {
                        self.symbol_name(false);
                        self.function();
                    }
                    2..=4 => {
                        self.w("?");
                        self.symbol_name(true);
                        self.variable();
                        self.w("@@");
                        self.function();
                    }
                    _ => {
                        self.symbol_name(true);
                        self.variable();
                        self.w("@");
                        self.function();
                    }
                }
            }
            _ => {
                self.w("?");
                self.symbol_name(false);
                self.function();
            }
        }
    }

    fn table(&mut self) {
        match self.r.below(10) {
            0..=4 => {
                let c = *self.r.pick(&["??_7", "??_8", "??_S", "??_R4"]);
                self.w(c);
                self.scopes(1);
                let c = *self.r.pick(&["6", "7"]);
                self.w(c);
                self.quals(true);
                if self.pct(55) {
                    self.w("@");
                } else {
                    self.type_name();
                    if self.pct(60) {
                        self.w("@");
                    }
                }
            }
            5..=6 => {
                self.w("??_R0");
                self.result_type();
                self.w("@8");
            }
            7 => {
                self.w("??_R1");
                self.number(false);
                self.number(true);
                self.number(false);
                self.number(false);
                self.scopes(1);
                self.w("8");
            }
            _ => {
                let c = *self.r.pick(&["??_R2", "??_R3"]);
                self.w(c);
                self.scopes(1);
                self.w("8");
            }
        }
    }

    pub fn string(&mut self) {
        let wide = self.pct(45);
        self.w(if wide { "??_C@_1" } else { "??_C@_0" });
        let unit = if wide { 2 } else { *self.r.pick(&[1, 1, 1, 2, 4]) };
        let units = match self.r.below(10) {
            0..=4 => self.r.range(0, 8),
            5..=7 => self.r.range(0, 40),
            8 => *self.r.pick(&[15, 16, 31, 32, 33, 63, 64, 65]),
            _ => self.r.range(0, 140),
        };
        let mut bytes: Vec<u8> = vec![];
        let style = self.r.below(4);
        for _ in 0..units {
            let c: u32 = match style {
                0 => self.r.range(0x20, 0x7e) as u32,
                1 => *self.r.pick(&[0u32, 1, 7, 8, 9, 10, 11, 12, 13, 27, 0x22, 0x27, 0x5c, 0x7f]),
                2 => self.r.below(256) as u32,
                _ => (self.r.u64() >> self.r.range(32, 63)) as u32,
            };
            let le = c.to_le_bytes();
            if unit == 2 && wide {
                bytes.push(le[1]);
                bytes.push(le[0]);
            } else {
                bytes.extend(&le[..unit]);
            }
        }
        let nul = self.pct(85);
        if nul {
            bytes.extend(vec![0; unit]);
        }
        let mut len = bytes.len() as u64;
        match self.r.below(12) {
            0..=2 => {
                // what the compiler does: only the first 32 bytes, but the whole length
                bytes.truncate(32);
                if self.pct(30) {
                    len += self.r.below(200) as u64;
                }
            }
            3 => len = len.wrapping_add(self.r.range(1, 5) as u64),
            4 => len = len.saturating_sub(self.r.range(1, 4) as u64),
            5 => len = *self.r.pick(&[0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 66, 1 << 32, u64::MAX]),
            _ => (),
        }
        self.number_of(len, false);
        for _ in 0..self.r.below(9) {
            let c = *self.r.pick(&['A', 'P', 'K', 'B', 'O']);
            self.out.push(c);
        }
        self.w("@");
        for b in bytes {
            self.lit_byte(b);
        }
        self.w("@");
    }

    fn lit_byte(&mut self, b: u8) {
        let c = b as char;
        self.noise();
        if (c.is_ascii_alphanumeric() || c == '_' || c == '$') && !self.r.one_in(20) {
            self.out.push(c);
        } else if let Some(i) = b",/\\:. \n\t'-".iter().position(|&x| x == b) {
            if self.r.one_in(20) {
                self.hex_byte(b);
            } else {
                self.out.push('?');
                self.out.push((b'0' + i as u8) as char);
            }
        } else if b >= 0x80 && (b & 0x7f).is_ascii_alphabetic() && self.pct(70) {
            self.out.push('?');
            self.out.push((b & 0x7f) as char);
        } else if b >= 0x80 && self.r.one_in(20) {
            self.out.push(c); // a raw Latin-1 character
        } else if self.r.one_in(30) && c != '?' && c != '@' {
            self.out.push(c);
        } else {
            self.hex_byte(b);
        }
    }

    fn hex_byte(&mut self, b: u8) {
        self.w("?$");
        self.out.push((b'A' + (b >> 4)) as char);
        self.out.push((b'A' + (b & 15)) as char);
    }

    // ---------------------------------------------------------------- numbers

    pub fn number(&mut self, signed: bool) {
        self.noise();
        let neg = if signed { self.pct(35) } else { self.r.one_in(60) };
        if !self.pct(self.p.hard_number) {
            let v = self.r.below(40) as u64;
            return self.number_of(v, neg);
        }
        match self.r.below(10) {
            0..=5 => {
                let bit = self.r.below(64);
                let base = 1u64 << bit;
                let v = match self.r.below(4) {
                    0 => base,
                    1 => base - 1,
                    2 => base + self.r.below(16) as u64,
                    _ => self.r.u64() >> bit,
                };
                self.number_of(v, neg);
            }
            6 => {
                // leading zeros, or too many digits
                if neg {
                    self.w("?");
                }
                for _ in 0..self.r.range(0, 20) {
                    let d = self.r.below(16) as u8;
                    self.out.push((b'A' + d) as char);
                }
                self.w("@");
            }
            7 => {
                if neg {
                    self.w("?");
                }
                let z = self.r.range(1, 4);
                self.w(&"A".repeat(z));
                let v = self.r.u64() >> self.r.range(1, 63);
                self.hex(v);
            }
            8 => {
                let v = self.r.range(1, 10) as u64;
                if neg {
                    self.w("?");
                }
                self.hex(v);
            }
            _ => {
                let v = *self.r.pick(&[
                    0, 1, 9, 10, 11, 15, 16, 255, 256, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff,
                    0x1_0000_0000, i64::MAX as u64, 1 << 63, u64::MAX,
                ]);
                self.number_of(v, neg);
            }
        }
    }

    fn hex(&mut self, v: u64) {
        let s = format!("{v:X}");
        for d in s.chars() {
            let k = d.to_digit(16).unwrap() as u8;
            self.out.push((b'A' + k) as char);
        }
        self.w("@");
    }

    pub fn number_of(&mut self, v: u64, neg: bool) {
        if neg {
            self.w("?");
        }
        if (1..=10).contains(&v) {
            self.out.push((b'0' + (v - 1) as u8) as char);
        } else {
            self.hex(v);
        }
    }

    // ---------------------------------------------------------------- names

    fn ident(&mut self) -> String {
        if !self.pool.is_empty() && self.pct(self.p.reuse) {
            return self.r.pick(&self.pool).clone();
        }
        let mut s = String::new();
        if self.pct(self.p.weird_ident) {
            for _ in 0..self.r.range(1, 6) {
                let c = match self.r.below(8) {
                    0..=2 => *self.r.pick(UNI),
                    3 => *self.r.pick(&['<', '>', ' ', '$', '(', ')', '`', '\'', '*', '&', ',']),
                    4 => char::from_u32(self.r.range(0xa0, 0x2fff) as u32).unwrap_or('x'),
                    5 => char::from_u32(self.r.range(1, 0x10ffff) as u32).unwrap_or('x'),
                    6 => (self.r.range(0, 0x3f) as u8) as char,
                    _ => (self.r.range(0x41, 0x7e) as u8) as char,
                };
                if c != '@' && c != '\n' && c != '\r' {
                    s.push(c);
                }
            }
        }
        if s.is_empty() || self.pct(40) {
            let n = if self.pct(self.p.long_ident) {
                *self.r.pick(&[31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 1000, 4096])
            } else {
                1 + self.r.skewed(10)
            };
            for i in 0..n {
                let c = if i > 0 && self.r.one_in(5) {
                    *self.r.pick(&['0', '7', '_', 'A', 'Z', '$'])
                } else {
                    (b'a' + self.r.below(26) as u8) as char
                };
                s.push(c);
            }
        }
        self.pool.push(s.clone());
        s
    }

    fn remember(&mut self) {
        if self.names < 10 {
            self.names += 1;
        }
    }

    fn simple(&mut self) {
        self.noise();
        let s = self.ident();
        self.w(&s);
        self.w("@");
        self.remember();
    }

    fn backref(&mut self) -> bool {
        if self.names == 0 && !self.r.one_in(200) {
            return false;
        }
        let k = if self.r.one_in(150) { self.r.below(10) } else { self.r.below(self.names.max(1)) };
        self.out.push((b'0' + k as u8) as char);
        true
    }

    fn template(&mut self) {
        self.w("?$");
        let (names, params) = (self.names, self.params);
        self.names = 0;
        self.params = 0;
        if self.r.one_in(12) && self.spend() {
            self.operator(false);
        } else {
            self.simple();
        }
        self.args();
        self.names = names;
        self.params = params;
    }

    fn args(&mut self) {
        let n = if self.r.one_in(10) {
            self.r.range(0, self.p.max_args)
        } else {
            self.r.skewed(self.p.max_args.min(4)).max(usize::from(!self.r.one_in(8)))
        };
        for _ in 0..n {
            if !self.spend() {
                self.w("H");
                continue;
            }
            self.noise();
            if self.r.one_in(12) {
                let s = *self.r.pick(&["$S", "$$V", "$$$V", "$$Z"]);
                self.w(s);
            }
            if self.pct(self.p.tpl_value) {
                self.value_arg();
            } else {
                match self.r.below(10) {
                    0 => {
                        self.w("$$Y");
                        self.type_name();
                    }
                    1 => {
                        self.w("$$B");
                        self.ty();
                    }
                    2 => {
                        self.w("$$C");
                        self.quals(false);
                        self.ty();
                    }
                    _ => self.ty(),
                }
            }
        }
        self.w("@");
    }

    fn value_arg(&mut self) {
        let auto = self.pct(15);
        if auto {
            self.w("$M");
            self.ty();
        } else {
            // not every one of these is good after $M
            if self.r.one_in(6) {
                self.w("$E");
                self.nested();
                return;
            }
            self.w("$");
        }
        match self.r.below(12) {
            0..=5 => {
                self.w("0");
                self.number(true);
            }
            6..=7 => {
                self.w("1");
                if !self.r.one_in(10) {
                    self.nested();
                }
            }
            8..=9 => {
                let (c, n) = *self.r.pick(&[("H", 1), ("I", 2), ("J", 3)]);
                self.w(c);
                if !self.r.one_in(5) {
                    self.nested();
                }
                for _ in 0..n {
                    self.number(true);
                }
            }
            _ => {
                let (c, n) = *self.r.pick(&[("F", 2), ("G", 3)]);
                self.w(c);
                for _ in 0..n {
                    self.number(true);
                }
            }
        }
    }

    /// a symbol within a symbol
    fn nested(&mut self) {
        if !self.spend() {
            self.w("?x@@3HA");
            self.remember();
            return;
        }
        let k = match self.r.below(20) {
            0..=11 => T_FUNC,
            12..=16 => T_VAR,
            17 => T_TABLE,
            18 => *self.r.pick(&[T_MD5, T_VCALL, T_GUARD]),
            _ => *self.r.pick(&[T_STR, T_INIT, T_TYPEINFO]),
        };
        self.top(k);
        self.remember();
    }

    fn operator(&mut self, leaf: bool) {
        if leaf && self.pct(self.p.structor) || self.r.one_in(40) {
            let s = *self.r.pick(&["?0", "?1", "?B", "?0", "?1"]);
            self.w(s);
        } else if self.r.one_in(12) {
            self.w("?__K");
            self.simple();
        } else {
            const B: &[u8] = b"23456789ACDEFGHIJKLMNOPQRSTUVWXYZ";
            const U: &[u8] = b"0123456DEFGHIJKLMNOTUV";
            const D: &[u8] = b"ABCDGHILM";
            let (p, set) = match self.r.below(10) {
                0..=4 => ("?", B),
                5..=7 => ("?_", U),
                _ => ("?__", D),
            };
            self.w(p);
            let c = *self.r.pick(set);
            self.out.push(c as char);
        }
    }

    fn symbol_name(&mut self, var: bool) {
        let mut need_scope = 0;
        let mark = self.out.len();
        if self.pct(self.p.backref / 4) && self.backref() {
        } else if self.pct(self.p.template) && self.spend() {
            self.template();
        } else if self.pct(self.p.operator) && !(var && self.pct(70)) {
            self.operator(true);
            if matches!(&self.out[mark..], "?0" | "?1") && !self.r.one_in(50) {
                need_scope = 1;
            }
        } else {
            self.simple();
        }
        self.scopes(need_scope);
    }

    pub fn type_name(&mut self) {
        if self.pct(self.p.backref) && self.backref() {
        } else if self.pct(self.p.template) && self.spend() {
            self.template();
            self.remember();
        } else {
            self.simple();
        }
        self.scopes(0);
    }

    fn scopes(&mut self, at_least: usize) {
        let mut n = if self.r.one_in(25) {
            self.r.range(0, self.p.max_scopes)
        } else {
            self.r.skewed(self.p.max_scopes.min(3))
        };
        n = n.max(at_least);
        for _ in 0..n {
            self.noise();
            if !self.spend() {
                self.w("n@");
            } else if self.pct(self.p.backref) && self.backref() {
            } else if self.pct(self.p.template) {
                self.template();
                self.remember();
            } else if self.pct(self.p.anon) {
                self.w("?A");
                if self.pct(70) {
                    let v = self.r.u64() as u32;
                    self.w(&format!("0x{v:08x}"));
                } else if self.pct(20) {
                    let s = self.ident();
                    self.w(&s);
                }
                self.w("@");
                self.remember();
            } else if self.pct(self.p.local) {
                self.w("?");
                if self.pct(20) {
                    // the numbers which are recognised here
                    let s = *self.r.pick(&["0", "9", "@", "B@", "BA@", "PPPP@", "BAAAAAAAA@"]);
                    self.w(s);
                } else {
                    let v = self.r.range(1, 300) as u64;
                    self.number_of(v, false);
                }
                self.w("?");
                self.nested();
            } else {
                self.simple();
            }
        }
        self.w("@");
    }

    // ---------------------------------------------------------------- declarations

    fn variable(&mut self) {
        let c = *self.r.pick(&['0', '1', '2', '3', '3', '3', '4']);
        self.out.push(c);
        let mark = self.out.len();
        self.ty();
        let t: Vec<char> = self.out[mark..].chars().take(8).collect();
        let ptr = matches!(t[0], 'A' | 'P' | 'Q' | 'R' | 'S') || t.starts_with(&['$', '$', 'Q']);
        if ptr {
            self.ext_quals();
            // what a member pointer's class is has to be said again
            let mut j = 1;
            while j < t.len() && matches!(t[j], 'E' | 'I' | 'F') {
                j += 1;
            }
            let member = t[0] != 'A' && t[0] != '$' && j < t.len()
                && (t[j] == '8' || matches!(t[j], 'Q' | 'R' | 'S' | 'T'));
            if member {
                let q = *self.r.pick(&['Q', 'R', 'S', 'T']);
                self.out.push(q);
                self.type_name();
                return;
            }
        }
        self.quals(true);
    }

    fn function(&mut self) {
        self.noise();
        if self.pct(self.p.odd_func / 3) {
            self.w("$$J0");
        }
        if self.pct(self.p.odd_func / 4) {
            self.w("9");
            return;
        }
        let c = if self.pct(self.p.thunk) {
            *self.r.pick(&["G", "H", "O", "P", "W", "X", "$0", "$1", "$2", "$3", "$4", "$5", "$R0",
                "$R1", "$R2", "$R3", "$R4", "$R5"])
        } else {
            *self.r.pick(&["A", "B", "C", "D", "E", "F", "I", "J", "K", "L", "M", "N", "Q", "R", "S",
                "T", "U", "V", "Y", "Y", "Y", "Z", "Q", "U"])
        };
        self.w(c);
        let n = match c.as_bytes() {
            [b'$', b'R', ..] => 4,
            [b'$', ..] => 2,
            [b'G' | b'H' | b'O' | b'P' | b'W' | b'X'] => 1,
            _ => 0,
        };
        for _ in 0..n {
            self.number(true);
        }
        let member = !matches!(c, "C" | "D" | "K" | "L" | "S" | "T" | "Y" | "Z");
        self.function_type(member, true);
    }

    fn cc(&mut self) {
        let c = if self.pct(self.p.odd_func) {
            self.r.range(b'A' as usize, b'Z' as usize) as u8 as char
        } else {
            *self.r.pick(&['A', 'A', 'E', 'G', 'I', 'Q'])
        };
        self.out.push(c);
    }

    fn function_type(&mut self, this: bool, decl: bool) {
        if this {
            self.ext_quals();
            if self.pct(self.p.quals / 3) {
                let c = *self.r.pick(&["G", "H"]);
                self.w(c);
            }
            self.quals(true);
        }
        self.cc();
        if decl && self.r.one_in(12) {
            self.w("@");
        } else {
            self.result_type();
        }
        if self.pct(25) {
            self.w("X");
        } else {
            let n = if self.r.one_in(12) {
                self.r.range(0, self.p.max_params)
            } else {
                self.r.skewed(self.p.max_params.min(4))
            };
            for _ in 0..n {
                self.noise();
                if self.params > 0 && self.pct(self.p.param_backref) || self.r.one_in(400) {
                    let k = if self.r.one_in(100) {
                        self.r.below(10)
                    } else {
                        self.r.below(self.params.max(1))
                    };
                    self.out.push((b'0' + k as u8) as char);
                } else if !self.spend() {
                    self.w("H");
                } else {
                    let mark = self.out.len();
                    self.ty();
                    if self.out.len() - mark > 1 && self.params < 10 {
                        self.params += 1;
                    }
                }
            }
            let e = *self.r.pick(&["@", "@", "@", "@", "Z"]);
            if e == "@" && n == 0 && !self.r.one_in(4) {
                self.w("X");
            } else {
                self.w(e);
            }
        }
        let e = if self.r.one_in(6) { "_E" } else { "Z" };
        self.w(e);
    }

    // ---------------------------------------------------------------- types

    fn ext_quals(&mut self) {
        if self.pct(35) {
            self.w("E");
        }
        if self.pct(self.p.quals / 3) {
            self.w("I");
        }
        if self.pct(self.p.quals / 4) {
            self.w("F");
        }
    }

    fn quals(&mut self, any: bool) {
        self.noise();
        let c = if self.pct(self.p.quals) {
            if any && self.r.one_in(8) {
                *self.r.pick(&['Q', 'R', 'S', 'T'])
            } else {
                *self.r.pick(&['A', 'B', 'C', 'D'])
            }
        } else {
            'A'
        };
        self.out.push(c);
    }

    fn result_type(&mut self) {
        if self.pct(30) {
            self.w("?");
            self.quals(true);
        }
        self.ty();
    }

    pub fn ty(&mut self) {
        self.noise();
        if !self.spend() {
            self.w("H");
            return;
        }
        if self.pct(self.p.compound) {
            return self.compound();
        }
        if self.pct(45) {
            let t = *self.r.pick(&["T", "U", "V", "W4"]);
            self.w(t);
            self.type_name();
        } else {
            let t = *self.r.pick(PRIMS);
            self.w(t);
        }
    }

    fn compound(&mut self) {
        match self.r.below(40) {
            0..=15 => {
                let c = *self.r.pick(&["P", "P", "P", "Q", "R", "S", "A", "A", "$$Q"]);
                self.w(c);
                self.ext_quals();
                self.quals(false);
                self.ty();
            }
            16..=21 => {
                let c = *self.r.pick(&["P", "P", "Q", "R", "S", "A", "$$Q"]);
                self.w(c);
                self.w("6");
                self.function_type(false, false);
            }
            22..=24 => {
                let c = *self.r.pick(&["P", "P", "Q", "R", "S"]);
                self.w(c);
                self.w("8");
                self.type_name();
                self.function_type(true, false);
            }
            25..=28 => {
                let c = *self.r.pick(&["P", "P", "Q", "R", "S"]);
                self.w(c);
                self.ext_quals();
                let c = *self.r.pick(&["Q", "R", "S", "T"]);
                self.w(c);
                self.type_name();
                self.ty();
            }
            29..=33 => {
                // arrays are mostly behind a pointer
                if self.pct(80) {
                    let c = *self.r.pick(&["P", "Q", "A"]);
                    self.w(c);
                    self.ext_quals();
                    self.quals(false);
                }
                self.w("Y");
                let n = 1 + self.r.skewed(4);
                self.number_of(n as u64, false);
                for _ in 0..n {
                    self.number(false);
                }
                if self.pct(25) {
                    self.w("$$C");
                    self.quals(false);
                }
                self.ty();
            }
            34..=35 => {
                self.w("$$A6");
                self.function_type(false, false);
            }
            36..=37 => {
                self.w("$$A8@@");
                self.function_type(true, false);
            }
            _ => {
                self.w("?");
                if self.pct(self.p.backref) && self.backref() {
                } else if self.pct(self.p.template) {
                    self.template();
                    self.remember();
                } else {
                    self.simple();
                }
                self.w("@");
            }
        }
    }
}

// -------------------------------------------------------------------- mutation

const TOKENS: &[&str] = &[
    "@", "@@", "?", "??", "?$", "$", "$$", "$0", "$1", "$E", "$F", "$G", "$H", "$I", "$J", "$M", "$S",
    "$$A6", "$$A8@@", "$$B", "$$C", "$$Q", "$$T", "$$V", "$$Y", "$$Z", "$$$V", "$$J0", "?A", "?0", "?1",
    "?B", "?_7", "?_8", "?_9", "?_A", "?_B", "?_C", "?_P", "?_R0", "?_R1", "?_R2", "?_R3", "?_R4", "?_S",
    "?__E", "?__F", "?__J", "?__K", "??@", "??_R4@", "@_0", "@_1", "@8", "4IA", "5", "8", "6", "7", "$B",
    "$R", "P6", "P8", "W4", "Y0", "_E", "_N", "_W", "X", "Z", "Q", "E", "I", "F", "G", "H", "XZ", "@Z",
    "YA", "QEAA", "3HA", "0", "1", "9", "AAAAAAAAA@", "?0?", "?1??", "?BA@?", ".", "é", "中", "😀", "\0",
    "\u{7f}", " ", "<", ">", "`", "'", "~",
];

const ALPHABET: &[u8] = b"@?$_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcxyz.<> ";

/// A small change to `s`; `other` is there to take parts from.
pub fn mutate(r: &mut Rng, s: &str, other: &str) -> String {
    let words = &crate::dict::get().strings;
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.skewed(4) {
        let n = v.len();
        match r.below(13) {
            0..=2 if n > 0 => {
                let i = r.below(n);
                v[i] = *r.pick(ALPHABET) as char;
            }
            3 => {
                let i = r.below(n + 1);
                v.insert(i, *r.pick(ALPHABET) as char);
            }
            4..=5 if n > 0 => {
                let i = r.below(n);
                v.remove(i);
            }
            6..=7 => {
                let i = r.below(n + 1);
                let t: Vec<char> = if !words.is_empty() && r.one_in(4) {
                    r.pick(words).chars().collect()
                } else {
                    r.pick(TOKENS).chars().collect()
                };
                v.splice(i..i, t);
            }
            8 if n > 0 => {
                let i = r.below(n);
                let j = (i + 1 + r.skewed(12)).min(n);
                let t: Vec<char> = v[i..j].to_vec();
                let k = r.below(n + 1);
                v.splice(k..k, t);
            }
            9 if n > 0 => {
                let i = r.below(n);
                let j = (i + 1 + r.skewed(12)).min(n);
                v.drain(i..j);
            }
            10 => {
                let o: Vec<char> = other.chars().collect();
                if !o.is_empty() {
                    let i = r.below(o.len());
                    let j = (i + 1 + r.below(24)).min(o.len());
                    let k = r.below(n + 1);
                    let l = if r.pct(50) { (k + j - i).min(n) } else { k };
                    v.splice(k..l, o[i..j].iter().copied());
                }
            }
            11 if n > 1 => {
                let i = r.below(n - 1);
                v.swap(i, i + 1);
            }
            12 if n > 0 && r.one_in(4) => {
                let i = r.below(n);
                v.truncate(i);
            }
            _ if n > 0 => {
                // the next or previous letter
                let i = r.below(n);
                let c = v[i] as u32;
                let d = if r.pct(50) { c.wrapping_add(1) } else { c.wrapping_sub(1) };
                if let Some(c) = char::from_u32(d) {
                    v[i] = c;
                }
            }
            _ => (),
        }
        if v.len() > 20_000 {
            v.truncate(20_000);
        }
    }
    v.into_iter().collect()
}
