//! A compiler as the oracle: programs are made up and compiled for Windows, what their symbols
//! demangle to is compiled again, and has to give the same symbols.

use crate::{
    judge::{Env, Out, Violation},
    model::{self, Feats, F},
    rng::Rng,
    shm::S,
    worker::W,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    hash::{Hash as _, Hasher as _},
    path::Path,
    process::{Command, Stdio},
    time::{Duration, Instant},
};

/// Every type which the made-up programs mention.
const PRELUDE: &str = "\
typedef decltype(sizeof(0)) size_t; namespace std { typedef decltype(nullptr) nullptr_t; class type_info; }
struct S {}; class K {}; union U {}; enum E { e0 }; enum class EC : char {}; struct \u{df}_\u{4e2d} {};
namespace n { struct S {}; namespace m { template<class... T> struct P { struct In {}; }; enum F { f0 }; class K {}; } struct M { struct O {}; }; }
template<class... T> struct P {}; template<int... I> struct I_ {}; template<long long... I> struct L_ {};
template<bool... B> struct B_ {}; template<char... C> struct C_ {}; template<unsigned... N> struct U_ {};
namespace d { namespace d { struct d { struct In {}; }; } struct n {}; template<class... T> struct P {}; template<class... T> union UT { public: class In {}; enum En { u0 }; }; template<class... T> class CT { public: template<class... V> union UT {}; enum class En { c0 }; union Un {}; template<class... V> struct P {}; }; }
template<class T, T... V> struct VT {}; template<auto... V> class VA {}; template<template<class...> class... T> struct TT {};
template<class... T> using AL = P<T...>; namespace n { template<class... T> using AL = ::P<T...>; }
extern int gx, gr; extern S gs; int gf(int); namespace gn { extern const char *gp; void gf(n::S, P<>); }
struct GM { void mf(S, S *) const; static int sm(P<>); static long double sd; S operator()(K); operator S(); template<class T> static int st(T); template<class T> n::S mt(T &); };
int operator+(n::S, int); namespace gn { n::S &operator!(n::S); template<class T> T ht(K, T); template<class T> T *operator-(P<>, T); }
template<class T> K gt(T); template<class T> int gv; struct GV { virtual void vf(S); virtual n::S vg(); };
struct BA { int ba; void fa(S); virtual void va(); }; struct BB { int bb; int fb(n::S); virtual void vb(S); }; struct UI; static_assert(sizeof(int UI::*));
struct MI : BA, BB { void mf(); virtual void mv(); void mg(S, S *); operator S(); template<class T> T mt(T); };
struct VI : virtual BA, virtual BB { int vi, vj; S vk; void vf(n::S); virtual void vv(); S operator-(S); }; struct UI : BA { int ui; S uj; void uf(S, BA); virtual UI *uv(); };
template<class T, class V> class Q { public: class In {}; }; template<class T, int N> struct AN {}; template<class... T> union UT {};
";

/// What addresses in the arguments of templates are of: how it's written, and how it's mangled.
const GLOBALS: [(&str, &str, [&str; 2]); 41] = [
    ("int *", "&gx", ["$1?gx@@3HA", "$1?gx@@3HA"]),
    ("int &", "gr", ["$1?gr@@3HA", "$1?gr@@3HA"]),
    ("S *", "&gs", ["$1?gs@@3US@@A", "$1?gs@@3US@@A"]),
    ("int (*)(int)", "&gf", ["$1?gf@@YAHH@Z", "$1?gf@@YAHH@Z"]),
    ("const char **", "&gn::gp", ["$1?gp@gn@@3PBDB", "$1?gp@gn@@3PEBDEB"]),
    ("void (*)(n::S, P<>)", "&gn::gf", ["$1?gf@gn@@YAXUS@n@@U?$P@$$V@@@Z", "$1?gf@gn@@YAXUS@n@@U?$P@$$V@@@Z"]),
    ("void (GM::*)(S, S *) const", "&GM::mf", ["$1?mf@GM@@QBEXUS@@PAU2@@Z", "$1?mf@GM@@QEBAXUS@@PEAU2@@Z"]),
    ("int (*)(P<>)", "&GM::sm", ["$1?sm@GM@@SAHU?$P@$$V@@@Z", "$1?sm@GM@@SAHU?$P@$$V@@@Z"]),
    ("long double *", "&GM::sd", ["$1?sd@GM@@2OA", "$1?sd@GM@@2OA"]),
    ("int (*)(n::S, int)", "&::operator+", ["$1??H@YAHUS@n@@H@Z", "$1??H@YAHUS@n@@H@Z"]),
    ("n::S &(*)(n::S)", "&gn::operator!", ["$1??7gn@@YAAAUS@n@@U12@@Z", "$1??7gn@@YAAEAUS@n@@U12@@Z"]),
    ("S (GM::*)(K)", "&GM::operator()", ["$1??RGM@@QAE?AUS@@VK@@@Z", "$1??RGM@@QEAA?AUS@@VK@@@Z"]),
    ("S (GM::*)()", "&GM::operator S", ["$1??BGM@@QAE?AUS@@XZ", "$1??BGM@@QEAA?AUS@@XZ"]),
    ("int (*)(n::S)", "&GM::st<n::S>", ["$1??$st@US@n@@@GM@@SAHUS@n@@@Z", "$1??$st@US@n@@@GM@@SAHUS@n@@@Z"]),
    ("n::S (GM::*)(K &)", "&GM::mt<K>", ["$1??$mt@VK@@@GM@@QAE?AUS@n@@AAVK@@@Z", "$1??$mt@VK@@@GM@@QEAA?AUS@n@@AEAVK@@@Z"]),
    ("K (*)(S)", "&gt<S>", ["$1??$gt@US@@@@YA?AVK@@US@@@Z", "$1??$gt@US@@@@YA?AVK@@US@@@Z"]),
    ("n::S (*)(K, n::S)", "&gn::ht<n::S>", ["$1??$ht@US@n@@@gn@@YA?AUS@n@@VK@@U12@@Z", "$1??$ht@US@n@@@gn@@YA?AUS@n@@VK@@U12@@Z"]),
    ("K *(*)(P<>, K)", "&gn::operator-<K>", ["$1??$?GVK@@@gn@@YAPAVK@@U?$P@$$V@@V1@@Z", "$1??$?GVK@@@gn@@YAPEAVK@@U?$P@$$V@@V1@@Z"]),
    ("int *", "&gv<S>", ["$1??$gv@US@@@@3HA", "$1??$gv@US@@@@3HA"]),
    ("void (GV::*)(S)", "&GV::vf", ["$1??_9GV@@$BA@AE", "$1??_9GV@@$BA@AA"]),
    ("n::S (GV::*)()", "&GV::vg", ["$1??_9GV@@$B3AE", "$1??_9GV@@$B7AA"]),
    ("void (MI::*)()", "&MI::mf", ["$H?mf@MI@@QAEXXZA@", "$H?mf@MI@@QEAAXXZA@"]),
    ("void (MI::*)()", "&MI::mv", ["$H??_9MI@@$B3AEA@", "$H??_9MI@@$B7AAA@"]),
    ("void (MI::*)(S, S *)", "&MI::mg", ["$H?mg@MI@@QAEXUS@@PAU2@@ZA@", "$H?mg@MI@@QEAAXUS@@PEAU2@@ZA@"]),
    ("S (MI::*)()", "&MI::operator S", ["$H??BMI@@QAE?AUS@@XZA@", "$H??BMI@@QEAA?AUS@@XZA@"]),
    ("UI *(MI::*)(UI *)", "&MI::mt<UI *>", ["$H??$mt@PAUUI@@@MI@@QAEPAUUI@@PAU1@@ZA@", "$H??$mt@PEAUUI@@@MI@@QEAAPEAUUI@@PEAU1@@ZA@"]),
    ("void (VI::*)(n::S)", "&VI::vf", ["$I?vf@VI@@QAEXUS@n@@@ZA@A@", "$I?vf@VI@@QEAAXUS@n@@@ZA@A@"]),
    ("void (VI::*)()", "&VI::vv", ["$I??_9VI@@$BA@AEA@A@", "$I??_9VI@@$BA@AAA@A@"]),
    ("S (VI::*)(S)", "&VI::operator-", ["$I??GVI@@QAE?AUS@@U1@@ZA@A@", "$I??GVI@@QEAA?AUS@@U1@@ZA@A@"]),
    ("int VI::*", "&VI::vi", ["$F7A@", "$FBA@A@"]),
    ("int VI::*", "&VI::vj", ["$FM@A@", "$FBE@A@"]),
    ("S VI::*", "&VI::vk", ["$FBA@A@", "$FBI@A@"]),
    ("int VI::*", "nullptr", ["$FA@?0", "$FA@?0"]),
    ("void (VI::*)(n::S)", "nullptr", ["$IA@A@", "$IA@A@"]),
    ("int UI::*", "&UI::ui", ["$G7A@A@", "$GBA@A@A@"]),
    ("S UI::*", "&UI::uj", ["$GM@A@A@", "$GBE@A@A@"]),
    ("void (UI::*)(S, BA)", "&UI::uf", ["$J?uf@UI@@QAEXUS@@UBA@@@ZA@A@A@", "$J?uf@UI@@QEAAXUS@@UBA@@@ZA@A@A@"]),
    ("UI *(UI::*)()", "&UI::uv", ["$J??_9UI@@$B3AEA@A@A@", "$J??_9UI@@$B7AAA@A@A@"]),
    ("S UI::*", "nullptr", ["$GA@A@?0", "$GA@A@?0"]),
    ("void (UI::*)(S, BA)", "nullptr", ["$JA@A@?0", "$JA@A@?0"]),
    ("S (MI::*)()", "nullptr", ["$HA@", "$HA@"]),
];

#[derive(Clone, Copy, PartialEq, Eq)]
enum K {
    Obj,
    /// an object which is qualified after the fact: clang tells apart parameters by these
    /// qualifiers, though they don't show in the symbol
    Qual,
    Ref,
    Func,
    /// a function type with qualifiers, which only a template argument can be
    Method,
    Array,
    Void,
}

#[derive(Clone)]
struct T {
    name: String,
    k: K,
    /// qualified itself, rather than what it refers to
    cv: bool,
    /// can be written to the left of a name
    plain: bool,
    /// a function, or a pointer to one, and so on
    function: bool,
    /// an array, or a pointer to one, and so on
    array: bool,
    /// how long it may get
    weight: usize,
}

struct Program<'a> {
    r: &'a mut Rng,
    win64: bool,
    /// only functions with the default calling convention
    usual: bool,
    types: Vec<T>,
    lines: Vec<String>,
}

fn trap() -> &'static str {
    " { __builtin_trap(); }"
}

impl Program<'_> {
    fn add(&mut self, def: impl FnOnce(&str) -> String, k: K, cv: bool, plain: bool, (function, array): (bool, bool), weight: usize) {
        let name = format!("t{}", self.types.len());
        self.lines.push(def(&name));
        self.types.push(T { name, k, cv, plain, function, array, weight: weight + 1 });
    }
    fn pick(&mut self, f: impl Fn(&T) -> bool) -> T {
        for _ in 0..100 {
            let n = self.types.len();
            let i = if self.r.pct(60) { n - 1 - self.r.below(n.min(60)) } else { self.r.below(n) };
            if f(&self.types[i]) {
                return self.types[i].clone();
            }
        }
        self.types[0].clone()
    }
    fn of(&mut self, ks: &[K], weight: usize) -> T {
        self.pick(|t| ks.contains(&t.k) && t.weight < weight)
    }
    /// What a function may return: clang gives a function behind a pointer the calling
    /// convention of the function which returns that, if both are spelled out.
    fn result(&mut self, weight: usize) -> T {
        let usual = self.usual;
        self.pick(|t| matches!(t.k, K::Obj | K::Qual | K::Ref | K::Void) && (usual || !t.function) && t.weight < weight)
    }
    fn cc(&mut self) -> &'static str {
        if self.usual {
            return "";
        }
        let r = &mut self.r;
        if self.win64 {
            *r.pick(&["", "", "", "__vectorcall", "__attribute__((__swiftcall__))", "__attribute__((__swiftasynccall__))"])
        } else {
            *r.pick(&["", "", "", "__cdecl", "__stdcall", "__fastcall", "__vectorcall", "__thiscall", "__attribute__((__swiftcall__))"])
        }
    }
    fn params(&mut self) -> (String, usize) {
        let n = *self.r.pick(&[0, 0, 1, 1, 2, 3, 5, 11]);
        let ps: Vec<T> = (0..n).map(|_| self.of(&[K::Obj, K::Ref], if n > 4 { 60 } else { 150 })).collect();
        let w = ps.iter().map(|t| t.weight).sum();
        let mut s: Vec<String> = ps.into_iter().map(|t| t.name).collect();
        if self.r.one_in(8) {
            s.push("...".into());
        }
        (s.join(", "), w)
    }
    fn this_quals(&mut self) -> String {
        let q = *self.r.pick(&["", "", "", " const", " volatile", " const volatile"]);
        format!("{q}{}{}", self.r.pick(&["", "", "", "", " &", " &&"]), self.noexcept())
    }
    fn noexcept(&mut self) -> &'static str {
        if self.r.one_in(6) {
            " noexcept"
        } else {
            ""
        }
    }
    fn args(&mut self, n: usize) -> (String, usize) {
        let all = [K::Obj, K::Qual, K::Ref, K::Array, K::Func, K::Method, K::Void];
        let ts: Vec<T> = (0..n).map(|_| self.of(&all, 120)).collect();
        (ts.iter().map(|t| t.name.clone()).collect::<Vec<_>>().join(", "), ts.iter().map(|t| t.weight).sum())
    }

    fn basic(&mut self) {
        for b in [
            "int", "char", "signed char", "unsigned char", "short", "unsigned short", "unsigned int", "long", "unsigned long", "float",
            "double", "long double", "bool", "wchar_t", "char16_t", "char32_t", "char8_t", "long long", "unsigned long long",
            "std::nullptr_t", "S", "K", "U", "E", "EC", "\u{df}_\u{4e2d}", "n::S", "n::m::F", "n::m::K", "n::M::O", "P<>", "n::m::P<>::In", "I_<>",
            "d::d::d", "d::d::d::In", "d::n", "d::P<>", "GM",
            "d::UT<>", "d::CT<>", "d::UT<>::En", "d::CT<>::Un", "d::CT<>::En", "d::CT<>::UT<>",
        ] {
            self.add(|t| format!("using {t} = {b};"), K::Obj, false, true, (false, false), 4);
        }
        self.add(|t| format!("using {t} = void;"), K::Void, false, true, (false, false), 1);
    }

    fn new_type(&mut self) {
        let class = *self.r.pick(&["S", "K", "n::S", "P<>", "U", "n::M::O", "P<int, S>"]);
        match self.r.below(100) {
            0..=21 => {
                let t = self.of(&[K::Obj, K::Qual, K::Array, K::Func, K::Void], 200);
                let cv = *self.r.pick(&["", "", " const", " volatile", " const volatile", " __restrict"]);
                let plain = t.plain && t.k != K::Array && t.k != K::Func;
                self.add(|n| format!("typedef {} *{cv} {n};", t.name), K::Obj, !cv.is_empty(), plain, (t.function, t.array), t.weight + 3);
            }
            22..=31 => {
                let t = self.of(&[K::Obj, K::Qual, K::Array, K::Func], 200);
                let a = *self.r.pick(&["&", "&&"]);
                let plain = t.plain && t.k == K::Obj;
                self.add(|n| format!("using {n} = {}{a};", t.name), K::Ref, false, plain, (t.function, t.array), t.weight + 3);
            }
            32..=39 => {
                let t = self.of(&[K::Obj, K::Qual, K::Array, K::Void], 200);
                let q = *self.r.pick(&["const", "volatile", "const volatile"]);
                self.add(|n| format!("using {n} = {q} {};", t.name), if t.k == K::Obj { K::Qual } else { t.k }, true, t.plain, (t.function, t.array), t.weight + 2);
            }
            40..=41 => {
                let k = self.r.below(44);
                let t = self.types[k].clone();
                let plain = t.plain;
                self.add(|n| format!("typedef {} __unaligned *{n};", t.name), K::Obj, false, plain, (t.function, t.array), t.weight + 4);
            }
            42..=50 => {
                let t = self.of(&[K::Obj, K::Qual, K::Array], 200);
                let d = *self.r.pick(&[1, 2, 3, 9, 10, 11, 16, 20, 256, 65535]);
                self.add(|n| format!("typedef {} {n}[{d}];", t.name), K::Array, t.cv, false, (t.function, true), t.weight + 6);
            }
            51..=65 => {
                // nor does it read every function type which returns a pointer to an array
                let t = self.result(120);
                let t = if t.array && !self.usual { self.types[0].clone() } else { t };
                let (ps, w) = self.params();
                let cc = self.cc();
                let method = self.r.one_in(4);
                let (k, q) = if method { (K::Method, self.this_quals()) } else { (K::Func, self.noexcept().into()) };
                let k = if q.is_empty() || q == " noexcept" { K::Func } else { k };
                self.add(|n| format!("typedef {} {cc} {n}({ps}){q};", t.name), k, false, false, (true, t.array), t.weight + w + 8);
            }
            66..=71 => {
                let t = self.of(&[K::Obj, K::Qual, K::Array], 200);
                let cv = *self.r.pick(&["", "", "const", "volatile"]);
                let plain = t.plain && t.k == K::Obj;
                self.add(|n| format!("typedef {} {class}::*{cv} {n};", t.name), K::Obj, !cv.is_empty(), plain, (t.function, t.array), t.weight + 10);
            }
            72..=81 => {
                let t = self.result(120);
                let (ps, w) = self.params();
                let (cc, q) = (self.cc(), self.this_quals());
                let cv = *self.r.pick(&["", "", "const", "volatile"]);
                self.add(|n| format!("typedef {} ({cc} {class}::*{cv} {n})({ps}){q};", t.name), K::Obj, !cv.is_empty(), false, (true, t.array), t.weight + w + 14);
            }
            _ => {
                let n = *self.r.pick(&[1, 1, 2, 3]);
                let (args, w) = self.args(n);
                let def = match self.r.below(17) {
                    0..=3 => format!("P<{args}>"),
                    4 => format!("n::m::P<{args}>"),
                    5 => format!("n::m::P<{args}>::In"),
                    6 => format!("UT<{args}>"),
                    7 => {
                        let (a, b) = (self.of(&[K::Obj, K::Qual, K::Ref], 100), self.of(&[K::Obj, K::Qual, K::Array], 100));
                        self.add(|n| format!("using {n} = Q<{}, {}>::In;", a.name, b.name), K::Obj, false, true, (false, false), a.weight + b.weight + 12);
                        return;
                    }
                    10 | 15 => {
                        let (more, _) = self.args(1);
                        let all = [
                            format!("d::P<{args}>"), format!("d::UT<{args}>"), format!("d::CT<{args}>"), format!("d::UT<{args}>::In"), format!("d::UT<{args}>::En"),
                            format!("d::CT<{args}>::En"), format!("d::CT<{args}>::Un"), format!("d::CT<{args}>::UT<{more}>"), format!("d::CT<{args}>::P<{more}>"),
                        ];
                        self.r.pick(&all).clone()
                    }
                    11 => {
                        let (ty, v, _) = *self.r.pick(&GLOBALS);
                        format!("VT<{ty}, {v}>")
                    }
                    12 => {
                        let all: Vec<String> = (0..n).map(|_| if self.r.one_in(2) {
                            // by themselves, references aren't told from what they refer to
                            self.r.pick(&GLOBALS).1.replace("gr", "&gx").replace("nullptr", "&VI::vi")
                        } else {
                            self.r.range(0, 40).to_string()
                        }).collect();
                        format!("VA<{}>", all.join(", "))
                    }
                    13 => {
                        let all: Vec<&str> = (0..n).map(|_| *self.r.pick(&["P", "n::m::P", "d::P", "AL", "n::AL"])).collect();
                        format!("TT<{}>", all.join(", "))
                    }
                    14 => {
                        let (name, values): (_, &[&str]) = match self.r.below(3) {
                            0 => ("B_", &["0", "1"]),
                            1 => ("C_", &["0", "1", "65", "-1", "-128", "127"]),
                            _ => ("U_", &["0", "1", "10", "11", "4294967295", "2147483648"]),
                        };
                        let all: Vec<&str> = (0..n).map(|_| *self.r.pick(values)).collect();
                        format!("{name}<{}>", all.join(", "))
                    }
                    8 => {
                        let (t, wide) = (self.r.range(1, 4), self.r.one_in(3));
                        let is: Vec<&str> = (0..t)
                            .map(|_| {
                                let small = ["0", "1", "-1", "7", "8", "9", "10", "11", "15", "16", "17", "-9", "-10", "255", "256", "4095", "65536", "2147483647", "-2147483647"];
                                let large = ["0", "1", "10", "4294967295", "4294967296", "1099511627775", "1099511627776", "-4294967297", "9223372036854775807", "-9223372036854775807"];
                                if wide { *self.r.pick(&large) } else { *self.r.pick(&small) }
                            })
                            .collect();
                        format!("{}<{}>", if wide { "L_" } else { "I_" }, is.join(", "))
                    }
                    _ => {
                        let t = self.of(&[K::Obj, K::Qual, K::Array, K::Func], 100);
                        let v = *self.r.pick(&[0, 7, 10, 100]);
                        self.add(|n| format!("using {n} = AN<{}, {v}>;", t.name), K::Obj, false, true, (false, false), t.weight + 10);
                        return;
                    }
                };
                self.add(|n| format!("using {n} = {def};"), K::Obj, false, true, (false, false), w + 10);
            }
        }
    }

    /// A literal of up to 31 characters, as it's written.
    fn literal(&mut self) -> String {
        let r = &mut self.r;
        let kind = *r.pick(&["", "", "L", "u", "U"]);
        let most = if kind.is_empty() { 31 } else if kind == "U" { 7 } else { 15 };
        let n = *r.pick(&[0, 1, 2, 3, 4, 7, 8, 15, 16, 30, 31]);
        let mut s = format!("{kind}\"");
        let mut left = n.min(most);
        while left > 0 {
            left -= 1;
            // nothing after a hexadecimal escape which could belong to it
            s += if r.one_in(5) {
                *r.pick(&["\\n", "\\t", "\\r", "\\\\", "\\\"", "\\'", "\\a", "\\b", "\\f", "\\v", " ", "$", "@", "`", "?"])
            } else if kind.is_empty() && left > 0 && r.one_in(9) {
                left -= 1;
                *r.pick(&["\\xe9z", "\\x1Fz", "\\xFF@", "\\x80-", "\\xC1,", "\\x01_"])
            } else {
                *r.pick(&["a", "z", "A", "Z", "0", "9", ",", "/", ":", ".", "-", "'", "<", ">", "#", "%", "~", "{", "}", "_", "(", "h"])
            };
        }
        s + "\""
    }

    /// The body of a function, with a variable in it or without.
    fn body(&mut self, i: usize, prefixes: &mut Vec<String>) -> String {
        if !self.r.one_in(5) {
            return trap().into();
        }
        let t = self.pick(|t| !t.cv && t.k == K::Obj && t.weight < 150).name;
        prefixes.push(format!("?x{i}@"));
        local(&format!("static {t} x{i}"), &format!("x{i}"))
    }

    /// One more declaration: the line, and how its symbols begin.
    fn declare(&mut self, i: usize) -> (String, Vec<String>) {
        let mut v = vec![];
        let (l, prefix) = self.declare_one(i, &mut v);
        // what a variable is in, is declared with it
        if !prefix.is_empty() && v.is_empty() {
            v.push(prefix);
        }
        (l, v)
    }
    fn declare_one(&mut self, i: usize, more: &mut Vec<String>) -> (String, String) {
        let id = if self.r.one_in(10) { format!("{i}{}", self.r.pick(&["\u{e9}", "\u{4e2d}x", "_", "_\u{3b1}_b"])) } else { i.to_string() };
        let ret = self.result(150).name;
        let (ps, _) = self.params();
        let cc = self.cc();
        let kind = self.r.below(106);
        if kind >= 103 {
            return (format!("const void *s{i} = {};", self.literal()), String::new());
        }
        if kind >= 100 {
            let t = self.of(&[K::Obj, K::Qual, K::Ref, K::Func, K::Void], 250).name;
            return (format!("const void *q{i} = &typeid({t});"), String::new());
        }
        if kind == 0 {
            let auto = *self.r.pick(&["auto", "decltype(auto)"]);
            return (format!("{auto} {cc} f{id}({ps}){}", trap()), format!("?f{id}@@"));
        }
        if kind < 22 {
            let (x, b) = (self.noexcept(), self.body(i, more));
            return (format!("{ret} {cc} f{id}({ps}){x}{b}"), format!("?f{id}@@"));
        }
        if kind < 36 {
            let t = self.of(&[K::Obj, K::Qual, K::Ref], 250).name;
            return (variable(&format!("{t} v{id}"), &format!("v{id}")), format!("?v{id}@@"));
        }
        if kind < 40 {
            let p = *self.r.pick(&["unsigned long long", "const char *", "const char *, size_t", "char", "long double", "const wchar_t *, size_t"]);
            // clang counts the suffix among the names which back-references refer to, LLVM's
            // demangler doesn't, and what Microsoft's compiler does isn't known: no names here
            let ret = *self.r.pick(&["void", "int", "bool *", "const char *", "unsigned long long &", "wchar_t", "long double"]);
            return (format!("{ret} operator \"\"_u{id}({p}){}", trap()), format!("??__K_u{id}@@"));
        }
        if kind < 48 {
            // a function template, with its parameters as its arguments
            let n = self.r.range(1, 3);
            let ts: Vec<String> = (0..n).map(|_| self.pick(|t| !t.cv && t.weight < 80 && matches!(t.k, K::Obj | K::Ref)).name).collect();
            let r = self.pick(|t| !t.cv && !t.function && t.weight < 80 && matches!(t.k, K::Obj | K::Ref)).name;
            return (
                format!("{} template<> {r} f{id}<{r}, {a}>({a}){}", fn_template(&id), trap(), a = ts.join(", ")),
                format!("??$f{id}@"),
            );
        }
        if kind < 52 {
            let n = self.r.range(1, 3);
            let (args, _) = self.args(n);
            // clang counts the name with its arguments among those which back-references refer
            // to, LLVM's demangler doesn't: nothing to refer to
            let t = *self.r.pick(&["int", "bool *", "S", "n::m::F", "const char *", "n::S *", "P<int, S> *", "char16_t ***"]);
            return (format!("{} template<> {t} v{id}<{args}>;", var_template(&id)), format!("??$v{id}@"));
        }
        // a member
        let class = if self.r.one_in(4) { format!("N{id}") } else { format!("W{id}") };
        let args = if self.r.one_in(4) {
            let n = self.r.range(1, 3);
            Some(self.args(n).0)
        } else {
            None
        };
        let access = *self.r.pick(&["public", "protected", "private"]);
        if self.r.one_in(6) {
            let path = format!("{}{class}", if class.starts_with('N') { "nn::" } else { "" });
            let q = self.this_quals();
            let obj = |t: &T| !t.cv && t.weight < 80 && t.k == K::Obj;
            let r = self.pick(|t| obj(t) && !t.function && !t.array).name;
            let n = self.r.range(1, 3);
            let ts: Vec<String> = (0..n).map(|_| self.pick(|t| obj(t)).name).collect();
            let a = ts.join(", ");
            let ops = [("+", "H"), ("-", "G"), ("*", "D"), ("=", "4"), ("<", "M"), ("==", "8"), ("&&", "V"), (",", "Q"), ("[]", "A"), ("<=>", "__M"), (">>=", "_2")];
            let (primary, special, prefix) = match self.r.below(8) {
                0 => (ctor_template(&class), format!("{path}::{class}({a})"), "??$?0".to_string()),
                1..=2 => {
                    let (o, c) = *self.r.pick(&ops);
                    let o = if self.r.one_in(2) { o } else { "()" };
                    let c = if o == "()" { "R" } else { c };
                    (op_template(o, &q), format!("{r} {path}::operator {o}<{r}, {}>({}){q}", ts[0], ts[0]), format!("??$?{c}"))
                }
                3 => (format!("static {}", member_template(&id, "")), format!("{r} {path}::f{id}<{r}, {a}>({a})"), format!("??$f{id}@")),
                _ => (member_template(&id, &q), format!("{r} {path}::f{id}<{r}, {a}>({a}){q}"), format!("??$f{id}@")),
            };
            return (specialised(&class, &format!("{access}: {primary}"), &special), format!("{prefix}*@{class}@"));
        }
        let virt = *self.r.pick(&["", "", "virtual "]);
        let q = self.this_quals();
        let one = self.of(&[K::Obj, K::Ref], 150).name;
        let mut used = None;
        let (member, op) = match kind {
            0..=65 => (format!("{virt}{ret} {cc} f{id}({ps}){q}{}", self.body(i, more)), format!("?f{id}@")),
            66..=70 => (format!("static {ret} {cc} f{id}({ps}){}{}", self.noexcept(), self.body(i, more)), format!("?f{id}@")),
            71..=76 => {
                used = Some(format!("v{id}"));
                (format!("static {} v{id};", self.of(&[K::Obj, K::Qual, K::Ref], 250).name), format!("?v{id}@"))
            }
            77..=80 => (format!("{class}({one}{}){}{}", self.r.pick(&["", ", ...", ", int *, int *"]), self.noexcept(), trap()), "??0".into()),
            81..=82 => (format!("{virt}~{class}(){}", trap()), "??1".into()),
            83..=88 => {
                let t = self.pick(|t| t.plain && matches!(t.k, K::Obj | K::Ref) && t.weight < 150).name;
                (format!("{virt}operator {t}(){q}{}", trap()), "??B".into())
            }
            _ => {
                let binary = [
                    ("+", "H"), ("-", "G"), ("*", "D"), ("/", "K"), ("%", "L"), ("^", "T"), ("&", "I"), ("|", "U"), ("=", "4"), ("<", "M"), (">", "O"),
                    ("+=", "Y"), ("-=", "Z"), ("*=", "X"), ("/=", "_0"), ("%=", "_1"), ("^=", "_6"), ("&=", "_4"), ("|=", "_5"), ("<<", "6"), (">>", "5"),
                    ("<<=", "_3"), (">>=", "_2"), ("==", "8"), ("!=", "9"), ("<=", "N"), (">=", "P"), ("<=>", "__M"), ("&&", "V"), ("||", "W"),
                    (",", "Q"), ("->*", "J"), ("[]", "A"),
                ];
                let unary = [("+", "H"), ("-", "G"), ("*", "D"), ("&", "I"), ("~", "S"), ("!", "7"), ("++", "E"), ("--", "F"), ("co_await", "__L")];
                match self.r.below(50) {
                    0..=6 => {
                        let (o, c) = *self.r.pick(&unary);
                        (format!("{virt}{ret} {cc} operator {o}(){q}{}", trap()), format!("??{c}"))
                    }
                    7..=8 => {
                        let (o, c) = *self.r.pick(&[("++", "E"), ("--", "F")]);
                        (format!("{ret} operator {o}(int){q}{}", trap()), format!("??{c}"))
                    }
                    9..=11 => (format!("{ret} {cc} operator ()({ps}){q}{}", trap()), "??R".into()),
                    12 => (format!("S *operator ->(){q}{}", trap()), "??C".into()),
                    13..=14 => {
                        let (o, c) = *self.r.pick(&[("new", "2"), ("new[]", "_U")]);
                        (format!("void *operator {o}(size_t, {one}){}", trap()), format!("??{c}"))
                    }
                    15..=16 => {
                        let (o, c) = *self.r.pick(&[("delete", "3"), ("delete[]", "_V")]);
                        (format!("void operator {o}(void *){}", trap()), format!("??{c}"))
                    }
                    _ => {
                        let (o, c) = *self.r.pick(&binary);
                        (format!("{virt}{ret} {cc} operator {o}({one}){q}{}", trap()), format!("??{c}"))
                    }
                }
            }
        };
        let name = if args.is_some() { format!("{op}?$") } else { op };
        let line = in_class(&class, args.as_deref(), &format!("{access}: {member}"), used.as_deref());
        (line, format!("{name}{class}@"))
    }
}

fn variable(decl: &str, name: &str) -> String {
    format!("extern {decl}; {}", address(name))
}
fn address(what: &str) -> String {
    let id: String = what.chars().filter(char::is_ascii_digit).collect();
    format!("extern \"C\" void use{id}() {{ asm volatile(\"\" :: \"r\"((const volatile void *)&{what})); }}")
}
fn local(decl: &str, name: &str) -> String {
    format!(" {{ {decl}; asm volatile(\"\" :: \"r\"((const volatile void *)&{name})); __builtin_trap(); }}")
}
fn fn_template(id: &str) -> String {
    format!("template<class R, class... T> R f{id}(T...);")
}
fn var_template(id: &str) -> String {
    format!("template<class... T> int v{id};")
}
fn member_template(id: &str, quals: &str) -> String {
    format!("template<class R, class... T> R f{id}(T...){quals};")
}
fn op_template(op: &str, quals: &str) -> String {
    format!("template<class R, class T> R operator {op}(T){quals};")
}
fn ctor_template(class: &str) -> String {
    format!("template<class... T> {class}(T...);")
}
/// A class with a template, and a specialisation of that.
fn specialised(class: &str, member: &str, special: &str) -> String {
    format!("{} template<> {special}{}", in_class(class, None, member, None), trap())
}

/// A member where it belongs: classes whose names begin with an N are in a namespace.
fn in_class(class: &str, args: Option<&str>, member: &str, used: Option<&str>) -> String {
    let inner = class.starts_with('N');
    let (open, close, path) = if inner { ("namespace nn { ", " }", "nn::") } else { ("", "", "") };
    let mut s = match args {
        None => format!("{open}class {class} {{ {member} }};{close}"),
        Some(a) => format!("{open}template<class...> class {class}; template<> class {class}<{a}> {{ {member} }};{close}"),
    };
    if let Some(u) = used {
        let t = args.map_or(String::new(), |a| format!("<{a}>"));
        // the digits come first in the name of what's used
        let whole = format!("{path}{class}{t}::{u}");
        let id: String = u.chars().filter(char::is_ascii_digit).collect();
        s += &format!(" extern \"C\" void use{id}() {{ asm volatile(\"\" :: \"r\"((const volatile void *)&{whole})); }}");
    }
    s
}

/// What the texts of the things with an address are.
fn globals(env: &Env, fl: u16, win64: bool) -> Vec<(String, &'static str)> {
    let mut v = vec![];
    for (_, name, args) in GLOBALS {
        // an operator's name isn't counted among those which can be referred to
        let Out::Text(t) = env.real(&format!("??$?H{}@@YAXXZ", args[usize::from(win64)]), fl) else { continue };
        if let Some((_, arg)) = t.strip_suffix(">(void)").and_then(|t| t.split_once('<')) {
            v.push((arg.to_string(), name));
        }
    }
    v
}

/// The line which declares what the text says, given which symbol it's the text of.
fn declaration(symbol: &str, text: &str, globals: &[(String, &str)]) -> Option<String> {
    let id = || {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        symbol.hash(&mut h);
        h.finish()
    };
    if symbol.starts_with("??_C@") {
        return Some(format!("const void *s{} = {text};", id()));
    }
    // the ref-qualifier goes first in C++
    let mut text = text.replace("noexcept &&", "&& noexcept").replace("noexcept &", "& noexcept");
    if symbol.contains('$') {
        for (t, name) in globals {
            text = text.replace(t, name);
        }
    }
    // a template isn't a class, nor are these types
    for (a, b) in [("struct P,", "P,"), ("struct P>", "P>"), ("struct n::m::P,", "n::m::P,"), ("struct n::m::P>", "n::m::P>"), ("struct d::P,", "d::P,"), ("struct d::P>", "d::P>")] {
        if symbol.contains("?$TT@") {
            text = text.replace(a, b);
        }
    }
    for (a, b) in [("<auto>", "auto"), ("<decltype-auto>", "decltype(auto)")] {
        if let Some(rest) = text.strip_prefix(a) {
            text = format!("{b}{rest}");
        }
    }
    if symbol.starts_with("??_R0") || symbol.starts_with('.') {
        let i = id();
        // the name of the type is just said after it, the symbol is declared to be of it
        let typedef = if symbol.starts_with('.') {
            format!("using r{i} = {};", text.strip_suffix("`RTTI Type Descriptor Name'")?)
        } else {
            let (a, b) = text.split_once("`RTTI Type Descriptor'")?;
            format!("typedef {a}r{i}{b};")
        };
        return Some(format!("{typedef} const void *q{i} = &typeid(r{i});"));
    }
    if symbol.starts_with("?x") {
        // what's in the quotes is the function, and around them is the variable
        let (name, rest) = symbol[1..].split_once("@?1?")?;
        let (a, inner) = text.split_once('`')?;
        let (inner, b) = inner.split_once(&format!("'::`2'::{name}"))?;
        return declared(rest, inner.into(), &local(&format!("static {a}{name}{b}"), name));
    }
    declared(symbol, text, trap())
}

fn declared(symbol: &str, text: String, body_of_it: &str) -> Option<String> {
    if let (Some(_), Some((access, of))) = (symbol.strip_prefix("??$"), text.split_once(": ")) {
        if matches!(access, "public" | "protected" | "private") {
            return member_special(access, of);
        }
    }
    if let Some(rest) = symbol.strip_prefix("??$") {
        let name = rest.split('@').next()?;
        return Some(if name.starts_with('f') {
            format!("{} template<> {text}{}", fn_template(&name[1..]), trap())
        } else {
            format!("{} template<> {text};", var_template(name.get(1..)?))
        });
    }
    if symbol.starts_with("??__K") {
        return Some(text + trap());
    }
    let body = symbol.strip_prefix('?')?;
    let member_at = if body.starts_with('?') {
        0
    } else {
        let at = body.find('@')? + 1;
        if body[at..].starts_with('@') {
            let name = &body[..at - 1];
            return Some(if name.starts_with('v') { variable(&text, name) } else { text + body_of_it });
        }
        at
    };
    // the class: a letter and a number
    let b = body.as_bytes();
    let at = (member_at..b.len()).find(|&i| matches!(b[i], b'W' | b'N') && b.get(i + 1).is_some_and(u8::is_ascii_digit))?;
    let class = body[at..].split('@').next()?;
    let args = if body[..at].ends_with("?$") { Some(bracketed(&text, class)?.to_string()) } else { None };
    let mut text = text;
    let path = format!("{}{class}{}::", if class.starts_with('N') { "nn::" } else { "" }, args.as_ref().map_or(String::new(), |a| format!("<{a}>")));
    if body.starts_with("?B") {
        // a conversion's result is said once in C++
        let to = text.rfind(&format!("{path}operator "))? + path.len() + 9;
        let to = text[to..text.rfind("(void)")?].to_string();
        let at = text.find(": ")? + 2;
        let at = at + if text[at..].starts_with("virtual ") { 8 } else { 0 };
        text = format!("{}{}", &text[..at], text[at..].strip_prefix(to.as_str())?.trim_start());
    }
    // at the front, the class is taken for the beginning of an access declaration
    if let Some(at) = text.find(": ").map(|at| at + 2) {
        let at = at + if text[at..].starts_with("virtual ") { 8 } else { 0 };
        if text[at..].starts_with(&path) {
            text.replace_range(at..at + path.len(), "");
        }
    }
    if let (Some(a), "?0" | "?1") = (&args, &body[..2]) {
        // so are the arguments of a class in the name of its constructor
        let whole = format!("{class}<{a}>");
        let at = text.rfind(&whole)? + class.len();
        text.replace_range(at..at + whole.len() - class.len(), "");
    }
    let var = body.starts_with('v').then(|| &body[..member_at - 1]);
    let end = if var.is_some() { ";" } else { body_of_it };
    Some(in_class(class, args.as_deref(), &format!("{text}{end}"), var))
}

/// The specialisation of a member template.
fn member_special(access: &str, text: &str) -> Option<String> {
    let (stat, text) = match text.strip_prefix("static ") {
        Some(t) => ("static ", t),
        None => ("", text),
    };
    // of these classes, which are a letter and a number, there's only one
    let b = text.as_bytes();
    let starts = |i: usize| matches!(b[i], b'W' | b'N') && b.get(i + 1).is_some_and(u8::is_ascii_digit) && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' || b[i - 1] >= 0x80));
    let at = (0..b.len()).find(|&i| starts(i))?;
    let (class, rest) = text[at..].split_once("::")?;
    let quals = &text[text.rfind(')')? + 1..];
    let mut special = text.to_string();
    let primary = if let Some(o) = rest.strip_prefix("operator") {
        let o = [">>=", "<=>", "&&", "==", "()", "[]", "+", "-", "*", "=", "<", ","].into_iter().find(|x| o.starts_with(x))?;
        op_template(o, quals)
    } else if rest.starts_with('f') {
        member_template(&rest[1..rest.find('<')?], quals)
    } else {
        // a constructor's can't be said
        let whole = format!("{class}::{class}<{}", bracketed(&text[at..], class)?);
        let from = at + class.len() * 2 + 2;
        let to = at + whole.len();
        let to = to + text[to..].find('>')? + 1;
        special.replace_range(from..to, "");
        ctor_template(class)
    };
    Some(specialised(class, &format!("{access}: {stat}{primary}"), &special))
}

/// What's between the brackets which follow the name of a class.
fn bracketed<'a>(text: &'a str, class: &str) -> Option<&'a str> {
    let at = text.find(&format!("{class}<"))? + class.len() + 1;
    let mut depth = 1;
    for (i, c) in text[at..].char_indices() {
        depth += match c {
            '<' => 1,
            '>' => -1,
            _ => 0,
        };
        if depth == 0 {
            return Some(text[at..at + i].trim_end());
        }
    }
    None
}

pub struct Compiled {
    /// the symbols of the object file
    symbols: BTreeSet<String>,
    /// line and message of each error
    pub errors: BTreeMap<usize, String>,
    pub ok: bool,
    /// the whole of it
    pub ir: Vec<u8>,
}

/// Compiles the lines, for the one target or the other.
fn compile(dir: &Path, tag: &str, win64: bool, lines: &[String]) -> Option<Compiled> {
    compile_with(dir, tag, win64, PRELUDE, lines, &[])
}

pub fn compile_with(dir: &Path, tag: &str, win64: bool, prelude: &str, lines: &[String], more: &[&str]) -> Option<Compiled> {
    let (src, out) = (dir.join(format!("{tag}.cpp")), dir.join(format!("{tag}.ll")));
    let _ = fs::remove_file(&out);
    fs::write(&src, prelude.to_string() + &lines.join("\n") + "\n").ok()?;
    let target = if win64 { "--target=x86_64-pc-windows-msvc" } else { "--target=i686-pc-windows-msvc" };
    let o = Command::new("timeout")
        .args(["-k", "1", "120", "clang++", target, "-std=c++20", "-fms-extensions", "-fms-compatibility", "-w", "-ferror-limit=0"])
        .args(["-fno-access-control", "-femit-all-decls", "-fno-caret-diagnostics", "-S", "-emit-llvm"])
        .args(more)
        .arg("-o")
        .arg(&out)
        .arg(&src)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .ok()?;
    let mut c = Compiled { symbols: BTreeSet::new(), errors: BTreeMap::new(), ok: o.status.success(), ir: vec![] };
    let skip = prelude.lines().count();
    let err = String::from_utf8_lossy(&o.stderr);
    for l in err.lines() {
        // FILE:LINE:COLUMN: error: MESSAGE
        let Some(rest) = l.strip_prefix(&*src.to_string_lossy()) else { continue };
        let mut p = rest.splitn(4, ':');
        let (_, n, _, m) = (p.next(), p.next(), p.next(), p.next());
        if let (Some(Ok(n)), Some(m)) = (n.map(str::parse::<usize>), m) {
            if m.contains("error:") && n > skip {
                c.errors.entry(n - skip - 1).or_insert_with(|| m.trim().to_string());
            }
        }
    }
    if c.ok {
        let t = fs::read(&out).ok()?;
        c.symbols = symbols(&t);
        c.ir = t;
    }
    Some(c)
}

/// The names in quotes, with what's escaped in them.
fn symbols(ir: &[u8]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    let mut i = 0;
    while i < ir.len() {
        if ir[i] != b'"' {
            i += 1;
            continue;
        }
        // what else is in quotes begins otherwise, but may end like this
        let symbol = i > 0 && ir[i - 1] == b'@';
        i += 1;
        let mut v = vec![];
        while i < ir.len() && ir[i] != b'"' {
            let hex = (ir[i] == b'\\').then(|| ir.get(i + 1..i + 3)).flatten();
            match hex.and_then(|h| u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()) {
                Some(b) => {
                    v.push(b);
                    i += 3;
                }
                None => {
                    v.push(ir[i]);
                    i += 1;
                }
            }
        }
        if v.first() == Some(&1) {
            v.remove(0);
        }
        if let (true, Ok(t)) = (symbol, String::from_utf8(v)) {
            s.insert(t);
        }
        i += 1;
    }
    s
}

const NO_CC: u16 = 1;
const NO_TAG: u16 = 2;

/// Longer ones may exceed the demangler's own limits.
const LONGEST: usize = 1200;

pub fn monitor(w: &mut W) {
    let dir = w.a.dir.clone();
    let tag = |k: &str| format!("{k}{}", w.a.shard);
    let (one, two) = (tag("one"), tag("two"));
    let mut last = Duration::ZERO;
    while !w.over() && w.left() > last {
        let t0 = Instant::now();
        let (win64, usual) = (w.rng.one_in(2), w.rng.one_in(2));
        let (types, decls) = (w.rng.range(20, 160), w.rng.range(20, 120));
        let mut p = Program { r: &mut w.rng, win64, usual, types: vec![], lines: vec![] };
        p.basic();
        for _ in 0..types {
            p.new_type();
        }
        let mut lines: Vec<(String, Vec<String>)> = p.lines.iter().map(|l| (l.clone(), vec![])).collect();
        for i in 0..decls {
            lines.push(p.declare(i));
        }
        // whatever isn't C++ goes
        let mut first = None;
        for _ in 0..12 {
            let text: Vec<String> = lines.iter().map(|l| l.0.clone()).collect();
            let Some(c) = compile(&dir, &one, win64, &text) else { break };
            if c.ok {
                first = Some(c);
                break;
            }
            if c.errors.is_empty() {
                break;
            }
            let mut k = 0;
            lines.retain(|_| {
                k += 1;
                !c.errors.contains_key(&(k - 1))
            });
        }
        let Some(first) = first else {
            w.shm.inc(S::Skipped);
            continue;
        };
        w.shm.inc(S::Histories);
        let fl = if usual { NO_CC } else { 0 } | *w.rng.pick(&[0, NO_TAG]);
        let mut made: Vec<String> = vec![];
        for prefix in lines.iter().flat_map(|l| &l.1) {
            // with what else is in it
            let (start, within) = prefix.split_once('*').unwrap_or((prefix, ""));
            match first.symbols.range(start.to_string()..).take_while(|s| s.starts_with(start)).find(|s| s.contains(within)) {
                Some(s) => made.push(s.clone()),
                None => w.shm.inc(S::Skipped),
            }
        }
        for s in &first.symbols {
            if s.starts_with("??_C@") {
                made.push(s.clone());
            } else if s.starts_with("??_R0") && !s.starts_with("??_R0$$BY") && !mentions_class(s) {
                made.push(s.clone());
                made.push(format!(".{}", s[5..].trim_end_matches("@8")));
            }
        }
        let mut again: Vec<(String, String)> = vec![];
        for s in made {
            // once a table of names is full in the arguments of a template, clang forgets to
            // remember some of the names behind it
            if s.len() > LONGEST || model::parse(&s).is_ok_and(|p| p.feats.has(F::NameTableFull)) {
                w.shm.inc(S::OutOfScope);
                continue;
            }
            w.shm.inc(S::Evaluations);
            let o = Env { shm: Some(&w.shm), prop: &w.prop }.real(&s, fl);
            match o {
                Out::Text(t) => again.push((s, t)),
                o => {
                    w.violated(bad(&s, fl, o.show()));
                    return;
                }
            }
        }
        let known = globals(&Env { shm: None, prop: &w.prop }, fl, win64);
        let lines: Vec<String> = again.iter().map(|(s, t)| declaration(s, t, &known).unwrap_or_else(|| "#error".into())).collect();
        let Some(mut second) = compile(&dir, &two, win64, &lines) else { continue };
        if !second.ok {
            // what does compile is looked at all the same
            let rest: Vec<String> = lines.iter().enumerate().filter(|(i, _)| !second.errors.contains_key(i)).map(|x| x.1.clone()).collect();
            if let Some(c) = compile(&dir, &two, win64, &rest) {
                second.symbols = c.symbols;
            }
        }
        let got = second.symbols;
        for (k, (s, _)) in again.iter().enumerate() {
            w.shm.inc(S::Compared);
            if !second.errors.contains_key(&k) && got.contains(&expected(s)) {
                let f = model::parse(s).map_or(Feats(0), |p| p.feats);
                w.held(s, f);
                continue;
            }
            // by itself?
            match alone(&Env { shm: None, prop: &w.prop }, &dir, &two, s, fl) {
                Some(d) => {
                    w.violated(bad(s, fl, d));
                    return;
                }
                None => w.shm.inc(S::NoVerdict),
            }
        }
        last = t0.elapsed();
    }
}

/// Whether it may be about one of the classes which only have a member.
fn mentions_class(s: &str) -> bool {
    s.as_bytes().windows(2).any(|b| matches!(b[0], b'W' | b'N') && b[1].is_ascii_digit())
}

/// The symbol which the text has to give: what's left in the object file of a type's name is a
/// part of its descriptor's symbol.
fn expected(s: &str) -> String {
    match s.strip_prefix('.') {
        Some(t) => format!("??_R0{t}@8"),
        None => s.into(),
    }
}

fn bad(s: &str, fl: u16, got: String) -> Violation {
    Violation { kind: "compiled".into(), calls: vec![(s.into(), fl)], expected: "a declaration which the compiler gives the same symbol".into(), got }
}

/// What's wrong with the text of this symbol, if it is.
pub fn alone(env: &Env, dir: &Path, tag: &str, s: &str, fl: u16) -> Option<String> {
    let t = match env.real(s, fl) {
        Out::Text(t) => t,
        o => return Some(o.show()),
    };
    let mut said = vec![];
    for win64 in [false, true] {
        let Some(d) = declaration(s, &t, &globals(env, fl, win64)) else { return Some(format!("{t:?}, which doesn't declare it")) };
        let c = compile(dir, tag, win64, &[d.clone()])?;
        if c.symbols.contains(&expected(s)) {
            return None;
        }
        said.push(match c.errors.values().next() {
            Some(e) => e.clone(),
            None => {
                let v: Vec<&str> = c.symbols.iter().filter(|x| x.starts_with('?')).map(String::as_str).collect();
                v.join(" ")
            }
        });
    }
    Some(format!("{t:?}, of which the compiler says: {}", said.join(" / ")))
}
