//! Systematic families of inputs: finite tables which a run walks through, completely if they
//! are small enough for its budget and evenly sampled otherwise.

use crate::dict;
use crate::gen::Gen;
use crate::rng::Rng;
use std::sync::Arc;

#[derive(Clone)]
pub struct Enum {
    pub name: &'static str,
    pub n: u64,
    pub at: Arc<dyn Fn(u64) -> String + Send + Sync>,
}

pub fn of(name: &'static str, n: u64, at: impl Fn(u64) -> String + Send + Sync + 'static) -> Enum {
    Enum { name, n, at: Arc::new(at) }
}

type Parts = Vec<Vec<String>>;

fn v(xs: &[&str]) -> Vec<String> {
    xs.iter().map(|s| s.to_string()).collect()
}

/// every combination of one from each list
fn cat(name: &'static str, parts: Parts) -> Enum {
    let n = parts.iter().map(|p| p.len() as u64).product();
    of(name, n, move |mut i| {
        let mut s = String::new();
        let mut picks = vec![0; parts.len()];
        for (k, p) in parts.iter().enumerate().rev() {
            picks[k] = (i % p.len() as u64) as usize;
            i /= p.len() as u64;
        }
        for (p, &k) in parts.iter().zip(&picks) {
            s += &p[k];
        }
        s
    })
}

/// every sequence of up to `len` tokens, between each of the frames
fn seqs(name: &'static str, frames: &[(&str, &str)], toks: &[&str], len: u32) -> Enum {
    let t = toks.len() as u64;
    let per: u64 = (0..=len).map(|k| t.pow(k)).sum();
    let frames: Vec<(String, String)> =
        frames.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let toks = v(toks);
    of(name, per * frames.len() as u64, move |i| {
        let (a, b) = &frames[(i / per) as usize];
        let mut k = i % per;
        let mut n = 0;
        while k >= t.pow(n) {
            k -= t.pow(n);
            n += 1;
        }
        let mut s = a.clone();
        for _ in 0..n {
            s += &toks[(k % t) as usize];
            k /= t;
        }
        s + b
    })
}

fn chars(from: u8, to: u8) -> Vec<String> {
    (from..=to).map(|c| (c as char).to_string()).collect()
}

const NAMES: &[&str] = &["?f@@", "?f@A@@", "??0A@@", "??1A@B@@", "??4A@@", "??BA@@", "??$g@H@A@@"];
const RETS: &[&str] = &["@", "X", "H", "?BH", "?AUs@@", "PAH", "P6AXXZ", "_N", "?CPEBD"];
const PARAMS: &[&str] = &[
    "X", "@", "Z", "H@", "HZ", "PAHPAH0@", "PAUs@@00@", "PADPBDPAPAD0@", "XZ", "X@", "HH", "1@",
    "_N_N@", "PAH0HH0Z",
];
pub const QUALS: &[&str] = &[
    "A", "B", "C", "D", "", "EA", "EB", "EC", "ED", "IA", "FA", "EIA", "EFA", "EIFD", "IFB", "GA", "HA",
    "EGB", "EHD", "EIFGD", "Q", "R", "S", "T", "IEA", "GHA", "E", "U",
];

fn classes() -> Vec<String> {
    let mut c = vec![];
    for b in 0x21..0x7fu8 {
        let s = (b as char).to_string();
        if b"GHOPWX".contains(&b) {
            for n in ["3", "?3", "BA@", "PPPPPPPM@", "A@"] {
                c.push(format!("{s}{n}"));
            }
        } else {
            c.push(s);
        }
    }
    for d in 0..10 {
        for n in ["30", "?3?0", "PPPPPPPM@BA@", "PPPPPPPPM@?9"] {
            c.push(format!("${d}{n}"));
            c.push(format!("$R{d}{n}{n}"));
        }
    }
    c.extend(v(&["$$J0Y", "$$J0A", "$$J0Q", "$$J0S", "$$J09", "$$J0$401", "$$J1Y", "$$J0G3", "9"]));
    c
}

pub fn functions() -> Vec<Enum> {
    let cc: Vec<String> = chars(b'A', b'Z').into_iter().chain(v(&["0", "9", "a", "@", "?"])).collect();
    let ends = v(&["Z", "_E", "", "_Z", "ZZ"]);
    vec![
        cat("class x convention", vec![v(&["?f@@", "?f@A@@"]), classes(), v(&["", "A", "EB"]), cc.clone(), v(&["XXZ", "HH@Z"])]),
        cat("class x qualifiers", vec![v(&["?f@A@@"]), classes(), v(QUALS), v(&["AXXZ", "EPAHHZ_E"])]),
        cat("result x parameters", vec![v(NAMES), v(&["YA", "QAE", "UEBA", "SA", "$$J0YA"]), v(RETS), v(PARAMS), ends.clone()]),
        cat("whole signature", vec![v(NAMES), classes(), v(QUALS), cc, v(RETS), v(PARAMS), ends]),
        of("parameter counts", 4 * 40 * 6, |i| {
            let (k, n, form) = (i % 4, i / 4 % 40, i / 160);
            let p = ["H", "PAH", "0", "Us@@"][k as usize];
            let mut s = "?f@@YAX".to_string();
            if form % 2 == 1 {
                s += "PAH";
            }
            s += &p.repeat(n as usize);
            s += ["@Z", "@Z", "ZZ", "ZZ", "X@Z", "@_E"][form as usize];
            s
        }),
    ]
}

const BASES: &[&str] = &[
    "X", "C", "D", "E", "F", "G", "H", "I", "J", "K", "M", "N", "O", "_N", "_J", "_K", "_W", "_Q", "_S",
    "_U", "_P", "_T", "$$T", "Tu@@", "Us@n@@", "Vc@@", "W4e@@", "U?$t@H@@", "?cust@@", "Y03H", "Y112H",
    "Y01$$CBH", "$$A6AXXZ", "$$A8@@EBAXXZ", "$$BY03H", "L", "B", "_X", "_A", "W3e@@", "Y0@H", "Y@H", "1",
];

fn ptrs() -> Vec<String> {
    let mut p = vec![];
    for k in ["P", "Q", "R", "S", "A", "$$Q"] {
        for e in ["", "E", "I", "F", "EI", "EF", "EIF"] {
            for q in ["A", "B", "C", "D", "Qc@@", "Rc@n@@", "T?$c@H@@", "Sc@@"] {
                p.push(format!("{k}{e}{q}"));
            }
        }
        for f in ["6A", "6G", "6I", "8c@@AE", "8c@n@@EBA", "8c@@IGDA", "7A", "9A", "0A"] {
            p.push(format!("{k}{f}"));
        }
    }
    p
}

pub fn variables() -> Vec<Enum> {
    let q: Vec<String> = v(QUALS);
    vec![
        cat("storage x type x qualifiers", vec![v(&["?x@@", "?x@A@@"]), chars(b'0', b'9'), v(BASES), q.clone()]),
        cat("storage x pointer x qualifiers", vec![
            v(&["?x@A@n@@"]), v(&["0", "1", "2", "3", "4"]), ptrs(), v(&["H", "D", "Us@@", "Y01H", "PAH", "XXZ", "HH@Z"]), q,
            v(&["", "c@@"]),
        ]),
        cat("names", vec![
            v(&["?x@", "?x@0", "??$x@H@", "??0", "??B", "??4", "??__Kx@", "??2"]), v(&["@", "A@@", "A@B@@", "0@", "?A@@", "?$T@H@@", "?1??f@@YAXXZ@"]),
            v(&["0", "1", "2", "3", "4"]), v(&["HA", "PEAHEA", "PAHB", "P6AXXZA", "PQc@@HQ1@", "Us@@B", "Y03HA"]),
        ]),
    ]
}

const TYPE_CTX: &[(&str, &str)] = &[
    ("?x@@3", "A"), ("?f@@YAX", "@Z"), ("?f@@YA?A", "XZ"), ("?x@?$t@", "@@3HA"), (".", ""), ("??_R0", "@8"),
    ("?x@@3PA", "A"), ("?f@@YAXP6AX", "@Z@Z"),
];

pub fn types() -> Vec<Enum> {
    const ALPHA: &[&str] = &[
        "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T",
        "U", "V", "W", "X", "Y", "Z", "_", "?", "$", "$$", "0", "1", "4", "6", "8", "@", "a@",
    ];
    vec![
        seqs("all short types", &TYPE_CTX[..4], ALPHA, 3),
        cat("pointer x pointee", vec![v(&["?f@@YAX", ".", "?f@@YAXH"]), ptrs(), v(BASES), v(&["@Z", "XZ@Z", "H@Z@Z", ""])]),
        cat("two pointers", vec![v(&["?f@@YAX"]), ptrs(), ptrs(), v(&["H", "XXZ", "Y03H", "Us@@", "HH@Z"]), v(&["@Z"])]),
        cat("three pointers", vec![v(&["?f@@YAX", "?x@@3"]), ptrs(), ptrs(), ptrs(), v(&["H", "XXZ", "Y03H", "Us@@", "HH@_E"]), v(&["@Z", "A", "EA"])]),
        cat("result of function pointers", vec![v(&["?f@@YAXP6A", "?f@@YAXP8c@@AE", "?f@@YAXPAP6A", "?f@@YA?BP6A"]), ptrs(), v(BASES), v(&["X", "H@", "Z"]), v(&["Z", "_E"]), v(&["@Z", "XZ"])]),
        of("array shapes", 6 * 12 * 5, |i| {
            let (ctx, n, q) = (i % 6, i / 6 % 12, i / 72);
            let n = n as usize + 1;
            let mut s = ["?x@@3", "?x@@3PA", "?f@@YAXAEBY", "?f@@YAXP6AXPAY", ".", "?x@?$t@$$B"][ctx as usize].to_string();
            if !s.ends_with('Y') {
                s += "Y";
            }
            s += &if n <= 10 { ((b'0' + (n - 1) as u8) as char).to_string() } else { format!("{}@", (b'A' + n as u8) as char) };
            for k in 0..n {
                s += ["0", "9", "BA@", "A@", "PPPPPPPP@"][k % 5];
            }
            s += ["", "$$CA", "$$CB", "$$CD", "$$CQ"][q as usize];
            s + ["HA", "HA", "H@Z", "H@Z@Z", "H", "H@@3HA"][ctx as usize]
        }),
    ]
}

pub fn names() -> Vec<Enum> {
    let any = chars(0x20, 0x7e);
    let scopes = v(&["@", "A@@", "A@B@@", "?$T@H@@", "?$T@H@A@@", "?A@@", "?A0x1@A@@", "0@", "A@0@", "?1??g@@YAXXZ@", "?1??0A@@QAE@XZ@", "?BA@??g@@9@", "?@?x@@3HA@"]);
    let enc = v(&["YAXXZ", "QAEXXZ", "QAEHH@Z", "3HA", "QAE@XZ", "UAE?BHXZ", "QAE@H@Z", "9", "QBE?AUs@@XZ"]);
    vec![
        cat("operator codes", vec![v(&["??", "??_", "??__"]), any.clone(), scopes.clone(), enc.clone()]),
        cat("operator templates", vec![v(&["??$?", "??$?_", "??$?__"]), any.clone(), v(&["H@", "@", "$00@", "l@H@"]), scopes.clone(), enc.clone()]),
        cat("template operators as scopes", vec![v(&["?f@?$?", "?f@?$?_", "?x@?$?__"]), any, v(&["H@", "l@H@"]), v(&["@", "A@@", "1@"]), enc.clone()]),
        cat("scope chains", vec![
            v(&["?f@", "??0", "??1", "??B", "??$f@H@", "??$?0H@", "??$?1H@", "??$?BH@", "??H", "??__Kl@", "?0"]), scopes.iter().map(|s| s.strip_suffix('@').unwrap_or(s).to_string()).collect(), scopes.clone(), enc,
        ]),
        seqs("local scopes", &[("?x@", "??f@@YAXXZ@4HA"), ("?x@a@", "?x@@3HA@@3HA")],
            &["?", "0", "9", "@", "A", "B", "P", "Q", "a", "O"], 5),
        seqs("anonymous namespaces", &[("?x@?A", "@@3HA"), ("?x@?A", "@0@3HA"), ("?f@?A", "@@YAXU0@@Z"), ("?x@?A", "@?A", )],
            &["0x", "a", "@", "A", "?A", "@?A", "0", "é"], 4),
    ]
}

pub fn backrefs() -> Vec<Enum> {
    vec![
        seqs("names and references", &[("?", "@3HA"), ("?f@@YAXU", "@@@Z"), ("?", "@YAXXZ")],
            &["a@", "b@", "0", "1", "2", "?$t@H@", "?$t@U0@@@", "?A@", "c@@U"], 5),
        seqs("parameters and references", &[("?f@@YAX", "@Z"), ("?f@@YAXP6AX", "@Z@Z"), ("?f@@YA?AUs@@", "@Z"), ("?x@?$t@P6AX", "@Z@@3HA")],
            &["H", "PAH", "Us@@", "0", "1", "2", "P6AX0@Z", "_N", "U0@", "U1@"], 5),
        of("full name table", 14 * 10 * 8, |i| {
            let (n, k, form) = (i % 14, i / 14 % 10, i / 140);
            let names: String = (0..n).map(|j| format!("n{j}@")).collect();
            match form {
                0 => format!("?x@{names}{k}@3HA"),
                1 => format!("?x@{names}@3U{k}@A"),
                2 => format!("?f@{names}@YAXU{k}@U{k}a@@V{k}@@Z"),
                3 => format!("?x@{names}{names}{k}@3HA"),
                4 => format!("??$t@H@{names}{k}@YAXXZ"),
                5 => format!("?x@?$t@H@{names}{k}@3HA"),
                6 => format!("?x@?$t@{}@{names}@3U{k}@A", (0..n).map(|j| format!("Um{j}@@")).collect::<String>()),
                _ => format!("?x@?$t@{}U{k}@@{names}@3U{k}@A", (0..n).map(|j| format!("Um{j}@@")).collect::<String>()),
            }
        }),
        of("full parameter table", 14 * 10 * 6, |i| {
            let (n, k, form) = (i % 14, i / 14 % 10, i / 140);
            const T: [&str; 14] = ["PAH", "PAD", "PBH", "PBD", "AAH", "AAD", "QAH", "PAN", "PAM", "PAJ", "PAK", "PAF", "PAG", "PA_N"];
            let ps = T[..n as usize].concat();
            match form {
                0 => format!("?f@@YAX{ps}{k}@Z"),
                1 => format!("?f@@YAXH{ps}D{k}{k}Z_E"),
                2 => format!("?f@@YAXP6AX{ps}@Z{k}@Z"),
                3 => format!("?f@@YAX{ps}P6AX{k}@Z{k}@Z"),
                4 => format!("?f@@YAP6AX{ps}@Z{k}@Z"),
                _ => format!("?f@@YAX{ps}U?$t@P6AX{k}@Z@@{k}@Z"),
            }
        }),
        of("numbering around templates", 10 * 10 * 10 * 6, |i| {
            let d = |k: u64| (b'0' + (i / 10u64.pow(k as u32) % 10) as u8) as char;
            let (a, b, c) = (d(0), d(1), d(2));
            match i / 1000 {
                0 => format!("?x@y@?$t@Uz@@U{a}@@w@@3U{b}@{c}@A"),
                1 => format!("??$f@Uz@@U{a}@@y@w@@YAXU{b}@U{c}@@Z"),
                2 => format!("?f@@YAXU?$t@H@@U?$t@H@@U?$t@D@@U{a}@U{b}@U{c}@@Z"),
                3 => format!("?f@?$t@$1?g@h@@YAXXZ@i@@QAEXU{a}@U{b}@U{c}@@Z"),
                4 => format!("?x@?1??g@h@@YAXUs@@@Z@4U{a}@{b}@{c}"),
                _ => format!("?f@@YAXPAUs@n@@U{a}@PAU{b}@{c}@Z"),
            }
        }),
    ]
}

/// Instantiations which differ only in what a flag leaves out, and references past them: if
/// looking alike made them one, the references would go to other names.
pub fn look_alikes() -> Vec<Enum> {
    const LOOK: &[(&str, &str)] = &[
        ("$1?f@@YAHXZ", "$1?f@@YADXZ"), ("$1?f@@YAXXZ", "$1?f@@YGXXZ"), ("$1?f@c@@QAEXXZ", "$1?f@c@@AAEXXZ"), ("$1?f@c@@SAXXZ", "$1?f@c@@YAXXZ"),
        ("$1?f@c@@UAEXXZ", "$1?f@c@@QAEXXZ"), ("$1?x@@3HA", "$1?x@@3DA"), ("$1?x@c@@2HA", "$1?x@c@@0HA"), ("$1?x@c@@2HA", "$1?x@c@@3HA"), ("Us@@", "Vs@@"),
        ("Us@@", "W4s@@"), ("Ts@@", "Us@@"), ("P6AXXZ", "P6GXXZ"), ("$$A6AXXZ", "$$A6GXXZ"), ("P8c@@AEXXZ", "P8c@@AAXXZ"), ("PAUs@@", "PAVs@@"),
        ("$1??_7c@@6B@", "$1??_7c@@6BUd@@@"), ("$1??0c@@QAE@XZ", "$1??0c@@AAE@XZ"), ("$1??Bc@@QAEHXZ", "$1??Bc@@IAEHXZ"),
        ("$1?f@c@@W3AEXXZ", "$1?f@c@@UAEXXZ"), ("$1?f@@YAXUs@@@Z", "$1?f@@YAXVs@@@Z"), ("P6AXUs@@@Z", "P6AXVs@@@Z"), ("$1?f@@YAXXZ", "$1?f@@YAXXZ"),
        ("$H?f@c@@QAEXXZ0", "$H?f@c@@IAEXXZ0"), ("$E?x@@3HA", "$E?x@@3DA"), ("$1?f@@9", "$1?f@@YAXXZ"), ("$$A6AXXZ", "$$A6AXX_E"), ("P6AXXZ", "P6AXX_E"), ("PQc@@H", "PQc@@Us@@"),
    ];
    let n = LOOK.len() as u64;
    vec![of("instantiations which look alike", n * 2 * 5 * 6 * 8, move |i| {
        let ((a, b), i) = (LOOK[(i % n) as usize], i / n);
        let ((a, b), i) = (if i % 2 == 0 { (a, b) } else { (b, a) }, i / 2);
        let wrap = |x: &str| -> String {
            let sym = x.strip_prefix("$1").filter(|s| !s.starts_with("??_7"));
            match (i % 5, sym) {
                (0, _) => format!("?$t@{x}@"),
                (1, _) => format!("?$t@U?$u@{x}@@@"),
                // the entity is what a name is local to, rather than an argument
                (2, Some(s)) => format!("?$t@Us@?1?{s}@@"),
                (3, Some(s)) => format!("?$t@U?$u@Us@?1?{s}@@@@"),
                (2 | 3, None) => format!("?$t@Us@?1??$f@{x}@@YAXXZ@@"),
                _ => format!("?$t@$1?y@?1??f@?$u@{x}@@YAXXZ@3HA@"),
            }
        };
        let ((a, b), i) = ((wrap(a), wrap(b)), i / 5);
        let (k, form) = (i % 6, i / 6);
        match form {
            0 => format!("?x@{a}{b}n@{k}@3HA"),
            1 => format!("?x@{a}n@{b}m@{k}@3HA"),
            2 => format!("?x@@3PAU{a}{b}n@m@{k}@A"),
            3 => format!("?f@@YAXU{a}@U{b}@Un@@U{k}@U{k}o@@@Z"),
            4 => format!("??_7{a}{b}n@@6BU{k}@@"),
            5 => format!("?f@{a}n@@QAEXPAU{b}o@@U{k}@@Z"),
            6 => format!("?x@?1??g@{a}{b}n@@YAXXZ@{k}@4HA"),
            _ => format!("??$f@H@{a}{b}n@@YAXU{k}@@Z"),
        }
    })]
}

/// Addresses as arguments, some of whose names count among those which can be referred to, and references past them.
pub fn counted() -> Vec<Enum> {
    const OF: &[&str] = &[
        "??H@YAHUs@@@Z", "??Gc@@QAEHUs@@@Z", "??$f@H@@YAXXZ", "??$f@H@c@@SAXXZ", "??$?HH@@YAXH@Z", "??Bc@@QAEHXZ", "??0c@@QAE@XZ", "??1c@@UAE@XZ", "??_9c@@$BA@AE", "??__K_l@@YAHI@Z",
        "??$v@H@@3HA", "?f@@YAXXZ", "?f@c@@QAEXUs@@@Z", "?x@@3HA", "?x@c@@2Us@@A", "??$v@U?$t@H@@@@3HA", "??$f@Us@@@@YAXXZ", "?f@?$c@H@@QAEXXZ", "??H?$c@H@@QAEXXZ", "??$f@H@?$c@H@@QAEXXZ", "??$f@H@@YAXU?$c@H@@@Z",
    ];
    let n = OF.len() as u64;
    vec![of("names which count or don't", n * 6 * 7 * 5 * 2, move |i| {
        let (a, i) = (OF[(i % n) as usize], i / n);
        let (how, i) = (i % 6, i / 6);
        let a = match how {
            0 => format!("$1{a}"),
            1 => format!("$H{a}3"),
            2 => format!("$I{a}34"),
            3 => format!("$J{a}345"),
            4 => format!("$E{a}"),
            _ => format!("$MP6AXXZ1{a}"),
        };
        let (k, i) = (i % 7, i / 7);
        let (more, outside) = (i % 5, i / 5);
        let args = match more {
            0 => format!("{a}Ud@@U{k}@"),
            1 => format!("Ud@@{a}Ue@n@@U{k}@"),
            2 => format!("{a}{a}Ud@@PAU{k}@"),
            3 => format!("{a}$1??$g@H@@YAXXZUd@@$1??7e@@QAEHXZU{k}@"),
            _ => format!("{a}U?$t@{a}U{k}@@@Ud@@U{k}@"),
        };
        if outside == 0 { format!("?x@?$q@{args}@@3HA") } else { format!("?f@@YAXU?$q@{args}@@Ud@@U{k}@@Z") }
    })]
}

const TARGS: &[&str] = &[
    "H", "X", "PAH", "Us@@", "U0@", "$00", "$0?0", "$0BA@", "$0A@", "$$T", "$$V", "$$$V", "$$Z", "$S", "$1?x@@3HA",
    "$1?f@@YAXXZ", "$1?f@c@@QAEXXZ", "$1", "$E?x@@3HA", "$E?f@@YAXXZ", "$H?f@@YAXXZ3", "$I?f@@YAXXZ34",
    "$J?f@@YAXXZ345", "$F34", "$G345", "$$Yal@@", "$$BY03H", "$$CBH", "$$CD?$t@H@@", "$$A6AXXZ", "$$A8@@EBAXXZ",
    "$MH00", "$MPAH1?x@@3HA", "$MP8s@@AEXXZH?f@@YAXXZ3", "$MHF34", "$MHG345", "V?$t@H@@", "?cust@@", "$2",
    "$D0", "$E", "$$", "$M", "0", "$10", "$H3", "$1??_C@_00A@A@", "$1??_7s@@6B@", "$1??@0@", "$E??_C@_03A@abc?$AA@",
    "$1??0s@@QAE@XZ", "$1??Bs@@QAEHXZ", "$1??$g@H@@YAXXZ", "$0?", "$F3", "Y03H", "?", "W4e@@", "W4e@n@@",
];

pub fn templates() -> Vec<Enum> {
    vec![
        seqs("argument lists", &[("??$f@", "@@YAXXZ"), ("?x@?$t@", "@@3HA"), ("?f@@YAXU?$t@", "@@@Z")], TARGS, 3),
        cat("nesting", vec![v(&["?x@?$t@", "??$f@"]), v(&["U", "V", "$$Y", "PAU", "$1?g@", "H?$E?y@", "?"]), v(&["?$u@", "?$?H", "?$0"]), TARGS.iter().map(|s| s.to_string()).collect(), TARGS.iter().map(|s| s.to_string()).collect(), v(&["@", "@@", "@@@", "@n@@"]), v(&["3HA", "@3HA", "@@3HA", "@@YAXXZ", "@@QAEXXZ@@3HA"])]),
        of("argument counts", 6 * 40, |i| {
            let (k, n) = (i % 6, i as usize / 6);
            match k {
                0 => format!("?x@?$t@{}@@3HA", "H".repeat(n)),
                1 => format!("??$f@{}@@YAXXZ", "$00".repeat(n)),
                2 => format!("?x@?$t@{}H@@3HA", "$$V".repeat(n)),
                3 => format!("?f@@YAXU?$t@{}@@@Z", "Us@@".repeat(n)),
                4 => format!("?x@{}H{}@3HA", "?$t@U".repeat(n.max(1)), "@@".repeat(n.max(1))),
                _ => format!("?x@{}@3HA", (0..n).map(|j| format!("?$t{j}@H@")).collect::<String>()),
            }
        }),
    ]
}

pub fn strings() -> Vec<Enum> {
    let num = |n: u64| {
        if (1..=10).contains(&n) {
            ((b'0' + (n - 1) as u8) as char).to_string()
        } else {
            format!("{n:x}@").chars().map(|c| match c.to_digit(16) {
                Some(d) => (b'A' + d as u8) as char,
                None => c,
            }).collect()
        }
    };
    let hex = |b: u8| format!("?${}{}", (b'A' + (b >> 4)) as char, (b'A' + (b & 15)) as char);
    vec![
        of("every byte escape", 256 * 3, move |i| {
            let b = (i % 256) as u8;
            match i / 256 {
                0 => format!("??_C@_01A@{}?$AA@", hex(b)),
                1 => format!("??_C@_02A@a{}?$AA@", hex(b)),
                _ => format!("??_C@_13A@{}?$AAa?$AA?$AA@", hex(b)),
            }
        }),
        of("every two-character escape", 0x180 * 2, |i| {
            let c = char::from_u32((i % 0x180) as u32).unwrap_or('x');
            if i < 0x180 { format!("??_C@_01A@?{c}?$AA@") } else { format!("??_C@_13A@?$AA?{c}?$AA?$AA@") }
        }),
        of("every raw character", 0x300 * 2, |i| {
            let c = char::from_u32((i % 0x300) as u32).unwrap_or('x');
            if i < 0x300 { format!("??_C@_01A@{c}?$AA@") } else { format!("??_C@_13A@?$AA{c}?$AA?$AA@") }
        }),
        of("every nibble pair", 64 * 64, |i| {
            let c = |k: u64| (0x30 + (i / 64u64.pow(k as u32) % 64) as u8) as char;
            format!("??_C@_01A@?${}{}?$AA@", c(0), c(1))
        }),
        of("every wide unit", 0x10000, move |i| {
            format!("??_C@_13A@{}{}?$AA?$AA@", hex((i >> 8) as u8), hex(i as u8))
        }),
        of("every char16 unit", 0x10000, move |i| {
            format!("??_C@_05A@{}{}a?$AA?$AA?$AA@", hex(i as u8), hex((i >> 8) as u8))
        }),
        of("char32 units", 0x110000 / 7, move |i| {
            let c = i as u32 * 7;
            let b: String = c.to_le_bytes().iter().map(|&b| hex(b)).collect();
            format!("??_C@_07A@{b}?$AA?$AA?$AA?$AA@")
        }),
        of("length x bytes x zeros", 74 * 74 * 6 * 4, move |i| {
            let (len, n, z, style) = (i % 74, i / 74 % 74, i / 74 / 74 % 6, i / 74 / 74 / 6);
            let body: String = (0..n).map(|k| match style {
                0 => "a".to_string(),
                1 if k % 2 == 1 => "?$AA".into(),
                2 if k % 4 != 0 => "?$AA".into(),
                3 if k % 3 != 0 => "?$AA".into(),
                _ => "b".into(),
            }).collect();
            format!("??_C@_0{}A@{body}{}@", num(len), "?$AA".repeat(z as usize))
        }),
        of("wide length x units", 140 * 72 * 3, move |i| {
            let (len, n, z) = (i % 140, i / 140 % 72, i / 140 / 72);
            format!("??_C@_1{}A@{}{}@", num(len), "?$AAa".repeat(n as usize), "?$AA".repeat(z as usize))
        }),
        of("long literals", 140 * 3, move |i| {
            let n = i as usize / 3;
            match i % 3 {
                0 => format!("??_C@_0{}A@{}@", num(n as u64), "a".repeat(n)),
                1 => format!("??_C@_0{}A@{}@", num(1000), "a".repeat(n)),
                _ => format!("??_C@_1{}A@{}@", num(n as u64), "?$AAa".repeat(n)),
            }
        }),
        seqs("literal syntax", &[("??_C@_", "a?$AA@"), ("??_C@_0", "@a?$AA@"), ("??_C@", "A@a?$AA@"), ("??_C@_01", "@")],
            &["0", "1", "2", "@", "A", "?", "$", "_", "a", "P"], 4),
    ]
}

const CODES: &[&str] = &["_7", "_8", "_9", "_A", "_B", "_C", "_P", "_R0", "_R1", "_R2", "_R3", "_R4", "_S", "__E", "__F", "__J", "_R5", "_R", "@"];

pub fn special() -> Vec<Enum> {
    let tails = &[
        "A@", "B@", "0", "1", "@", "6", "7", "8", "@8", "4IA", "5", "$B", "A", "B", "AXXZ", "YAXXZ", "3HA", "?x@@", "@@",
        "?AUs@@", "H", "BA@", "?0", "?$t@H@", "??_R4@", "6B@", "6Bt@@@",
    ];
    let heads: Vec<(String, String)> = CODES.iter().map(|c| (format!("??{c}"), String::new())).collect();
    let heads: Vec<(&str, &str)> = heads.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let mut e = vec![
        seqs("code x anything", &heads, tails, 4),
        cat("tables", vec![v(&["??_7", "??_8", "??_S", "??_R4"]), v(&["A@@", "A@B@@", "?$t@H@@", "?$t@H@n@@", "?A@@", "@"]), v(&["6", "7", "8", "5"]), v(QUALS), v(&["@", "t@@@", "t@n@@@", "0@@", "?$u@H@@@", "t@@", ""]), v(&["", "x", "@", "t@@@"])]),
        cat("guards", vec![v(&["??_B", "??__J"]), v(&["?1??f@@YAXXZ@", "A@@", "@", "?1??f@A@@QAEXXZ@A@@"]), v(&["4IA", "5", "4IB", "4", "6", "4IAA"]), v(&["", "0", "9", "BA@", "PPPPPPPP@", "BAAAAAAAA@", "?0", "A@", "@", "x", "00"])]),
        cat("vcall", vec![v(&["??_9"]), v(&["A@@", "A@B@@", "?$t@H@@", "@"]), v(&["$B", "$A", "B"]), v(&["0", "7", "BA@", "A@", "PPPPPPPPPPPPPPPP@", "?0", "@"]), v(&["A", "B", ""]), chars(b'A', b'Z')]),
        cat("init", vec![v(&["??__E", "??__F"]), v(&["", "?"]), v(&["x@@", "x@A@@", "?x@@", "??0A@@", "f@@", "$x@H@@", "?$x@$0A@@n@@"]), v(&["3HA", "2PAHA", "YAXXZ", "QAE@XZ", "4Us@@B", "0P6AXXZA"]), v(&["", "@", "@@", "@@@"]), v(&["YAXXZ", "YAHH@Z", "SAXXZ", "QAEXXZ", "9", ""])]),
        cat("rtti", vec![v(&["??_R0", "??_R0?A", "??_R0?B", "."]), v(BASES), v(&["@8", "", "@", "8", "@8x", "x"])]),
        cat("rtti scalars", vec![v(&["??_R2", "??_R3", "??_R1A@?0A@EA@", "??_R10000"]), v(&["A@@", "A@B@@", "?$t@H@@", "?A@@", "0@", "@"]), v(&["8", "", "@8", "88", "8x", "6", "7"])]),
        cat("base class descriptors", {
            let n = v(&["0", "9", "A@", "BA@", "?0", "PPPPPPPP@", "BAAAAAAAA@", "IAAAAAAA@", "HPPPPPPP@", "?IAAAAAAA@", "?IAAAAAAB@", "?A@"]);
            vec![v(&["??_R1"]), n.clone(), n.clone(), n.clone(), n, v(&["A@@8"])]
        }),
        cat("thunks", {
            let n = v(&["0", "9", "A@", "?0", "BA@", "PPPPPPPP@", "?PPPPPPPP@", "BAAAAAAAA@", "IAAAAAAA@", "HPPPPPPPPPPPPPPP@", "IAAAAAAAAAAAAAAA@"]);
            vec![v(&["?f@A@@", "??_EA@@"]), v(&["G", "O", "W", "X", "$0", "$4", "$R2", "$R4"]), n.clone(), n.clone(), v(&["", "0", "?0"]), v(&["", "1"]), v(&["AEXXZ", "EAAXXZ", "EAAPAXI@Z"])]
        }),
        of("md5", 40 * 6, |i| {
            let n = i as usize % 40;
            let t = ["@", "", "@??_R4@", "@??_R4", "@8", "@??_R4@??_R4@"][i as usize / 40];
            format!("??@{}{t}", &"0123456789abcdef0123456789abcdef01234567"[..n])
        }),
    ];
    e.push(cat("typeinfo", vec![v(&[".", ".?A", ".?B", ".P", ".AA", ".PEA", ".PEB", ".$$A6A"]), v(BASES), v(&["", "@", "XZ", "@Z", "x"])]));
    e
}

const NUMBER_CTX: &[(&str, &str)] = &[
    ("?x@?$t@$0", "@@3HA"), ("?x@?$t@$F", "0@@3HA"), ("?x@?$t@$G0", "0@@3HA"), ("?x@?$t@$H?f@@YAXXZ", "@@3HA"),
    ("?x@?$t@$J?f@@YAXXZ0", "0@@3HA"), ("?x@@3PAY0", "HA"), ("?x@@3Y1", "0HA"), ("?x@@3Y", "0000HA"), ("??_R1", "000A@@8"),
    ("??_R10", "00A@@8"), ("??_R100", "0A@@8"), ("??_R1000", "A@@8"), ("??_9A@@$B", "AA"), ("?f@A@@W", "AEXXZ"),
    ("?f@A@@$4", "0EAAXXZ"), ("?f@A@@$40", "EAAXXZ"), ("?f@A@@$R4", "000EAAXXZ"), ("?f@A@@$R400", "0EAAXXZ"),
    ("?f@A@@$R4000", "EAAXXZ"), ("?x@?", "??f@@YAXXZ@4HA"), ("??_B?1??f@@YAXXZ@5", ""), ("??__J?1??f@@YAXXZ@4IA", ""),
    ("??_C@_0", "A@abc?$AA@"), ("??_C@_1", "A@?$AAa?$AA?$AA@"), ("?x@?$t@$MH0", "@@3HA"),
];

pub fn numbers() -> Vec<Enum> {
    let mut vals: Vec<String> = vec![];
    for neg in ["", "?"] {
        for d in 0..10 {
            vals.push(format!("{neg}{d}"));
        }
        let mut big: Vec<u64> = vec![0, 1, 2, 9, 10, 11, 100, 1000, 12345, 1_000_000, 4_000_000_000];
        for k in 0..64 {
            big.extend([1u64 << k, (1u64 << k).wrapping_sub(1), (1u64 << k).wrapping_add(1)]);
        }
        big.push(u64::MAX);
        for b in big {
            let s = format!("{b:X}");
            let s: String = s.chars().map(|c| (b'A' + c.to_digit(16).unwrap() as u8) as char).collect();
            vals.push(format!("{neg}{s}@"));
            vals.push(format!("{neg}AA{s}@"));
            if neg.is_empty() {
                vals.push(s); // unterminated
            }
        }
        for n in 0..22 {
            vals.push(format!("{neg}{}@", "P".repeat(n)));
            vals.push(format!("{neg}B{}@", "A".repeat(n)));
            vals.push(format!("{neg}B{}B@", "A".repeat(n)));
        }
    }
    vals.extend(["", "??0", "??A@", "Q@", "BQ@", "b@", "?", "@", "?@", "1@", "B1@", "-1", "?9", "/@", ":", "BA"].map(String::from));
    let n = vals.len() as u64;
    let c = NUMBER_CTX.len() as u64;
    let hex: Vec<String> = ('A'..='P').map(String::from).collect();
    let frames: Vec<(&str, &str)> = NUMBER_CTX.to_vec();
    let mut e = vec![of("positions x values", n * c, move |i| {
        let (a, b) = NUMBER_CTX[(i % c) as usize];
        format!("{a}{}{b}", vals[(i / c) as usize])
    })];
    e.push(of("all three-digit numbers", 16 * 16 * 16 * c, move |i| {
        let (a, b) = NUMBER_CTX[(i % c) as usize];
        let k = (i / c) as usize;
        format!("{a}{}{}{}@{b}", hex[k / 256], hex[k / 16 % 16], hex[k % 16])
    }));
    e.push(seqs("number syntax", &frames, &["?", "0", "9", "A", "B", "P", "Q", "@", "a"], 4));
    e
}

pub fn identifiers() -> Vec<Enum> {
    let ch = |i: u64| char::from_u32(if i < 0xd800 { i as u32 } else { i as u32 + 0x800 }).unwrap();
    const N: u64 = 0x110000 - 0x800;
    vec![
        of("every scalar value as a name", N, move |i| format!("?{}@@3PAHA", ch(i))),
        of("every scalar value after a letter", N, move |i| format!("?x{}@n@@YA?AUs{}@@PAU1@@Z", ch(i), ch(i))),
        of("every scalar value in a namespace", N, move |i| format!("?x@a{}b@@QBEXXZ", ch(i))),
        of("every scalar value in a template", N, move |i| format!("??$t{}@Ua{}@@@@YAXV?$u{}@H@@@Z", ch(i), ch(i), ch(i))),
        of("lengths", 3 * 1200, |i| {
            let n = (i / 3) as usize;
            let n = if n > 1100 { (n - 1100) * 400 } else { n };
            match i % 3 {
                0 => format!("?{}@@3HA", "n".repeat(n)),
                1 => format!("?f@{}@@YAXU{}x@@PAU0@@Z", "é".repeat(n / 2), "z".repeat(n)),
                _ => format!("?x@?$t@U{}@@@@3HA", "w".repeat(n)),
            }
        }),
        cat("digits and punctuation", vec![v(&["?", "?f@", "?x@@3U", "?x@?$", "??__K", "??_7"]), chars(0x20, 0x7e), chars(0x20, 0x7e), v(&["@@3HA", "@@A", "@H@@3HA", "@YAXXZ", "@@6B@"])]),
    ]
}

/// what a symbol becomes if it's cut short or slightly damaged
pub fn damage(corpus: &'static [&'static str]) -> Vec<Enum> {
    const ALPHA: &str = "@?$_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZaxz.é <";
    let alpha: Vec<char> = ALPHA.chars().collect();
    let lens: Vec<usize> = corpus.iter().map(|s| s.chars().count()).collect();
    let mut at = vec![];
    for (i, &n) in lens.iter().enumerate() {
        if n <= 400 {
            for j in 0..n {
                at.push((i as u32, j as u32));
            }
        }
    }
    let n = at.len() as u64;
    let at = Arc::new(at);
    let (a1, a2, a3, a4) = (at.clone(), at.clone(), at.clone(), at);
    let (b1, b2) = (alpha.clone(), alpha.clone());
    let k = alpha.len() as u64;
    let edit = move |i: u32, j: u32, del: usize, ins: Option<char>| -> String {
        let mut c: Vec<char> = corpus[i as usize].chars().collect();
        let j = j as usize;
        c.splice(j..(j + del).min(c.len()), ins);
        c.into_iter().collect()
    };
    vec![
        of("corpus", corpus.len() as u64, move |i| corpus[i as usize].to_string()),
        of("every prefix", n, move |i| {
            let (i, j) = a1[i as usize];
            corpus[i as usize].chars().take(j as usize).collect()
        }),
        of("every deletion", n, move |i| edit(a2[i as usize].0, a2[i as usize].1, 1, None)),
        of("every substitution", n * k, move |i| {
            let (a, b) = a3[(i / k) as usize];
            edit(a, b, 1, Some(b1[(i % k) as usize]))
        }),
        of("every insertion", n * k, move |i| {
            let (a, b) = a4[(i / k) as usize];
            edit(a, b, 0, Some(b2[(i % k) as usize]))
        }),
    ]
}

/// well-formed symbols of growing size
pub fn growth(max: u64) -> Vec<Enum> {
    let fam = FAMILIES.len() as u64;
    vec![of("growing symbols", fam * max, move |i| family((i % fam) as usize, (i / fam) as usize))]
}

/// many siblings, and after them something deep: whatever a sibling leaves behind adds up
pub fn siblings() -> Vec<Enum> {
    const DEEP: &[(&str, &str, &str)] = &[
        ("PA", "H", ""), ("P6A", "X", "XZ"), ("U?$t@", "H", "@@"), ("P6AX", "H", "@Z"), ("PQc@@", "H", ""), ("PAY01", "H", ""),
        ("V?$t@$1?x@@3", "H", "A@@"), ("V?$t@$1?f@@YAX", "H", "@Z@@"), ("U?$t@PA", "H", "@@"),
    ];
    const ARGS: &[&str] = &[
        "$1?y@@3HA", "$1?f@@YAXXZ", "$1?x@?1??f@@YAXXZ@4HA", "$1?y@n@@2PEAHEA", "$1??_7c@@6B@", "$1?f@c@@QEAAXXZ", "$H?f@@YAXXZ0", "U?$t@H@@", "U?$t@$1?y@@3HA@@",
        "P6AXXZ", "$$A6AXXZ", "P8c@@AEXXZ", "$$BY01H", "PAY01H", "$$CBH", "PQc@@H", "$0A@", "$$V", "$E?y@@3HA", "H", "W4?$t@H@@", "$1??$f@H@@YAXXZ", "$1??Ba@@QEAAHXZ",
        "$1??__Ey@@YAXXZ", "U?$t@U?$t@H@@@@", "P6AXP6AXXZ@Z", "$$Y?$t@H@@",
    ];
    const PARAMS: &[&str] = &[
        "PAH", "AEBH", "$$QEAH", "U?$t@H@@", "P6AXXZ", "P8c@@AEXXZ", "PQc@@H", "PAY01H", "W4?$t@H@@", "P6AXP6AXXZ@Z", "U?$t@$1?y@@3HA@@", "PEIFBH",
        "Un@?1??f@@YAXXZ@", "Un@?$t@H@@", "UA@?A0x1@@", "0", "H", "_N", "P6A_NHZZ", "$$T", "Un@?1??f@@YAU?$t@H@@XZ@", "?BUn@@",
    ];
    const SCOPES: &[&str] = &["n@", "?$t@H@", "?1??f@@YAXXZ@", "?A0x1@", "?$t@$1?y@@3HA@", "0", "?1@", "?$t@U?$t@H@@@", "?1??f@?1??g@@YAXXZ@QEAAXXZ@"];
    let make = |name: &'static str, sib: &'static [&'static str], pre: &'static str, mid: &'static str, post: &'static str| {
        let k = sib.len() as u64;
        let d = DEEP.len() as u64;
        of(name, k * d * 5 * 340, move |i| {
            let (s, i) = (sib[(i % k) as usize], i / k);
            let (t, i) = (DEEP[(i % d) as usize], i / d);
            // neither in the order of size, so that every run sees all of them
            let depth = [0usize, 126, 60, 120, 20][(i % 5) as usize];
            let n = (i / 5 * 127 % 340) as usize;
            // two levels for each round of these
            let depth = if t.0.contains('?') { depth / 2 } else { depth };
            format!("{pre}{}{mid}{}{}{}{post}", s.repeat(n), t.0.repeat(depth), t.1, t.2.repeat(depth))
        })
    };
    vec![
        make("siblings among arguments", ARGS, "??$f@", "", "@@YAXXZ"),
        make("siblings among parameters", PARAMS, "?f@@YAX", "", "@Z"),
        make("siblings among scopes", SCOPES, "?x@", "@3", "A"),
    ]
}

pub const FAMILIES: &[&str] = &[
    "parameters", "pointer parameters", "distinct tags", "scopes", "distinct scopes", "template arguments",
    "integer arguments", "pointers", "references to pointers", "nested templates", "sibling templates", "long name",
    "array dimensions", "function pointers", "results", "member pointers", "string", "wide string", "local scopes",
    "symbol arguments", "parameter references", "name references", "variadic mix", "operators", "typeinfo", "rtti",
    "doubling templates", "packs",
];

/// The `n`th member of a family. Mostly well-formed.
pub fn family(k: usize, n: usize) -> String {
    let r = |s: &str| s.repeat(n);
    match FAMILIES[k] {
        "parameters" => format!("?f@@YAX{}@Z", r("H")),
        "pointer parameters" => format!("?f@@YAX{}@Z", r("PAD")),
        "distinct tags" => format!("?f@@YAX{}@Z", (0..n).map(|i| format!("Us{i}@@")).collect::<String>()),
        "scopes" => format!("?x@{}@3HA", r("n@")),
        "distinct scopes" => format!("?x@{}@3HA", (0..n).map(|i| format!("n{i}@")).collect::<String>()),
        "template arguments" => format!("?x@?$t@{}@@3HA", r("H")),
        "integer arguments" => format!("??$f@{}@@YAXXZ", r("$0BA@")),
        "pointers" => format!("?x@@3{}HA", r("PA")),
        "references to pointers" => format!("?f@@YAX{}H@Z", r("AEBQEA")),
        "nested templates" => format!("?x@@3{}H{}A", r("U?$t@"), r("@@")),
        "sibling templates" => format!("?x@{}@3HA", (0..n).map(|i| format!("?$t@$0{}@", crate::enums::num(i as u64))).collect::<String>()),
        "long name" => format!("?{}@@3HA", r("abcdefgh")),
        "array dimensions" => format!("?x@@3PAY{}{}HA", num(n as u64), r("1")),
        "function pointers" => format!("?f@@YAX{}X{}@Z", r("P6AX"), if n == 0 { "H".into() } else { format!("Z{}", "@Z".repeat(n - 1)) }),
        "results" => format!("?f@@YA{}XXZ{}", r("P6A"), r("XZ")),
        "member pointers" => format!("?f@@YAX{}H@Z", r("PQc@@")),
        "string" => format!("??_C@_0{}A@{}?$AA@", num(n as u64 + 1), r("a")),
        "wide string" => format!("??_C@_1{}A@{}?$AA?$AA@", num(2 * n as u64 + 2), r("?$AAa")),
        "local scopes" => format!("?x@{}{}4HA", r("?1??f@"), r("@YAXXZ@")),
        "symbol arguments" => format!("?x@?$t@{}@@3HA", r("$1?y@@3HA")),
        "parameter references" => format!("?f@@YAXPAH{}@Z", r("0")),
        "name references" => format!("?x@n@{}@3HA", r("1")),
        "variadic mix" => format!("?f@@YAX{}ZZ", r("P6AXHZZ")),
        "operators" => format!("??$?H{}@c@@QAEHXZ", r("H")),
        "typeinfo" => format!(".?A{}H", r("PEA")),
        "rtti" => format!("??_R0{}H@8", r("PEA")),
        "doubling templates" => {
            let mut s = "?f@@YAXU?$t@H@@".to_string();
            for i in 1..=n.min(9) {
                s += &format!("U?$t{i}@U{}@U{}@@@", 0, 0);
            }
            s + "@Z"
        }
        "packs" => format!("??$f@{}@@YAXXZ", r("$$V")),
        _ => unreachable!(),
    }
}

pub fn num(n: u64) -> String {
    let mut r = Rng::new(0);
    let mut g = Gen::new(&mut r, Default::default());
    g.number_of(n, false);
    g.take()
}

/// words which C++ or the mangling could give a meaning to
const WORDS: &[&str] = &[
    "operator", "const", "volatile", "struct", "class", "union", "enum", "void", "int", "this", "std", "std::string",
    "`anonymous namespace'", "`anonymous-namespace'", "template", "typename", "__cdecl", "__restrict", "noexcept",
    "virtual", "static", "public:", "extern \"C\"", "unsigned", "signed", "~A", "A::B", "a b", " a", "a ", "<", ">",
    "a<b>", "->", "()", "[]", "&", "*", "`", "'", "\"", "\\", "{", "}", "{}", "{0}", "%s", "\0", "\n", "\t", "\r", "\u{feff}",
    "$", "_", "__", "a$b", "_1", "A0x", "A0x12345678", "<lambda_0>", "<lambda_1_>", "lambda", "main", "null", "nullptr",
    "auto", "decltype(auto)", "?", ".", "-", "8", "a8", "Z", "YAXXZ", "3HA", "\u{301}", "\u{200d}", "\u{202e}",
];

fn words() -> Vec<String> {
    let mut w: Vec<String> = WORDS.iter().map(|s| s.to_string()).collect();
    w.extend(dict::get().strings.iter().cloned());
    w
}

/// words in every position, and sizes which the code mentions
pub fn literals() -> Vec<Enum> {
    let mut ints: Vec<u64> = vec![];
    for &n in &dict::get().ints {
        for d in [n.saturating_sub(1), n, n.saturating_add(1)] {
            ints.push(d);
        }
    }
    ints.sort_unstable();
    ints.dedup();
    let sizes: Vec<u64> = ints.iter().copied().filter(|&n| n > 8 && n <= 1100).collect();
    let fam = FAMILIES.len() as u64;
    let big = Arc::new(ints);
    let (nb, nc) = (big.len() as u64, NUMBER_CTX.len() as u64);
    vec![
        cat("words as names", vec![
            v(&["?", "?f@", "?f@n@", "?x@@3U", "?f@@YAXPAV", "?f@@YA?AW4", "?f@@YAXT", "??$", "??0", "??_7", "?x@?$", "??__K", "??__E", ".?AU", "?x@?1??", "??_C@_03A@", "?f@@YAXH?", "?a", "?x@@3Ua"]),
            words(),
            v(&["b@@3HA", "b@@YAXXZ", "@@3HA", "@@YAXXZ", "@@Z", "@@A", "@H@@YAXXZ", "@n@@QAE@XZ", "@@6B@", "@@", "@@YAXXZ@4HA", "@@YAXXZ@@YAXXZ", "?$AA@", "@@@Z"]),
        ]),
        cat("words as text", vec![v(&["", "?", "??", "?x@@3", "?f@@", "?f@@YA", "?f@@YAX", "?f@@YAXH", "?x@?$t@", "??_", "?f@@YAXXZ"]), words(), v(&["", "@", "A", "Z", "@Z", "XZ", "@@3HA", "@@YAXXZ"])]),
        of("sizes which the code mentions", fam * sizes.len() as u64, move |i| family((i % fam) as usize, sizes[(i / fam) as usize] as usize)),
        of("numbers which the code mentions", nb * nc * 2, move |i| {
            let (a, b) = NUMBER_CTX[(i / 2 % nc) as usize];
            let n = num(big[(i / 2 / nc) as usize]);
            format!("{a}{}{n}{b}", if i % 2 == 1 { "?" } else { "" })
        }),
    ]
}

const NESTERS: &[(&str, &str)] = &[
    ("P6A", "XZ"), ("P6AX", "@Z"), ("PA", ""), ("U?$t@", "@@"), ("?$t@", "@"), ("?$t@U", "@@"), ("V?$t@$1?x@", "@3HA@@"),
    ("?1??f@", "@YAXXZ@"), ("?1?", "@4HA"), ("$1?f@@YAX", "@Z"), ("$1?x@@3", "A"), ("$$A6A", "XZ"), ("P8c@@AE", "XZ"),
    ("P8?$t@", "@@@AEXXZ"), ("PQ?$t@", "@@@H"), ("$$BY00", ""), ("Y00", ""), ("PAY00", ""), ("$$Q", ""), ("AEA", ""),
    ("?A", ""), ("?A?B", ""), ("??__E", "@@YAXXZ"), ("??__E?", "3HA@@YAXXZ"), ("$$C", ""), ("$$CA", ""), ("$M", ""), ("$$Y", "@"),
    ("?$?B", "H@"), ("??_C@_0", "@"), ("?0", ""), ("?B?", "@"), (".", ""), ("P", ""), ("?", ""), ("@", ""), ("$", ""), ("1", ""),
    ("$H?f@@YAXU", "@@@Z0"), ("W4?$t@", "@@"), ("??_R0", "@8"), ("??_7", "@6B@"), ("??@", "@"), ("?$1", ""), ("?$0", "@"),
    ("$F0", ""), ("$S", ""), ("$$V", ""), ("_", ""), ("?x@", "@3HA"), ("a@", ""), ("H", ""), ("\u{e9}", ""), ("PEIFB", ""), ("0", ""), ("QAY", ""),
    ("A", ""), ("PPPPPPPP", ""), ("?$AA", ""), ("??_9", "$BA@AA"), ("?A?A", "@@"), ("R", ""), ("S6AP6A", "XZXZ"),
];
const LEADS: &[&str] = &[
    "?x@@3", "?f@@YAX", "?f@@YA", "?x@", "?", "", "??", "??$f@", ".", "??_R0", "??__E", "??__F", "??_7", "?x@?$t@", "?f@@YAXU?$t@", "??B", "?x@?1??",
    "??_C@_0", "??_C@_1", "?x@@3PAY", "??@", "??_9", "?f@a@@$4", "??_R1", "?x@?A", "??_B",
];

/// shapes which nest, repeat or grow without end, complete or not
static UNOPTIMISED: std::sync::LazyLock<bool> =
    std::sync::LazyLock::new(|| std::env::current_exe().is_ok_and(|x| x.components().any(|c| c.as_os_str() == "debug")));

pub fn hostile() -> Vec<Enum> {
    let depths: &[usize] = &[1, 2, 5, 40, 100, 126, 130, 200, 254, 255, 256, 257, 258, 300, 700, 2000, 6000, 30_000];
    let (nn, nl, nd) = (NESTERS.len() as u64, LEADS.len() as u64, depths.len() as u64);
    let tails = ["", "H", "X", "@", "x@@3HA", "Us@@"];
    let build = move |lead: &str, a: &[(&str, &str)], d: usize, tail: &str, close: bool| {
        let mut s = lead.to_string();
        for k in 0..d {
            s += a[k % a.len()].0;
        }
        s += tail;
        if close {
            for k in (0..d).rev() {
                s += a[k % a.len()].1;
            }
            s += match lead {
                "?x@@3" => "A",
                "?f@@YAX" => "@Z",
                "?f@@YA" => "XZ",
                "??$f@" => "@@YAXXZ",
                "?x@" | "?x@?$t@" => "@@3HA",
                _ => "@",
            };
        }
        s
    };
    vec![
        of("repeated openers", nn * nl * nd * 6 * 2, move |i| {
            let (close, i) = (i % 2 == 1, i / 2);
            let (tail, i) = (tails[(i % 6) as usize], i / 6);
            let (lead, i) = (LEADS[(i % nl) as usize], i / nl);
            let (n, i) = (NESTERS[(i % nn) as usize], i / nn);
            build(lead, &[n], depths[(i % nd) as usize], tail, close)
        }),
        of("mixed openers", 4_000_000, move |i| {
            let mut r = Rng::new(i ^ 0x5eed);
            let k = r.range(2, 5);
            let a: Vec<(&str, &str)> = (0..k).map(|_| *r.pick(NESTERS)).collect();
            let d = *r.pick(depths);
            let d = if r.pct(50) { d } else { r.range(1, 600) };
            let (lead, tail, close) = (*r.pick(LEADS), *r.pick(&tails), r.pct(60));
            build(lead, &a, d, tail, close)
        }),
        // each parameter refers to the one before from its innermost level: the text nests
        // far deeper than the symbol itself
        of("chained parameters", 4_000_000, move |i| {
            const WRAPS: &[(&str, &str)] = &[
                ("PA", ""), ("PEIFD", ""), ("AEB", ""), ("$$QEA", ""), ("PAY01", ""), ("P6A", "XZ"), ("P8c@@AE", "HZ"), ("PQc@@", ""), ("P6AP6A", "XZXZ"),
                ("Q6G?A", "XZ"), ("PAY01$$CB", ""), ("P6AX", "@Z"), ("P6AH", "ZZ"), ("P6APA", "H@Z"), ("$$A6A", "XZ"), ("SEIFT1@", ""),
            ];
            const LEAVES: &[(&str, &str)] = &[("P6AX", "@Z"), ("P6A_NH", "ZZ"), ("P8c@@AEX", "@Z"), ("P6AXHH", "H@_E"), ("A6GHPAH", "@Z")];
            const OUTER: &[(&str, &str)] = &[
                ("?f@@YAX", "@Z"), ("?x@@3P6AX", "@ZA"), (".P6AX", "@Z"), ("??$f@P6AX", "@Z@@YAXXZ"), ("?x@?1??f@@YAX", "@Z@4HA"),
                ("?x@?$t@$1?f@@YAX", "@Z@@3HA"), ("??B?$t@P6AX", "@Z@@QEAAHXZ"), ("?f@@YAP6AX", "@ZXZ"),
            ];
            let mut r = Rng::new(i ^ 0xc4a1);
            let k = r.range(1, 4);
            let a: Vec<(&str, &str)> = (0..k).map(|_| *r.pick(WRAPS)).collect();
            let (leaf, outer) = (*r.pick(LEAVES), *r.pick(OUTER));
            let d = *r.pick(&[2usize, 20, 60, 120, 160, 199, 240, 252]);
            // without optimisation the full depth takes most of an ordinary stack: leave room there
            // for changes which don't matter
            let count = if *UNOPTIMISED { r.range(2, 12).min(1000 / d + 1) } else { r.range(2, 12) };
            let mut s = outer.0.to_string();
            for n in 0..count {
                let w: Vec<(&str, &str)> = (0..d).map(|j| a[j % a.len()]).collect();
                w.iter().for_each(|x| s += x.0);
                s += leaf.0;
                // the table counts inner parameters first
                s += &if n == 0 { "H".to_string() } else { ((n - 1).min(9) * if r.pct(80) { 1 } else { r.range(0, 2) }).min(9).to_string() };
                s += leaf.1;
                w.iter().rev().for_each(|x| s += x.1);
            }
            s + outer.1
        }),
        of("noise", 4_000_000, move |i| {
            let mut r = Rng::new(i ^ 0x0015e);
            let n = r.range(0, 60);
            let lead = r.pick(LEADS).to_string();
            match r.below(3) {
                0 => lead + &(0..n).filter_map(|_| char::from_u32(r.below(0x11_0000) as u32)).collect::<String>(),
                1 => (0..n).map(|_| r.range(0x20, 0x7f) as u8 as char).collect(),
                _ => lead + &(0..n).map(|_| *r.pick(b"?@$_0123489ABCEHPQUVXYZa") as char).collect::<String>(),
            }
        }),
        of("long runs", nl * 40 * 6, move |i| {
            let (lead, i) = (LEADS[(i % nl) as usize], i / nl);
            let t = ["a", "@", "?", "a@", "0", "A", "P", "H", "\u{1f600}", "?$AA", "$$V", "PA", "Y", "E", "a@0", "U0@", "$0A@", "?A@", "??", "?0?", "8", "_", "$", "Z",
                "B", "I", "F", "X", "Q", "R", "S", "T", "$M", "1", "9", "?1?", "U", "W4", "_0", "\0"][(i % 40) as usize];
            let n = [1000usize, 5000, 20_000, 60_000, 200, 9000][(i / 40) as usize];
            format!("{lead}{}", t.repeat(n))
        }),
    ]
}

/// names within names, each of which repeats a large text, and inputs of some megabytes
pub fn large() -> Vec<Enum> {
    const LEADS: &[(&str, &str)] = &[
        ("?f@@YAX", "@Z"), ("?x@@3", "A"), (".", ""), ("??$f@", "@@YAXXZ"), ("??_R0", "@8"), ("?f@@YA", "XZ"), ("?x@?$o@", "@@3HA"),
    ];
    const WRAPS: &[(&str, &str)] = &[
        ("U?$t@", "@@"), ("V?$t@H", "PAH@@"), ("PAU?$t@", "@@"), ("W4?$t@", "@@"), ("U?$t@P6AX", "@Z@@"), ("Un@?$t@", "@@"),
        ("U?$t@$1?x@@3", "A@@"), ("Un@?1??f@@YAX", "@Z@@"), ("P8?$t@H@@AEX", "XZ"), ("Ua@?1??$g@", "@@YAXXZ@@"), ("U?$a@U?$b@", "@@@@"), ("$$BY0BA@U?$t@", "@@"),
    ];
    let (nl, nw) = (LEADS.len() as u64, WRAPS.len() as u64);
    let function = |levels: usize, width: usize, seed: &str| {
        let mut s = format!("P6AX{seed}");
        for k in 0..levels {
            s += &format!("P6AX{}@Z", k.to_string().repeat(width));
        }
        s + "@Z"
    };
    let seed = move |i: u64| match i {
        0 => function(6, 6, "PAH"),
        1 => function(5, 7, "PAUabcdefgh@@"),
        2 => function(3, 27, "PAH"),
        3 => function(7, 5, "PEIFDPEIFDU?$q@$0?HPPPPPPP@@@@@"),
        4 => format!("U{}@@", "n".repeat(900_000)),
        5 => format!("U{}@@", "\u{4e2d}".repeat(60_000)),
        6 => function(6, 7, "PAH"),
        _ => function(4, 10, "PAH"),
    };
    let depths = [1usize, 8, 30, 60, 90, 120, 126];
    let big = |i: u64| -> String {
        let n = [70_000usize, 300_000, 1_000_000, 2_000_000][(i % 4) as usize];
        let t = ["a", "@", "?", "a@", "0", "A", "P", "H", "\u{1f600}", "?$AA", "$$V", "_", "?0?", "\0", "Z", "X", "?1", "PA", "Uabc@@", "$0A@"][(i / 4 % 20) as usize];
        let (a, b) = [
            ("", ""), ("?", "@@3HA"), ("?f@@YAX", "@Z"), ("?x@", "@3HA"), ("??_C@_0A@A@", "@"), ("??_C@_0PPPPPPPP@A@", "@"), ("?x@@3HA", ""), ("??@", "@"),
            ("?x@?A0x", "@@3HA"), ("?f@@YAX?", "@@Z"), (".?AU", "@@"), ("?x@?$t@", "@@3HA"), ("?x@?1?", "?f@@YAXXZ@4HA"), ("?x@@3PAY", "HA"), ("??_C@_1A@", "@a@"),
            ("??__K", "@@YAXXZ"), ("?f@@YAXXZ", ""), ("??_7a@@6B", "@"), ("?x@?$t@$0", "@@@3HA"),
        ][(i / 80) as usize];
        format!("{a}{}{b}", t.repeat(n / t.len()))
    };
    vec![
        of("names which repeat large names", nl * nw * 8 * 7, move |i| {
            let (lead, i) = (LEADS[(i % nl) as usize], i / nl);
            let (wrap, i) = (WRAPS[(i % nw) as usize], i / nw);
            let (text, d) = (seed(i % 8), depths[(i / 8) as usize]);
            format!("{}{}{text}{}{}", lead.0, wrap.0.repeat(d), wrap.1.repeat(d), lead.1)
        }),
        of("one after the other", nl * 8 * 5, move |i| {
            let (lead, i) = (LEADS[(i % nl) as usize], i / nl);
            let (text, n) = (seed(i % 8), [2usize, 8, 20, 50, 120][(i / 8) as usize]);
            let n = if text.len() > 10_000 { n.min(8) } else { n };
            format!("{}{}{}", lead.0, (0..n).map(|k| format!("U?$t{k}@{text}@@")).collect::<String>(), lead.1)
        }),
        of("megabytes", 19 * 80, big),
        of("many pieces and a long tail", PIECES.len() as u64 * 4 * 9 * 3, |i| {
            let k = PIECES.len() as u64;
            let (p, i) = (PIECES[(i % k) as usize], i / k);
            let (t, i) = (["?", "a", "", "@", "0", "A", "Z", "$", "\u{e9}"][(i % 9) as usize], i / 9);
            let n = [1000usize, 90_000, 330, 1_000_000][(i % 4) as usize];
            let tail = t.repeat(4_000_000 / t.len().max(1));
            let pieces = p.1.repeat(n.min(6_000_000 / p.1.len()));
            match i / 4 {
                // text after the symbol, or in its midst, or no end at all
                0 => format!("{}{pieces}{}{tail}", p.0, p.2),
                1 => format!("{}{pieces}U{tail}@@{}", p.0, p.2),
                _ => format!("{}{pieces}{tail}", p.0),
            }
        }),
    ]
}

/// what can be said over and over again: the second half takes no room in the tree
const PIECES: &[(&str, &str, &str)] = &[
    ("?x@", "?b@", "@3HA"), ("?x@", "b@", "@3HA"), ("?x@", "?$t@H@", "@3HA"), ("?x@", "?A0x@", "@3HA"), ("?f@@YAX", "PAH", "@Z"), ("?f@@YAX", "H", "@Z"),
    ("?f@@YAX", "?b@@", "@Z"), ("?f@@YAX", "U?b@@", "@Z"), ("?f@@YAX", "U?b@?c@@", "@Z"), ("??$f@", "$0A@", "@@YAXXZ"), ("?x@?$t@", "$1?y@@3HA", "@@3HA"),
    ("?x@?$t@", "$E?y@?c@@3HA", "@@3HA"), ("?x@@3PAY", "1", "HA"), ("?x@", "?1??f@@YAXXZ@", "@3HA"),
    ("?f@@YAXPAH", "0", "@Z"), ("?f@?n@@YAX", "U1@", "@Z"), ("?x@?n@", "1", "@3HA"), ("?x@?$t@", "$$V", "@@3HA"), ("??_C@_1PPPPPPP@A@", "?$AAa", "@"),
    ("??_C@_1PPPPPPP@A@", "?0?1", "@"), ("??_C@_0PPPPPPP@A@", "a", "@"), ("?x@@3PAY", "A", "@HA"), ("?x@?", "B", "@??f@@YAXXZ@3HA"),
];

/// a name so long that a text can have it once or twice, and many places which render it on the way
pub fn renderings() -> Vec<Enum> {
    const LEN: &[usize] = &[1_000_000, 300, 500_000, 20_000, 260_000, 1_040_000, 130_000, 3000];
    const COUNT: &[usize] = &[190, 16, 128, 1, 250, 64, 330];
    const SITES: &[(&str, &str)] = &[
        ("Us@?1??g@@YAX", "@Z@@"), ("U?$t@", "@@"), ("P6AX", "@Z"), ("U?$t@$1?y@?1??f@@YAX", "@Z@3HA@@"), ("U?$t@Us@?1??g@@YAX", "@Z@@@@"), ("U?$t@$1?g@@YAX", "@Z@@"),
        ("U?$t@$1??$g@", "@@YAXXZ@@"), ("Us@?1???$g@", "@@YAXXZ@@"), ("U?$t@U?$u@", "@@@@"), ("Us@?1??g@@YAP6AX", "@ZXZ@@"),
    ];
    let (nl, nc, ns) = (LEN.len() as u64, COUNT.len() as u64, SITES.len() as u64);
    vec![of("renderings of a long name", nl * nc * ns * 3 * 3, move |i| {
        let (site, i) = (SITES[(i % ns) as usize], i / ns);
        let (len, i) = (LEN[(i % nl) as usize], i / nl);
        let (count, i) = (COUNT[(i % nc) as usize], i / nc);
        let (width, form) = (i as usize % 3 + 1, i / 3);
        let name = "n".repeat(len);
        match form {
            // side by side
            0 => format!("?f@{name}@@YAX{}@Z", format!("{}{}{}", site.0, "U1@".repeat(width), site.1).repeat(count)),
            // one in the other
            1 => {
                let count = count.min(240);
                format!("?f@{name}@@YAX{}H{}@Z", format!("{}{}", site.0, "U1@".repeat(width - 1)).repeat(count), site.1.repeat(count))
            }
            // side by side, and new to the tables each
            _ => {
                let each: String = (0..count).map(|k| format!("{}U{k}x@{}{}", site.0, "U1@".repeat(width), site.1)).collect();
                format!("?f@{name}@@YAX{each}@Z")
            }
        }
    })]
}

/// small symbols with large texts, from nothing up to beyond every limit
pub fn amplified() -> Vec<Enum> {
    const SEEDS: &[&str] = &[
        "Us@@", "H", "P6AXHHH@Z", "PQc@@H", "PAY0BA@H", "V?$q@$0PPPPPPPP@@@", "W4e@n@m@@", "_N", "Uabcdefghijklmnop@@", "U\u{e9}\u{e9}\u{e9}\u{e9}@@",
        "P8c@@AEXXZ", "?cust@@", "U?A0x1@@", "U?$q@$1?x@y@@3HA@@", "$$QEIFDH", "U?$q@$1??_C@_0BA@A@abcdefghijklmno?$AA@@@", "Uq@?1??f@@YAXXZ@", "PEIFDPEIFDH",
    ];
    let n = SEEDS.len() as u64;
    vec![of("amplified", n * 11 * 7 * 8, move |i| {
        let (seed, i) = (SEEDS[(i % n) as usize], i / n);
        let (levels, i) = (i % 11, i / 11);
        let (width, form) = (i as usize % 7 + 1, i / 7);
        // every level repeats the one before, by name or by parameter
        let mut s = String::new();
        match form {
            0 | 1 => {
                s += "?f@@YAX";
                s += &format!("U?$t@{seed}@@");
                for k in 1..=levels {
                    s += &format!("U?$t{k}@{}@@", format!("U{}@", k).repeat(width));
                }
                s += if form == 0 { "@Z" } else { "ZZ" };
            }
            2 => {
                s += "?f@@YAX";
                s += &format!("P6AX{}@Z", if seed.len() > 1 { seed.to_string() } else { "PAH".into() });
                for k in 0..levels.min(9) {
                    s += &format!("P6AX{}@Z", ((b'0' + k as u8) as char).to_string().repeat(width));
                }
                s += "@Z";
            }
            3 => {
                // numbered from zero: the names are those of the templates
                s += &format!("?x@?$t@{seed}@");
                for k in 0..levels {
                    s += &format!("?$t{k}@{}@", format!("U{}@", k).repeat(width));
                }
                s += "@3HA";
            }
            4 => {
                s += &format!("??_7?$t@{seed}@");
                for k in 0..levels {
                    s += &format!("?$t{k}@{}@", format!("V{}@", k).repeat(width));
                }
                s += "@6B@";
            }
            5 => {
                s += &format!(".P6AXU?$t@{seed}@@");
                for k in 1..=levels {
                    s += &format!("U?$t{k}@{}@@", format!("U{}@", k).repeat(width));
                }
                s += "@Z";
            }
            6 => {
                s += &format!("??$f@U?$t@{seed}@@@@YAXU?$t@{seed}@@");
                for k in 1..=levels {
                    s += &format!("U?$t{k}@{}@@", format!("U{}@", k).repeat(width));
                }
                s += "@Z";
            }
            _ => {
                let name = "n".repeat(1 << (levels * 2).min(18));
                s += &format!("?f@{name}@@YAX{}{seed}@Z", "U1@".repeat(width * width * 8));
            }
        }
        s
    })]
}
