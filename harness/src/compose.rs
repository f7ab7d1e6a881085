//! A part of a symbol is printed the same wherever it stands.
//!
//! The input says what the part is: `??_R0`*type*`@8`, `?QYQ@`*scopes*`@3HA`, or else a symbol. It's put in all the places
//! such a part may have, and so is a marker; where the marker's text is in the marker's symbol, the part's is to be in the part's. Which places a part may
//! have is all that's asked of the model.

use crate::{
    enums::{self, Enum},
    gen::{Gen, Profile},
    judge::{self, Env, Out, Verdict, Violation},
    model::{self, Feats, F},
    rng::Rng,
    shm::S,
    worker::W,
};
use std::sync::OnceLock;

/// where a type may stand by itself
const TYPES: &[&str] = &[
    "?QYQ@?$QXQ@{}@@3HA",
    "?QYQ@?$QXQ@D{}M@@3HA",
    "?QYQ@?$QXQ@$00{}@@3HA",
    "?QYQ@?$QXQ@U?$QWQ@D{}@@@@3HA",
    "??$QYQ@{}@@YAXXZ",
    "??$QYQ@{}@QXQ@@QAEXH@Z",
    "??R?$QXQ@{}$0A@@QWQ@@UBE_NH@Z",
    "?QYQ@@YAX{}@Z",
    "?QYQ@@YAXD{}M@Z",
    "?QYQ@@YAX{}ZZ",
    "?QYQ@QXQ@@UBE_NH{}@Z",
    "?QYQ@@3P6AX{}@ZA",
    "?QYQ@@3P8QXQ@@AEXH{}@ZQQXQ@@",
    "?QYQ@@YAXP6AH{}D@ZM@Z",
    "?QYQ@@3PAY02P6GX{}@ZA",
    "?QYQ@?$QXQ@$$A6AX{}@Z@@3HA",
    "?QYQ@?$QXQ@$1?QWQ@@YAX{}@Z@@3HA",
    "?QYQ@?1??QXQ@@YAX{}@Z@4HA",
    "??__FQYQ@?$QXQ@{}@@YAXXZ",
    "??_7?$QXQ@{}@@6BQWQ@@",
    "??_7QWQ@@6B?$QXQ@{}@@",
    "?QYQ@@YAXP8?$QXQ@{}@@AEXXZ@Z",
    "?QYQ@@YAXPQ?$QXQ@{}@@H@Z",
    "??_R3?$QXQ@{}@@8",
];

/// where a type may stand around something it's the type of
const DECLARED: &[&str] = &[
    "?QYQ@@3{}A",
    "?QYQ@@2{}A",
    "?QYQ@QXQ@@0{}A",
    "?QYQ@@3{}QQXQ@@",
    "?QYQ@@3PA{}A",
    "?QYQ@@3QEA{}EA",
    "?QYQ@@3AA{}A",
    "?QYQ@@3$$QA{}A",
    "?QYQ@@3PIA{}A",
    "?QYQ@@3PAPA{}A",
    "?QYQ@@3PAY02{}A",
    "?QYQ@@3PAPAY12BA@{}A",
    "?QYQ@@3P6A{}XZA",
    "?QYQ@@3P6G{}H@ZA",
    "?QYQ@@3PAP6A{}P6AXXZ@ZA",
    "?QYQ@@3P8QXQ@@AE{}XZQQXQ@@",
    "?QYQ@@3P8QXQ@@EBE{}H@ZEQQXQ@@",
    "?QYQ@@3PQQXQ@@{}QQXQ@@",
    "?QYQ@@YA{}XZ",
    "?QYQ@@YA{}HZZ",
    "?QYQ@@YAPA{}H@Z",
    "?QYQ@@YAP6A{}D@ZH@Z",
    "?QYQ@QXQ@@UBE{}H@Z",
    "??HQYQ@@SA{}UQWQ@@H@Z",
    "??$QYQ@H@@YG{}XZ",
];

/// where a type is said twice, once around the other
const CONVERSIONS: &[&str] = &["??BQYQ@@QAE{}XZ", "??BQYQ@QXQ@@UBE{}XZ", "??B?$QYQ@H@@QAE{}XZ", "??$?BH@QYQ@@QAE{}XZ", "??$?B$00@QYQ@QXQ@@SA{}XZ"];

/// where a class, with what it's in, may stand
const SCOPES: &[&str] = &[
    "?QYQ@{}@3HA",
    "?QYQ@QXQ@{}@2HB",
    "?QYQ@{}@YAXXZ",
    "?QYQ@{}@UBEHH@Z",
    "??H{}@QAEXH@Z",
    "??B{}@QAEHXZ",
    "??$QYQ@H@{}@YAXXZ",
    "?QYQ@?$QXQ@H@{}@3HA",
    "?QYQ@?1??QXQ@{}@YAXXZ@4HA",
    "??_B?1??QXQ@{}@YAXXZ@51",
    "??_7{}@6B@",
    "??_7QXQ@@6B{}@",
    "??_7QXQ@{}@6B@",
    "??_R1A@?0A@EA@{}@8",
    "??_R2{}@8",
    "??_R3{}@8",
    "??_R4{}@6B@",
    "??_R4QXQ@@6B{}@",
    "??_R0?AV{}@@8",
    "??_R0PAW4{}@@8",
    ".?AU{}@",
    "??_9{}@$BA@AA",
    "??_E{}@UAEPAXI@Z",
    "??_G{}@$4PPPPPPPM@A@AEPAXI@Z",
    "??__EQYQ@{}@YAXXZ",
    "??__E?QYQ@{}@2HA@@YAXXZ",
    "?QYQ@@3U{}@A",
    "?QYQ@@3PAT{}@A",
    "?QYQ@@YAXW4{}@@Z",
    "?QYQ@@YA?AV{}@H@Z",
    "?QYQ@@YAXP8{}@AEXXZ@Z",
    "?QYQ@@YAXPQ{}@H@Z",
    "?QYQ@?$QXQ@V{}@@@3HA",
    "?QYQ@?$QXQ@$1?QWQ@{}@2HA@@3HA",
    "?QYQ@?$QXQ@$H?QWQ@{}@QAEXXZA@@@3HA",
    "??$?HV{}@@@YAXH@Z",
];

/// where a whole symbol may stand
const SYMBOLS: &[&str] = &[
    "?QYQ@?1?{}@4HA",
    "?QYQ@?1?{}@YAXXZ",
    "?QYQ@QXQ@?BA@?{}@4HA",
    "?QYQ@@YAXUQXQ@?1?{}@@Z",
    "??_B?1?{}@51",
    "?QYQ@?$QXQ@$1{}@@3HA",
    "?QYQ@?$QXQ@H$1{}D@@3HA",
    "?QYQ@?$QXQ@$E{}@@3HA",
    "?QYQ@?$QXQ@$H{}A@@@3HA",
    "?QYQ@?$QXQ@$I{}A@BA@@@3HA",
    "??$QYQ@$1{}@@YAXXZ",
    "?QYQ@?1??QXQ@?1?{}@4HA@4HA",
];

/// what a type may be in, at each of its places
const IN_TYPES: &[&str] = &[
    "{}",
    "V?$QVQ@{}@@",
    "PAU?$QVQ@H{}@QUQ@@",
    "P6AX{}@Z",
    "P8QVQ@@AEXD{}@Z",
    "AAY01V?$QVQ@{}@@",
    "Q6GP6AX{}@ZXZ",
    "PQ?$QVQ@{}@@H",
    "PQ?$QVQ@{}@@Y02H",
    "P8?$QVQ@{}@QUQ@@EBE_NXZ",
    "SAP6APAU?$QVQ@{}@@XZ",
];

/// what may be made of a type, at each place where it's declared
const IN_DECLARED: &[&str] = &[
    "{}",
    "PA{}",
    "PB{}",
    "PEC{}",
    "PED{}",
    "QEA{}",
    "RA{}",
    "AA{}",
    "AEB{}",
    "$$QA{}",
    "PFA{}",
    "PIFB{}",
    "PAY02{}",
    "AAY12A@{}",
    "P6A{}XZ",
    "P6G{}H@Z",
    "P8QVQ@@AE{}XZ",
    "P8QVQ@QUQ@@EBE{}PAD_N@Z",
    "PQQVQ@@{}",
    "PRQVQ@QUQ@@{}",
    "PQQVQ@QUQ@@Y01{}",
    "PAP6A{}XZ",
    "P6APA{}XZ",
    "PBPQQVQ@@{}",
];

/// what may be made of a class
const IN_SCOPES: &[&str] = &[
    "V{}@",
    "PAU{}@",
    "W4{}@",
    "AEBT{}@",
    "PQ{}@H",
    "PR{}@PAY02H",
    "PQ{}@Y02H",
    "PAPQ{}@V{}@",
    "P8{}@AEXXZ",
    "P8{}@EBEPAXV?$QVQ@H@@@Z",
    "P6AV{}@XZ",
    "Q8QVQ@@AEXPAU{}@@Z",
    "PAUQVQ@{}@",
    "PAV?$QVQ@H@{}@",
    "U?$QVQ@$1?QUQ@{}@2HB@@",
];

/// what a symbol may be a part of
const IN_SYMBOLS: &[&str] = &["V?$QVQ@$1{}@@", "PAUQVQ@?1?{}@@", "P8QVQ@?BA@?{}@@AEXXZ", "W4QVQ@?$QUQ@$E{}@@"];

fn products(outer: &[&str], inner: &[&str]) -> Vec<String> {
    outer.iter().flat_map(|o| inner.iter().map(|i| o.replace("{}", i))).collect()
}

struct Places {
    types: Vec<String>,
    declared: Vec<String>,
    scopes: Vec<String>,
    symbols: Vec<String>,
}

fn all_places() -> &'static Places {
    static P: OnceLock<Places> = OnceLock::new();
    P.get_or_init(|| {
        let and = |xs: &[&str], inner| xs.iter().map(|x| x.to_string()).chain(products(TYPES, inner)).collect();
        Places { types: products(TYPES, IN_TYPES), declared: products(CONVERSIONS, &["{}"]).into_iter().chain(products(DECLARED, IN_DECLARED)).collect(), scopes: and(SCOPES, IN_SCOPES), symbols: and(SYMBOLS, IN_SYMBOLS) }
    })
}

/// The first of them, which is to say how a part is printed, and either some or all others.
fn some<'a>(all: &'a [String], r: Option<&mut Rng>) -> Vec<&'a String> {
    match r {
        None => all.iter().collect(),
        Some(r) => {
            let first = all.iter().take(1);
            first.chain([&all[r.below(all.len().min(8))]]).chain((0..24).map(|_| &all[r.below(all.len())])).collect()
        }
    }
}

enum Sort {
    Type,
    Scopes,
    Symbol,
}

const DESCRIPTOR: &str = "`RTTI Type Descriptor'";
const TYPE_MARKER: &str = "W4QZQ@@";
const SCOPE_MARKER: &str = "QZQ@";
const SYMBOL_MARKER: &str = "?QZQ@@3HA";

fn part(s: &str) -> (Sort, &str) {
    if let Some(t) = s.strip_prefix("??_R0").and_then(|t| t.strip_suffix("@8")) {
        (Sort::Type, t)
    } else if let Some(t) = s.strip_prefix("?QYQ@").and_then(|t| t.strip_suffix("@3HA")) {
        (Sort::Scopes, t)
    } else {
        (Sort::Symbol, s)
    }
}

/// A symbol which means the same wherever it is.
fn closed(s: &str) -> Option<Feats> {
    let p = model::parse(s).ok()?;
    let no = [F::NameBackref, F::NameBackrefTemplate, F::ParamBackref, F::AnonBackref, F::TrailingIgnored, F::UnusedOperator, F::CcUnknown, F::InitOfTemplate];
    (!p.feats.any(&no) && p.depth <= 60 && p.nodes <= 400 && p.max_text < 10_000 && judge::ordinary(&p)).then_some(p.feats)
}

/// The same without the spaces which keep nothing apart.
fn tight(s: &str) -> String {
    let word = |c: char| c.is_alphanumeric() || c == '_' || c == '$';
    let cs: Vec<char> = s.chars().collect();
    let keep = |i: usize| cs[i] != ' ' || (i > 0 && i + 1 < cs.len() && word(cs[i - 1]) && word(cs[i + 1]));
    (0..cs.len()).filter(|&i| keep(i)).map(|i| cs[i]).collect()
}

impl Env<'_> {
    /// With some of the places a part may have, or with all.
    pub fn composed(&self, s: &str, fl: u16, mut r: Option<&mut Rng>) -> Verdict {
        // with identifiers of any other kind, anything may stand in the text
        if s.len() > 1500 || !s.bytes().all(|b| b.is_ascii_alphanumeric() || b"?@$_.".contains(&b)) {
            return Verdict::OutOfScope;
        }
        let (sort, x) = part(s);
        let Some(feats) = closed(s) else { return Verdict::OutOfScope };
        if x.is_empty() || s.matches("Q").count() > 400 {
            return Verdict::OutOfScope;
        }
        let text = |s: &str| match self.real(s, fl) {
            Out::Text(t) => Ok(t),
            o => Err(o),
        };
        let bad = |place: &str, want: &str, got: String| {
            let whole = place.replace("{}", x);
            Verdict::Violated(Box::new(Violation {
                kind: "composed".into(),
                calls: vec![(s.to_string(), fl)],
                expected: format!("{whole:?} printed as {}", judge::clip(want)),
                got,
            }))
        };
        let mut compared = 0;
        let (marker, places) = match sort {
            Sort::Type => (TYPE_MARKER, &all_places().types),
            Sort::Scopes => (SCOPE_MARKER, &all_places().scopes),
            Sort::Symbol => (SYMBOL_MARKER, &all_places().symbols),
        };
        // that the part is one type, or one list of names, and not something which only looks like it here
        let one = match sort {
            Sort::Type if x.starts_with('?') => None,
            Sort::Type => Some(feats),
            Sort::Scopes => closed(&format!("??_R3{x}@8")),
            Sort::Symbol if !x.starts_with('?') || x.starts_with("??@") || x.starts_with("??_C@") => None,
            // nor one which goes on if it can
            Sort::Symbol if ["@", "A", "8"].iter().any(|t| !model::parse(&format!("{x}{t}")).is_ok_and(|p| p.consumed == x.chars().count())) => None,
            Sort::Symbol => Some(feats),
        };
        if one.is_none() {
            return Verdict::OutOfScope;
        }
        // what the marker is printed as, and what the part is
        let mut name = match sort {
            Sort::Type if fl & (model::NO_TAG | model::NAME_ONLY) == 0 => Some(("enum QZQ".to_string(), None)),
            Sort::Type | Sort::Scopes => Some(("QZQ".to_string(), None)),
            Sort::Symbol => match (text(marker), text(x)) {
                (Ok(m), Ok(t)) => Some((m, Some(t))),
                _ => None,
            },
        };
        for place in some(places, r.as_deref_mut()) {
            let Some((m, t)) = &mut name else { break };
            let whole = place.replace("{}", x);
            if closed(&whole).is_none() {
                continue;
            }
            let Ok(frame) = text(&place.replace("{}", marker)) else { continue };
            let got = match text(&whole) {
                Ok(t) => t,
                Err(o) => return bad(place, &frame, o.show()),
            };
            let want = match (frame.find(m.as_str()), &t) {
                (None, _) => frame,
                (Some(i), None) => {
                    // the first one says what the part is printed as
                    let (a, b) = (&frame[..i], &frame[i + m.len()..]);
                    match got.strip_prefix(a).and_then(|g| g.strip_suffix(b)) {
                        Some(mid) => {
                            *t = Some(mid.to_string());
                            continue;
                        }
                        None => format!("{a}...{b}"),
                    }
                }
                (Some(_), Some(t)) => frame.replace(m.as_str(), t),
            };
            compared += 1;
            if got != want {
                return bad(place, &want, format!("text {}", judge::clip(&got)));
            }
        }
        // arrays and functions are never the types of symbols, but of what they point to
        if matches!(sort, Sort::Type) && !x.starts_with('Y') && !x.starts_with("$$A") && fl & (model::NAME_ONLY | model::NO_RET | model::NO_VARTYPE) == 0 {
            let m = if fl & model::NO_TAG == 0 { "enum QZQ " } else { "QZQ " };
            if let Ok(v) = text(s) {
                let Some((a, b)) = v.split_once(DESCRIPTOR).filter(|(_, b)| !b.contains(DESCRIPTOR)) else {
                    return bad("??_R0{}@8", "something with a name in it, once", format!("text {v:?}"));
                };
                // without the name it's the type itself
                if let Some((_, Some(t))) = &name {
                    compared += 1;
                    if tight(&format!("{a}{b}")) != tight(t) {
                        return bad("??_R0{}@8", &format!("{t} with a name in it"), format!("text {v:?}"));
                    }
                }
                for place in some(&all_places().declared, r) {
                    let whole = place.replace("{}", x);
                    if closed(&whole).is_none() {
                        continue;
                    }
                    let Ok(frame) = text(&place.replace("{}", TYPE_MARKER)) else { continue };
                    let Some((before, after)) = frame.split_once(m) else {
                        return bad(place, "a text with its type in it", format!("text {frame:?} of the marker's"));
                    };
                    // qualifiers which come together are written in one order, each once
                    let pointer = x.starts_with(['P', 'Q', 'R', 'S', 'A', '$']);
                    if pointer && !a.trim_end().ends_with(['*', '&']) && (after.starts_with("const") || after.starts_with("volatile")) {
                        continue;
                    }
                    // a conversion says its type twice
                    let after = match &name {
                        Some((m, Some(t))) => after.replace(m.as_str(), t),
                        _ => continue,
                    };
                    let want = format!("{before}{a}{after}{b}");
                    let got = match text(&whole) {
                        Ok(t) => t,
                        Err(o) => return bad(place, &want, o.show()),
                    };
                    compared += 1;
                    if tight(&got) != tight(&want) {
                        return bad(place, &want, format!("text {}", judge::clip(&got)));
                    }
                }
            }
        }
        for _ in 0..compared {
            self.count(S::Compared);
        }
        if compared == 0 {
            return Verdict::OutOfScope;
        }
        Verdict::Held(feats)
    }
}

/// A part with nothing around it which it could refer to.
pub fn make(r: &mut Rng, mut p: Profile) -> String {
    p.backref = 0;
    p.param_backref = 0;
    p.noise = 0;
    p.weird_ident = 0;
    p.long_ident = 0;
    p.reuse = p.reuse.min(30);
    p.budget = *r.pick(&[4, 10, 20, 40, 80]);
    match r.below(10) {
        0..=4 => {
            p.compound = *r.pick(&[45, 70, 85]);
            let mut g = Gen::new(r, p);
            g.ty();
            format!("??_R0{}@8", g.take())
        }
        5..=6 => {
            let mut g = Gen::new(r, p);
            g.type_name();
            let s = g.take();
            format!("?QYQ@{}@3HA", s.strip_suffix('@').unwrap_or(&s))
        }
        _ => Gen::new(r, p).symbol(),
    }
}

/// The families of the other properties', and the types in them.
pub fn families() -> Vec<Enum> {
    let mut es = enums::types();
    es.extend(enums::variables());
    let types = es.into_iter().map(|e| {
        let at = e.at.clone();
        enums::of(e.name, e.n, move |i| {
            let s = at(i);
            for (a, b) in [("?f@@YAX", "@Z"), ("?x@@3", "A"), ("?x@?$t@", "@@3HA"), ("?f@@YA?A", "XZ"), (".", "")] {
                if let Some(t) = s.strip_prefix(a).and_then(|t| t.strip_suffix(b)) {
                    return format!("??_R0{t}@8");
                }
            }
            s
        })
    });
    types.chain(enums::functions()).chain(enums::names()).chain(enums::special()).chain(enums::templates()).collect()
}

pub fn monitor(w: &mut W) {
    w.enumerate(0.25);
    while !w.over() {
        let mut p = Profile::default();
        (w.prop.profile)(&mut w.rng, &mut p);
        let s = make(&mut w.rng, p);
        w.check(&s);
    }
}
