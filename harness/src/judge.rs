//! The monitors: each looks at executions of the real code and says whether the property held.

use crate::{
    heap,
    model::{self, Bad, Feats, Parsed, F},
    props::{Kind, Prop},
    rng::Rng,
    shm::{Shm, S},
};
use std::{cell::RefCell, panic, time::Duration};
use undname::Flags;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    /// what was called, in order; the last call is the one at fault
    pub calls: Vec<(String, u16)>,
    pub expected: String,
    pub got: String,
}

#[derive(Debug)]
pub enum Verdict {
    /// it held, on something the property speaks about
    Held(Feats),
    /// it held, trivially
    Trivial,
    /// the property doesn't speak about this
    OutOfScope,
    /// the oracle has no opinion
    None,
    Violated(Box<Violation>),
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

thread_local! {
    /// what is left of calls which leave something only once
    static HOARD: RefCell<(isize, Vec<(String, u16)>)> = const { RefCell::new((0, vec![])) };
}
pub const HOARD_LIMIT: isize = 256 << 10;

pub fn quiet_panics() {
    panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        if m.contains("unsafe precondition") {
            eprintln!("{m}");
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = m);
    }));
}

/// What a call did.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Text(String),
    Refused(String),
    Panicked(String),
}
impl Out {
    pub fn text(&self) -> Option<&str> {
        match self {
            Out::Text(t) => Some(t),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Out::Text(t) => format!("text {}", clip(t)),
            Out::Refused(e) => format!("refused: {e}"),
            Out::Panicked(e) => format!("panic: {e}"),
        }
    }
    /// the text, or that there is none
    pub fn essence(&self) -> Result<&str, bool> {
        match self {
            Out::Text(t) => Ok(t),
            Out::Refused(_) => Err(false),
            Out::Panicked(_) => Err(true),
        }
    }
}

pub fn clip(s: &str) -> String {
    let d = format!("{s:?}");
    if d.chars().count() > 1200 {
        let head: String = d.chars().take(800).collect();
        let tail: String = d.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{head} ... {tail} ({} bytes)", s.len())
    } else {
        d
    }
}

/// The flags by the names users give them, sometimes by the other name some have; bits without a name as they are.
pub fn flags(bits: u16, s: &str) -> Flags {
    let other = s.bytes().take(64).fold(s.len(), |a, b| a.wrapping_mul(31).wrapping_add(b.into())) / 7;
    let named = [
        (model::NO_CC, Flags::NO_CALLING_CONVENTION, Flags::NO_ALLOCATION_LANGUAGE),
        (model::NO_TAG, Flags::NO_TAG_SPECIFIER, Flags::NO_ECSU),
        (model::NO_ACCESS, Flags::NO_ACCESS_SPECIFIER, Flags::NO_ACCESS_SPECIFIERS),
        (model::NO_MEMBER, Flags::NO_MEMBER_TYPE, Flags::NO_MEMBER_TYPE),
        (model::NO_RET, Flags::NO_RETURN_TYPE, Flags::NO_FUNCTION_RETURNS),
        (model::NO_VARTYPE, Flags::NO_VARIABLE_TYPE, Flags::NO_VARIABLE_TYPE),
        (model::NO_THIS, Flags::NO_THISTYPE, Flags::NO_THISTYPE),
        (model::NO_UNDERSCORES, Flags::NO_LEADING_UNDERSCORES, Flags::NO_LEADING_UNDERSCORES),
        (model::NO_MSKW, Flags::NO_MS_KEYWORDS, Flags::NO_MS_KEYWORDS),
        (model::NAME_ONLY, Flags::NAME_ONLY, Flags::NAME_ONLY),
    ];
    let mut f = Flags::from_bits_retain(bits & !model::ALL_FLAGS & !Flags::all().bits());
    for (i, (bit, a, b)) in named.into_iter().enumerate() {
        if bits & bit != 0 {
            f |= if other >> i & 1 == 0 { a } else { b };
        }
    }
    f
}

pub struct Env<'a> {
    pub shm: Option<&'a Shm>,
    pub prop: &'a Prop,
}

impl Env<'_> {
    pub fn begin(&self, s: &str, fl: u16) {
        if let Some(m) = self.shm {
            m.begin(s, fl);
            m.inc(S::RealCalls);
        }
    }
    pub fn end(&self) {
        if let Some(m) = self.shm {
            m.end();
        }
    }
    pub fn count(&self, s: S) {
        if let Some(m) = self.shm {
            m.inc(s);
        }
    }
    fn max(&self, s: S, v: u64) {
        if let Some(m) = self.shm {
            m.max(s, v);
        }
    }
    pub fn real(&self, s: &str, fl: u16) -> Out {
        self.begin(s, fl);
        let r = panic::catch_unwind(|| undname::demangle(s, flags(fl, s)));
        self.end();
        match r {
            Ok(Ok(t)) => {
                self.count(S::Accepted);
                Out::Text(t)
            }
            Ok(Err(e)) => {
                self.count(S::Rejected);
                Out::Refused(e.to_string())
            }
            Err(_) => {
                self.count(S::Panics);
                Out::Panicked(PANIC.with(|p| p.borrow().clone()))
            }
        }
    }
    pub fn real_into(&self, s: &str, fl: u16, buf: &mut String) -> Out {
        self.begin(s, fl);
        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| undname::demangle_into(s, flags(fl, s), buf)));
        self.end();
        match r {
            Ok(Ok(())) => Out::Text(buf.clone()),
            Ok(Err(e)) => Out::Refused(e.to_string()),
            Err(_) => Out::Panicked(PANIC.with(|p| p.borrow().clone())),
        }
    }

    fn bad(&self, kind: &str, s: &str, fl: u16, expected: String, got: String) -> Verdict {
        Verdict::Violated(Box::new(Violation {
            kind: kind.into(),
            calls: vec![(s.to_string(), fl)],
            expected,
            got,
        }))
    }

    pub fn judge(&self, r: &mut Rng, s: &str) -> Verdict {
        match self.prop.kind {
            Kind::Model => self.model_and_more(r, s),
            Kind::Ordinary => {
                let fl = some_flags(r);
                self.ordinary(s, fl)
            }
            Kind::Flags => self.flags(r, s, None),
            Kind::NameOnly => self.name_only(r, s),
            Kind::Total => {
                let fl = some_flags(r);
                self.total(s, fl)
            }
            Kind::Ub => {
                let fl = some_flags(r);
                self.ub(s, fl)
            }
            Kind::Resource => {
                let fl = some_flags(r);
                self.resource(s, fl)
            }
            Kind::Trailing => self.trailing(r, s),
            Kind::Neat => {
                let fl = some_flags(r);
                self.neat(s, fl)
            }
            Kind::Composed => {
                let fl = some_flags(r) & model::ALL_FLAGS;
                self.composed(s, fl, Some(r))
            }
            Kind::Reason => {
                let fl = some_flags(r);
                self.reason(s, fl)
            }
            Kind::Buffer => crate::special::buffer_once(self, r, s),
            Kind::Purity | Kind::Llvm | Kind::Compiled | Kind::Made => Verdict::None,
        }
    }

    /// the same, with given flags: what a replay does
    pub fn judge_with(&self, s: &str, fl: u16) -> Verdict {
        match self.prop.kind {
            Kind::Model => self.model(s, fl),
            Kind::Ordinary => self.ordinary(s, fl),
            Kind::Flags => self.flags(&mut Rng::new(0), s, Some(fl)),
            Kind::NameOnly => {
                let m = parse(s);
                match (self.against_model(s, fl, &m), &m) {
                    (Verdict::Held(_), Ok(p)) => self.in_one_piece(s, fl | model::NAME_ONLY, p),
                    (v, _) => v,
                }
            }
            Kind::Total => self.total(s, fl),
            Kind::Ub => self.ub(s, fl),
            Kind::Resource => self.resource(s, fl),
            Kind::Reason => self.reason(s, fl),
            Kind::Neat => self.neat(s, fl),
            Kind::Composed => self.composed(s, fl, None),
            _ => Verdict::None,
        }
    }

    // ------------------------------------------------ the model

    fn note(&self, p: &Parsed) {
        self.max(S::MaxNodes, p.nodes as u64);
        self.max(S::MaxDepth, p.depth as u64);
    }

    fn in_scope(&self, s: &str, m: &Result<Parsed, model::Rejected>) -> bool {
        match m {
            Ok(p) => match self.prop.id {
                "C17" => false,
                "C18" => odd_identifier(s),
                _ => self.prop.scope.is_empty() || p.feats.any(self.prop.scope),
            },
            Err(e) => {
                self.count(match e.why {
                    Bad::Syntax => S::BadSyntax,
                    Bad::Backref => S::BadBackref,
                    Bad::Number => S::BadNumber,
                    Bad::Str => S::BadStr,
                    Bad::Structor => S::BadStructor,
                    Bad::Trailing => S::BadTrailing,
                    Bad::TooBig => S::Oversize,
                });
                match self.prop.id {
                    "C17" => true,
                    "C10" => e.why == Bad::Backref,
                    "C14" => e.why == Bad::Number,
                    "C12" => e.why == Bad::Str,
                    "C09" => e.why == Bad::Structor,
                    "C13" => s.starts_with("??_") || s.starts_with("??@") || s.starts_with('.'),
                    _ => false,
                }
            }
        }
    }

    fn model_and_more(&self, r: &mut Rng, s: &str) -> Verdict {
        if self.prop.id == "C18" && r.pct(40) {
            if let Ok(p) = parse(s) {
                let names = p.names(s);
                if !names.is_empty() && names.len() <= 400 {
                    let to = p.rename(s, &names, &new_names(r, names.len()));
                    return self.renamed(&p.rename(s, &names, &tokens(names.len())), &to, some_flags(r));
                }
            }
        }
        if self.prop.id == "C10" && r.pct(30) {
            if let Ok(p) = parse(s) {
                let (params, names, salt) = (r.pct(60), r.pct(70), r.u64() as usize);
                let all = r.pct(50);
                let wanted = |x: &model::Ref| {
                    if x.param {
                        params
                    } else {
                        names && (all || (x.at ^ salt).count_ones() % 2 == 0)
                    }
                };
                if let Some(t) = p.expand(s, &wanted).filter(|t| t != s) {
                    return self.expanded(s, &t, some_flags(r));
                }
            }
        }
        // how a symbol is printed is specified without flags; that a string isn't one, with any
        self.model(s, if self.prop.id == "C17" { some_flags(r) } else { 0 })
    }

    /// `b` is `a` with some back-references spelt out, which are to print the same, however a symbol is printed.
    pub fn expanded(&self, a: &str, b: &str, fl: u16) -> Verdict {
        let (Ok(p), Ok(q)) = (parse(a), parse(b)) else { return Verdict::None };
        if !ordinary(&p) || !ordinary(&q) {
            return Verdict::None;
        }
        let Out::Text(want) = self.real(a, fl) else { return Verdict::None };
        self.count(S::Compared);
        match self.real(b, fl) {
            Out::Text(x) if x == want => Verdict::Held(p.feats),
            o => Verdict::Violated(Box::new(Violation {
                kind: "expanded".into(),
                calls: vec![(a.into(), fl), (b.into(), fl)],
                expected: format!("text {}", clip(&want)),
                got: o.show(),
            })),
        }
    }

    /// `a` has tokens for identifiers, and `b` is `a` with others.
    ///
    /// What's printed for them differs in those alone, however a symbol is printed.
    pub fn renamed(&self, a: &str, b: &str, fl: u16) -> Verdict {
        let (Ok(p), Ok(q)) = (parse(a), parse(b)) else { return Verdict::None };
        if !ordinary(&p) || !ordinary(&q) {
            return Verdict::None;
        }
        let (from, to) = (p.names(a), q.names(b));
        if from.len() != to.len() {
            return Verdict::None;
        }
        // an identifier may be taken for the same as an anonymous namespace
        if p.keys.iter().any(|k| from.contains(k)) || q.keys.iter().any(|k| to.contains(k)) {
            return Verdict::None;
        }
        let Out::Text(t) = self.real(a, fl) else { return Verdict::None };
        let mut want = String::with_capacity(t.len());
        let mut rest = t.as_str();
        while let Some(i) = rest.find("Zq") {
            let token = rest.get(i..i + 7).unwrap_or("");
            want += &rest[..i];
            match from.iter().position(|n| n == token) {
                Some(k) => {
                    want += &to[k];
                    rest = &rest[i + 7..];
                }
                None => {
                    want += "Zq";
                    rest = &rest[i + 2..];
                }
            }
        }
        want += rest;
        self.count(S::Compared);
        match self.real(b, fl) {
            Out::Text(x) if x == want => Verdict::Held(q.feats),
            o => Verdict::Violated(Box::new(Violation {
                kind: "renamed".into(),
                calls: vec![(a.into(), fl), (b.into(), fl)],
                expected: format!("text {}", clip(&want)),
                got: o.show(),
            })),
        }
    }

    fn model(&self, s: &str, fl: u16) -> Verdict {
        let m = parse(s);
        if !self.in_scope(s, &m) {
            return Verdict::OutOfScope;
        }
        self.against_model(s, fl, &m)
    }

    /// The central comparison.
    fn against_model(&self, s: &str, fl: u16, m: &Result<Parsed, model::Rejected>) -> Verdict {
        match m {
            Err(e) if e.why == Bad::TooBig => Verdict::None,
            Err(e) => match self.real(s, fl) {
                Out::Refused(_) => Verdict::Held(e.feats),
                o => self.bad("accepted", s, fl, format!("refused ({:?} at character {})", e.why, e.at), o.show()),
            },
            Ok(p) => {
                self.note(p);
                let Some(want) = p.print(fl) else { return Verdict::None };
                self.max(S::MaxText, want.len() as u64);
                let got = self.real(s, fl);
                match &got {
                    Out::Text(t) if *t == want && want.len() < LIMIT => Verdict::Held(p.feats),
                    Out::Refused(_) if !ordinary(p) => Verdict::None,
                    Out::Refused(_) => self.bad("refused", s, fl, format!("text {}", clip(&want)), got.show()),
                    Out::Text(_) if want.len() >= LIMIT => {
                        self.bad("oversize", s, fl, "refused, for its text is too long".into(), got.show())
                    }
                    _ => self.bad("text", s, fl, format!("text {}", clip(&want)), got.show()),
                }
            }
        }
    }

    fn ordinary(&self, s: &str, fl: u16) -> Verdict {
        match parse(s) {
            Err(_) => Verdict::OutOfScope,
            Ok(p) if !ordinary(&p) => Verdict::OutOfScope,
            Ok(p) => {
                self.note(&p);
                self.max(S::MaxInput, s.len() as u64);
                match self.real(s, fl) {
                    Out::Text(_) => Verdict::Held(p.feats),
                    o => self.bad("refused", s, fl, "a text".into(), o.show()),
                }
            }
        }
    }

    fn flags(&self, r: &mut Rng, s: &str, only: Option<u16>) -> Verdict {
        let m = parse(s);
        let Ok(p) = &m else { return Verdict::OutOfScope };
        let sets: Vec<u16> = match only {
            Some(f) => vec![f],
            None if s.len() < 200 && r.one_in(400) => (1..=model::ALL_FLAGS).filter(|f| f & model::NAME_ONLY == 0).collect(),
            None => {
                let mut v: Vec<u16> = (0..9).map(|k| 1 << k).collect();
                if r.pct(70) {
                    for i in (1..9).rev() {
                        v.swap(i, r.below(i + 1));
                    }
                    v.truncate(2);
                }
                v.push((r.u64() & 0x1ff) as u16);
                v.push((r.u64() & r.u64() & 0x1ff) as u16);
                v.push(r.u64() as u16 & BY_WORDS);
                if r.one_in(8) {
                    v.push((r.u64() & 0xfc00) as u16 | 1 << r.below(9));
                }
                v.retain(|&f| f != 0);
                v
            }
        };
        let plain = self.real(s, 0);
        for f in sets {
            self.count(S::FlagSets);
            if f & !model::ALL_FLAGS != 0 {
                // bits which mean nothing change nothing
                let (a, b) = (self.real(s, f), self.real(s, f & model::ALL_FLAGS));
                if a.essence() != b.essence() {
                    return self.bad("unknown bits", s, f, b.show(), a.show());
                }
                continue;
            }
            match self.against_model(s, f, &m) {
                Verdict::Held(_) => (),
                v @ Verdict::Violated(_) => return v,
                _ => return Verdict::None,
            }
            // independent of the model: flags only ever leave things out
            if let (Out::Text(a), Out::Text(b)) = (&plain, self.real(s, f)) {
                if !subsequence(&b, a) {
                    return self.bad("not a part", s, f, format!("a part of {}", clip(a)), clip(&b));
                }
                // and those which are about certain words only change those
                if f & !BY_WORDS == 0 && plain_words(s) {
                    let want = without(a, f);
                    if b.replace(' ', "") != want.replace(' ', "") {
                        return self.bad("other words", s, f, format!("but for spaces, {}", clip(&want)), clip(&b));
                    }
                }
            }
        }
        Verdict::Held(p.feats)
    }

    fn name_only(&self, r: &mut Rng, s: &str) -> Verdict {
        let m = parse(s);
        let Ok(p) = &m else { return Verdict::OutOfScope };
        let more = if r.pct(70) { (r.u64() & 0x1ff) as u16 } else { 1 << r.below(9) };
        for f in [model::NAME_ONLY, model::NAME_ONLY | more] {
            match self.against_model(s, f, &m) {
                Verdict::Held(_) => (),
                v => return v,
            }
        }
        match self.in_one_piece(s, model::NAME_ONLY | more, p) {
            Verdict::Violated(v) => Verdict::Violated(v),
            _ => Verdict::Held(p.feats),
        }
    }

    /// Without the model's help: the name is what stands in the whole text, in one piece.
    fn in_one_piece(&self, s: &str, f: u16, p: &Parsed) -> Verdict {
        // symbols within symbols lose more than that
        if p.feats.any(&[F::NestedSymbol, F::TopVcall, F::TopInit]) {
            return Verdict::OutOfScope;
        }
        match (self.real(s, f), self.real(s, f & !model::NAME_ONLY | model::NO_TAG)) {
            (Out::Text(name), Out::Text(whole)) if !whole.contains(&name) => return self.bad("not in one piece", s, f, format!("a piece of {}", clip(&whole)), clip(&name)),
            _ => (),
        }
        // and when all that's in front of it and behind the parameters is left out, nothing else is left
        if p.feats.any(&[F::TopTypeinfo]) || !plain_words(s) {
            return Verdict::Held(p.feats);
        }
        let f = f | ALL_BUT_NAME;
        match (self.real(s, f), self.real(s, f & !model::NAME_ONLY)) {
            (Out::Text(name), Out::Text(whole)) => {
                let w = whole.trim_start_matches("[thunk]: ").trim_start_matches("const ").trim_start_matches("volatile ");
                match w.strip_prefix(&name) {
                    Some(r) if r.is_empty() || r.starts_with('(') => Verdict::Held(p.feats),
                    _ => self.bad("not in one piece", s, f, format!("the beginning of {}", clip(&whole)), clip(&name)),
                }
            }
            _ => Verdict::Held(p.feats),
        }
    }

    // ------------------------------------------------ the bounds

    fn total(&self, s: &str, fl: u16) -> Verdict {
        self.max(S::MaxInput, s.len() as u64);
        let a = self.real(s, fl);
        if let Out::Panicked(e) = &a {
            return self.bad("panic", s, fl, "a text or an error".into(), e.clone());
        }
        if let Out::Text(t) = &a {
            self.max(S::MaxText, t.len() as u64);
            if std::str::from_utf8(t.as_bytes()).is_err() {
                return self.bad("utf8", s, fl, "valid UTF-8".into(), format!("{:?}", t.as_bytes()));
            }
        }
        Verdict::Held(Feats(0))
    }

    fn ub(&self, s: &str, fl: u16) -> Verdict {
        match self.real(s, fl) {
            Out::Text(t) if std::str::from_utf8(t.as_bytes()).is_err() => {
                self.bad("utf8", s, fl, "valid UTF-8".into(), format!("{:?}", t.as_bytes()))
            }
            // a dependency checks what an unchecked operation relies on
            Out::Panicked(e) if e.contains("arrayvec") || e.contains("bumpalo") || e.contains("nonmax") || e.contains("smallvec") => {
                self.bad("unchecked operation", s, fl, "its precondition holds".into(), e)
            }
            _ => Verdict::Held(Feats(0)),
        }
    }

    fn resource(&self, s: &str, fl: u16) -> Verdict {
        self.max(S::MaxInput, s.len() as u64);
        let t0 = cpu();
        let (o, u) = heap::measure(|| self.real(s, fl));
        let spent = cpu().saturating_sub(t0);
        self.max(S::MaxCpuMicros, spent.as_micros() as u64);
        self.max(S::MaxPeakHeap, u.peak as u64);
        self.max(S::MaxAllocs, u.calls as u64);
        let keep = match &o {
            Out::Text(t) => {
                self.max(S::MaxText, t.len() as u64);
                if t.len() >= LIMIT {
                    return self.bad("text too long", s, fl, format!("less than {LIMIT} bytes of text"), format!("{} bytes", t.len()));
                }
                t.capacity()
            }
            Out::Refused(e) => e.capacity(),
            Out::Panicked(_) => return Verdict::None,
        };
        if u.peak > HEAP_LIMIT + 16 * s.len() {
            return self.bad("heap", s, fl, format!("at most {HEAP_LIMIT} bytes of heap"), format!("{} bytes", u.peak));
        }
        let limit = CPU_LIMIT + Duration::from_micros(s.len() as u64);
        if spent > limit {
            // measured again, for the machine may have been busy
            let mut least = spent;
            for _ in 0..if spent > limit * 2 { 1 } else { 2 } {
                let t0 = cpu();
                let _ = self.real(s, fl);
                least = least.min(cpu().saturating_sub(t0));
            }
            if least > limit {
                return self.bad("time", s, fl, format!("at most {limit:?} of CPU time"), format!("{least:?}, the least of several times"));
            }
        }
        if u.left > keep as isize {
            // something may be set up by a first call: only what grows is lost
            let again = self.left(s, fl).min(self.left(s, fl));
            if again > 0 {
                return self.bad("leak", s, fl, "only the result left allocated".into(), format!("{again} bytes more"));
            }
            // or is it kept for every new input?
            let hoard = HOARD.with(|h| {
                let mut h = h.borrow_mut();
                h.0 += u.left - keep as isize;
                if h.1.len() < 4000 {
                    h.1.push((s.to_string(), fl));
                }
                (h.0 > HOARD_LIMIT).then(|| h.1.clone())
            });
            if let Some(calls) = hoard {
                return Verdict::Violated(Box::new(Violation {
                    kind: "hoard".into(),
                    calls,
                    expected: "only the results left allocated".into(),
                    got: format!("more than {HOARD_LIMIT} bytes, a little from every call"),
                }));
            }
        }
        if u.calls > 0 {
            Verdict::Held(Feats(0))
        } else {
            Verdict::Trivial
        }
    }

    /// What a call leaves allocated besides its result.
    pub fn left(&self, s: &str, fl: u16) -> isize {
        let (o, u) = heap::measure(|| self.real(s, fl));
        let keep = match &o {
            Out::Text(t) => t.capacity(),
            Out::Refused(e) => e.capacity(),
            Out::Panicked(_) => return 0,
        };
        u.left - keep as isize
    }

    // ------------------------------------------------ what every text has in common

    fn neat(&self, s: &str, fl: u16) -> Verdict {
        // with identifiers of any other kind, anything may stand in the text
        if !s.bytes().all(|b| b.is_ascii_alphanumeric() || b"?@$_.".contains(&b)) || s.contains("??_C") {
            return Verdict::OutOfScope;
        }
        // nor where something prints as nothing, or a function returns a function
        match parse(s) {
            Ok(p) if !p.feats.any(&[F::UnusedOperator, F::CcUnknown]) && !s.contains("$$A") && !s.contains("?A@") => (),
            _ => return Verdict::OutOfScope,
        }
        let o = self.real(s, fl);
        let Out::Text(t) = &o else { return Verdict::OutOfScope };
        self.max(S::MaxText, t.len() as u64);
        match untidy(t) {
            Some(why) => self.bad("untidy", s, fl, format!("a text without {why}"), o.show()),
            None => Verdict::Held(Feats(t.bytes().fold(0, |a, b| a | 1 << (b & 0x7f)))),
        }
    }

    // ------------------------------------------------ why a symbol is refused

    fn reason(&self, s: &str, fl: u16) -> Verdict {
        let m = parse(s);
        let e = match self.error(s, fl) {
            Some(e) => e,
            None => return Verdict::OutOfScope,
        };
        if e.text.trim().is_empty() {
            return self.bad("reason", s, fl, "an error which says something".into(), format!("{:?}", e.text));
        }
        let (feats, small, want) = match &m {
            Err(x) if x.why == Bad::TooBig => return Verdict::None,
            Ok(p) => (p.feats, ordinary(p), "a size".to_string()),
            Err(x) => (x.feats, x.nodes <= 1000 && x.depth <= 128 && x.max_text <= 512 << 10 && s.len() < 4000, format!("{:?} at character {}", x.why, x.at)),
        };
        let fits = match &m {
            Ok(_) => e.cause == Cause::Size,
            Err(_) if !small && e.cause == Cause::Size => return Verdict::None,
            Err(x) => match x.why {
                Bad::Backref if !x.bad_param => e.cause == Cause::Backref,
                Bad::Backref => matches!(e.cause, Cause::Backref | Cause::Form),
                _ => e.cause == Cause::Form,
            },
        };
        if !fits {
            return self.bad("reason", s, fl, format!("refused because of {want}"), format!("{:?}: {}", e.cause, e.text));
        }
        if fl != 0 && small {
            if let Some(d) = self.error(s, 0) {
                if d.text != e.text {
                    return self.bad("reason", s, fl, format!("as without flags: {}", d.text), e.text);
                }
            }
        }
        Verdict::Held(Feats(feats.0))
    }

    fn error(&self, s: &str, fl: u16) -> Option<Refusal> {
        self.begin(s, fl);
        let r = panic::catch_unwind(|| undname::demangle(s, flags(fl, s)));
        self.end();
        use undname::Error as E;
        let e = r.ok()?.err()?;
        let cause = match &e {
            E::InvalidBackRef => Cause::Backref,
            E::MaliciousInput => Cause::Size,
            E::Io(x) if x.kind() == std::io::ErrorKind::OutOfMemory => Cause::Size,
            E::Utf8Error => Cause::Encoding,
            _ => Cause::Form,
        };
        Some(Refusal { cause, text: e.to_string() })
    }

    // ------------------------------------------------ trailing text

    fn trailing(&self, r: &mut Rng, s: &str) -> Verdict {
        let Ok(p) = parse(s) else { return Verdict::OutOfScope };
        if p.consumed != p.total || !ordinary(&p) {
            return Verdict::OutOfScope;
        }
        let tail = tail(r);
        let fl = some_flags(r);
        self.trailing_with(s, &tail, fl)
    }

    pub fn trailing_with(&self, s: &str, tail: &str, fl: u16) -> Verdict {
        let whole = format!("{s}{tail}");
        let n = s.chars().count();
        let (Ok(p), Ok(q)) = (parse(s), parse(&whole)) else { return Verdict::OutOfScope };
        // unless the text happens to continue the symbol
        if p.consumed != n || q.consumed != n {
            return Verdict::OutOfScope;
        }
        let (a, b) = (self.real(s, fl), self.real(&whole, fl));
        if a.essence() != b.essence() {
            return Verdict::Violated(Box::new(Violation {
                kind: "trailing".into(),
                calls: vec![(s.to_string(), fl), (whole, fl)],
                expected: a.show(),
                got: b.show(),
            }));
        }
        Verdict::Held(p.feats)
    }
}

fn untidy(t: &str) -> Option<String> {
    for bad in ["  ", "( ", " )", " ,", "[ ", " ]", "< ", ",,", "(,", ",)", "<,", ",>", " ;", ":::", "\t", "\n"] {
        // an operator may end in the first of the two
        let op = bad.len() == 2 && "<,[(".contains(&bad[..1]) && t.contains(&format!("operator{}", &bad[..1]))
            || bad == ",)" && t.contains("operator,")
            || bad == "<," && t.contains("operator<")
            || bad == ",>" && t.contains("operator,");
        if t.contains(bad) && !op {
            return Some(format!("{bad:?}"));
        }
    }
    if t.starts_with(' ') || t.ends_with(' ') {
        return Some("a space at its edge".into());
    }
    let mut open = vec![];
    // an operator's own angle brackets don't match
    let angles = !["operator<", "operator>", "operator-"].iter().any(|x| t.contains(x));
    for c in t.chars() {
        match c {
            '<' | '>' if !angles => (),
            '(' | '[' | '<' | '{' => open.push(c),
            ')' | ']' | '>' | '}' => {
                let want = match c {
                    ')' => '(',
                    ']' => '[',
                    '>' => '<',
                    _ => '{',
                };
                if open.pop() != Some(want) {
                    return Some(format!("an unmatched {c:?}"));
                }
            }
            _ => (),
        }
    }
    open.pop().map(|c| format!("an unmatched {c:?}"))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Cause {
    Backref,
    Size,
    Encoding,
    Form,
}
struct Refusal {
    cause: Cause,
    text: String,
}

pub const LIMIT: usize = 1 << 20;
pub const HEAP_LIMIT: usize = 256 << 20;
pub const CPU_LIMIT: Duration = Duration::from_secs(5);

fn tail(r: &mut Rng) -> String {
    const T: &[&str] = &[
        "@", "x", "Z", "$catch$0", ".cold", "@@", "8", "?", " ", "\0", "$", "_E", "é", "😀", "A", "0", "?f@@YAXXZ", "@8", "@4HA", "XZ",
        "$dtor$1", "\u{301}", ")", "+0x10", "\n", "@@YAXXZ", "??_R4@", "9", "_", "H", "~",
    ];
    let mut t = String::new();
    for _ in 0..r.range(1, 3) {
        t += *r.pick(T);
    }
    if r.one_in(20) {
        t = t.repeat(r.range(1, 500));
    }
    t
}

pub fn parse(s: &str) -> Result<Parsed, model::Rejected> {
    model::parse(s)
}

/// Well within what the crate promises to handle.
pub fn ordinary(p: &Parsed) -> bool {
    p.nodes <= 1500 && p.depth <= 128 && p.max_text <= 512 << 10 && p.rendered <= 8 << 20 && p.print(0).is_some_and(|t| t.len() <= 512 << 10)
}

fn odd_identifier(s: &str) -> bool {
    !s.is_ascii()
        || s.bytes().any(|b| !(b.is_ascii_alphanumeric() || b"?@$_.".contains(&b)))
        || s.split(['@', '?']).any(|t| t.len() > 64)
}

/// identifiers which are like no other text
fn tokens(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("Zq{i:03}qZ")).collect()
}

/// other identifiers: any characters, as long as they can begin one
fn new_names(r: &mut Rng, n: usize) -> Vec<String> {
    const FIRST: &[char] = &['a', 'Q', '_', 'é', '名', '😀', 'ß', '\u{301}', '\u{200b}', '\u{a0}', 'x', 'Z'];
    const MORE: &[char] = &[
        'a', 'M', 'z', '0', '9', '_', '$', '_', 'é', '字', '🦀', '\u{301}', '\u{200d}', '\u{ad}', '\u{a0}', '\u{2028}', '\u{202e}',
        '\u{feff}', '\u{e000}', '\u{10ffff}', '\u{fffd}', 'ı', 'ſ', 'Σ', '٣', 'Ⅷ', '²', '€', '√', '«', '\u{85}', 'ａ', '\u{fe0f}', '\u{1f1e6}',
    ];
    let plain = r.pct(30);
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let len = if r.one_in(30) { r.below(300) } else { r.below(6) };
        let some = if plain { 7 } else { MORE.len() };
        let mut s = FIRST[r.below(if plain { 3 } else { FIRST.len() })].to_string();
        s.extend((0..len).map(|_| MORE[r.below(some)]));
        if r.pct(10) {
            s += &(0x80 + r.below(0xd000) as u32..).find_map(char::from_u32).unwrap().to_string();
        }
        if v.contains(&s) || s.contains("Zq") {
            s += &v.len().to_string();
        }
        if !v.contains(&s) {
            v.push(s);
        }
    }
    v
}

/// Leaving out a word may move the spaces around it.
fn subsequence(small: &str, big: &str) -> bool {
    let mut it = big.chars();
    small.chars().filter(|&c| c != ' ').all(|c| it.any(|d| c == d))
}

/// The flags which leave out, or change, words wherever they stand.
const BY_WORDS: u16 = model::NO_CC | model::NO_TAG | model::NO_ACCESS | model::NO_MEMBER | model::NO_UNDERSCORES | model::NO_MSKW | model::NO_THIS;
const ALL_BUT_NAME: u16 = model::NO_CC | model::NO_TAG | model::NO_ACCESS | model::NO_MEMBER | model::NO_MSKW | model::NO_RET | model::NO_VARTYPE | model::NO_THIS;
const CONVENTIONS: [&str; 8] = ["__cdecl", "__pascal", "__thiscall", "__stdcall", "__fastcall", "__clrcall", "__eabi", "__vectorcall"];
const SWIFT: [&str; 2] = ["__attribute__((__swiftcall__))", "__attribute__((__swiftasynccall__))"];
const KEYWORDS: [&str; 2] = ["__restrict", "__unaligned"];
const TAGS: [&str; 4] = ["class", "struct", "union", "enum"];
const ACCESS: [&str; 3] = ["public", "protected", "private"];

/// Whether what's between the symbol's letters can't be taken for any of those words.
fn plain_words(s: &str) -> bool {
    let lists: [&[&str]; 4] = [&CONVENTIONS, &KEYWORDS, &TAGS, &ACCESS];
    s.bytes().all(|b| b.is_ascii_alphanumeric() || b"?@$_.".contains(&b))
        && !s.contains("??_C")
        && !lists.iter().any(|l| l.iter().any(|w| s.contains(w.trim_start_matches('_'))))
        && !["static", "virtual", "extern", "attribute"].iter().any(|w| s.contains(w))
}

/// A text as those flags would have it, going by its words alone.
fn without(text: &str, f: u16) -> String {
    let mut t = text.to_string();
    if f & (model::NO_CC | model::NO_MSKW) != 0 {
        for w in SWIFT {
            t = t.replace(w, "");
        }
    }
    if f & model::NO_MEMBER != 0 {
        t = t.replace("extern \"C\" ", "");
    }
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '$';
    let mut out = String::with_capacity(t.len());
    let mut rest = t.as_str();
    while let Some(c) = rest.chars().next() {
        let n = rest.find(|c| !word(c)).unwrap_or(rest.len());
        if n == 0 {
            out.push(c);
            rest = &rest[c.len_utf8()..];
            // what's said of `this` follows the parameters
            if c == ')' && f & model::NO_THIS != 0 && !out.ends_with("decltype(auto)") && !out.ends_with("__))") {
                let mut noexcept = "";
                while let Some((q, r)) = [" const", " volatile", " __restrict", " __unaligned", " noexcept", " &&", " &"].iter().find_map(|q| Some((*q, rest.strip_prefix(q)?))) {
                    rest = r;
                    if q == " noexcept" {
                        noexcept = q;
                    }
                }
                out.push_str(noexcept);
            }
            continue;
        }
        let (w, behind) = rest.split_at(n);
        let (convention, keyword) = (CONVENTIONS.contains(&w), KEYWORDS.contains(&w));
        let access = ACCESS.contains(&w) && behind.starts_with(": ");
        rest = behind;
        if access && f & model::NO_ACCESS != 0 {
            rest = &behind[1..];
        } else if (convention && f & (model::NO_CC | model::NO_MSKW) != 0)
            || (keyword && f & model::NO_MSKW != 0)
            || (TAGS.contains(&w) && f & model::NO_TAG != 0)
            || (matches!(w, "static" | "virtual") && behind.starts_with(' ') && f & model::NO_MEMBER != 0 && !out.ends_with("`local ") && !out.ends_with('`'))
        {
        } else if (convention || keyword) && f & model::NO_UNDERSCORES != 0 {
            out.push_str(w.trim_start_matches('_'));
        } else {
            out.push_str(w);
        }
    }
    out
}

pub fn some_flags(r: &mut Rng) -> u16 {
    match r.below(8) {
        0..=3 => 0,
        4 => 1 << r.below(10),
        5 => (r.u64() & 0xffff) as u16,
        _ => (r.u64() & 0x3ff) as u16,
    }
}

pub fn cpu() -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: a valid place for the result
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}
