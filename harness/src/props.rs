//! Which property is judged how, and on which workload.

use crate::{
    enums::{self, Enum},
    gen::{self, Profile},
    model::F,
    rng::Rng,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// the text must be the model's
    Model,
    /// the call must return
    Total,
    /// the call must stay within its bounds
    Resource,
    /// no undefined behaviour
    Ub,
    /// the contract of the caller's buffer
    Buffer,
    /// nothing but the arguments matters
    Purity,
    /// what the flags may change
    Flags,
    /// what's left with NAME_ONLY
    NameOnly,
    /// an independent implementation agrees
    Llvm,
    /// the compiler takes the text for a declaration with the same symbol
    Compiled,
    /// what a compiler makes up is what the object file says it is
    Made,
    /// ordinary symbols aren't refused
    Ordinary,
    /// text after the symbol doesn't matter
    Trailing,
    /// what a refusal gives as its reason
    Reason,
    /// brackets and spaces
    Neat,
    /// a part is printed the same wherever it stands
    Composed,
}

pub struct Prop {
    pub id: &'static str,
    pub kind: Kind,
    /// the constructs the property speaks about (none: all of them)
    pub scope: &'static [F],
    pub enums: fn() -> Vec<Enum>,
    pub profile: fn(&mut Rng, &mut Profile),
    pub rule: &'static str,
}

pub fn corpus() -> &'static [&'static str] {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<&'static str>> = OnceLock::new();
    C.get_or_init(|| include_str!("../data/corpus.txt").lines().collect())
}

fn join(parts: Vec<Vec<Enum>>) -> Vec<Enum> {
    parts.into_iter().flatten().collect()
}
fn sources() -> Vec<Enum> {
    enums::literals()
}
fn all() -> Vec<Enum> {
    join(vec![
        enums::damage(corpus()),
        enums::functions(),
        enums::variables(),
        enums::types(),
        enums::names(),
        enums::backrefs(),
        enums::templates(),
        enums::strings(),
        enums::special(),
        enums::numbers(),
        enums::identifiers(),
        sources(),
        enums::growth(140),
    ])
}
fn corpus_only() -> Vec<Enum> {
    enums::damage(corpus()).into_iter().take(1).collect()
}
fn with_corpus(mut e: Vec<Enum>) -> Vec<Enum> {
    e.splice(0..0, corpus_only());
    e.extend(sources());
    e
}

fn only(p: &mut Profile, tops: &[usize]) {
    p.tops = [0; gen::TOPS];
    for &t in tops {
        p.tops[t] = 10;
    }
}
fn vary(r: &mut Rng, p: &mut Profile) {
    p.budget = *r.pick(&[6, 20, 60, 60, 200]);
    if r.pct(60) {
        p.noise = 0;
    }
    for x in [
        &mut p.backref,
        &mut p.param_backref,
        &mut p.template,
        &mut p.tpl_value,
        &mut p.compound,
        &mut p.quals,
        &mut p.reuse,
        &mut p.operator,
        &mut p.structor,
        &mut p.local,
        &mut p.anon,
    ] {
        if r.one_in(7) {
            *x = *r.pick(&[0, 0, 50, 90]);
        }
    }
}

macro_rules! p {
    ($id:literal, $kind:ident, [$($f:ident),* $(,)?], $enums:expr, $profile:expr, $rule:literal) => {
        Prop { id: $id, kind: Kind::$kind, scope: &[$(F::$f),*], enums: $enums, profile: $profile, rule: $rule }
    };
}

pub fn props() -> Vec<Prop> {
    vec![
        p!("C01", Total, [], || join(vec![enums::hostile(), all()]), vary,
            "the call got past the first character of the symbol, or the input was of a hostile shape"),
        p!("C02", Resource, [], || join(vec![enums::hostile(), enums::growth(400), enums::amplified(), enums::renderings(), enums::large(), enums::damage(corpus()).into_iter().take(2).collect(), sources()]), vary,
            "the call was measured and made at least one heap allocation"),
        p!("C03", Ub, [], || join(vec![all(), enums::hostile()]), vary,
            "the call ran to its end under a build which checks unsafe preconditions, AddressSanitizer or Miri"),
        p!("C04", Buffer, [], || with_corpus(join(vec![enums::amplified(), enums::strings(), enums::growth(60)])), vary,
            "a call with a buffer which wasn't fresh, compared with a fresh one"),
        p!("C05", Purity, [], || with_corpus(vec![]), vary,
            "a repetition of a call in another history, thread or process, compared with the first one"),
        p!("C06", Model, [TopFunction], || with_corpus(join(vec![enums::functions(), enums::growth(30)])),
            |r, p| { vary(r, p); only(p, &[gen::T_FUNC]); p.odd_func = 30; p.thunk = 3; p.template = p.template.min(10); },
            "the model reads the input as a function, so that its whole text is specified"),
        p!("C07", Model, [TopVariable], || with_corpus(enums::variables()),
            |r, p| { vary(r, p); only(p, &[gen::T_VAR]); p.compound = 70; p.quals = 60; },
            "the model reads the input as a variable, so that its whole text is specified"),
        p!("C08", Model, [Pointer, Reference, RvalueRef, MemberPtr, MemberPtrQuals, MemberFnPtr, FnPtr, FnType, FnTypeThis,
                Array, ArrayQuals, Custom, TagUnion, TagStruct, TagClass, TagEnum, PrimPlain, PrimUnder,
                PrimAuto, Nullptr, ExtPtr64, ExtRestrict, ExtUnaligned, ReturnQuals],
            || with_corpus(enums::types()),
            |r, p| { vary(r, p); p.compound = *r.pick(&[60, 80, 92]); p.quals = 60; p.template = p.template.min(10); only(p, &[gen::T_FUNC, gen::T_VAR, gen::T_TYPEINFO]); },
            "the model accepts the input and it contains a type"),
        p!("C09", Model, [Structor, Operator, Conversion, LiteralOperator, AnonNamespace, LocalScope, UnusedOperator],
            || with_corpus(join(vec![enums::names(), vec![]])),
            |r, p| { vary(r, p); p.operator = 60; p.structor = 40; p.local = 20; p.anon = 15; only(p, &[gen::T_FUNC, gen::T_VAR]); },
            "the input has an operator, structor, conversion, anonymous namespace or local scope"),
        p!("C10", Model, [NameBackref, NameBackrefTemplate, ParamBackref, NameTableFull, NameDuplicate, ParamTableFull],
            || with_corpus(join(vec![enums::backrefs(), enums::look_alikes(), enums::counted()])),
            |r, p| { vary(r, p); p.backref = *r.pick(&[40, 60, 80]); p.param_backref = *r.pick(&[30, 60]); p.reuse = 50; p.template = *r.pick(&[5, 30, 50]); only(p, &[gen::T_FUNC, gen::T_FUNC, gen::T_VAR, gen::T_TABLE]); },
            "the input refers back, repeats a name or fills a table"),
        p!("C11", Model, [Template],
            || with_corpus(join(vec![enums::templates(), enums::counted()])),
            |r, p| { vary(r, p); p.template = *r.pick(&[50, 75]); p.tpl_value = *r.pick(&[40, 75]); only(p, &[gen::T_FUNC, gen::T_VAR, gen::T_TABLE]); },
            "the input has a template instantiation"),
        p!("C12", Model, [TopString, StrWide, StrNarrow, StrChar16, StrChar32],
            || with_corpus(enums::strings()),
            |r, p| { vary(r, p); if r.pct(85) { only(p, &[gen::T_STR]); } },
            "the input is, or contains, a string literal"),
        p!("C13", Model, [TopTable, TopGuard, TopMd5, TopTypeinfo, TopRttiType, TopRttiOther, TopVcall, TopInit,
                Thunk, ThunkVtordisp, ThunkVtordispEx],
            || with_corpus(enums::special()),
            |r, p| { vary(r, p); only(p, &[gen::T_TABLE, gen::T_TABLE, gen::T_GUARD, gen::T_MD5, gen::T_TYPEINFO, gen::T_VCALL, gen::T_INIT]);
                if r.pct(30) { only(p, &[gen::T_FUNC]); p.thunk = 80; } },
            "the input is a symbol the compiler makes up, or looks like one"),
        p!("C14", Model, [NumberDigit, NumberHex, NumberNegative, NumberWide, NumberEmpty],
            || with_corpus(enums::numbers()),
            |r, p| { vary(r, p); p.hard_number = 70; p.tpl_value = 80; p.template = 50; p.thunk = 30; p.local = 20; },
            "the input has an encoded number, or fails at one"),
        p!("C15", Flags, [], || with_corpus(join(vec![enums::look_alikes(), enums::functions(), enums::variables(), enums::types(), enums::special(), enums::templates()])), vary,
            "a non-empty set of flags was applied to a symbol the model accepts"),
        p!("C16", NameOnly, [], || with_corpus(join(vec![enums::look_alikes(), enums::names(), enums::functions(), enums::variables(), enums::special(), enums::types(), enums::templates()])), vary,
            "the symbol was printed with NAME_ONLY, alone or with others, and the model accepts it"),
        p!("C17", Model, [], || join(vec![
                enums::damage(corpus()), enums::special(), enums::names(), enums::types(), enums::numbers(), enums::templates(), enums::strings(), sources(),
            ]),
            |r, p| { vary(r, p); p.noise = *r.pick(&[5, 20, 60]); },
            "the model finds the input malformed"),
        p!("C18", Model, [], || with_corpus(enums::identifiers()),
            |r, p| { vary(r, p); p.weird_ident = 90; p.long_ident = 5; },
            "the model accepts the input and it has an identifier with a character other than ASCII letters and digits, or one longer than 64 bytes"),
        p!("C19", Llvm, [], || with_corpus(vec![]), vary,
            "LLVM's demangler was asked about the symbol and both answers were compared"),
        p!("C20", Ordinary, [], || with_corpus(join(vec![enums::growth(1500), enums::siblings(), enums::backrefs(), enums::functions(), enums::templates()])),
            |r, p| { vary(r, p); p.noise = 0; p.budget = *r.pick(&[60, 200, 300, 500]); },
            "the model accepts the input, and it's of ordinary size"),
        p!("C21", Trailing, [], || with_corpus(join(vec![enums::functions(), enums::variables(), enums::special()])), 
            |r, p| { vary(r, p); p.noise = 0; },
            "text was appended to a complete symbol, and the result compared with that for the symbol"),
        p!("C22", Reason, [], || join(vec![
                enums::damage(corpus()), enums::special(), enums::names(), enums::types(), enums::numbers(), enums::templates(), enums::strings(), enums::backrefs(), enums::growth(400), enums::amplified(), sources(),
            ]),
            |r, p| { vary(r, p); p.noise = *r.pick(&[0, 5, 20, 60]); p.hard_number = *r.pick(&[5, 60]); },
            "the input was refused, and the reason given compared with the model's"),
        p!("C23", Neat, [], || with_corpus(join(vec![
                enums::functions(), enums::variables(), enums::types(), enums::names(), enums::special(), enums::numbers(), enums::templates(), enums::backrefs(),
            ])), vary,
            "the input is accepted and has plain identifiers only"),
        p!("C24", Compiled, [], Vec::new, vary,
            "a compiler made the symbol, what it demangles to was compiled again, and the symbols were compared (a history is a program)"),
        p!("C25", Made, [], Vec::new, vary,
            "a compiler made the symbol up, and its text was compared with what the object file says the symbol is about (a history is a program)"),
        p!("C26", Composed, [], crate::compose::families, vary,
            "a type, a class with its scopes or a symbol was printed in at least one place beside its own, and compared with what's printed there for another"),
    ]
}

pub fn find(id: &str) -> Option<Prop> {
    props().into_iter().find(|p| p.id == id)
}
