//! Reference demangler: an executable statement of what undname promises.
//!
//! It is written as a recursive-descent recogniser over a vector of chars that builds an owned
//! tree, and an inside-out declarator printer over plain strings.  It shares no code with the
//! crate under test, and differs from it in structure: no arena, no handles, no node limit, no
//! streaming writer (so no "last char" look-behind), flags are applied only when printing, and
//! names whose text depends on the flags are kept as trees instead of as rendered text.

use std::{cell::Cell, collections::HashMap, rc::Rc};

pub const NO_CC: u16 = 1 << 0;
pub const NO_TAG: u16 = 1 << 1;
pub const NO_ACCESS: u16 = 1 << 2;
pub const NO_MEMBER: u16 = 1 << 3;
pub const NO_RET: u16 = 1 << 4;
pub const NO_VARTYPE: u16 = 1 << 5;
pub const NO_THIS: u16 = 1 << 6;
pub const NO_UNDERSCORES: u16 = 1 << 7;
pub const NO_MSKW: u16 = 1 << 8;
pub const NAME_ONLY: u16 = 1 << 9;
pub const ALL_FLAGS: u16 = 0x3ff;

/// Why the model refuses an input.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bad {
    /// The text is not a mangled symbol.
    Syntax,
    /// A name or parameter back-reference to an entry which does not exist.
    Backref,
    /// A number is missing, unterminated, of the wrong sign, or out of range.
    Number,
    /// A bad string literal.
    Str,
    /// A constructor/destructor/conversion where its meaning is undefined.
    Structor,
    /// Text left over where none may be.
    Trailing,
    /// Beyond what the model is prepared to evaluate: no verdict.
    TooBig,
}

type R<T> = Result<T, Bad>;

/// What the parse saw. Used to select the inputs a property speaks about, and as coverage.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum F {
    TopFunction,
    TopVariable,
    TopTable,
    TopGuard,
    TopString,
    TopMd5,
    TopTypeinfo,
    TopRttiType,
    TopRttiOther,
    TopVcall,
    TopInit,
    NestedSymbol,
    NameBackref,
    NameBackrefTemplate,
    ParamBackref,
    NameTableFull,
    NameDuplicate,
    ParamTableFull,
    Template,
    TemplateNested,
    TplPack,
    TplAuto,
    TplAlias,
    TplArrayParam,
    TplQualified,
    TplSymbolPtr,
    TplSymbolRef,
    TplMemberOffsets,
    TplInt,
    TplNullSymbol,
    TplOperatorName,
    AnonNamespace,
    LocalScope,
    Structor,
    Conversion,
    Operator,
    UnusedOperator,
    LiteralOperator,
    NumberDigit,
    NumberHex,
    NumberNegative,
    NumberWide,
    NumberEmpty,
    Pointer,
    Reference,
    RvalueRef,
    MemberPtr,
    MemberPtrQuals,
    MemberFnPtr,
    FnPtr,
    FnType,
    FnTypeThis,
    Array,
    ArrayQuals,
    Custom,
    TagUnion,
    TagStruct,
    TagClass,
    TagEnum,
    PrimPlain,
    PrimUnder,
    PrimAuto,
    Nullptr,
    ExtPtr64,
    ExtRestrict,
    ExtUnaligned,
    RefQual,
    ThisQuals,
    Variadic,
    Noexcept,
    NoReturn,
    ExternC,
    NoParamList,
    EmptyParams,
    Thunk,
    ThunkVtordisp,
    ThunkVtordispEx,
    CcKnown,
    CcUnknown,
    CcSwift,
    StorageStaticMember,
    StorageLocal,
    StrWide,
    StrNarrow,
    StrChar16,
    StrChar32,
    StrTruncated,
    StrEscape,
    NonAscii,
    TrailingIgnored,
    ReturnQuals,
    AnonBackref,
    TplUncounted,
    InitOfTemplate,
}

#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct Feats(pub u128);
impl Feats {
    pub fn has(self, f: F) -> bool {
        self.0 >> (f as u8) & 1 == 1
    }
    pub fn any(self, fs: &[F]) -> bool {
        fs.iter().any(|&f| self.has(f))
    }
    pub fn list(self) -> Vec<F> {
        // SAFETY: every discriminant below the last one is a variant
        (0..=F::InitOfTemplate as u8)
            .map(|i| unsafe { std::mem::transmute::<u8, F>(i) })
            .filter(|&f| self.has(f))
            .collect()
    }
}

// ---------------------------------------------------------------- tree

type Quals = u8;
const Q_CONST: Quals = 1;
const Q_VOLATILE: Quals = 2;
const Q_UNALIGNED: Quals = 4;
const Q_RESTRICT: Quals = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Aff {
    Ptr,
    Ref,
    RRef,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Access {
    None,
    Private,
    Protected,
    Public,
}

#[derive(Clone, Debug)]
enum Adjust {
    Static(u32),
    Vtordisp(i32, u32),
    VtordispEx(i32, i32, i32, u32),
}

#[derive(Clone, Debug)]
struct Sig {
    quals: Quals,
    cc: Option<&'static str>,
    refq: Option<bool>, // Some(false): &, Some(true): &&
    ret: Option<Rc<Ty>>,
    params: Option<Vec<Rc<Ty>>>,
    variadic: bool,
    noexcept: bool,
    // the rest is only meaningful for a declared function
    access: Access,
    is_static: bool,
    is_virtual: bool,
    extern_c: bool,
    no_params: bool,
    thunk: bool,
    adjust: Option<Adjust>,
}

impl Sig {
    fn new() -> Sig {
        Sig {
            quals: 0,
            cc: None,
            refq: None,
            ret: None,
            params: None,
            variadic: false,
            noexcept: false,
            access: Access::None,
            is_static: false,
            is_virtual: false,
            extern_c: false,
            no_params: false,
            thunk: false,
            adjust: None,
        }
    }
}

#[derive(Clone, Debug)]
enum TyKind {
    Prim(&'static str),
    Func(Sig),
    Ptr { aff: Aff, class: Option<Qn>, to: Rc<Ty> },
    Tag { kind: &'static str, name: Qn },
    Array { dims: Vec<u64>, of: Rc<Ty> },
    Custom(Rc<Id>),
}

#[derive(Clone, Debug)]
struct Ty {
    quals: Quals,
    kind: TyKind,
}

#[derive(Clone, Debug)]
enum Name {
    Text(String),
    /// `symbol'::`number'
    Local(Rc<Sym>, u64),
    /// a remembered template instantiation
    Remembered(Rc<Id>),
}

#[derive(Clone, Debug)]
enum IdKind {
    Named(Name),
    Operator(Option<&'static str>),
    Literal(String),
    Conversion(Option<Rc<Ty>>),
    Structor { dtor: bool, class: Option<Rc<Id>> },
    Vcall(u64),
    DynamicVar { dtor: bool, var: Rc<Sym> },
    DynamicFn { dtor: bool, name: Qn },
    Guard { thread: bool, index: u32 },
    BaseClassDescriptor(u32, i32, u32, u32),
}

#[derive(Clone, Debug)]
struct Id {
    kind: IdKind,
    args: Option<Vec<Arg>>,
}

impl Id {
    fn text(s: impl Into<String>) -> Id {
        Id { kind: IdKind::Named(Name::Text(s.into())), args: None }
    }
    fn of(kind: IdKind) -> Id {
        Id { kind, args: None }
    }
}

type Qn = Vec<Rc<Id>>;

#[derive(Clone, Debug)]
enum Arg {
    Type(Rc<Ty>),
    Alias(Qn),
    Symbol { sym: Option<Rc<Sym>>, amp: bool, offsets: Vec<i64> },
    Int(u64, bool),
}

#[derive(Clone, Debug)]
enum Sym {
    Function { name: Option<Qn>, sig: Sig },
    Variable { name: Option<Qn>, storage: Option<char>, ty: Option<Rc<Ty>> },
    TypeName(Rc<Ty>),
    Table { name: Qn, target: Option<Qn>, quals: Quals },
    Guard { name: Qn },
    Str { prefix: &'static str, text: String, truncated: bool },
    Md5(Qn),
}

// ---------------------------------------------------------------- parser

#[derive(Clone, Default)]
struct Tables {
    names: Vec<(Rc<Id>, String)>, // what it prints, and the default text which identifies it
    params: Vec<Rc<Ty>>,
    /// where they were written, if it's them alone that was written there
    name_spans: Vec<Option<(usize, usize)>>,
    param_spans: Vec<(usize, usize)>,
}

/// A back-reference, and where what it refers to was written.
#[derive(Clone, Copy, Debug)]
pub struct Ref {
    pub at: usize,
    pub to: (usize, usize),
    pub param: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum QMode {
    Drop,
    Mangle,
    Result,
}

struct P<'a> {
    s: &'a [char],
    i: usize,
    t: Tables,
    feats: u128,
    depth: usize,
    max_depth: usize,
    nodes: usize,
    max_text: usize,
    rendered: usize,
    template_depth: usize,
    /// where the identifiers are
    spans: Vec<(usize, usize)>,
    /// what anonymous namespaces are told apart by
    keys: Vec<String>,
    refs: Vec<Ref>,
    /// the reference which refers to nothing is a parameter's
    bad_param: bool,
}

const ANON: &str = "`anonymous namespace'";
const DEPTH_CAP: usize = 1500;
const NODE_CAP: usize = 40_000;
const TEXT_CAP: usize = 3 << 20;

impl P<'_> {
    fn f(&mut self, f: F) {
        self.feats |= 1 << (f as u8);
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn next(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.i += 1;
        Some(c)
    }
    fn end(&self) -> bool {
        self.i >= self.s.len()
    }
    fn at(&self, lit: &str) -> bool {
        let mut j = self.i;
        for c in lit.chars() {
            if self.s.get(j) != Some(&c) {
                return false;
            }
            j += 1;
        }
        true
    }
    fn eat(&mut self, lit: &str) -> bool {
        let ok = self.at(lit);
        if ok {
            self.i += lit.chars().count();
        }
        ok
    }
    fn eat_any(&mut self, lits: &[&str]) -> Option<usize> {
        lits.iter().position(|l| self.eat(l))
    }
    fn need(&mut self, lit: &str) -> R<()> {
        if self.eat(lit) {
            Ok(())
        } else {
            Err(Bad::Syntax)
        }
    }
    fn digit(&self) -> Option<usize> {
        self.peek().filter(char::is_ascii_digit).map(|c| c as usize - '0' as usize)
    }
    fn node(&mut self, n: usize) -> R<()> {
        self.nodes += n;
        if self.nodes > NODE_CAP {
            Err(Bad::TooBig)
        } else {
            Ok(())
        }
    }
    fn deeper<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        if self.depth > DEPTH_CAP {
            return Err(Bad::TooBig);
        }
        let r = f(self)?;
        self.depth -= 1;
        Ok(r)
    }

    // ------------------------------------------------ symbols

    fn symbol(&mut self) -> R<Rc<Sym>> {
        self.deeper(|p| {
            if p.at(".") {
                p.type_name_symbol()
            } else if p.at("??@") {
                p.md5()
            } else {
                p.need("?")?;
                match p.special()? {
                    Some(s) => Ok(s),
                    None => p.declarator(),
                }
            }
        })
        .map(Rc::new)
    }

    fn type_name_symbol(&mut self) -> R<Sym> {
        self.need(".")?;
        let t = self.ty(QMode::Result)?;
        if !self.end() {
            return Err(Bad::Trailing);
        }
        self.node(1)?;
        Ok(Sym::TypeName(t))
    }

    fn md5(&mut self) -> R<Sym> {
        let start = self.i;
        self.need("??@")?;
        self.upto_at()?;
        self.eat("??_R4@");
        let text: String = self.s[start..self.i].iter().collect();
        self.node(4)?;
        Ok(Sym::Md5(vec![Rc::new(Id::text(text))]))
    }

    /// Skips to just behind the next '@'; the text before it.
    fn upto_at(&mut self) -> R<String> {
        let n = self.s[self.i..].iter().position(|&c| c == '@').ok_or(Bad::Syntax)?;
        let text = self.s[self.i..self.i + n].iter().collect();
        self.i += n + 1;
        Ok(text)
    }

    fn declarator(&mut self) -> R<Sym> {
        let mut name = self.symbol_name()?;
        let mut sym = match self.peek().ok_or(Bad::Syntax)? {
            '0'..='4' => self.variable()?,
            _ => {
                let sig = self.function()?;
                let last = Rc::make_mut(name.last_mut().unwrap());
                if let IdKind::Conversion(target) = &mut last.kind {
                    *target = sig.ret.clone();
                }
                Sym::Function { name: None, sig }
            }
        };
        if let IdKind::Conversion(None) = name.last().unwrap().kind {
            return Err(Bad::Structor);
        }
        match &mut sym {
            Sym::Function { name: n, .. } | Sym::Variable { name: n, .. } => *n = Some(name),
            _ => unreachable!(),
        }
        Ok(sym)
    }

    fn variable(&mut self) -> R<Sym> {
        let storage = self.next().unwrap();
        match storage {
            '0'..='2' => self.f(F::StorageStaticMember),
            '4' => self.f(F::StorageLocal),
            _ => (),
        }
        let mut ty = self.ty(QMode::Drop)?;
        let t = Rc::make_mut(&mut ty);
        if let TyKind::Ptr { class, to, .. } = &mut t.kind {
            t.quals |= self.ext_quals();
            let (q, _) = self.quals()?;
            if class.is_some() {
                self.type_name()?;
            }
            Rc::make_mut(to).add_quals(q);
        } else {
            let (q, _) = self.quals()?;
            t.set_quals(q);
        }
        self.node(1)?;
        Ok(Sym::Variable { name: None, storage: Some(storage), ty: Some(ty) })
    }

    fn function(&mut self) -> R<Sig> {
        let extern_c = self.eat("$$J0");
        let c = self.next().ok_or(Bad::Syntax)?;
        let mut sig = Sig::new();
        let mut free = false; // neither an instance nor a static member
        let mut thunk = None; // Some('s'): static adjustor, 'v': vtordisp, 'x': vtordispex
        match c {
            '9' => {
                sig.no_params = true;
                sig.extern_c = true;
            }
            'A'..='X' => {
                // Three groups of eight: private, protected, public. Within a group, pairs
                // (near/far) of: plain, static, virtual, adjustor thunk.
                let n = c as u32 - 'A' as u32;
                sig.access = [Access::Private, Access::Protected, Access::Public][n as usize / 8];
                match n % 8 / 2 {
                    0 => (),
                    1 => sig.is_static = true,
                    2 => sig.is_virtual = true,
                    _ => {
                        // private adjustors are not marked virtual
                        sig.is_virtual = sig.access != Access::Private;
                        thunk = Some('s');
                    }
                }
            }
            'Y' | 'Z' => free = true,
            '$' => {
                thunk = Some(if self.eat("R") { 'x' } else { 'v' });
                sig.access = match self.next() {
                    Some('0' | '1') => Access::Private,
                    Some('2' | '3') => Access::Protected,
                    Some('4' | '5') => Access::Public,
                    _ => return Err(Bad::Syntax),
                };
                sig.is_virtual = true;
            }
            _ => return Err(Bad::Syntax),
        }
        sig.extern_c |= extern_c;
        if extern_c || sig.no_params {
            self.f(F::ExternC);
        }
        match thunk {
            Some('s') => {
                self.f(F::Thunk);
                sig.adjust = Some(Adjust::Static(self.signed()? as u32));
            }
            Some('v') => {
                self.f(F::ThunkVtordisp);
                let disp = self.signed()? as i32;
                sig.adjust = Some(Adjust::Vtordisp(disp, self.signed()? as u32));
            }
            Some(_) => {
                self.f(F::ThunkVtordispEx);
                let a = self.signed()? as i32;
                let b = self.signed()? as i32;
                let c = self.signed()? as i32;
                sig.adjust = Some(Adjust::VtordispEx(a, b, c, self.signed()? as u32));
            }
            None => (),
        }
        sig.thunk = thunk.is_some();
        if sig.no_params {
            self.f(F::NoParamList);
            self.node(2)?;
            return Ok(sig);
        }
        let ft = self.function_type(!(free || sig.is_static))?;
        self.node(2)?;
        Ok(Sig {
            access: sig.access,
            is_static: sig.is_static,
            is_virtual: sig.is_virtual,
            extern_c: sig.extern_c,
            no_params: sig.no_params,
            thunk: sig.thunk,
            adjust: sig.adjust,
            ..ft
        })
    }

    fn function_type(&mut self, this_quals: bool) -> R<Sig> {
        let mut sig = Sig::new();
        if this_quals {
            sig.quals = self.ext_quals();
            sig.refq = match self.eat_any(&["G", "H"]) {
                Some(0) => Some(false),
                Some(_) => Some(true),
                None => None,
            };
            if sig.refq.is_some() {
                self.f(F::RefQual);
            }
            let (q, _) = self.quals()?;
            if q != 0 || sig.quals != 0 {
                self.f(F::ThisQuals);
            }
            sig.quals |= q;
        }
        sig.cc = self.calling_convention()?;
        if self.eat("@") {
            self.f(F::NoReturn);
        } else {
            sig.ret = Some(self.ty(QMode::Result)?);
        }
        if self.eat("X") {
            // void
        } else {
            let mut params = vec![];
            loop {
                match self.peek() {
                    None => return Err(Bad::Syntax),
                    Some('@') => {
                        self.i += 1;
                        break;
                    }
                    Some('Z') => {
                        self.i += 1;
                        sig.variadic = true;
                        self.f(F::Variadic);
                        break;
                    }
                    Some(c) if c.is_ascii_digit() => {
                        self.i += 1;
                        self.f(F::ParamBackref);
                        let k = c as usize - '0' as usize;
                        if let Some(&to) = self.t.param_spans.get(k) {
                            self.refs.push(Ref { at: self.i - 1, to, param: true });
                        }
                        let Some(param) = self.t.params.get(k) else {
                            self.bad_param = true;
                            return Err(Bad::Backref);
                        };
                        params.push(param.clone());
                    }
                    Some(_) => {
                        let from = self.i;
                        let t = self.ty(QMode::Drop)?;
                        if self.i - from > 1 {
                            if self.t.params.len() < 10 {
                                self.t.params.push(t.clone());
                                self.t.param_spans.push((from, self.i));
                            } else {
                                self.f(F::ParamTableFull);
                            }
                        }
                        params.push(t);
                    }
                }
            }
            if params.is_empty() {
                self.f(F::EmptyParams);
            }
            self.node(1)?;
            sig.params = Some(params);
        }
        if self.eat("_E") {
            self.f(F::Noexcept);
            sig.noexcept = true;
        } else {
            self.need("Z")?;
        }
        self.node(1)?;
        Ok(sig)
    }

    fn calling_convention(&mut self) -> R<Option<&'static str>> {
        let c = self.next().ok_or(Bad::Syntax)?;
        let cc = match c {
            'A' | 'B' => "cdecl",
            'C' | 'D' => "pascal",
            'E' | 'F' => "thiscall",
            'G' | 'H' => "stdcall",
            'I' | 'J' => "fastcall",
            'M' | 'N' => "clrcall",
            'O' | 'P' => "eabi",
            'Q' => "vectorcall",
            'S' => "swiftcall",
            'W' => "swiftasynccall",
            _ => {
                self.f(F::CcUnknown);
                return Ok(None);
            }
        };
        self.f(if cc.starts_with("swift") { F::CcSwift } else { F::CcKnown });
        Ok(Some(cc))
    }

    // ------------------------------------------------ special symbols

    fn special(&mut self) -> R<Option<Sym>> {
        const CODES: [&str; 16] = [
            "?_7", "?_8", "?_9", "?_A", "?_B", "?_C", "?_P", "?_R0", "?_R1", "?_R2", "?_R3",
            "?_R4", "?_S", "?__E", "?__F", "?__J",
        ];
        let Some(k) = self.eat_any(&CODES) else { return Ok(None) };
        let sym = match CODES[k] {
            "?_7" => self.table("`vftable'")?,
            "?_8" => self.table("`vbtable'")?,
            "?_S" => self.table("`local vftable'")?,
            "?_R4" => self.table("`RTTI Complete Object Locator'")?,
            "?_9" => {
                let mut name = self.scopes(Id::of(IdKind::Vcall(0)))?;
                self.need("$B")?;
                let off = self.unsigned()?;
                Rc::make_mut(name.last_mut().unwrap()).kind = IdKind::Vcall(off);
                self.need("A")?;
                let mut sig = Sig::new();
                sig.cc = self.calling_convention()?;
                sig.no_params = true;
                sig.thunk = true;
                self.node(2)?;
                Sym::Function { name: Some(name), sig }
            }
            "?_B" => self.guard(false)?,
            "?__J" => self.guard(true)?,
            "?_C" => self.string_literal()?,
            "?_R0" => {
                let ty = self.ty(QMode::Result)?;
                self.need("@8")?;
                if !self.end() {
                    return Err(Bad::Trailing);
                }
                self.node(4)?;
                let name = vec![Rc::new(Id::text("`RTTI Type Descriptor'"))];
                Sym::Variable { name: Some(name), storage: None, ty: Some(ty) }
            }
            "?_R1" => {
                let a = u32::try_from(self.unsigned()?).map_err(|_| Bad::Number)?;
                let b = i32::try_from(self.signed()?).map_err(|_| Bad::Number)?;
                let c = u32::try_from(self.unsigned()?).map_err(|_| Bad::Number)?;
                let d = u32::try_from(self.unsigned()?).map_err(|_| Bad::Number)?;
                let name = self.scopes(Id::of(IdKind::BaseClassDescriptor(a, b, c, d)))?;
                self.need("8")?;
                self.node(1)?;
                Sym::Variable { name: Some(name), storage: None, ty: None }
            }
            "?_R2" => self.untyped("`RTTI Base Class Array'")?,
            "?_R3" => self.untyped("`RTTI Class Hierarchy Descriptor'")?,
            "?__E" => self.dynamic(false)?,
            "?__F" => self.dynamic(true)?,
            _ => return Err(Bad::Syntax), // typeof, udt returning: not supported
        };
        Ok(Some(sym))
    }

    fn table(&mut self, what: &str) -> R<Sym> {
        let name = self.scopes(Id::text(what))?;
        if self.eat_any(&["6", "7"]).is_none() {
            return Err(Bad::Syntax);
        }
        let (quals, _) = self.quals()?;
        let target = if self.eat("@") { None } else { Some(self.type_name()?) };
        self.node(1)?;
        Ok(Sym::Table { name, target, quals })
    }

    fn guard(&mut self, thread: bool) -> R<Sym> {
        let mut name = self.scopes(Id::of(IdKind::Guard { thread, index: 0 }))?;
        if self.eat_any(&["4IA", "5"]).is_none() {
            return Err(Bad::Syntax);
        }
        if !self.end() {
            let index = u32::try_from(self.unsigned()?).map_err(|_| Bad::Number)?;
            Rc::make_mut(name.last_mut().unwrap()).kind = IdKind::Guard { thread, index };
        }
        self.node(1)?;
        Ok(Sym::Guard { name })
    }

    fn untyped(&mut self, what: &str) -> R<Sym> {
        let name = self.scopes(Id::text(what))?;
        self.need("8")?;
        self.node(1)?;
        Ok(Sym::Variable { name: Some(name), storage: None, ty: None })
    }

    fn dynamic(&mut self, dtor: bool) -> R<Sym> {
        // a template's name begins like this, too
        if self.at("?$") {
            self.f(F::InitOfTemplate);
        }
        let static_member = !self.at("?$") && self.eat("?");
        match self.declarator()? {
            var @ Sym::Variable { .. } => {
                self.need(if static_member { "@@" } else { "@" })?;
                let sig = self.function()?;
                self.node(3)?;
                let id = Id::of(IdKind::DynamicVar { dtor, var: Rc::new(var) });
                Ok(Sym::Function { name: Some(vec![Rc::new(id)]), sig })
            }
            Sym::Function { name: Some(name), sig } if !static_member => {
                self.node(3)?;
                let id = Id::of(IdKind::DynamicFn { dtor, name });
                Ok(Sym::Function { name: Some(vec![Rc::new(id)]), sig })
            }
            _ => Err(Bad::Syntax),
        }
    }

    // ------------------------------------------------ string literals

    fn string_literal(&mut self) -> R<Sym> {
        self.need("@_")?;
        let wide = match self.next() {
            Some('0') => false,
            Some('1') => true,
            _ => return Err(Bad::Str),
        };
        let (len, neg) = self.number()?;
        if neg || len < 1 + wide as u64 {
            return Err(Bad::Str);
        }
        self.upto_at()?; // checksum
        if self.end() {
            return Err(Bad::Str);
        }
        let mut text = String::new();
        let (prefix, truncated);
        if wide {
            self.f(F::StrWide);
            prefix = "L";
            truncated = len > 64;
            let mut left = len;
            while !self.eat("@") {
                let hi = self.literal_byte()?;
                let lo = self.literal_byte()?;
                if left != 2 || truncated {
                    self.escaped(&mut text, u32::from(hi) << 8 | u32::from(lo));
                }
                left = left.saturating_sub(2);
            }
        } else {
            let mut bytes = vec![];
            while !self.eat("@") {
                bytes.push(self.literal_byte()?);
                if bytes.len() > 128 {
                    return Err(Bad::Str);
                }
            }
            truncated = len > bytes.len() as u64;
            let width = unit_width(&bytes, len);
            (prefix, _) = match width {
                1 => ("", self.f(F::StrNarrow)),
                2 => ("u", self.f(F::StrChar16)),
                _ => ("U", self.f(F::StrChar32)),
            };
            let units: Vec<u32> = bytes
                .chunks_exact(width)
                .map(|c| c.iter().rev().fold(0, |a, &b| a << 8 | u32::from(b)))
                .collect();
            // the terminator isn't shown, unless it's out of sight
            let shown = if truncated { units.len() } else { units.len().saturating_sub(1) };
            for &u in &units[..shown] {
                self.escaped(&mut text, u);
            }
        }
        if truncated {
            self.f(F::StrTruncated);
        }
        self.node(1)?;
        Ok(Sym::Str { prefix, text, truncated })
    }

    fn literal_byte(&mut self) -> R<u8> {
        let byte = |c: char| u8::try_from(u32::from(c)).map_err(|_| Bad::Str);
        let c = self.next().ok_or(Bad::Str)?;
        if c != '?' {
            return byte(c);
        }
        let c = self.next().ok_or(Bad::Str)?;
        match c {
            '$' => {
                let mut v = 0;
                for _ in 0..2 {
                    match self.next() {
                        Some(c @ 'A'..='P') => v = v << 4 | (c as u8 - b'A'),
                        _ => return Err(Bad::Str),
                    }
                }
                Ok(v)
            }
            '0'..='9' => Ok(b",/\\:. \n\t'-"[c as usize - '0' as usize]),
            'a'..='z' | 'A'..='Z' => Ok(c as u8 | 0x80),
            _ => Err(Bad::Str),
        }
    }

    fn escaped(&mut self, out: &mut String, c: u32) {
        let special = match c {
            0 => "\\0",
            7 => "\\a",
            8 => "\\b",
            9 => "\\t",
            10 => "\\n",
            11 => "\\v",
            12 => "\\f",
            13 => "\\r",
            0x22 => "\\\"",
            0x27 => "\\'",
            0x5c => "\\\\",
            _ => "",
        };
        if !special.is_empty() {
            self.f(F::StrEscape);
            out.push_str(special);
        } else if c >= 0x20 && c < 0x7f {
            out.push(char::from(c as u8));
        } else {
            self.f(F::StrEscape);
            out.push_str(&format!("\\x{c:02X}"));
        }
    }

    // ------------------------------------------------ numbers

    fn number(&mut self) -> R<(u64, bool)> {
        let neg = self.eat("?");
        if neg {
            self.f(F::NumberNegative);
        }
        if let Some(d) = self.digit() {
            self.i += 1;
            self.f(F::NumberDigit);
            return Ok((d as u64 + 1, neg));
        }
        let mut v = 0u64;
        let mut digits = 0;
        loop {
            match self.next().ok_or(Bad::Number)? {
                '@' => break,
                'A'..='P' if v >= 1 << 60 => return Err(Bad::Number),
                c @ 'A'..='P' => v = v << 4 | (c as u64 - 'A' as u64),
                _ => return Err(Bad::Number),
            }
            digits += 1;
        }
        self.f(match digits {
            0 => F::NumberEmpty,
            1..=8 => F::NumberHex,
            _ => F::NumberWide,
        });
        Ok((v, neg))
    }

    fn unsigned(&mut self) -> R<u64> {
        match self.number()? {
            (v, false) => Ok(v),
            _ => Err(Bad::Number),
        }
    }

    fn signed(&mut self) -> R<i64> {
        let (v, neg) = self.number()?;
        let v = i64::try_from(v).map_err(|_| Bad::Number)?;
        Ok(if neg { -v } else { v })
    }

    // ------------------------------------------------ names

    fn remember(&mut self, id: Rc<Id>, key: String, span: Option<(usize, usize)>) -> R<()> {
        if self.t.names.iter().any(|(_, k)| *k == key) {
            self.f(F::NameDuplicate);
        } else if self.t.names.len() >= 10 {
            self.f(F::NameTableFull);
        } else {
            self.node(1)?;
            self.t.names.push((id, key));
            self.t.name_spans.push(span);
        }
        Ok(())
    }

    fn remember_id(&mut self, id: &Rc<Id>, span: Option<(usize, usize)>) -> R<()> {
        let key = self.render(|p| p.id(id))?;
        let entry = match (&id.kind, &id.args) {
            (IdKind::Named(Name::Text(_)), None) => id.clone(),
            _ => Rc::new(Id::of(IdKind::Named(Name::Remembered(id.clone())))),
        };
        self.remember(entry, key, span)
    }

    fn render(&mut self, f: impl FnOnce(&Printer) -> R<String>) -> R<String> {
        let text = f(&Printer::new(0))?;
        self.max_text = self.max_text.max(text.len());
        self.rendered += text.len();
        Ok(text)
    }

    fn simple(&mut self, remember: bool) -> R<String> {
        let from = self.i;
        let s = self.upto_at()?;
        if s.is_empty() {
            return Err(Bad::Syntax);
        }
        self.spans.push((from, from + s.chars().count()));
        if !s.is_ascii() {
            self.f(F::NonAscii);
        }
        if remember {
            let span = (!s.starts_with('?')).then_some((from, self.i));
            self.remember(Rc::new(Id::text(&s)), s.clone(), span)?;
        }
        self.node(1)?;
        Ok(s)
    }

    fn name_backref(&mut self, scope: bool) -> R<Id> {
        let k = self.digit().ok_or(Bad::Backref)?;
        self.i += 1;
        let (id, _) = self.t.names.get(k).cloned().ok_or(Bad::Backref)?;
        if let Some(to) = self.t.name_spans[k] {
            if scope || self.s[to.0..to.1].get(..2) != Some(&['?', 'A']) {
                self.refs.push(Ref { at: self.i - 1, to, param: false });
            }
        }
        self.f(match &id.kind {
            IdKind::Named(Name::Text(t)) if t == ANON => F::AnonBackref,
            IdKind::Named(Name::Text(_)) => F::NameBackref,
            _ => F::NameBackrefTemplate,
        });
        Ok((*id).clone())
    }

    fn type_name(&mut self) -> R<Qn> {
        let id = self.unqualified_type_name()?;
        self.scopes(id)
    }

    fn unqualified_type_name(&mut self) -> R<Id> {
        if self.digit().is_some() {
            self.name_backref(false)
        } else if self.at("?$") {
            self.template(true)
        } else {
            self.simple(true).map(Id::text)
        }
    }

    fn symbol_name(&mut self) -> R<Qn> {
        let id = self.unqualified_symbol_name()?;
        let mut qn = self.scopes(id)?;
        let n = qn.len();
        if let IdKind::Structor { .. } = qn[n - 1].kind {
            if n < 2 {
                return Err(Bad::Structor);
            }
            let owner = qn[n - 2].clone();
            if let IdKind::Structor { class, .. } = &mut Rc::make_mut(&mut qn[n - 1]).kind {
                *class = Some(owner);
            }
        }
        Ok(qn)
    }

    fn unqualified_symbol_name(&mut self) -> R<Id> {
        if self.digit().is_some() {
            self.name_backref(false)
        } else if self.at("?$") {
            self.template(false)
        } else if self.eat("?") {
            self.operator()
        } else {
            self.simple(true).map(Id::text)
        }
    }

    /// The enclosing scopes of a name, innermost first in the text.
    fn scopes(&mut self, id: Id) -> R<Qn> {
        let mut qn = vec![Rc::new(id)];
        self.node(2)?;
        while !self.eat("@") {
            if self.end() {
                return Err(Bad::Syntax);
            }
            let id = if self.digit().is_some() {
                self.name_backref(true)?
            } else if self.at("?$") {
                self.template(true)?
            } else if self.eat("?A") {
                self.f(F::AnonNamespace);
                let from = self.i - 2;
                let key = self.upto_at()?;
                self.keys.push(key.clone());
                self.remember(Rc::new(Id::text(ANON)), key, Some((from, self.i)))?;
                self.node(1)?;
                Id::text(ANON)
            } else if self.at_local_scope() {
                self.f(F::LocalScope);
                self.need("?")?;
                let n = self.unsigned()?;
                self.need("?")?;
                let sym = self.symbol()?;
                self.f(F::NestedSymbol);
                let id = Id::of(IdKind::Named(Name::Local(sym, n)));
                self.render(|p| p.id(&id))?;
                self.node(1)?;
                id
            } else {
                Id::text(self.simple(true)?)
            };
            qn.push(Rc::new(id));
        }
        qn.reverse();
        Ok(qn)
    }

    /// `?` digit-or-@ `?`, or `?` [B-P] [A-P]* `@?`
    fn at_local_scope(&self) -> bool {
        let r = &self.s[self.i..];
        match r {
            ['?', c, '?', ..] if *c == '@' || c.is_ascii_digit() => true,
            ['?', 'B'..='P', rest @ ..] => {
                let n = rest.iter().take_while(|c| ('A'..='P').contains(*c)).count();
                rest[n..].starts_with(&['@', '?'])
            }
            _ => false,
        }
    }

    fn operator(&mut self) -> R<Id> {
        let under = self.eat("_");
        let dunder = under && self.eat("_");
        let c = self.next().ok_or(Bad::Syntax)?;
        if !(c.is_ascii_digit() || c.is_ascii_uppercase()) {
            return Err(Bad::Syntax);
        }
        self.node(1)?;
        if !under && (c == '0' || c == '1') {
            self.f(F::Structor);
            return Ok(Id::of(IdKind::Structor { dtor: c == '1', class: None }));
        }
        if !under && c == 'B' {
            self.f(F::Conversion);
            return Ok(Id::of(IdKind::Conversion(None)));
        }
        if dunder && c == 'K' {
            self.f(F::LiteralOperator);
            return Ok(Id::of(IdKind::Literal(self.simple(false)?)));
        }
        let text = if dunder {
            double_under(c)
        } else if under {
            single_under(c)
        } else {
            basic(c)
        };
        self.f(if text.is_some() { F::Operator } else { F::UnusedOperator });
        Ok(Id::of(IdKind::Operator(text)))
    }

    // ------------------------------------------------ templates

    fn template(&mut self, as_scope: bool) -> R<Id> {
        let from = self.i;
        self.need("?$")?;
        self.deeper(|p| {
            p.f(F::Template);
            p.template_depth += 1;
            if p.template_depth > 1 {
                p.f(F::TemplateNested);
            }
            let outer = std::mem::take(&mut p.t);
            let mut id = p.unqualified_symbol_name()?;
            if !matches!(id.kind, IdKind::Named(_)) {
                p.f(F::TplOperatorName);
            }
            id.args = Some(p.template_args()?);
            p.t = outer;
            p.template_depth -= 1;
            if as_scope {
                if let IdKind::Conversion(_) | IdKind::Structor { .. } = id.kind {
                    return Err(Bad::Structor);
                }
                p.remember_id(&Rc::new(id.clone()), Some((from, p.i)))?;
            }
            Ok(id)
        })
    }

    fn template_args(&mut self) -> R<Vec<Arg>> {
        let mut args = vec![];
        while !self.eat("@") {
            if self.eat_any(&["$S", "$$V", "$$$V", "$$Z"]).is_some() {
                self.f(F::TplPack);
                continue;
            }
            if self.end() {
                return Err(Bad::Syntax);
            }
            let auto = self.eat("$M");
            if auto {
                self.f(F::TplAuto);
                self.ty(QMode::Drop)?;
            }
            let ptr: &[&str] =
                if auto { &["1", "H", "I", "J"] } else { &["$1", "$H", "$I", "$J"] };
            let data: &[&str] = if auto { &["F", "G"] } else { &["$F", "$G"] };
            let arg = if self.eat("$$Y") {
                self.f(F::TplAlias);
                Arg::Alias(self.type_name()?)
            } else if self.eat("$$B") {
                self.f(F::TplArrayParam);
                Arg::Type(self.ty(QMode::Drop)?)
            } else if self.eat("$$C") {
                self.f(F::TplQualified);
                Arg::Type(self.ty(QMode::Mangle)?)
            } else if let Some(count) = self.eat_any(ptr) {
                let sym = if self.at("?") {
                    self.f(F::TplSymbolPtr);
                    self.f(F::NestedSymbol);
                    let sym = self.symbol()?;
                    let id = match &*sym {
                        Sym::Function { name: Some(n), .. }
                        | Sym::Variable { name: Some(n), .. }
                        | Sym::Table { name: n, .. }
                        | Sym::Guard { name: n }
                        | Sym::Md5(n) => n.last().unwrap().clone(),
                        _ => return Err(Bad::Syntax),
                    };
                    // an operator has no name to refer to, and the templates of functions don't count
                    if matches!(*sym, Sym::Variable { .. }) {
                        self.remember_id(&id, None)?;
                    } else if !matches!((&*sym, &id.kind, &id.args), (Sym::Function { .. }, IdKind::Named(Name::Text(t)), None) if !t.starts_with('`')) {
                        self.f(F::TplUncounted);
                    }
                    Some(sym)
                } else {
                    self.f(F::TplNullSymbol);
                    None
                };
                let offsets = self.offsets(count)?;
                self.node(1)?;
                Arg::Symbol { sym, amp: true, offsets }
            } else if self.at("$E?") {
                self.eat("$E");
                self.f(F::TplSymbolRef);
                self.f(F::NestedSymbol);
                let sym = Some(self.symbol()?);
                self.node(1)?;
                Arg::Symbol { sym, amp: false, offsets: vec![] }
            } else if let Some(k) = self.eat_any(data) {
                let offsets = self.offsets(k + 2)?;
                self.node(1)?;
                Arg::Symbol { sym: None, amp: false, offsets }
            } else if self.eat(if auto { "0" } else { "$0" }) {
                self.f(F::TplInt);
                let (v, neg) = self.number()?;
                self.node(1)?;
                Arg::Int(v, neg)
            } else {
                Arg::Type(self.ty(QMode::Drop)?)
            };
            args.push(arg);
        }
        self.node(1)?;
        Ok(args)
    }

    fn offsets(&mut self, n: usize) -> R<Vec<i64>> {
        if n > 0 {
            self.f(F::TplMemberOffsets);
        }
        (0..n).map(|_| self.signed()).collect()
    }

    // ------------------------------------------------ types

    fn quals(&mut self) -> R<(Quals, bool)> {
        let c = self.next().ok_or(Bad::Syntax)?;
        let k = match c {
            'A'..='D' => c as u8 - b'A',
            'Q'..='T' => c as u8 - b'Q',
            _ => return Err(Bad::Syntax),
        };
        // A: none, B: const, C: volatile, D: both
        Ok((k & 3, c >= 'Q'))
    }

    fn ext_quals(&mut self) -> Quals {
        let mut q = 0;
        if self.eat("E") {
            self.f(F::ExtPtr64);
        }
        if self.eat("I") {
            self.f(F::ExtRestrict);
            q |= Q_RESTRICT;
        }
        if self.eat("F") {
            self.f(F::ExtUnaligned);
            q |= Q_UNALIGNED;
        }
        q
    }

    fn ty(&mut self, mode: QMode) -> R<Rc<Ty>> {
        self.deeper(|p| {
            let q = match mode {
                QMode::Drop => 0,
                QMode::Mangle => p.quals()?.0,
                QMode::Result => {
                    if p.eat("?") {
                        p.f(F::ReturnQuals);
                        p.quals()?.0
                    } else {
                        0
                    }
                }
            };
            let mut t = p.bare_type()?;
            t.add_quals(q);
            p.node(1)?;
            Ok(Rc::new(t))
        })
    }

    fn bare_type(&mut self) -> R<Ty> {
        let plain = |kind| Ok(Ty { quals: 0, kind });
        let c = self.peek().ok_or(Bad::Syntax)?;
        match c {
            'T' | 'U' | 'V' | 'W' => {
                self.i += 1;
                let kind = match c {
                    'T' => ("union", self.f(F::TagUnion)).0,
                    'U' => ("struct", self.f(F::TagStruct)).0,
                    'V' => ("class", self.f(F::TagClass)).0,
                    _ => {
                        self.need("4")?;
                        ("enum", self.f(F::TagEnum)).0
                    }
                };
                plain(TyKind::Tag { kind, name: self.type_name()? })
            }
            'A' | 'P' | 'Q' | 'R' | 'S' => self.pointer(),
            '$' if self.at("$$Q") => self.pointer(),
            'Y' => self.array(),
            '$' if self.eat("$$A8@@") => {
                self.f(F::FnTypeThis);
                self.function_type(true).map(Ty::from_sig)
            }
            '$' if self.eat("$$A6") => {
                self.f(F::FnType);
                self.function_type(false).map(Ty::from_sig)
            }
            '?' => {
                self.i += 1;
                self.f(F::Custom);
                let id = self.unqualified_type_name()?;
                self.need("@")?;
                plain(TyKind::Custom(Rc::new(id)))
            }
            _ => self.primitive(),
        }
    }

    fn primitive(&mut self) -> R<Ty> {
        let name = if self.eat("$$T") {
            self.f(F::Nullptr);
            "std::nullptr_t"
        } else if self.eat("_") {
            self.f(F::PrimUnder);
            match self.next() {
                Some('N') => "bool",
                Some('J') => "__int64",
                Some('K') => "unsigned __int64",
                Some('W') => "wchar_t",
                Some('Q') => "char8_t",
                Some('S') => "char16_t",
                Some('U') => "char32_t",
                Some('P') => ("auto", self.f(F::PrimAuto)).0,
                Some('T') => ("decltype(auto)", self.f(F::PrimAuto)).0,
                _ => return Err(Bad::Syntax),
            }
        } else {
            self.f(F::PrimPlain);
            match self.next() {
                Some('X') => "void",
                Some('D') => "char",
                Some('C') => "signed char",
                Some('E') => "unsigned char",
                Some('F') => "short",
                Some('G') => "unsigned short",
                Some('H') => "int",
                Some('I') => "unsigned int",
                Some('J') => "long",
                Some('K') => "unsigned long",
                Some('M') => "float",
                Some('N') => "double",
                Some('O') => "long double",
                _ => return Err(Bad::Syntax),
            }
        };
        Ok(Ty { quals: 0, kind: TyKind::Prim(name) })
    }

    fn pointer(&mut self) -> R<Ty> {
        let (mut quals, aff) = if self.eat("$$Q") {
            self.f(F::RvalueRef);
            (0, Aff::RRef)
        } else {
            match self.next().unwrap() {
                'A' => ((0, Aff::Ref), self.f(F::Reference)).0,
                c => {
                    self.f(F::Pointer);
                    ((c as u8 - b'P') & 3, Aff::Ptr)
                }
            }
        };
        // Behind a pointer, '6' is a function, '8' a member function; every other digit is
        // an error. References only take '6'.
        let is_ptr = aff == Aff::Ptr;
        if self.eat("6") {
            self.f(F::FnPtr);
            let to = Rc::new(Ty::from_sig(self.function_type(false)?));
            return Ok(Ty { quals, kind: TyKind::Ptr { aff, class: None, to } });
        }
        if is_ptr && self.eat("8") {
            self.f(F::MemberFnPtr);
            let class = self.type_name()?;
            let to = Rc::new(Ty::from_sig(self.function_type(true)?));
            return Ok(Ty { quals, kind: TyKind::Ptr { aff, class: Some(class), to } });
        }
        quals |= self.ext_quals();
        if is_ptr && matches!(self.peek(), Some('Q'..='T')) {
            self.f(F::MemberPtr);
            let (q, _) = self.quals()?;
            let class = self.type_name()?;
            let mut to = self.ty(QMode::Drop)?;
            if to.quals & !q != 0 {
                self.f(F::MemberPtrQuals);
            }
            Rc::make_mut(&mut to).add_quals(q);
            return Ok(Ty { quals, kind: TyKind::Ptr { aff, class: Some(class), to } });
        }
        let to = self.ty(QMode::Mangle)?;
        Ok(Ty { quals, kind: TyKind::Ptr { aff, class: None, to } })
    }

    fn array(&mut self) -> R<Ty> {
        self.need("Y")?;
        self.f(F::Array);
        let (rank, neg) = self.number()?;
        if neg || rank == 0 {
            return Err(Bad::Number);
        }
        let mut dims = vec![];
        for _ in 0..rank {
            dims.push(self.unsigned()?);
            self.node(1)?;
        }
        let mut quals = 0;
        if self.eat("$$C") {
            self.f(F::ArrayQuals);
            let (q, member) = self.quals()?;
            if member {
                return Err(Bad::Syntax);
            }
            quals = q;
        }
        let of = self.ty(QMode::Drop)?;
        self.node(1)?;
        Ok(Ty { quals, kind: TyKind::Array { dims, of } })
    }
}

impl Ty {
    fn from_sig(sig: Sig) -> Ty {
        Ty { quals: sig.quals, kind: TyKind::Func(sig) }
    }
    fn add_quals(&mut self, q: Quals) {
        self.set_quals(self.quals | q);
    }
    fn set_quals(&mut self, q: Quals) {
        self.quals = q;
        if let TyKind::Func(sig) = &mut self.kind {
            sig.quals = q;
        }
    }
}

/// How wide the units of a narrow literal seem to be.
fn unit_width(bytes: &[u8], len: u64) -> usize {
    if len % 2 == 1 {
        return 1;
    }
    let quad = len % 4 == 0;
    if len < 32 {
        // complete: look at the terminator
        let zeros = bytes.len() - bytes.iter().rposition(|&b| b != 0).map_or(0, |i| i + 1);
        match zeros {
            4.. if quad => 4,
            2.. => 2,
            _ => 1,
        }
    } else {
        // cut off: look at the share of zeros
        let zeros = bytes.iter().filter(|&&b| b == 0).count();
        if quad && zeros >= 2 * bytes.len() / 3 {
            4
        } else if zeros >= bytes.len() / 3 {
            2
        } else {
            1
        }
    }
}

fn basic(c: char) -> Option<&'static str> {
    Some(match c {
        '2' => "operator new",
        '3' => "operator delete",
        '4' => "operator=",
        '5' => "operator>>",
        '6' => "operator<<",
        '7' => "operator!",
        '8' => "operator==",
        '9' => "operator!=",
        'A' => "operator[]",
        'C' => "operator->",
        'D' => "operator*",
        'E' => "operator++",
        'F' => "operator--",
        'G' => "operator-",
        'H' => "operator+",
        'I' => "operator&",
        'J' => "operator->*",
        'K' => "operator/",
        'L' => "operator%",
        'M' => "operator<",
        'N' => "operator<=",
        'O' => "operator>",
        'P' => "operator>=",
        'Q' => "operator,",
        'R' => "operator()",
        'S' => "operator~",
        'T' => "operator^",
        'U' => "operator|",
        'V' => "operator&&",
        'W' => "operator||",
        'X' => "operator*=",
        'Y' => "operator+=",
        'Z' => "operator-=",
        _ => return None,
    })
}

fn single_under(c: char) -> Option<&'static str> {
    Some(match c {
        '0' => "operator/=",
        '1' => "operator%=",
        '2' => "operator>>=",
        '3' => "operator<<=",
        '4' => "operator&=",
        '5' => "operator|=",
        '6' => "operator^=",
        'D' => "`vbase dtor'",
        'E' => "`vector deleting dtor'",
        'F' => "`default constructor closure'",
        'G' => "`scalar deleting dtor'",
        'H' => "`vector ctor iterator'",
        'I' => "`vector dtor iterator'",
        'J' => "`vector vbase ctor iterator'",
        'K' => "`virtual displacement map'",
        'L' => "`eh vector ctor iterator'",
        'M' => "`eh vector dtor iterator'",
        'N' => "`eh vector vbase ctor iterator'",
        'O' => "`copy ctor closure'",
        'T' => "`local vftable ctor closure'",
        'U' => "operator new[]",
        'V' => "operator delete[]",
        _ => return None,
    })
}

fn double_under(c: char) -> Option<&'static str> {
    Some(match c {
        'A' => "`managed vector ctor iterator'",
        'B' => "`managed vector dtor iterator'",
        'C' => "`EH vector copy ctor iterator'",
        'D' => "`EH vector vbase copy ctor iterator'",
        'G' => "`vector copy ctor iterator'",
        'H' => "`vector vbase copy constructor iterator'",
        'I' => "`managed vector vbase copy constructor iterator'",
        'L' => "operator co_await",
        'M' => "operator<=>",
        _ => return None,
    })
}

// ---------------------------------------------------------------- printer

/// What goes between a type's left half and what it declares.
#[derive(Clone, Copy, PartialEq)]
enum Sep {
    No,
    IfNeeded,
}

struct Printer {
    flags: u16,
    budget: Cell<usize>,
}

fn gap(s: &mut String) {
    if s.chars().next_back().is_some_and(|c| c.is_alphanumeric() || !c.is_ascii() || matches!(c, '>' | '_' | '$')) {
        s.push(' ');
    }
}

impl Printer {
    fn new(flags: u16) -> Printer {
        Printer { flags, budget: Cell::new(24 << 20) }
    }
    fn has(&self, f: u16) -> bool {
        self.flags & f != 0
    }
    fn name_only(&self) -> bool {
        self.has(NAME_ONLY)
    }
    fn charge(&self, s: &str) -> R<()> {
        let left = self.budget.get().saturating_sub(s.len() + 1);
        self.budget.set(left);
        if left == 0 || s.len() > TEXT_CAP {
            Err(Bad::TooBig)
        } else {
            Ok(())
        }
    }

    fn cv(&self, q: Quals) -> String {
        let mut v = vec![];
        if q & Q_CONST != 0 {
            v.push("const");
        }
        if q & Q_VOLATILE != 0 {
            v.push("volatile");
        }
        if q & Q_RESTRICT != 0 && !self.has(NO_MSKW) {
            v.push(self.keyword("__restrict"));
        }
        v.join(" ")
    }

    fn keyword<'a>(&self, kw: &'a str) -> &'a str {
        if self.has(NO_UNDERSCORES) {
            kw.trim_start_matches('_')
        } else {
            kw
        }
    }

    fn cc(&self, cc: Option<&str>) -> Option<String> {
        let cc = cc?;
        if self.has(NO_CC) || self.has(NO_MSKW) {
            return None;
        }
        Some(match cc {
            "swiftcall" | "swiftasynccall" => format!("__attribute__((__{cc}__)) "),
            _ => self.keyword(&format!("__{cc}")).to_string(),
        })
    }

    /// Declares `mid` to be of type `t`.
    fn declare(&self, t: &Ty, sep: Sep, mid: &str) -> R<String> {
        let (l, r) = self.halves(t)?;
        let mut s = l;
        if sep == Sep::IfNeeded {
            gap(&mut s);
        }
        s.push_str(mid);
        s.push_str(&r);
        self.charge(&s)?;
        Ok(s)
    }

    /// What is written on the left and on the right of the declared entity.
    fn halves(&self, t: &Ty) -> R<(String, String)> {
        let tail = |q: Quals| match self.cv(q) {
            s if s.is_empty() => s,
            s => format!(" {s}"),
        };
        let r = match &t.kind {
            TyKind::Prim(name) => (format!("{name}{}", tail(t.quals)), String::new()),
            TyKind::Tag { kind, name } => {
                let mut s = String::new();
                if !self.has(NO_TAG) && !self.name_only() {
                    s = format!("{kind} ");
                }
                s.push_str(&self.qn(name)?);
                s.push_str(&tail(t.quals));
                (s, String::new())
            }
            TyKind::Custom(id) => (self.id(id)? + &tail(t.quals), String::new()),
            TyKind::Func(sig) => self.function_halves(sig, false)?,
            TyKind::Array { dims, of } => {
                let (l, r) = self.halves(of)?;
                let dims: Vec<String> = dims
                    .iter()
                    .map(|&d| if d == 0 { String::new() } else { d.to_string() })
                    .collect();
                (l + &tail(t.quals), format!("[{}]{r}", dims.join("][")))
            }
            TyKind::Ptr { aff, class, to } => {
                let (mut l, r) = match &to.kind {
                    TyKind::Func(sig) => self.function_halves(sig, true)?,
                    _ => self.halves(to)?,
                };
                gap(&mut l);
                if t.quals & Q_UNALIGNED != 0 && !self.has(NO_MSKW) {
                    l += self.keyword("__unaligned");
                    l.push(' ');
                }
                let mut close = "";
                match &to.kind {
                    TyKind::Array { .. } => {
                        l.push('(');
                        close = ")";
                    }
                    TyKind::Func(sig) => {
                        l.push('(');
                        close = ")";
                        if let Some(cc) = self.cc(sig.cc) {
                            l += cc.trim_end();
                            l.push(' ');
                        }
                    }
                    _ => (),
                }
                if let Some(class) = class {
                    l += &self.qn(class)?;
                    l += "::";
                }
                l += match aff {
                    Aff::Ptr => "*",
                    Aff::Ref => "&",
                    Aff::RRef => "&&",
                };
                l += &self.cv(t.quals);
                (l, format!("{close}{r}"))
            }
        };
        self.charge(&r.0)?;
        self.charge(&r.1)?;
        Ok(r)
    }

    fn function_halves(&self, sig: &Sig, pointee: bool) -> R<(String, String)> {
        let (ret_l, ret_r) = match &sig.ret {
            Some(t) if !self.has(NO_RET) => {
                let (l, r) = self.halves(t)?;
                (l + " ", r)
            }
            _ => Default::default(),
        };
        let mut l = String::new();
        if sig.thunk {
            l += "[thunk]: ";
        }
        if !self.has(NO_ACCESS) && !self.name_only() {
            l += match sig.access {
                Access::None => "",
                Access::Private => "private: ",
                Access::Protected => "protected: ",
                Access::Public => "public: ",
            };
        }
        if !self.has(NO_MEMBER) && !self.name_only() {
            if sig.is_static {
                l += "static ";
            }
            if sig.is_virtual {
                l += "virtual ";
            }
            if sig.extern_c {
                l += "extern \"C\" ";
            }
        }
        l += &ret_l;
        if !pointee {
            if let Some(cc) = self.cc(sig.cc) {
                gap(&mut l);
                l += &cc;
            }
        }

        let mut r = adjustor(sig);
        if !sig.no_params {
            let mut params = match &sig.params {
                None => "void".to_string(),
                Some(ps) => {
                    let mut v = vec![];
                    for p in ps {
                        v.push(self.declare(p, Sep::No, "")?);
                    }
                    v.join(", ")
                }
            };
            if sig.variadic {
                if !(params.is_empty() || params.ends_with('(')) {
                    params += ", ";
                }
                params += "...";
            }
            r += &format!("({params})");
        }
        let this = !self.has(NO_THIS);
        if this {
            for (bit, kw) in [(Q_CONST, "const"), (Q_VOLATILE, "volatile")] {
                if sig.quals & bit != 0 {
                    r += " ";
                    r += kw;
                }
            }
            if !self.has(NO_MSKW) {
                for (bit, kw) in [(Q_RESTRICT, "__restrict"), (Q_UNALIGNED, "__unaligned")] {
                    if sig.quals & bit != 0 {
                        r += " ";
                        r += self.keyword(kw);
                    }
                }
            }
        }
        if sig.noexcept {
            r += " noexcept";
        }
        if this {
            r += match sig.refq {
                None => "",
                Some(false) => " &",
                Some(true) => " &&",
            };
        }
        r += &ret_r;
        Ok((l, r))
    }

    fn qn(&self, name: &Qn) -> R<String> {
        let mut v = vec![];
        for id in name {
            v.push(self.id(id)?);
        }
        let s = v.join("::");
        self.charge(&s)?;
        Ok(s)
    }

    fn id(&self, id: &Id) -> R<String> {
        let args = match &id.args {
            None => String::new(),
            Some(args) => {
                let mut v = vec![];
                for a in args {
                    v.push(self.arg(a)?);
                }
                format!("<{}>", v.join(", "))
            }
        };
        let s = match &id.kind {
            IdKind::Named(Name::Text(s)) => format!("{s}{args}"),
            IdKind::Named(Name::Local(sym, n)) => format!("`{}'::`{n}'{args}", self.sym(sym)?),
            IdKind::Named(Name::Remembered(id)) => self.id(id)? + &args,
            IdKind::Operator(text) => format!("{}{args}", text.unwrap_or("")),
            IdKind::Literal(s) => format!("operator \"\"{s}{args}"),
            IdKind::Conversion(t) => {
                let t = match t {
                    Some(t) => self.declare(t, Sep::No, "")?,
                    None => String::new(),
                };
                format!("operator{args} {t}")
            }
            IdKind::Structor { dtor, class } => {
                let class = match class {
                    Some(c) => self.id(c)?,
                    None => String::new(),
                };
                format!("{}{class}{args}", if *dtor { "~" } else { "" })
            }
            IdKind::Vcall(n) => {
                if self.name_only() {
                    format!("`vcall'{{{n}}}")
                } else {
                    format!("`vcall'{{{n}, {{flat}}}}")
                }
            }
            IdKind::DynamicVar { dtor, var } => {
                format!("`dynamic {} for `{}''", dynamic(*dtor), self.sym(var)?)
            }
            IdKind::DynamicFn { dtor, name } => {
                format!("`dynamic {} for '{}''", dynamic(*dtor), self.qn(name)?)
            }
            IdKind::Guard { thread, index } => {
                let thread = if *thread { "thread " } else { "" };
                let index = if *index > 0 { format!("{{{index}}}") } else { String::new() };
                format!("`local static {thread}guard'{index}")
            }
            IdKind::BaseClassDescriptor(a, b, c, d) => {
                format!("`RTTI Base Class Descriptor at ({a}, {b}, {c}, {d})'")
            }
        };
        self.charge(&s)?;
        Ok(s)
    }

    fn arg(&self, a: &Arg) -> R<String> {
        Ok(match a {
            Arg::Type(t) => self.declare(t, Sep::No, "")?,
            Arg::Alias(n) => self.qn(n)?,
            Arg::Int(v, neg) => format!("{}{v}", if *neg { "-" } else { "" }),
            Arg::Symbol { sym, amp, offsets } => {
                let sym = match sym {
                    Some(s) => Some(self.sym(s)?),
                    None => None,
                };
                if offsets.is_empty() {
                    format!("{}{}", if *amp { "&" } else { "" }, sym.unwrap_or_default())
                } else {
                    let mut parts: Vec<String> = sym.into_iter().collect();
                    parts.extend(offsets.iter().map(i64::to_string));
                    format!("{{{}}}", parts.join(", "))
                }
            }
        })
    }

    fn sym(&self, sym: &Sym) -> R<String> {
        let s = match sym {
            Sym::Function { name, sig } => {
                // of a symbol that is a function, NAME_ONLY leaves just the name
                let (mut l, r) = if self.name_only() {
                    (String::new(), adjustor(sig))
                } else {
                    self.function_halves(sig, false)?
                };
                gap(&mut l);
                if let Some(name) = name {
                    l += &self.qn(name)?;
                }
                l + &r
            }
            Sym::Variable { name, storage, ty } => {
                let mut s = String::new();
                if let Some(access) = match storage {
                    Some('0') => Some("private: "),
                    Some('1') => Some("protected: "),
                    Some('2') => Some("public: "),
                    _ => None,
                } {
                    if !self.has(NO_ACCESS) && !self.name_only() {
                        s += access;
                    }
                    if !self.has(NO_MEMBER) && !self.name_only() {
                        s += "static ";
                    }
                }
                let name = match name {
                    Some(n) => self.qn(n)?,
                    None => String::new(),
                };
                match ty {
                    Some(t) if !self.has(NO_VARTYPE) && !self.name_only() => {
                        s += &self.declare(t, Sep::IfNeeded, &name)?;
                    }
                    _ => s += &name,
                }
                s
            }
            Sym::TypeName(t) => {
                let mut s = self.declare(t, Sep::No, "")?;
                if !self.name_only() {
                    gap(&mut s);
                    s += "`RTTI Type Descriptor Name'";
                }
                s
            }
            Sym::Table { name, target, quals } => {
                let mut s = String::new();
                if !self.name_only() {
                    s = self.cv(*quals);
                    if !s.is_empty() {
                        s.push(' ');
                    }
                }
                s += &self.qn(name)?;
                if let Some(t) = target {
                    s += &format!("{{for `{}'}}", self.qn(t)?);
                }
                s
            }
            Sym::Guard { name } | Sym::Md5(name) => self.qn(name)?,
            Sym::Str { prefix, text, truncated } => {
                format!("{prefix}\"{text}\"{}", if *truncated { "..." } else { "" })
            }
        };
        self.charge(&s)?;
        Ok(s)
    }
}

fn adjustor(sig: &Sig) -> String {
    match sig.adjust {
        None => String::new(),
        Some(Adjust::Static(a)) => format!("`adjustor{{{a}}}'"),
        Some(Adjust::Vtordisp(a, b)) => format!("`vtordisp{{{a}, {b}}}'"),
        Some(Adjust::VtordispEx(a, b, c, d)) => format!("`vtordispex{{{a}, {b}, {c}, {d}}}'"),
    }
}

fn dynamic(dtor: bool) -> &'static str {
    if dtor {
        "atexit destructor"
    } else {
        "initializer"
    }
}

// ---------------------------------------------------------------- interface

/// The model's reading of one input.
pub struct Parsed {
    sym: Rc<Sym>,
    pub feats: Feats,
    /// how many characters belong to the symbol; the rest is ignored
    pub consumed: usize,
    pub total: usize,
    /// measures of size, to tell ordinary inputs from hostile ones
    pub depth: usize,
    pub nodes: usize,
    pub max_text: usize,
    /// how much text the names which can be referred to have together
    pub rendered: usize,
    /// where the identifiers are, by characters
    pub spans: Vec<(usize, usize)>,
    /// what anonymous namespaces are told apart by
    pub keys: Vec<String>,
    /// the back-references which could be spelt out
    pub refs: Vec<Ref>,
}

pub struct Rejected {
    pub why: Bad,
    pub feats: Feats,
    pub at: usize,
    pub depth: usize,
    pub nodes: usize,
    pub max_text: usize,
    /// the reference which refers to nothing is a parameter's
    pub bad_param: bool,
}

pub fn parse(input: &str) -> Result<Parsed, Rejected> {
    let chars: Vec<char> = input.chars().collect();
    let mut p = P {
        s: &chars,
        i: 0,
        t: Tables::default(),
        feats: 0,
        depth: 0,
        max_depth: 0,
        nodes: 0,
        max_text: 0,
        rendered: 0,
        template_depth: 0,
        spans: vec![],
        keys: vec![],
        refs: vec![],
        bad_param: false,
    };
    match p.symbol() {
        Err(why) => Err(Rejected {
            why,
            feats: Feats(p.feats),
            at: p.i,
            depth: p.max_depth,
            nodes: p.nodes,
            max_text: p.max_text,
            bad_param: p.bad_param,
        }),
        Ok(sym) => {
            let top = match &*sym {
                Sym::Function { name: Some(n), .. } => match n.last().unwrap().kind {
                    IdKind::Vcall(_) => F::TopVcall,
                    IdKind::DynamicVar { .. } | IdKind::DynamicFn { .. } => F::TopInit,
                    _ => F::TopFunction,
                },
                Sym::Function { .. } => F::TopFunction,
                Sym::Variable { storage: Some(_), .. } => F::TopVariable,
                Sym::Variable { ty: Some(_), .. } => F::TopRttiType,
                Sym::Variable { .. } => F::TopRttiOther,
                Sym::TypeName(_) => F::TopTypeinfo,
                Sym::Table { .. } => F::TopTable,
                Sym::Guard { .. } => F::TopGuard,
                Sym::Str { .. } => F::TopString,
                Sym::Md5(_) => F::TopMd5,
            };
            p.f(top);
            if p.i < chars.len() {
                p.f(F::TrailingIgnored);
            }
            Ok(Parsed {
                sym,
                feats: Feats(p.feats),
                consumed: p.i,
                total: chars.len(),
                depth: p.max_depth,
                nodes: p.nodes,
                max_text: p.max_text,
                rendered: p.rendered,
                spans: p.spans,
                keys: p.keys,
                refs: p.refs,
            })
        }
    }
}

impl Parsed {
    /// the identifiers in `s`, the parsed string, each once
    pub fn names(&self, s: &str) -> Vec<String> {
        let chars: Vec<char> = s.chars().collect();
        let mut v: Vec<String> = vec![];
        for &(a, b) in &self.spans {
            let n: String = chars[a..b].iter().collect();
            if !v.contains(&n) {
                v.push(n);
            }
        }
        v
    }

    /// `s`, the parsed string, with the back-references spelt out, as far as they are `wanted`
    pub fn expand(&self, s: &str, wanted: &dyn Fn(&Ref) -> bool) -> Option<String> {
        let chars: Vec<char> = s.chars().collect();
        let at: HashMap<usize, &Ref> = self.refs.iter().filter(|r| wanted(r)).map(|r| (r.at, r)).collect();
        fn copy(chars: &[char], at: &HashMap<usize, &Ref>, (from, to): (usize, usize), o: &mut String) -> Option<()> {
            for i in from..to {
                match at.get(&i) {
                    Some(r) => copy(chars, at, r.to, o)?,
                    None => o.push(chars[i]),
                }
                if o.len() > 20_000 {
                    return None;
                }
            }
            Some(())
        }
        let mut o = String::new();
        copy(&chars, &at, (0, chars.len()), &mut o)?;
        Some(o)
    }

    /// `s`, the parsed string, with `names[i]` called `new[i]`
    pub fn rename(&self, s: &str, names: &[String], new: &[String]) -> String {
        let chars: Vec<char> = s.chars().collect();
        let mut spans = self.spans.clone();
        spans.sort_unstable();
        let (mut o, mut i) = (String::new(), 0);
        for (a, b) in spans {
            o.extend(&chars[i..a]);
            let n: String = chars[a..b].iter().collect();
            match names.iter().position(|k| *k == n) {
                Some(k) => o += &new[k],
                None => o += &n,
            }
            i = b;
        }
        o.extend(&chars[i..]);
        o
    }

    /// The text, or `None` if it's too long for the model to work out.
    pub fn print(&self, flags: u16) -> Option<String> {
        Printer::new(flags).sym(&self.sym).ok()
    }
}
