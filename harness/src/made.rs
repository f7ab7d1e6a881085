//! What a compiler makes up by itself, for classes, their bases and their virtual functions, and
//! for variables which are initialised when a program starts: the object file says what each of
//! these is about, and so has the text.

use crate::{
    compile::{compile_with, Compiled},
    judge::{Env, Out, Violation},
    model::{self, F},
    rng::Rng,
    shm::S,
    worker::W,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    time::{Duration, Instant},
};

const PRELUDE: &str = "\
namespace std { class type_info; }
struct G { G(int); ~G(); int x; }; struct S {}; class K {}; union U {}; enum E { e0 };
";

/// The virtual functions which a class may have: result, name and what follows the name, as
/// they're written, and as they're said.
struct Virtual(&'static str, &'static str, &'static str, &'static str, &'static str, &'static str);

const VIRTUALS: [Virtual; 10] = [
    Virtual("void", "f0", "(int)", "void ", "(int)", ""),
    Virtual("int", "f1", "() const", "int ", "(void) const", ""),
    Virtual("S &", "f2", "(K, S *) volatile", "struct S & ", "(class K, struct S *) volatile", ""),
    Virtual("void __stdcall", "f3", "(E, const char *)", "void ", "(enum E, char const *)", "__stdcall"),
    Virtual("double", "f4", "(int (*)(int), ...)", "double ", "(int (__cdecl *)(int), ...)", "__cdecl"),
    Virtual("const K *__vectorcall", "f5", "()", "class K const * ", "(void)", "__vectorcall"),
    Virtual("bool", "operator+", "(int)", "bool ", "(int)", ""),
    Virtual("void", "operator()", "(S, S)", "void ", "(struct S, struct S)", ""),
    Virtual("G &", "operator=", "(int)", "struct G & ", "(int)", ""),
    Virtual("void", "f6", "(void (*)(S), S) const volatile", "void ", "(void (__cdecl *)(struct S), struct S) const volatile", ""),
];

struct Class {
    /// how it's written
    spelt: String,
    /// what it's called, after its key
    text: String,
    key: &'static str,
    /// cannot be named elsewhere
    local: bool,
    /// which of the virtual functions it has, and who may call them
    virtuals: Vec<(usize, &'static str)>,
}

struct Variable {
    /// where its dynamic initialiser is said to be for it: in quotes of its own, unless the
    /// whole declaration is there
    qualified: Option<String>,
    name: String,
    /// what it's in, of the functions
    function: Option<String>,
}

/// A lambda: what tells it apart from others is its first parameter's type.
struct Closure {
    mark: String,
    params: String,
    quals: &'static str,
    result: &'static str,
    variadic: bool,
    place: Place,
}

enum Place {
    /// in a function of this name
    Function(String),
    /// in an extern "C" function of this full name
    Unmangled(String),
    /// in what's initialised with it, of this full name
    Variable(String),
    /// in the call of another, which this tells apart
    Closure(String),
}

struct Program<'a> {
    closures: Vec<Closure>,
    /// how a function's symbol begins, and its text
    simple: Vec<(String, String)>,
    r: &'a mut Rng,
    lines: Vec<String>,
    classes: BTreeMap<usize, Class>,
    /// pointers to virtual functions, and the class which has it
    pointers: BTreeMap<String, usize>,
    variables: Vec<Variable>,
}

impl Program<'_> {
    /// A namespace, or a few: what's before and behind it, and what it's called.
    fn space(&mut self, twice: bool) -> (String, String, String) {
        let mut s = (String::new(), String::new(), String::new());
        // no name twice: clang counts the names of variable templates among those which can be
        // referred to, unlike those of functions, before a reader knows what it is
        for _ in 0..self.r.weighted(&[40, 30, 20, 10]) {
            let n = *self.r.pick(&["n", "m", "n2", "a_very_long_name_for_a_namespace_which_is_it", "\u{df}", ""]);
            if !twice && s.0.contains(&format!(" {n} ")) {
                continue;
            }
            s.0 += &format!("namespace {n} {{ ");
            s.1 += " }";
            s.2 += if n.is_empty() { "`anonymous namespace'" } else { n };
            s.2 += "::";
        }
        s
    }
    fn spelt(text: &str) -> String {
        text.replace("`anonymous namespace'::", "")
    }
    /// An argument for a parameter: how it's written, and what it's called.
    fn argument(&mut self) -> (String, String, String) {
        let named: Vec<usize> = self.classes.iter().filter(|c| !c.1.local).map(|c| *c.0).collect();
        match self.r.below(8) {
            0 => {
                let n = *self.r.pick(&["0", "1", "9", "10", "-1", "-12", "255", "256", "65536", "-2147483647", "2147483647", "1000000"]);
                ("int".into(), n.into(), n.into())
            }
            1 => ("bool".into(), "true".into(), "1".into()),
            2 | 3 if !named.is_empty() => {
                let c = &self.classes[self.r.pick(&named)];
                ("class".into(), c.spelt.clone(), format!("{} {}", c.key, c.text))
            }
            4 if !named.is_empty() => {
                let c = &self.classes[self.r.pick(&named)];
                ("class".into(), format!("const {} *", c.spelt), format!("{} {} const *", c.key, c.text))
            }
            _ => {
                let (a, b) = *self.r.pick(&[
                    ("int", "int"), ("unsigned char", "unsigned char"), ("long long", "__int64"), ("char16_t", "char16_t"), ("S", "struct S"), ("K", "class K"),
                    ("U", "union U"), ("E", "enum E"), ("S *", "struct S *"), ("int &", "int &"), ("K **", "class K **"), ("wchar_t", "wchar_t"), ("void", "void"),
                ]);
                ("class".into(), a.into(), b.into())
            }
        }
    }
    fn arguments(&mut self) -> (String, String, String) {
        let n = 1 + self.r.skewed(4);
        let v: Vec<_> = (0..n).map(|_| self.argument()).collect();
        let join = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(", ");
        (join(&|i| format!("{} T{i}", v[i].0)), join(&|i| v[i].1.clone()), join(&|i| v[i].2.clone()))
    }

    fn class(&mut self, i: usize) {
        let key = *self.r.pick(&["struct", "class"]);
        let usable: Vec<usize> = self.classes.iter().filter(|c| !c.1.local).map(|c| *c.0).collect();
        let mut bases: Vec<usize> = vec![];
        for _ in 0..self.r.weighted(&[20, 35, 25, 15, 5]) {
            if usable.is_empty() {
                break;
            }
            // of the last ones, mostly
            let b = usable[usable.len() - 1 - self.r.skewed(usable.len() - 1)];
            if !bases.contains(&b) {
                bases.push(b);
            }
        }
        let list: Vec<String> = bases
            .iter()
            .map(|b| format!("{}{} {}", *self.r.pick(&["", "virtual "]), *self.r.pick(&["public", "public", "protected", "private"]), self.classes[b].spelt))
            .collect();
        let list = if list.is_empty() { String::new() } else { format!(" : {}", list.join(", ")) };
        let mut members = String::new();
        let mut access = if key == "class" { "private" } else { "public" };
        let mut section = |r: &mut Rng| -> (String, &'static str) {
            if r.pct(25) {
                return (String::new(), access);
            }
            access = *r.pick(&["public", "protected", "private"]);
            (format!("{access}: "), access)
        };
        let few = self.r.pct(50);
        let mut declared = vec![];
        for (k, Virtual(result, name, rest, ..)) in VIRTUALS.iter().enumerate() {
            if self.r.pct(if few { 15 } else { 50 }) {
                let (label, access) = section(self.r);
                members += &format!("{label}virtual {result} {name}{rest} {{ __builtin_trap(); }} ");
                declared.push((k, access));
            }
        }
        if self.r.pct(50) {
            members += &format!("{}virtual ~C{i}() {{}} ", section(self.r).0);
        }
        // a long table
        let many = if self.r.one_in(40) { self.r.range(20, 400) } else { 0 };
        if many > 0 {
            members += "public: ";
        }
        for k in 0..many {
            members += &format!("virtual void w{k}() {{}} ");
        }
        if self.r.pct(20) {
            members += &format!("C{i}() {{}} ");
        }
        members += *self.r.pick(&["", "int a; ", "char a; ", "double a; ", "char a[1000]; ", "int a[70000]; ", "char a[3]; S b; "]);
        let form = self.r.weighted(&[45, 15, 25, 15]);
        let (before, after, space) = self.space(true);
        let mut c = Class { spelt: String::new(), text: String::new(), key, local: false, virtuals: declared.clone() };
        let line;
        match form {
            1 => {
                let outer = *self.r.pick(&["struct", "union", "class"]);
                c.text = format!("{space}O{i}::C{i}");
                line = format!("{before}{outer} O{i} {{ public: {key} C{i}{list} {{ {members}}}; }};{after}");
            }
            2 => {
                let (params, args, text) = self.arguments();
                c.text = format!("{space}C{i}<{text}>");
                c.spelt = format!("{}C{i}<{args}>", Self::spelt(&space));
                line = format!("{before}template<{params}> {key} C{i}{list} {{ {members}}};{after} template {key} {};", c.spelt);
            }
            3 => {
                let within = self.r.below(3);
                let (a, b) = match within {
                    0 => ("", ""),
                    1 => ("{ { ", " } }"),
                    _ => ("if (k) { for (;;) { ", " } }"),
                };
                c.local = true;
                c.text = format!("`void __cdecl {space}g{i}(int)'::`*'::C{i}");
                line = format!(
                    "{before}void g{i}(int k) {{ {a}{key} C{i}{list} {{ {members}}}; static const void *q{i} = &typeid(C{i}); new C{i};{b} }}{after}"
                );
            }
            _ => {
                c.text = format!("{space}C{i}");
                line = format!("{before}{key} C{i}{list} {{ {members}}};{after}");
            }
        }
        if c.spelt.is_empty() {
            c.spelt = Self::spelt(&c.text);
        }
        self.lines.push(line);
        if !c.local {
            self.lines.push(format!("const void *q{i} = &typeid({});", c.spelt));
            self.lines.push(format!("{} *v{i} = new {};", c.spelt, c.spelt));
            self.variables.push(Variable { qualified: Some(format!("v{i}")), name: format!("v{i}"), function: None });
            for (k, _) in declared {
                self.lines.push(format!("auto m{k}_{i} = &{}::{};", c.spelt, VIRTUALS[k].1));
                self.pointers.insert(format!("?m{k}_{i}@"), i);
            }
            for _ in 0..if many > 0 { 8 } else { 0 } {
                let k = self.r.below(many);
                self.lines.push(format!("auto mw{k}_{i} = &{}::w{k};", c.spelt));
                self.pointers.insert(format!("?mw{k}_{i}@"), i);
            }
        }
        self.classes.insert(i, c);
    }

    fn variable(&mut self, i: usize) {
        let kind = self.r.below(8);
        let (before, after, space) = self.space(!matches!(kind, 4 | 5));
        let (params, args, text) = self.arguments();
        let x = format!("x{i}");
        let at = Self::spelt(&space);
        let t = *self.r.pick(&["G", "const G", "G"]);
        let line = match kind {
            0 | 1 => {
                let how = *self.r.pick(&["", "static ", "inline ", "thread_local ", "extern "]);
                let q = format!("{space}{x}");
                self.variables.push(Variable { qualified: Some(q), name: x.clone(), function: None });
                format!("{before}{how}{t} {x}({i});{after}")
            }
            2 => {
                self.variables.push(Variable { qualified: None, name: x.clone(), function: None });
                let how = *self.r.pick(&["inline", "inline thread_local"]);
                let access = *self.r.pick(&["public", "protected", "private"]);
                format!("{before}struct H{i} {{ {access}: static {how} {t} {x}{{{i}}}; }};{after}")
            }
            3 => {
                self.variables.push(Variable { qualified: None, name: x.clone(), function: None });
                format!("{before}template<{params}> class H{i} {{ {} static {t} {x}; }}; template<{params}> {t} H{i}<{}>::{x}({i});{after} template class {at}H{i}<{args}>;", self.r.pick(&["public:", ""]), names(&params))
            }
            4 => {
                self.variables.push(Variable { qualified: None, name: x.clone(), function: None });
                format!("{before}struct H{i} {{ template<{params}> static {t} {x}; }}; template<{params}> {t} H{i}::{x}({i});{after} template {t} {at}H{i}::{x}<{args}>;")
            }
            5 => {
                let q = format!("{space}{x}<{text}>");
                self.variables.push(Variable { qualified: Some(q), name: x.clone(), function: None });
                format!("{before}template<{params}> {t} {x}({i});{after} template {t} {at}{x}<{args}>;")
            }
            _ => {
                let mut body = String::new();
                let thread = self.r.one_in(4);
                let many = self.r.one_in(8);
                for k in 0..1 + if many { self.r.below(30) } else { self.r.skewed(3) } {
                    let open = if many { self.r.skewed(12) } else { self.r.below(3) };
                    body += &"{ ".repeat(open);
                    body += &format!("static {}{t} {x}_{k}(p); ", if thread { "thread_local " } else { "" });
                    body += &"} ".repeat(if self.r.one_in(2) { open } else { 0 });
                    self.variables.push(Variable { qualified: None, name: format!("{x}_{k}"), function: Some(format!("l{i}")) });
                }
                body += &"} ".repeat(body.matches('{').count() - body.matches('}').count());
                let params = *self.r.pick(&["int p", "int p, S, S", "int p, const K *, ...", "int p, U &, U &"]);
                match self.r.below(5) {
                    0 => format!("{before}struct H{i} {{ virtual int l{i}({params}) const {{ {body}return 0; }} virtual void u(); }}; void H{i}::u() {{ }}{after}"),
                    1 => format!("{before}struct H{i} {{ static K *l{i}({params}) {{ {body}return 0; }} }};{after}"),
                    2 => format!("{before}static void l{i}({params}) {{ {body}}}{after}"),
                    3 => format!("{before}template<class T> T *l{i}({params}) {{ {body}return 0; }}{after} template S *{at}l{i}<S>({});", params.replace(" p", "")),
                    _ => format!("{before}inline U &l{i}({params}) {{ {body}__builtin_trap(); }}{after}"),
                }
            }
        };
        self.lines.push(line);
    }
}

impl Program<'_> {
    /// A lambda, how it's written and with which arguments it's called.
    fn lambda(&mut self, i: usize, k: &mut usize, place: Place, captures: &str, within: usize) -> (String, String) {
        let mark = format!("M{i}_{k}");
        *k += 1;
        self.lines.push(format!("struct {mark} {{}};"));
        let (params, said, args) = *self.r.pick(&[
            ("", "", ""),
            (", int", ", int", ", 1"),
            (", const S &", ", struct S const &", ", S()"),
            (", K, U *", ", class K, union U *", ", K(), nullptr"),
            (", ...", ", ...", ""),
            (", int (*)(S)", ", int (__cdecl *)(struct S)", ", nullptr"),
            (", E, const volatile char *", ", enum E, char const volatile *", ", e0, nullptr"),
        ]);
        let (quals, said_quals) = *self.r.pick(&[("", " const"), ("", " const"), (" mutable", "")]);
        let (ret, result) = *self.r.pick(&[("", "<auto> "), ("", "<auto> "), (" -> int", ""), (" -> long", "")]);
        let first = *self.r.pick(&["*", "**", "&&", ""]);
        let (first, said_first, arg) = match first {
            "" => (mark.clone(), format!("struct {mark}"), format!("{mark}()")),
            "&&" => (format!("{mark} &&"), format!("struct {mark} &&"), format!("{mark}()")),
            f => (format!("{mark} {f}"), format!("struct {mark} {f}"), "nullptr".into()),
        };
        self.closures.push(Closure { mark: mark.clone(), params: said_first + said, quals: said_quals, result, variadic: said.contains("..."), place });
        let mut body = String::new();
        if within > 0 && self.r.one_in(3) {
            let (l, a) = self.lambda(i, k, Place::Closure(mark), "", within - 1);
            body = format!("{l}({a}); ");
        }
        (format!("[{captures}]({first}{params}){quals}{ret} {{ {body}return 0; }}"), arg + args)
    }

    fn closure(&mut self, i: usize) {
        let (before, after, space) = self.space(true);
        let mut k = 0;
        let x = format!("k{i}");
        let line = match self.r.below(8) {
            6 => {
                // without a name
                let (key, tag) = *self.r.pick(&[("struct", "struct"), ("class", "class"), ("union", "union")]);
                let (how, q) = *self.r.pick(&[("", ""), ("static ", ""), ("const ", " const")]);
                let t = format!("{space}<unnamed-type-{x}>");
                self.simple.push((format!("?f{i}@"), format!("public: int {{cc}} {t}::f{i}(struct S *){q}")));
                self.simple.push((format!("?g{i}@"), format!("public: static struct S {{cdecl}} {t}::g{i}(class K **)")));
                self.simple.push((format!("??$w{i}@"), format!("void __cdecl w{i}<{tag} {t}{q}>({tag} {t}{q} *, int)")));
                self.simple.push((format!("??$y{i}@"), format!("void __cdecl y{i}<{tag} {t}{q}>(enum {t}::E{i} *, int)")));
                self.lines.push(format!("template<class T> void w{i}(T *, int) {{ }}"));
                self.lines.push(format!("template<class T> void y{i}(typename T::E{i} *, int) {{ }}"));
                let at = format!("{}{x}", Self::spelt(&space));
                self.lines.push(format!(
                    "{before}{how}{key} {{ public: int a; int f{i}(S *){q} {{ return 0; }} static S g{i}(K **) {{ return S(); }} enum E{i} {{ e0 }}; }} {x} = {{}};{after} void z{i}() {{ {at}.f{i}(0); {at}.g{i}(0); w{i}(&{at}, 1); y{i}<decltype({at})>(0, 0); }}"
                ));
                return;
            }
            7 => {
                let (l, a) = self.lambda(i, &mut k, Place::Unmangled(format!("{space}{x}")), "p", 2);
                format!("{before}extern \"C\" void {x}(int p, S *) {{ {l}({a}); }}{after}")
            }
            0 => {
                let (l, a) = self.lambda(i, &mut k, Place::Variable(format!("{space}{x}")), "", 2);
                format!("{before}inline auto {x} = {l};{after} int c{i} = {}{x}({a});", Self::spelt(&space))
            }
            1 => {
                let (l, a) = self.lambda(i, &mut k, Place::Variable(format!("{space}H{i}::{x}")), "", 2);
                format!("{before}struct H{i} {{ int {x} = {l}({a}); H{i}() {{}} virtual void u(); }}; void H{i}::u() {{ new H{i}; }}{after}")
            }
            form => {
                let mut body = String::new();
                for _ in 0..1 + self.r.skewed(4) {
                    let open = self.r.below(3);
                    body += &"{ ".repeat(open);
                    let captures = *self.r.pick(&["", "=", "&", "p", "&p"]);
                    let (l, a) = self.lambda(i, &mut k, Place::Function(x.clone()), captures, 2);
                    body += &match self.r.below(3) {
                        0 => format!("{l}({a}); "),
                        1 => format!("auto l{k} = {l}; l{k}({a}); "),
                        _ => format!("static auto l{k} = {l}; l{k}({a}); "),
                    };
                    body += &"} ".repeat(if self.r.one_in(2) { open } else { 0 });
                }
                body += &"} ".repeat(body.matches('{').count() - body.matches('}').count());
                match form {
                    2 => format!("{before}void {x}(int p) {{ {body}}}{after}"),
                    3 => format!("{before}struct H{i} {{ virtual S *{x}(int p, S) const {{ {body}return nullptr; }} virtual void u(); }}; void H{i}::u() {{ }}{after}"),
                    4 => format!("{before}template<class T> T *{x}(int p) {{ {body}return nullptr; }}{after} template S *{}{x}<S>(int);", Self::spelt(&space)),
                    _ => format!("{before}struct O{i} {{ class H{i} {{ static K {x}(int p, const S &) {{ {body}return K(); }} void *a = (void *)&{x}; public: H{i}() {{}} }} o; }}; auto *v{i} = new O{i};{after}"),
                }
            }
        };
        self.lines.push(line);
    }
}

fn names(params: &str) -> String {
    params.split(", ").filter_map(|p| p.split(' ').nth(1)).collect::<Vec<_>>().join(", ")
}

/// What's in the object file: data and functions, with the symbols which each refers to.
struct Object {
    data: BTreeMap<String, (String, Vec<String>)>,
    code: BTreeMap<String, (Vec<String>, Vec<String>)>,
    /// the group which a nameless one is of, instead of its name
    tables: Vec<(String, Vec<String>)>,
}

/// The symbols between quotes which follow an @, and what's behind the last of them.
fn mentioned(l: &str) -> Vec<String> {
    let mut v = vec![];
    let mut rest = l;
    while let Some(at) = rest.find("@\"") {
        let Some((name, r)) = rest[at + 2..].split_once('"') else { break };
        v.extend(plain(name));
        rest = r;
    }
    v
}

fn plain(name: &str) -> Option<String> {
    let b = name.as_bytes();
    let (mut v, mut i) = (vec![], 0);
    while i < b.len() {
        let hex = (b[i] == b'\\').then(|| name.get(i + 1..i + 3)).flatten().and_then(|h| u8::from_str_radix(h, 16).ok());
        v.push(hex.unwrap_or(b[i]));
        i += if hex.is_some() { 3 } else { 1 };
    }
    if v.first() == Some(&1) {
        v.remove(0);
    }
    String::from_utf8(v).ok()
}

fn object(c: &Compiled) -> Object {
    let mut o = Object { data: BTreeMap::new(), code: BTreeMap::new(), tables: vec![] };
    let text = String::from_utf8_lossy(&c.ir);
    let mut body: Option<(String, Vec<String>, Vec<String>)> = None;
    for l in text.lines() {
        if let Some(b) = &mut body {
            if l == "}" {
                let (name, lines, refs) = body.take().unwrap();
                o.code.insert(name, (lines, refs));
                continue;
            }
            b.2.extend(mentioned(l));
            b.1.push(l.trim().to_string());
        } else if l.starts_with("define ") {
            if let Some(name) = mentioned(l).into_iter().next() {
                let head = l.split('"').next().unwrap_or_default();
                body = Some((name, vec![head.to_string()], vec![]));
            }
        } else if l.starts_with("@\"") {
            let mut m = mentioned(l);
            let name = m.remove(0);
            let value = l.split_once(" = ").map_or("", |x| x.1);
            o.data.insert(name, (value.to_string(), m));
        } else if l.starts_with('@') {
            if let Some((_, g)) = l.split_once("comdat($\"") {
                if let Some(name) = g.split_once('"').and_then(|x| plain(x.0)) {
                    o.tables.push((name, mentioned(l)));
                }
            }
        }
    }
    o
}

/// The numbers among the elements of a structure.
fn numbers(value: &str) -> Vec<i64> {
    let Some((_, inner)) = value.split_once("{ ").or_else(|| value.split_once('[').and_then(|x| x.1.split_once('['))) else { return vec![] };
    let mut v = vec![];
    let mut depth = 0;
    let mut item = String::new();
    for c in inner.chars() {
        match c {
            '(' | '[' => depth += 1,
            ')' | ']' if depth == 0 => break,
            ')' | ']' => depth -= 1,
            '}' if depth == 0 => break,
            ',' if depth == 0 => {
                v.push(std::mem::take(&mut item));
                continue;
            }
            _ => (),
        }
        item.push(c);
    }
    v.push(item);
    v.iter().filter_map(|x| x.trim().strip_prefix("i32 ")?.trim().parse().ok()).collect()
}

struct Facts<'a> {
    win64: bool,
    o: &'a Object,
    env: &'a Env<'a>,
    /// what each has to be: a text, or one of several
    facts: BTreeMap<String, Vec<String>>,
}

impl Facts<'_> {
    fn text(&self, s: &str) -> Option<String> {
        self.env.real(s, 0).text().map(str::to_string)
    }
    fn say(&mut self, symbol: &str, text: String) {
        self.facts.insert(symbol.into(), vec![text]);
    }

    fn classes(&mut self, p: &Program) {
        // what describes a class, and what it's called
        let mut described: BTreeMap<String, String> = BTreeMap::new();
        for (i, c) in &p.classes {
            let q = |n: &str| n.starts_with(&format!("?q{i}@"));
            let Some((name, (_, refs))) = self.o.data.iter().find(|d| q(d.0)) else { continue };
            let Some(r0) = refs.iter().find(|r| r.starts_with("??_R0")) else { continue };
            let mut text = c.text.clone();
            if c.local {
                let Some(n) = scope(name) else { continue };
                text = text.replace("`*'", &format!("`{n}'"));
            }
            self.say(r0, format!("{} {text} `RTTI Type Descriptor'", c.key));
            if let Some((value, _)) = self.o.data.get(r0) {
                if let Some((name, _)) = value.split_once(" c\"").and_then(|x| x.1.split_once("\\00\"")) {
                    if let Some(name) = plain(name) {
                        self.say(&name, format!("{} {text} `RTTI Type Descriptor Name'", c.key));
                    }
                }
            }
            self.functions(*i, c, &text);
            described.insert(r0.clone(), text);
        }
        // those which the program couldn't name are known by their own text
        for r0 in self.o.data.keys().filter(|s| s.starts_with("??_R0")) {
            if described.contains_key(r0) {
                continue;
            }
            let Some(t) = self.text(r0) else { continue };
            if let Some((_, t)) = t.strip_suffix(" `RTTI Type Descriptor'").and_then(|t| t.split_once(' ')) {
                described.insert(r0.clone(), t.to_string());
            }
        }
        let first = |refs: &[String], kind: &str| refs.iter().find(|r| r.starts_with(kind)).cloned();
        // of the hierarchy
        let mut arrays: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (s, (_, refs)) in self.o.data.iter().filter(|d| d.0.starts_with("??_R2")) {
            arrays.insert(s.clone(), refs.iter().filter(|r| r.starts_with("??_R1")).cloned().collect());
        }
        let class_of = |s: &str| -> Option<String> {
            let (_, refs) = self.o.data.get(s)?;
            match &s[..5] {
                "??_R1" | "??_R4" => described.get(&first(refs, "??_R0")?).cloned(),
                "??_R2" => {
                    let (_, refs) = self.o.data.get(refs.first()?)?;
                    described.get(&first(refs, "??_R0")?).cloned()
                }
                _ => None,
            }
        };
        let mut said: Vec<(String, Vec<String>)> = vec![];
        let mut named: Vec<(String, String)> = vec![];
        for (s, (value, refs)) in &self.o.data {
            if s.starts_with("??_R1") {
                let (Some(c), n) = (class_of(s), numbers(value)) else { continue };
                // number of bases, offsets, attributes
                if let [.., a, b, v, f] = n[..] {
                    said.push((s.clone(), vec![format!("{c}::`RTTI Base Class Descriptor at ({a}, {b}, {v}, {f})'")]));
                }
            } else if s.starts_with("??_R2") {
                let Some(c) = class_of(s) else { continue };
                said.push((s.clone(), vec![format!("{c}::`RTTI Base Class Array'")]));
            } else if s.starts_with("??_R3") {
                let Some(c) = first(refs, "??_R2").and_then(|a| class_of(&a)) else { continue };
                if let Some(cls) = s[5..].strip_suffix('8') {
                    named.push((cls.into(), c.clone()));
                }
                said.push((s.clone(), vec![format!("{c}::`RTTI Class Hierarchy Descriptor'")]));
            }
        }
        for (s, (value, refs)) in &self.o.data {
            if s.starts_with("??_R4") {
                // for which of the bases, says its place in the object
                let Some(c) = class_of(s) else { continue };
                let plain = format!("const {c}::`RTTI Complete Object Locator'");
                let bare = s.ends_with("6B@");
                let Some(r1s) = first(refs, "??_R3").and_then(|r| self.o.data.get(&r)).and_then(|r| first(&r.1, "??_R2")).and_then(|a| arrays.get(&a)) else { continue };
                let Some(&at) = numbers(value).get(1) else { continue };
                let vb: Vec<&(String, Vec<String>)> = self.o.data.iter().filter(|d| d.0.strip_prefix("??_8").is_some_and(|r| named.iter().any(|n| n.1 == c && r.strip_prefix(n.0.as_str()).is_some_and(|x| x.starts_with("7B"))))).map(|d| d.1).collect();
                // how many bases each has among those which follow, and whether it's there
                let mut v: Vec<(String, usize, bool)> = vec![];
                for r1 in r1s {
                    let (Some(b), Some((value, _))) = (class_of(r1), self.o.data.get(r1)) else { continue };
                    let [below, m, ptr, index, _] = numbers(value)[..] else { continue };
                    let place = match (ptr, &vb[..]) {
                        (-1, _) => m,
                        (_, [one]) => numbers(&one.0).get(index as usize / 4).map_or(at, |x| ptr + x + m),
                        // of several tables
                        _ => at,
                    };
                    v.push((b, below as usize, place == at));
                }
                // a base, or one which has that
                let v = (0..v.len()).filter(|&i| v[i..].iter().take(v[i].1 + 1).any(|x| x.2)).map(|i| format!("{plain}{{for `{}'}}", v[i].0)).collect();
                said.push((s.clone(), if bare { vec![plain] } else { v }));
            } else if let Some(rest) = s.strip_prefix("??_8") {
                let Some((_, c)) = named.iter().find(|n| rest.strip_prefix(n.0.as_str()).is_some_and(|x| x.starts_with("7B"))) else { continue };
                let mut v = vec![format!("const {c}::`vbtable'")];
                if !s.ends_with("7B@") {
                    // for one of its bases
                    let Some(r1s) = arrays.iter().find(|a| class_of(a.0).as_deref() == Some(c)).map(|a| a.1) else { continue };
                    v = r1s.iter().filter_map(|r| class_of(r)).map(|b| format!("{}{{for `{b}'}}", v[0])).collect();
                }
                said.push((s.clone(), v));
            }
        }
        for (s, refs) in self.o.tables.iter().filter(|t| t.0.starts_with("??_7")) {
            // the same as what's in front of it says
            if let Some(t) = first(refs, "??_R4").and_then(|r| said.iter().find(|x| x.0 == r).cloned()) {
                said.push((s.clone(), t.1.iter().map(|t| t.replace("`RTTI Complete Object Locator'", "`vftable'")).collect()));
            }
        }
        for (s, t) in said {
            self.facts.insert(s, t);
        }
        // calls by way of a table
        for (start, i) in &p.pointers {
            let Some((_, (_, refs))) = self.o.data.iter().find(|d| d.0.starts_with(start.as_str())) else { continue };
            let Some(s) = first(refs, "??_9") else { continue };
            let Some((lines, _)) = self.o.code.get(&s) else { continue };
            let win64 = lines.iter().any(|l| l.starts_with("store ptr ") && l.ends_with("align 8"));
            let Some(n) = lines.iter().find_map(|l| l.split_once("getelementptr inbounds ptr, ptr %")?.1.split_once(", i64 ")?.1.parse::<i64>().ok()) else { continue };
            let ccs = [("x86_thiscallcc", "__thiscall"), ("x86_stdcallcc", "__stdcall"), ("x86_vectorcallcc", "__vectorcall"), ("x86_fastcallcc", "__fastcall")];
            let cc = ccs.iter().find(|c| lines[0].contains(c.0)).map_or("__cdecl", |c| c.1);
            let n = n * if win64 { 8 } else { 4 };
            self.say(&s, format!("[thunk]: {cc} {}::`vcall'{{{n}, {{flat}}}}", p.classes[i].text));
        }
    }

    /// The virtual functions of a class, and its destructors.
    fn functions(&mut self, i: usize, c: &Class, text: &str) {
        let starts = |name: &str| [format!("{name}C{i}@"), format!("{name}?$C{i}@")];
        let cc = if self.win64 { "__cdecl" } else { "__thiscall" };
        let find = |name: &str, what: &str| {
            let s = starts(name);
            self.o.code.iter().find(|x| s.iter().any(|s| x.0.starts_with(s.as_str())) && x.1 .0.iter().any(|l| l.contains(what))).map(|x| x.0.clone())
        };
        let mut said = vec![];
        for (k, access) in &c.virtuals {
            let Virtual(_, name, _, result, rest, own) = &VIRTUALS[*k];
            let code = match *name {
                "operator+" => "??H".to_string(),
                "operator()" => "??R".to_string(),
                "operator=" => "??4".to_string(),
                n => format!("?{n}@"),
            };
            let own = match *own {
                "" => cc,
                "__stdcall" if self.win64 => cc,
                x => x,
            };
            // which isn't one which only goes on to this
            if let Some(s) = find(&code, "@llvm.trap") {
                said.push((s, format!("{access}: virtual {result}{own} {text}::{name}{rest}")));
            }
        }
        let class = match text.rfind(&format!("C{i}")) {
            Some(at) if !c.local => &text[at..],
            _ => "",
        };
        if let (Some(d), false) = (find("??1", ""), class.is_empty()) {
            let of = format!(" {cc} {text}::~{class}(void)");
            if let Some(before) = self.text(&d).and_then(|t| t.strip_suffix(&of).map(str::to_string)) {
                let access = before.split(':').next().unwrap_or_default();
                said.push((d, format!("{before}{of}")));
                if let (Some(s), true) = (find("??_G", ""), before.ends_with(": virtual")) {
                    said.push((s, format!("{before} void * {cc} {text}::`scalar deleting dtor'(unsigned int)")));
                }
                if let Some(s) = find("??_D", "") {
                    said.push((s, format!("{access}: void {cc} {text}::`vbase dtor'(void)")));
                }
            } else {
                said.push((d, format!("(some access):{of}")));
            }
        }
        for (s, t) in said {
            self.say(&s, t);
        }
    }

    /// What adjusts `this` and goes on to another function.
    fn thunks(&mut self) {
        let mut said = vec![];
        for (s, (lines, refs)) in &self.o.code {
            let Some(target) = refs.last().filter(|t| *t != s) else { continue };
            if lines.iter().any(|l| l.starts_with("br ") || l.starts_with("invoke ")) || !lines.iter().any(|l| l.contains("tail call")) || refs.len() != 1 || s.starts_with("??_9") {
                continue;
            }
            let offset = |l: &String| l.split_once("getelementptr inbounds i8, ptr %").or_else(|| l.split_once("getelementptr i8, ptr %")).and_then(|x| x.1.split_once(", i").map(|x| x.1.to_string()));
            let offsets: Vec<i64> = lines.iter().filter_map(offset).filter_map(|x| x.split_once(' ')?.1.parse().ok()).collect();
            let displaced = lines.iter().any(|l| l.contains(" = sub i32 0, %"));
            let index = lines.iter().find_map(|l| l.split_once("getelementptr inbounds i32, ptr %")?.1.split_once(", i32 ")?.1.parse::<i64>().ok());
            // the last of the numbers has no sign
            let how = match (displaced, &offsets[..]) {
                (true, [a, b, rest @ ..]) if index.is_some() && rest.len() < 2 => {
                    format!("`vtordispex{{{}, {}, {a}, {}}}'", -b, index.unwrap() * 4, *rest.first().unwrap_or(&0) as u32)
                }
                _ if index.is_some() => continue,
                (true, [a]) => format!("`vtordisp{{{a}, 0}}'"),
                (true, [a, b]) => format!("`vtordisp{{{a}, {}}}'", -b as u32),
                (false, [a]) => format!("`adjustor{{{}}}'", -a as u32),
                _ => continue,
            };
            let Some(t) = self.text(target) else { continue };
            let t = if s.starts_with("??_E") { t.replace("`scalar deleting dtor'", "`vector deleting dtor'") } else { t };
            // behind the name
            let name = VIRTUALS.iter().map(|v| v.1).chain(["`vector deleting dtor'"]).find_map(|n| t.find(&format!("::{n}(")).map(|i| i + 2 + n.len()));
            if let Some(i) = name {
                let t = format!("{}{how}{}", &t[..i], &t[i..]);
                // of the private ones, those which only adjust aren't said to be virtual
                // (the repository's tests want it so)
                let t = if displaced { t } else { t.replacen("private: virtual ", "private: ", 1) };
                said.push((s.clone(), format!("[thunk]: {t}")));
            }
        }
        for (s, t) in said {
            self.say(&s, t);
        }
    }

    fn variables(&mut self, p: &Program) {
        for v in &p.variables {
            let (a, b) = (format!("?{}@", v.name), format!("??${}@", v.name));
            let Some(symbol) = self.o.data.keys().find(|s| s.starts_with(&a) || s.starts_with(&b)).cloned() else { continue };
            let Some(text) = self.text(&symbol) else { continue };
            let mut quoted = match &v.qualified {
                Some(q) => format!("'{q}'"),
                None => format!("`{text}'"),
            };
            if let Some(f) = &v.function {
                // in which function, and where in it
                let (a, b) = (format!("?{f}@"), format!("??${f}@"));
                let Some(function) = self.o.code.keys().find(|s| s.starts_with(&a) || s.starts_with(&b)).cloned() else { continue };
                let (Some(of), Some(n)) = (self.text(&function), scope(&symbol)) else { continue };
                let path = format!("`{of}'::`{n}'::");
                let t = if symbol.ends_with('A') { "struct G" } else { "struct G const" };
                self.say(&symbol, format!("{t} {path}{}", v.name));
                quoted = format!("'{path}{}'", v.name);
                self.guards(&function, &of);
            }
            let mut said = vec![];
            for (s, (_, refs)) in &self.o.code {
                let what = match s.get(..5) {
                    Some("??__E") => "initializer",
                    Some("??__F") => "atexit destructor",
                    _ => continue,
                };
                if refs.contains(&symbol) {
                    said.push((s.clone(), format!("void __cdecl `dynamic {what} for {quoted}'(void)")));
                }
            }
            for (s, t) in said {
                self.say(&s, t);
            }
        }
    }

    /// The calls of lambdas.
    fn closures(&mut self, p: &Program) {
        let find = |mark: &str| {
            let name = format!("{mark}@");
            self.o.code.keys().find(|s| s.starts_with("??R<lambda_") && s.contains(&name) && p.closures.iter().filter(|c| s.contains(&format!("{}@", c.mark))).count() == 1).cloned()
        };
        let mut said = vec![];
        for c in &p.closures {
            let Some(s) = find(&c.mark) else { continue };
            let Some((name, _)) = s[3..].split_once('@') else { continue };
            let of = |f: Option<String>| Some(format!("`{}'::`{}'", self.text(&f?)?, scope(&s)?));
            let place = match &c.place {
                Place::Variable(v) => v.clone(),
                Place::Unmangled(v) => match scope(&s) {
                    Some(n) => format!("`extern \"C\" {v}'::`{n}'"),
                    None => continue,
                },
                Place::Closure(mark) => match of(find(mark)) {
                    Some(x) => x,
                    None => continue,
                },
                Place::Function(f) => {
                    let (a, b) = (format!("?{f}@"), format!("??${f}@"));
                    match of(self.o.code.keys().find(|s| s.starts_with(&a) || s.starts_with(&b)).cloned()) {
                        Some(x) => x,
                        None => continue,
                    }
                }
            };
            let cc = if self.win64 || c.variadic { "__cdecl" } else { "__thiscall" };
            said.push((s.clone(), format!("public: {}{cc} {place}::{name}::operator()({}){}", c.result, c.params, c.quals)));
        }
        for (start, text) in &p.simple {
            if let Some(s) = self.o.code.keys().find(|s| s.starts_with(start)) {
                said.push((s.clone(), text.replace("{cc}", if self.win64 { "__cdecl" } else { "__thiscall" }).replace("{cdecl}", "__cdecl")));
            }
        }
        for (s, t) in said {
            self.say(&s, t);
        }
    }

    /// What keeps the variables of a function from being initialised twice.
    fn guards(&mut self, function: &str, of: &str) {
        let refs = &self.o.code[function].1;
        let mut seen = BTreeSet::new();
        let guards: Vec<String> = refs.iter().filter(|r| ["?$TSS", "??__J", "??_B", "?$S1@"].iter().any(|g| r.starts_with(g)) && seen.insert(r.to_string())).cloned().collect();
        let mut seen = BTreeSet::new();
        let vars: Vec<String> = refs.iter().filter(|r| r.starts_with("?x") && self.o.data.contains_key(*r) && seen.insert(r.to_string())).cloned().collect();
        for (k, g) in guards.iter().enumerate() {
            let of_all = !g.starts_with("?$TSS");
            let Some(n) = vars.get(if of_all { 0 } else { k }).and_then(|v| scope(v)) else { continue };
            // clang doesn't count the names of these among those which can be referred to, while
            // whoever reads them cannot tell
            if g.starts_with("?$") && model::parse(function).is_ok_and(|p| p.feats.any(&[F::NameBackref, F::NameBackrefTemplate, F::AnonBackref])) {
                continue;
            }
            let path = format!("`{of}'::`{n}'::");
            let text = match &g[..4] {
                "?$TS" => format!("int {path}$TSS{k}"),
                "?$S1" => format!("unsigned int {path}$S1"),
                "??_B" => format!("{path}`local static guard'{{{n}}}"),
                _ => format!("{path}`local static thread guard'{{{n}}}"),
            };
            self.say(g, text);
        }
    }
}

/// The number of the scope in a function which a symbol is in.
fn scope(symbol: &str) -> Option<u64> {
    let rest = symbol.split_once("@?")?.1;
    let (n, _) = rest.split_once('?')?;
    match n.strip_suffix('@') {
        Some(hex) => hex.bytes().try_fold(0, |a, b| b.is_ascii_uppercase().then(|| a * 16 + u64::from(b - b'A'))),
        None => n.parse::<u64>().ok().map(|n| n + 1),
    }
}

/// Longer ones may exceed the demangler's own limits.
const LONGEST: usize = 1200;

pub fn monitor(w: &mut W) {
    let dir = w.a.dir.clone();
    let tag = format!("made{}", w.a.shard);
    let mut last = Duration::ZERO;
    while !w.over() && w.left() > last {
        let t0 = Instant::now();
        let (win64, safe) = (w.rng.one_in(2), w.rng.pct(70));
        let (classes, variables) = (w.rng.range(3, 24), w.rng.range(3, 24));
        let closures = w.rng.range(1, 10);
        let mut p = Program { closures: vec![], simple: vec![], r: &mut w.rng, lines: vec![], classes: BTreeMap::new(), pointers: BTreeMap::new(), variables: vec![] };
        for i in 0..classes {
            p.class(i);
        }
        for i in 0..variables {
            p.variable(100 + i);
        }
        for i in 0..closures {
            p.closure(200 + i);
        }
        let mut lines = std::mem::take(&mut p.lines);
        let more: &[&str] = if safe { &["-fcxx-exceptions", "-fexceptions"] } else { &["-fno-threadsafe-statics"] };
        let mut done = None;
        for _ in 0..12 {
            let Some(c) = compile_with(&dir, &tag, win64, PRELUDE, &lines, more) else { break };
            if c.ok {
                done = Some(c);
                break;
            }
            if c.errors.is_empty() {
                break;
            }
            if std::env::var_os("UNDMON_SHOW").is_some() {
                for (n, e) in &c.errors {
                    eprintln!("{e}\n    {}", lines.get(*n).map_or("", |l| l));
                }
            }
            let mut k = 0;
            lines.retain(|_| {
                k += 1;
                !c.errors.contains_key(&(k - 1))
            });
        }
        let Some(c) = done else {
            w.shm.inc(S::Skipped);
            continue;
        };
        w.shm.inc(S::Histories);
        let o = object(&c);
        let env = Env { shm: Some(&w.shm), prop: &w.prop };
        let mut f = Facts { win64, o: &o, env: &env, facts: BTreeMap::new() };
        f.classes(&p);
        f.thunks();
        f.variables(&p);
        f.closures(&p);
        let mut facts = f.facts;
        // of the others, it's enough that there is a text
        for s in o.data.keys().chain(o.code.keys()).chain(o.tables.iter().map(|t| &t.0)) {
            if s.starts_with('?') && !facts.contains_key(s) {
                facts.insert(s.clone(), vec![]);
            }
        }
        for (s, t) in facts {
            // clang doesn't count unnamed namespaces among the names which can be referred to
            // (Microsoft's compiler does)
            let feats = model::parse(&s).map_or_else(|r| r.feats, |p| p.feats);
            let quirk = s.contains("?A0x") && feats.any(&[F::NameBackref, F::NameBackrefTemplate, F::AnonBackref]);
            if s.len() > LONGEST || quirk {
                w.shm.inc(S::OutOfScope);
                continue;
            }
            w.shm.inc(S::Evaluations);
            if let Some(got) = wrong(&Env { shm: Some(&w.shm), prop: &w.prop }, &s, &t) {
                let expected = if t.is_empty() { ANY.to_string() } else { t.join(OR) };
                w.violated(Violation { kind: "made".into(), calls: vec![(s, 0)], expected, got });
                if w.violations > 0 {
                    return;
                }
                continue;
            }
            if t.is_empty() {
                w.shm.inc(S::NoVerdict);
            } else {
                w.shm.inc(S::Compared);
                w.held(&s, feats);
            }
        }
        last = t0.elapsed();
    }
}

const ANY: &str = "some text";
const OR: &str = " or ";

fn wrong(env: &Env, s: &str, texts: &[String]) -> Option<String> {
    match env.real(s, 0) {
        Out::Text(t) if texts.is_empty() || texts.contains(&t) => None,
        o => Some(o.show()),
    }
}

pub fn replay(env: &Env, s: &str, expected: &str) -> Option<String> {
    let texts: Vec<String> = if expected == ANY { vec![] } else { expected.split(OR).map(str::to_string).collect() };
    wrong(env, s, &texts).map(|g| format!("{g} instead of {expected}"))
}
