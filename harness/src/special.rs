//! Monitors which look at more than one call: buffers, histories, threads, processes, and an
//! independent implementation.

use crate::{
    file,
    judge::{self, Env, Out, Verdict, Violation},
    model::{self, Feats, F},
    rng::Rng,
    shm::S,
    worker::{hash, W},
};
use std::{
    collections::HashMap,
    fs,
    io::Write as _,
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Barrier,
    },
    time::{Duration, Instant},
};

// ---------------------------------------------------------------- buffers

/// A buffer as a caller may have left it.
fn used_buffer(r: &mut Rng) -> String {
    let mut b = match r.below(4) {
        0 => String::new(),
        1 if r.one_in(20) => String::with_capacity(*r.pick(&[1 << 20, (1 << 20) + 1, 3 << 20, 9 << 20])),
        1 => String::with_capacity(*r.pick(&[1, 8, 64, 4096, 65_536, 100_000])),
        _ => String::with_capacity(r.below(300)),
    };
    if r.pct(70) {
        b += *r.pick(&["x", "int __cdecl f(void)", "é中😀", "leftover ", "\0", "class ", ">", "*", "operator", "`"]);
        if r.pct(30) {
            b = b.repeat(r.range(1, 400));
        }
    }
    b
}

/// One step: the same call with a used buffer and with a fresh one.
pub fn buffer_step(env: &Env, s: &str, fl: u16, buf: &mut String) -> Result<Out, String> {
    let fresh = env.real(s, fl);
    let (cap, before) = (buf.capacity(), buf.len());
    let got = env.real_into(s, fl, buf);
    if got != fresh {
        return Err(format!("with a buffer of {before} bytes {}, instead of {}", got.show(), fresh.show()));
    }
    match got {
        Out::Text(_) => (),
        Out::Refused(_) if buf.is_empty() => (),
        Out::Refused(_) => return Err(format!("refused, but the buffer holds {}", judge::clip(buf))),
        Out::Panicked(ref e) => return Err(format!("panic: {e}")),
    }
    if buf.capacity() < cap {
        return Err(format!("the buffer's capacity of {cap} bytes became {}", buf.capacity()));
    }
    if std::str::from_utf8(buf.as_bytes()).is_err() {
        return Err("the buffer isn't valid UTF-8".into());
    }
    Ok(got)
}

pub fn buffer_once(env: &Env, r: &mut Rng, s: &str) -> Verdict {
    let mut buf = used_buffer(r);
    let fl = if r.pct(60) { 0 } else { judge::some_flags(r) };
    match buffer_step(env, s, fl, &mut buf) {
        Ok(_) => Verdict::Held(Feats(0)),
        Err(e) => Verdict::Violated(Box::new(Violation {
            kind: "buffer".into(),
            calls: vec![(s.to_string(), fl)],
            expected: "the same as with a fresh buffer; empty if refused; no capacity lost".into(),
            got: e,
        })),
    }
}

pub fn buffer_replay(env: &Env, calls: &[(String, u16)]) -> Option<String> {
    for k in 0..40 {
        let mut r = Rng::new(k);
        let mut buf = used_buffer(&mut r);
        for (s, f) in calls {
            if let Err(e) = buffer_step(env, s, *f, &mut buf) {
                return Some(e);
            }
        }
    }
    None
}

pub fn buffer(w: &mut W) {
    w.enumerate(0.4);
    let big = crate::enums::amplified().remove(0);
    while !w.over() {
        let mut buf = used_buffer(&mut w.rng);
        let mut calls: Vec<(String, u16)> = vec![];
        let n = w.rng.range(2, 30);
        w.shm.inc(S::Histories);
        for _ in 0..n {
            let s = match w.rng.below(40) {
                0 => (big.at)(w.rng.u64() % big.n),
                1..=3 if !calls.is_empty() => w.rng.pick(&calls).0.clone(),
                _ => w.make(),
            };
            match w.rng.below(12) {
                0 => buf.push_str("tail"),
                1 => buf.clear(),
                2 => buf.shrink_to_fit(),
                3 => buf.insert(0, '中'),
                _ => (),
            }
            let fl = if w.rng.pct(60) { 0 } else { judge::some_flags(&mut w.rng) };
            calls.push((s.clone(), fl));
            let r = buffer_step(&Env { shm: Some(&w.shm), prop: &w.prop }, &s, fl, &mut buf);
            w.shm.inc(S::Evaluations);
            w.shm.inc(S::Compared);
            match r {
                Ok(_) => w.held(&s, Feats(0)),
                Err(e) => {
                    w.violated(Violation {
                        kind: "buffer".into(),
                        calls,
                        expected: "the same as with a fresh buffer; empty if refused; no capacity lost".into(),
                        got: e,
                    });
                    return;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- purity

/// Runs the call with the input somewhere else in memory, between other text.
fn placed(env: &Env, r: &mut Rng, s: &str, fl: u16) -> Out {
    let pre = "?pre@@3HA".repeat(r.below(4)) + &"x".repeat(r.below(16));
    let post = *r.pick(&["", "@", "@Z", "Z", "é", "@@3HA", "0123456789", "PAH@Z"]);
    let whole = format!("{pre}{s}{post}");
    env.real(&whole[pre.len()..pre.len() + s.len()], fl)
}

fn differs(kind: &str, calls: Vec<(String, u16)>, first: &Out, now: &Out) -> Violation {
    Violation { kind: kind.into(), calls, expected: format!("as before: {}", first.show()), got: now.show() }
}

pub fn purity(w: &mut W) {
    let es = crate::props::find("C01").map(|p| (p.enums)()).unwrap_or_default();
    let any = |w: &mut W| -> String {
        for _ in 0..20 {
            let s = if w.rng.pct(60) {
                w.make()
            } else {
                let e = w.rng.pick(&es).clone();
                (e.at)(w.rng.u64() % e.n)
            };
            if s.len() < 5000 {
                return s;
            }
        }
        w.make()
    };
    let total = w.a.time;
    let mut seen: Vec<(String, u16, Out)> = vec![];
    let mut recent: Vec<(String, u16)> = vec![];
    // histories within a process
    while w.left() > total.mul_f64(0.6) && !w.over() {
        w.shm.inc(S::Evaluations);
        if seen.len() < 50 || (seen.len() < 30_000 && w.rng.pct(35)) {
            let s = match w.rng.below(6) {
                // a twin of what came right before, up to some late character
                0 if w.rng.one_in(2) && !recent.is_empty() => {
                    let a = w.rng.pick(&recent[recent.len().saturating_sub(4)..]).clone();
                    let mut c: Vec<char> = a.0.chars().collect();
                    let n = c.len();
                    for _ in 0..w.rng.range(1, 3) {
                        if n > 0 {
                            let i = n - 1 - w.rng.below(n.min(12));
                            let t = *w.rng.pick(&['A', 'H', 'N', 'X', '@', 'Z', '0', '1', 'a', 'D', 'B', '3', '2']);
                            c[i] = t;
                        }
                    }
                    c.into_iter().collect()
                }
                // close relatives of what came before, and the same with other flags
                0 | 5 if !seen.is_empty() => {
                    let a = w.rng.pick(&seen).0.clone();
                    crate::gen::mutate(&mut w.rng, &a, "?x@@3HA")
                }
                1 if !seen.is_empty() => w.rng.pick(&seen).0.clone(),
                _ => any(w),
            };
            let fl = if w.rng.pct(30) { recent.last().map_or(0, |x| x.1) } else { judge::some_flags(&mut w.rng) };
            if seen.len() > 50 && seen.iter().rev().take(300).any(|x| x.1 == fl && x.0 == s) {
                continue;
            }
            let o = Env { shm: Some(&w.shm), prop: &w.prop }.real(&s, fl);
            recent.push((s.clone(), fl));
            seen.push((s, fl, o));
        } else {
            let n = seen.len();
            let i = if w.rng.pct(50) { w.rng.below(n) } else { n - 1 - w.rng.below(n.min(40)) };
            let (s, fl, first) = seen[i].clone();
            let o = {
                let env = Env { shm: Some(&w.shm), prop: &w.prop };
                placed(&env, &mut w.rng, &s, fl)
            };
            recent.push((s.clone(), fl));
            w.shm.inc(S::Compared);
            if o != first {
                let k = recent.len().saturating_sub(2000);
                w.violated(differs("history", recent[k..].to_vec(), &first, &o));
                return;
            }
            w.held(&s, Feats(u128::from(fl)));
        }
        if recent.len() > 8000 {
            recent.drain(..4000);
        }
    }
    // threads
    while w.left() > total.mul_f64(0.35) && !w.over() {
        // many symbols, or a storm: the same few over and over, mostly of one kind
        let storm = w.rng.pct(50);
        let (n, threads) = if storm { (w.rng.range(2, 6), w.rng.range(3, 8)) } else { (w.rng.range(40, 400), w.rng.range(2, 6)) };
        let kind: String = w.rng.pick(&seen).0.chars().take(if storm && w.rng.pct(70) { w.rng.range(2, 6) } else { 0 }).collect();
        let alike: Vec<&(String, u16, Out)> = seen.iter().filter(|x| x.0.starts_with(&kind) && x.0.len() < 1500).collect();
        if alike.is_empty() {
            continue;
        }
        let items: Arc<Vec<(String, u16, Out)>> = Arc::new((0..n.min(seen.len())).map(|_| (*w.rng.pick(&alike)).clone()).collect());
        let repeats = if storm { 120 } else { 1 };
        let gate = Arc::new(Barrier::new(threads));
        w.shm.set(S::Running, 2);
        w.shm.inc(S::Histories);
        let same_order = w.rng.pct(40);
        let mut hs = vec![];
        for _ in 0..threads {
            let (items, gate, seed) = (items.clone(), gate.clone(), w.rng.u64());
            let id = w.prop.id;
            hs.push(std::thread::spawn(move || {
                let prop = crate::props::find(id).expect("a property");
                let env = Env { shm: None, prop: &prop };
                let mut r = Rng::new(seed);
                let mut order: Vec<usize> = (0..repeats).flat_map(|_| 0..items.len()).collect();
                if !same_order {
                    for i in (1..order.len()).rev() {
                        order.swap(i, r.below(i + 1));
                    }
                }
                gate.wait();
                let mut buf = String::new();
                for i in order {
                    let (s, fl, first) = &items[i];
                    let o = if i % 3 == 0 { env.real_into(s, *fl, &mut buf) } else { env.real(s, *fl) };
                    if o != *first {
                        return Err((s.clone(), *fl, first.clone(), o));
                    }
                    if r.one_in(16) {
                        std::thread::yield_now();
                    }
                }
                Ok(items.len() * repeats)
            }));
        }
        for h in hs {
            w.shm.inc(S::Threads);
            match h.join() {
                Ok(Ok(n)) => {
                    w.shm.set(S::Compared, w.shm.get(S::Compared) + n as u64);
                    w.shm.set(S::Evaluations, w.shm.get(S::Evaluations) + n as u64);
                    w.shm.set(S::NonTrivial, w.shm.get(S::NonTrivial) + n as u64);
                }
                Ok(Err((s, fl, a, b))) => {
                    w.violated(differs("threads", vec![(s, fl)], &a, &b));
                    return;
                }
                Err(_) => (),
            }
        }
        w.shm.set(S::Running, 0);
    }
    // fresh processes
    let exe = std::env::current_exe().expect("our own path");
    while !w.over() && !seen.is_empty() {
        let n = *w.rng.pick(&[1usize, 1, 3, 30, 300]);
        let items: Vec<(String, u16, Out)> = (0..n).map(|_| w.rng.pick(&seen).clone()).collect();
        let list = w.a.dir.join(format!("list.{}", w.a.shard));
        let t: String = items.iter().map(|(s, f, _)| format!("{f:x} {}\n", file::hex(s))).collect();
        fs::write(&list, t).expect("a scratch file");
        let order = w.rng.u64();
        // the very first calls of a process, made by several threads at once
        let threads = if w.rng.pct(60) { w.rng.range(2, 8) } else { 1 };
        let mut c = Command::new(&exe);
        c.arg("digest").arg(&list).arg(order.to_string()).arg(threads.to_string()).stdin(Stdio::null()).stderr(Stdio::null());
        c.env_clear();
        if w.rng.pct(50) {
            c.env("MALLOC_PERTURB_", w.rng.range(1, 255).to_string());
        }
        if w.rng.pct(50) {
            c.env("LC_ALL", *w.rng.pick(&["C", "C.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8"])).env("TZ", "Asia/Tokyo");
        }
        if w.rng.pct(30) {
            c.env("RUST_BACKTRACE", "1").env("HOME", "/nonexistent").env("PAD", "x".repeat(w.rng.below(3000)));
        }
        // what the code names may be the name of a variable
        for v in &crate::dict::get().strings {
            if w.rng.one_in(4) && !v.is_empty() && !v.contains(['=', '\0']) {
                c.env(v, *w.rng.pick(&["1", "0", "", "true", "x"]));
            }
        }
        c.current_dir(if w.rng.pct(50) { "/" } else { "/tmp" });
        let Ok(o) = c.output() else { continue };
        w.shm.inc(S::Histories);
        if threads > 1 {
            w.shm.set(S::Threads, w.shm.get(S::Threads) + threads as u64);
        }
        let mut got: HashMap<usize, Vec<u64>> = HashMap::new();
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            if let Some((i, h)) = l.split_once(' ') {
                if let (Ok(i), Ok(h)) = (i.parse(), h.parse()) {
                    got.entry(i).or_default().push(h);
                }
            }
        }
        for (i, (s, fl, first)) in items.iter().enumerate() {
            let Some(hs) = got.get(&i) else {
                w.shm.inc(S::Skipped);
                continue;
            };
            w.shm.set(S::Evaluations, w.shm.get(S::Evaluations) + hs.len() as u64);
            w.shm.set(S::Compared, w.shm.get(S::Compared) + hs.len() as u64);
            if hs.iter().any(|h| *h != digest(first)) {
                let now = Out::Refused("(another process) something else".into());
                let calls = if threads > 1 {
                    items.iter().map(|x| (x.0.clone(), x.1)).chain([(s.clone(), *fl)]).collect()
                } else {
                    let mut calls = recent.clone();
                    calls.push((s.clone(), *fl));
                    let k = calls.len().saturating_sub(2000);
                    calls[k..].to_vec()
                };
                w.violated(differs(if threads > 1 { "processes, threads" } else { "processes" }, calls, first, &now));
                return;
            }
            w.held(s, Feats(u128::from(*fl)));
        }
    }
}

pub fn digest(o: &Out) -> u64 {
    hash(&format!("{o:?}"))
}

/// What a fresh process makes of a list, in an order of its own.
/// With several threads, they all begin at once, so that whatever the crate does first it does on all of them.
pub fn digest_main(list: &str, seed: u64, threads: usize) {
    judge::quiet_panics();
    let items = Arc::new(read_list(list));
    let gate = Arc::new(AtomicUsize::new(0));
    let threads = threads.max(1);
    let one = move |t: usize, items: Arc<Vec<(u16, String)>>, gate: Arc<AtomicUsize>| {
        let prop = crate::props::find("C05").expect("a property");
        let env = Env { shm: None, prop: &prop };
        let mut order: Vec<usize> = (0..items.len()).collect();
        let mut r = Rng::new(seed ^ if seed % 2 == 0 { 0 } else { (t as u64) << 32 });
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i + 1));
        }
        // a barrier would wake them one after another
        gate.fetch_add(1, Ordering::SeqCst);
        while gate.load(Ordering::SeqCst) < threads {
            std::hint::spin_loop();
        }
        // at times some come a little later
        if t > 0 && r.pct(50) {
            for _ in 0..r.below(4000) {
                std::hint::spin_loop();
            }
        }
        order.into_iter().map(|i| (i, digest(&env.real(&items[i].1, items[i].0)))).collect::<Vec<_>>()
    };
    let got: Vec<(usize, u64)> = if threads == 1 {
        one(0, items, gate)
    } else {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (one, items, gate) = (one.clone(), items.clone(), gate.clone());
                std::thread::spawn(move || one(t, items, gate))
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
    };
    let out: String = got.iter().map(|(i, h)| format!("{i} {h}\n")).collect();
    let _ = std::io::stdout().write_all(out.as_bytes());
}

pub fn read_list(path: &str) -> Vec<(u16, String)> {
    fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let (f, h) = l.split_once(' ')?;
            Some((u16::from_str_radix(f, 16).ok()?, file::unhex(h)?))
        })
        .collect()
}

// ---------------------------------------------------------------- LLVM

const DIALECT: &[F] = &[
    F::PrimAuto, F::CcUnknown, F::TrailingIgnored, F::AnonBackref, F::MemberPtrQuals, F::InitOfTemplate,
];

/// Whether both implementations are meant to print the symbol alike.
pub fn common(s: &str) -> Option<Feats> {
    if s.is_empty() || s.len() > 4000 || !s.bytes().all(|b| b.is_ascii_graphic() || b >= 0x80) {
        return None;
    }
    let p = model::parse(s).ok()?;
    let f = p.feats;
    let nested = f.has(F::NestedSymbol) && f.any(&[F::FnPtr, F::MemberFnPtr]);
    let bytes = !s.is_ascii() && f.any(&[F::StrNarrow, F::StrWide, F::StrChar16, F::StrChar32]);
    // the convention of a function type within another one's result is left out there
    let results = f.any(&[F::FnType, F::FnTypeThis]) && (f.any(&[F::FnPtr, F::MemberFnPtr, F::TopTypeinfo, F::NestedSymbol]) || s.matches("$$A").count() > 1);
    // as are the qualifiers of a custom type
    let quals = f.has(F::Custom) && p.print(0).is_none_or(|t| t.contains("const") || t.contains("volatile"));
    let numbering = f.has(F::TplUncounted) && f.any(&[F::NameBackref, F::NameBackrefTemplate]);
    (!f.any(DIALECT) && !nested && !bytes && !results && !quals && !numbering && p.depth <= 100 && p.nodes <= 600 && p.max_text < 20_000 && judge::ordinary(&p)).then_some(f)
}

/// Differences in wording which are known and intended.
pub fn alike(t: &str) -> String {
    let t = t.replace(" `RTTI Type Descriptor Name'", "").replace("`RTTI Type Descriptor Name'", "");
    let t = t.replace("`default constructor closure", "`default ctor closure");
    let t = t.replace("swiftcall__))  ", "swiftcall__)) ").replace("swiftasynccall__))  ", "swiftasynccall__)) ");
    // hexadecimal escapes with or without leading zeros
    let mut o = String::new();
    let mut rest = t.as_str();
    while let Some(i) = rest.find("\\x") {
        o += &rest[..i + 2];
        rest = &rest[i + 2..];
        let n = rest.bytes().take_while(|b| b.is_ascii_digit() || (b'A'..=b'F').contains(b)).count();
        let d = rest[..n].trim_start_matches('0');
        if n > 0 {
            o += &format!("{d:0>2}");
        }
        rest = &rest[n..];
    }
    o += rest;
    // what's set apart from an identifier which ends in one of these
    let mut out = String::new();
    for c in o.chars() {
        if c == ' ' && out.ends_with(|x: char| x == '_' || x == '$' || !x.is_ascii()) {
            continue;
        }
        out.push(c);
    }
    out
}

/// What LLVM's demangler says about each of the symbols, if it says anything.
pub fn ask(symbols: &[String], file: &std::path::Path) -> HashMap<String, String> {
    let mut m = HashMap::new();
    if fs::write(file, symbols.join("\n") + "\n").is_err() {
        return m;
    }
    let Ok(f) = fs::File::open(file) else { return m };
    let o = Command::new("timeout").args(["-k", "1", "60", "llvm-undname"]).stdin(f).stderr(Stdio::null()).output();
    let Ok(o) = o else { return m };
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let lines: Vec<&str> = out.split('\n').collect();
    let mut i = 0;
    for s in symbols {
        while i < lines.len() && lines[i] != s {
            i += 1;
        }
        if i + 1 < lines.len() {
            m.insert(s.clone(), lines[i + 1].to_string());
            i += 2;
        }
    }
    m
}

pub fn llvm(w: &mut W) {
    let es: Vec<_> = ["C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C17", "C18"].iter().filter_map(|id| crate::props::find(id)).flat_map(|p| (p.enums)()).collect();
    let mut first = true;
    while !w.over() {
        let t0 = Instant::now();
        let mut batch: HashMap<String, Feats> = HashMap::new();
        if first {
            for (i, s) in crate::props::corpus().iter().enumerate() {
                if i as u64 % w.a.shards == w.a.shard {
                    if let Some(f) = common(s) {
                        batch.insert(s.to_string(), f);
                    }
                }
            }
            first = false;
        }
        while batch.len() < 4000 && t0.elapsed() < Duration::from_secs(3) {
            let s = if w.rng.pct(70) {
                w.make()
            } else {
                let e = w.rng.pick(&es).clone();
                (e.at)(w.rng.u64() % e.n)
            };
            match common(&s) {
                Some(f) => {
                    batch.insert(s, f);
                }
                None => w.shm.inc(S::OutOfScope),
            }
        }
        let mut symbols: Vec<String> = batch.keys().cloned().collect();
        symbols.sort();
        let said = ask(&symbols, &w.a.dir.join(format!("llvm.{}", w.a.shard)));
        for s in &symbols {
            w.shm.inc(S::Evaluations);
            let Some(t) = said.get(s) else {
                w.shm.inc(S::Skipped);
                continue;
            };
            if t.is_empty() {
                // LLVM refuses it: it's not common ground
                w.shm.inc(S::NoVerdict);
                continue;
            }
            let o = Env { shm: Some(&w.shm), prop: &w.prop }.real(s, 0);
            w.shm.inc(S::Compared);
            let same = o.text().is_some_and(|x| alike(x) == alike(t));
            if same {
                w.held(s, batch[s]);
            } else {
                w.violated(Violation {
                    kind: "llvm".into(),
                    calls: vec![(s.clone(), 0)],
                    expected: format!("LLVM's demangler: {}", judge::clip(t)),
                    got: o.show(),
                });
                return;
            }
        }
    }
}
