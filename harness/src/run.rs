//! Supervises the workers of a check, confirms what they report, and writes the evidence.

use crate::{
    compile,
    file::{self, Replay},
    judge::{self, Env, Verdict, Violation},
    model::Feats,
    props::{self, Kind, Prop},
    shm::{Shm, S},
    special,
    worker::EXIT_VIOLATION,
};
use std::{
    collections::{BTreeMap, HashSet},
    fs,
    os::unix::process::ExitStatusExt as _,
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    time::{Duration, Instant},
};

fn verif() -> PathBuf {
    std::env::var("UNDMON_VERIF").unwrap_or_else(|_| "/verif".into()).into()
}

struct Work {
    child: Child,
    exe: PathBuf,
    shm: Shm,
    shard: u64,
    seq: u64,
    cpu_at_seq: f64,
    wall_at_seq: Instant,
    restarts: u32,
    done: bool,
}

pub struct Run {
    prop: Prop,
    tier: &'static str,
    seed: u64,
    dir: PathBuf,
    time: Duration,
    exes: Vec<PathBuf>,
    pub shards: u64,
    found: Vec<Replay>,
    trouble: Vec<String>,
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn ticks(pid: u32) -> f64 {
    // our own child
    let t = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let Some((_, rest)) = t.rsplit_once(')') else { return 0.0 };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

/// How long a call may keep a worker before it counts as hanging: CPU seconds.
fn patience(exe: &Path) -> f64 {
    if exe.to_string_lossy().contains("debug") {
        150.0
    } else {
        40.0
    }
}

impl Run {
    fn spawn(&self, shard: u64, exe: &Path, seed: u64, time: Duration) -> std::io::Result<Child> {
        Command::new(exe)
            .args(["worker", self.prop.id])
            .arg(shard.to_string())
            .arg(self.shards.to_string())
            .arg(seed.to_string())
            .arg(time.as_millis().to_string())
            .arg(&self.dir)
            .arg(self.tier)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::from(fs::File::create(self.dir.join(format!("stderr.{shard}")))?))
            .spawn()
    }

    /// Runs the workers to their end, or to the first confirmed violation.
    fn workers(&mut self) {
        let mut ws: Vec<Work> = vec![];
        for shard in 0..self.shards {
            let exe = self.exes[shard as usize % self.exes.len()].clone();
            let shm = Shm::open(&self.dir.join(format!("{shard}.shm")));
            match self.spawn(shard, &exe, self.seed, self.time) {
                Ok(child) => ws.push(Work {
                    child,
                    exe,
                    shm,
                    shard,
                    seq: 0,
                    cpu_at_seq: 0.0,
                    wall_at_seq: Instant::now(),
                    restarts: 0,
                    done: false,
                }),
                Err(e) => self.trouble.push(format!("worker {shard}: {e}")),
            }
        }
        let begun = Instant::now();
        while ws.iter().any(|w| !w.done) && self.found.is_empty() {
            std::thread::sleep(Duration::from_millis(40));
            for w in ws.iter_mut().filter(|w| !w.done) {
                // one will do, if they take long
                if !self.found.is_empty() && begun.elapsed() > self.time + Duration::from_secs(30) {
                    break;
                }
                match w.child.try_wait() {
                    Ok(Some(st)) => {
                        w.done = true;
                        if st.code() == Some(0) {
                        } else if st.code() == Some(EXIT_VIOLATION) {
                            self.collect(w.shard);
                        } else {
                            self.died(w, st);
                        }
                    }
                    Ok(None) => {
                        let seq = w.shm.get(S::Seq);
                        if seq != w.seq || w.shm.get(S::Running) == 0 {
                            w.seq = seq;
                            w.cpu_at_seq = ticks(w.child.id());
                            w.wall_at_seq = Instant::now();
                        } else if w.wall_at_seq.elapsed() > Duration::from_secs(15) {
                            let spent = ticks(w.child.id()) - w.cpu_at_seq;
                            let idle = w.wall_at_seq.elapsed() > Duration::from_secs(240);
                            if spent > patience(&w.exe) || idle {
                                let _ = w.child.kill();
                                let _ = w.child.wait();
                                w.done = true;
                                self.hung(w, spent);
                            }
                        }
                    }
                    Err(e) => {
                        w.done = true;
                        self.trouble.push(format!("worker {}: {e}", w.shard));
                    }
                }
            }
            // workers end by themselves; this is for one which can't
            if begun.elapsed() > self.time * 2 + Duration::from_secs(300) {
                break;
            }
        }
        for w in &mut ws {
            if !w.done {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
        }
    }

    /// A worker found something: what it wrote is tried again in a fresh process.
    fn collect(&mut self, shard: u64) {
        let t0 = Instant::now();
        for k in 1..4 {
            // one will do, if they take long
            if !self.found.is_empty() && t0.elapsed() > Duration::from_secs(10) {
                break;
            }
            let p = self.dir.join(format!("violation.{shard}.{k}"));
            let Ok(mut r) = Replay::load(&p) else { continue };
            match replay_in_child(&self.exes[shard as usize % self.exes.len()], &p, 300) {
                Some(Some(d)) => r.note += &format!("; confirmed by a fresh process: {d}"),
                _ if matches!(r.violation.kind.as_str(), "time" | "leak" | "hoard") => {
                    self.trouble.push(format!("not confirmed: {} {}", r.violation.kind, r.violation.got));
                    continue;
                }
                _ => r.note += "; seen in this worker's history, but not by a fresh process running only this",
            }
            self.found.push(r);
        }
    }

    fn stderr_of(&self, shard: u64) -> String {
        let t = fs::read(self.dir.join(format!("stderr.{shard}"))).unwrap_or_default();
        let t = String::from_utf8_lossy(&t);
        let n = t.len().saturating_sub(1500);
        t.get(n..).unwrap_or("").replace('\n', " ")
    }

    fn died(&mut self, w: &mut Work, st: std::process::ExitStatus) {
        let how = match st.signal() {
            Some(n) => format!("signal {n}"),
            None => format!("exit {:?}", st.code()),
        };
        let err = self.stderr_of(w.shard);
        if st.signal() == Some(libc::SIGKILL) {
            // most likely out of memory: the machine's business, not the code's
            self.trouble.push(format!("worker {} was killed", w.shard));
            self.restart(w);
            return;
        }
        let running = w.shm.get(S::Running);
        if running == 1 {
            if let Some((s, fl)) = w.shm.current() {
                if let Some(v) = self.crash(&w.exe, &s, fl) {
                    self.found.push(v);
                    return;
                }
            }
        }
        // not by this input alone: is it the history?
        if running != 0 && w.restarts == 0 {
            let again = self.spawn(w.shard, &w.exe, self.seed, self.time).and_then(|mut c| c.wait());
            if let Ok(st2) = again {
                if st2.signal().is_some() && st2.signal() == st.signal() && st2.signal() != Some(libc::SIGKILL) {
                    let calls = w.shm.current().into_iter().collect();
                    self.found.push(Replay {
                        property: self.prop.id.into(),
                        violation: Violation {
                            kind: "crash".into(),
                            calls,
                            expected: "every call returns".into(),
                            got: format!("the process died twice: {how} {err}"),
                        },
                        note: format!("worker {} of {}, seed {}: the whole history is needed", w.shard, self.shards, self.seed),
                    });
                    return;
                }
            }
        }
        self.trouble.push(format!("worker {} died: {how} {err}", w.shard));
        self.restart(w);
    }

    fn restart(&mut self, w: &mut Work) {
        if w.restarts < 2 {
            w.restarts += 1;
            w.shm.set(S::Running, 0);
            if let Ok(c) = self.spawn(w.shard, &w.exe, self.seed + 7919 * u64::from(w.restarts), self.time / 2) {
                w.child = c;
                w.done = false;
            }
        }
    }

    /// Whether this input alone brings a process down, twice.
    fn crash(&self, exe: &Path, s: &str, fl: u16) -> Option<Replay> {
        let v = Violation { kind: "crash".into(), calls: vec![(s.into(), fl)], expected: "the call returns".into(), got: String::new() };
        let mut r = Replay { property: self.prop.id.into(), violation: v, note: String::new() };
        let p = self.dir.join("probe.txt");
        r.save(&p).ok()?;
        let a = probe(exe, &p, 300)?;
        let b = probe(exe, &p, 300)?;
        r.violation.got = a;
        r.note = format!("again: {b}");
        // a smaller one, if that's quick
        let t0 = Instant::now();
        let mut cur: Vec<char> = s.chars().collect();
        let mut size = cur.len() / 2;
        while size > 0 && t0.elapsed() < Duration::from_secs(8) {
            let (mut i, mut any) = (0, false);
            while i < cur.len() && t0.elapsed() < Duration::from_secs(8) {
                let mut t = cur.clone();
                t.drain(i..(i + size).min(t.len()));
                let mut q = r.clone();
                q.violation.calls[0].0 = t.iter().collect();
                if q.save(&p).is_ok() && probe(exe, &p, 20).is_some() {
                    cur = t;
                    r.violation.calls = q.violation.calls;
                    any = true;
                } else {
                    i += size;
                }
            }
            if !any {
                size /= 2;
            }
        }
        Some(r)
    }

    fn hung(&mut self, w: &mut Work, spent: f64) {
        if let Some((s, fl)) = w.shm.current() {
            let v = Violation {
                kind: "hang".into(),
                calls: vec![(s, fl)],
                expected: "the call returns".into(),
                got: format!("no result after {spent:.0} s of CPU time"),
            };
            let r = Replay { property: self.prop.id.into(), violation: v, note: String::new() };
            let p = self.dir.join("hang.txt");
            if r.save(&p).is_ok() {
                if let Some(d) = probe(&w.exe, &p, patience(&w.exe) as u64 + 5) {
                    let mut r = r;
                    r.note = format!("again: {d}");
                    self.found.push(r);
                    return;
                }
            }
        }
        self.trouble.push(format!("worker {} made no progress", w.shard));
    }
}

/// Runs the call of a file in a fresh process; how that died, if it did.
pub fn probe(exe: &Path, file: &Path, cpu: u64) -> Option<String> {
    let mut c = Command::new(exe)
        .arg("probe")
        .arg(file)
        .arg(cpu.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(_)) => break,
            Ok(None) if t0.elapsed() > Duration::from_secs(cpu * 3 + 30) => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(2)),
            Err(_) => return None,
        }
    }
    let o = c.wait_with_output().ok()?;
    let err = String::from_utf8_lossy(&o.stderr);
    let err: String = err.chars().take(500).collect();
    match o.status.signal() {
        Some(libc::SIGKILL) => None,
        Some(libc::SIGXCPU) => Some(format!("more than {cpu} s of CPU time")),
        Some(n) => Some(format!("signal {n} {}", err.replace('\n', " "))),
        None => None,
    }
}

/// `Some(Some(what))` if the violation shows again, `Some(None)` if it doesn't.
fn replay_in_child(exe: &Path, file: &Path, secs: u64) -> Option<Option<String>> {
    let o = Command::new("timeout").args(["-k", "1", &secs.to_string()]).arg(exe).arg("replay").arg(file).stdin(Stdio::null()).output().ok()?;
    match o.status.code() {
        Some(1) => Some(Some(String::from_utf8_lossy(&o.stdout).lines().next().unwrap_or("").to_string())),
        Some(0) => Some(None),
        _ => None,
    }
}

/// Judges the file's calls again: 1 if it's a violation, 0 if it isn't.
pub fn replay(path: &Path) -> i32 {
    judge::quiet_panics();
    let Ok(r) = Replay::load(path) else {
        eprintln!("can't read {}", path.display());
        return 2;
    };
    let Some(prop) = props::find(&r.property) else { return 2 };
    if matches!(r.violation.kind.as_str(), "crash" | "hang") {
        let exe = std::env::current_exe().expect("our own path");
        return match probe(&exe, path, 60) {
            Some(d) => {
                println!("{d}");
                1
            }
            None => 0,
        };
    }
    let stack = if prop.kind == Kind::Total { 2 << 20 } else { 1 << 30 };
    let h = std::thread::Builder::new().stack_size(stack).spawn(move || {
        let env = Env { shm: None, prop: &prop };
        let calls = &r.violation.calls;
        let Some((s, fl)) = calls.last() else { return None };
        match (prop.kind, r.violation.kind.as_str()) {
            (Kind::Buffer, _) => special::buffer_replay(&env, calls),
            (Kind::Purity, "processes, threads") => {
                // fresh processes whose threads all begin at once
                let exe = std::env::current_exe().ok()?;
                let p = std::env::temp_dir().join(format!("undmon-{}.list", std::process::id()));
                let list: String = calls.iter().map(|(s, fl)| format!("{fl:x} {}\n", file::hex(s))).collect();
                fs::write(&p, list).ok()?;
                let run = |seed: u64, threads: u64| {
                    let o = Command::new(&exe).arg("digest").arg(&p).arg(seed.to_string()).arg(threads.to_string()).output();
                    let o = o.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
                    o.lines().map(str::to_owned).collect::<std::collections::BTreeSet<_>>()
                };
                let alone = run(0, 1);
                let bad = (1..200).find(|i| run(*i, 2 + i % 7) != alone);
                let _ = fs::remove_file(&p);
                bad.map(|i| format!("another result in process {i}, by one of {} threads", 2 + i % 7))
            }
            (Kind::Purity, _) => {
                // alone in this process, and then after the history
                let exe = std::env::current_exe().ok()?;
                let p = std::env::temp_dir().join(format!("undmon-{}.list", std::process::id()));
                fs::write(&p, format!("{fl:x} {}\n", file::hex(s))).ok()?;
                let o = Command::new(exe).arg("digest").arg(&p).arg("0").output().ok()?;
                let _ = fs::remove_file(&p);
                let alone = String::from_utf8_lossy(&o.stdout).trim().to_string();
                let mut last = None;
                for _ in 0..2 {
                    for (s, fl) in calls {
                        last = Some(env.real(s, *fl));
                    }
                    let here = format!("0 {}", special::digest(last.as_ref()?));
                    if here != alone {
                        return Some(format!("after the history: {}", last?.show()));
                    }
                }
                None
            }
            (Kind::Llvm, _) => {
                let p = std::env::temp_dir().join(format!("undmon-{}.sym", std::process::id()));
                let m = special::ask(&[s.clone()], &p);
                let _ = fs::remove_file(&p);
                let t = m.get(s)?;
                let o = env.real(s, 0);
                let same = o.text().is_some_and(|x| special::alike(x) == special::alike(t));
                (!same).then(|| format!("{} instead of {}", o.show(), judge::clip(t)))
            }
            (Kind::Compiled, _) => {
                let d = std::env::temp_dir().join(format!("undmon-{}.compiled", std::process::id()));
                fs::create_dir_all(&d).ok()?;
                let x = compile::alone(&env, &d, "alone", s, *fl);
                let _ = fs::remove_dir_all(&d);
                x
            }
            (Kind::Made, _) => crate::made::replay(&env, s, &r.violation.expected),
            (Kind::Resource, "hoard") => {
                let left: isize = calls.iter().map(|(s, f)| env.left(s, *f)).sum();
                (left > judge::HOARD_LIMIT / 4).then(|| format!("{left} bytes left by {} calls", calls.len()))
            }
            (Kind::Model, "renamed") => match env.renamed(&calls[0].0, &calls[calls.len() - 1].0, *fl) {
                Verdict::Violated(v) => Some(format!("{} instead of {}", v.got, v.expected)),
                _ => None,
            },
            (Kind::Model, "expanded") => match env.expanded(&calls[0].0, &calls[calls.len() - 1].0, *fl) {
                Verdict::Violated(v) => Some(format!("{} instead of {}", v.got, v.expected)),
                _ => None,
            },
            (Kind::Trailing, _) => {
                let (a, b) = (&calls[0].0, &calls[calls.len() - 1].0);
                match env.trailing_with(a, b.strip_prefix(a.as_str())?, *fl) {
                    Verdict::Violated(v) => Some(v.got),
                    _ => None,
                }
            }
            _ => match env.judge_with(s, *fl) {
                Verdict::Violated(v) => Some(format!("{} instead of {}", v.got, v.expected)),
                _ => None,
            },
        }
    });
    match h.map(|h| h.join()) {
        Ok(Ok(Some(d))) => {
            println!("{}", d.replace('\n', " "));
            1
        }
        Ok(Ok(None)) => 0,
        _ => 2,
    }
}

/// Runs one call in this process, which may not survive it.
pub fn probe_main(path: &Path, cpu: u64) -> i32 {
    judge::quiet_panics();
    let lim = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
    let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    // SAFETY: plain calls about this process
    unsafe {
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    let Ok(r) = Replay::load(path) else { return 2 };
    let Some(prop) = props::find(&r.property) else { return 2 };
    let stack = if prop.kind == Kind::Total { 2 << 20 } else { 1 << 30 };
    let h = std::thread::Builder::new().stack_size(stack).spawn(move || {
        let env = Env { shm: None, prop: &prop };
        for (s, fl) in &r.violation.calls {
            let _ = env.real(s, *fl);
        }
    });
    let _ = h.map(|h| h.join());
    0
}

// ---------------------------------------------------------------- sanitizers

struct Watch {
    name: &'static str,
    cmd: Vec<String>,
    env: Vec<(String, String)>,
    lists: Vec<PathBuf>,
    time: Duration,
    threads: usize,
}

struct Watched {
    runs: u64,
    inputs: u64,
    finished: u64,
    text: String,
}

impl Run {
    /// Runs the plain program on lists of inputs, all at once, under what watches it.
    fn watch(&mut self, w: &Watch) -> Watched {
        let mut kids = vec![];
        for (k, l) in w.lists.iter().enumerate() {
            let out = self.dir.join(format!("{}.{k}.out", w.name));
            let err = self.dir.join(format!("{}.{k}.err", w.name));
            let (Ok(fo), Ok(fe)) = (fs::File::create(&out), fs::File::create(&err)) else { continue };
            let mut c = Command::new("timeout");
            c.args(["-k", "2", &w.time.as_secs().to_string()]).args(&w.cmd).arg(l);
            if w.threads > 1 {
                c.arg("threads").arg(w.threads.to_string());
            }
            for (a, b) in &w.env {
                c.env(a, b);
            }
            let c = c.stdin(Stdio::null()).stdout(fo).stderr(fe).spawn();
            match c {
                Ok(c) => kids.push((c, l.clone(), out, err)),
                Err(e) => self.trouble.push(format!("{}: {e}", w.name)),
            }
        }
        let mut r = Watched { runs: 0, inputs: 0, finished: 0, text: String::new() };
        for (mut c, list, out, err) in kids {
            let Ok(st) = c.wait() else { continue };
            r.runs += 1;
            let text = fs::read_to_string(&out).unwrap_or_default();
            let e = String::from_utf8_lossy(&fs::read(&err).unwrap_or_default()).into_owned();
            let items = special::read_list(&list.to_string_lossy());
            let last = text.lines().rev().find_map(|l| l.parse::<usize>().ok());
            let done = text.lines().rev().find_map(|l| l.strip_prefix("done ")?.parse::<u64>().ok());
            r.inputs += done.unwrap_or(last.unwrap_or(0) as u64);
            if st.success() && done.is_some() {
                r.finished += 1;
                continue;
            }
            let bad = ["Undefined Behavior", "ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "unsafe precondition", "Data race", "LeakSanitizer"]
                .iter()
                .any(|x| e.contains(x));
            let disagree = e.contains("threads disagree");
            let crashed = st.signal().is_some_and(|s| [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT].contains(&s))
                || matches!(st.code(), Some(c) if [128 + libc::SIGSEGV, 128 + libc::SIGBUS, 128 + libc::SIGILL, 128 + libc::SIGABRT].contains(&c));
            // sanitizers report running out of stack or memory too: that's no undefined behaviour
            let benign = e.contains("stack-overflow") || e.contains("out-of-memory") || e.contains("allocation-size-too-big");
            if (bad && !benign) || disagree || (crashed && !benign) {
                let detail: String = e.lines().filter(|l| !l.trim().is_empty()).take(14).collect::<Vec<_>>().join(" | ");
                let calls: Vec<(String, u16)> = if w.threads > 1 {
                    items.iter().map(|(f, s)| (s.clone(), *f)).collect()
                } else {
                    last.and_then(|i| items.get(i)).map(|(f, s)| (s.clone(), *f)).into_iter().collect()
                };
                self.found.push(Replay {
                    property: self.prop.id.into(),
                    violation: Violation {
                        kind: w.name.into(),
                        calls,
                        expected: "no undefined behaviour".into(),
                        got: detail.chars().take(3000).collect(),
                    },
                    note: format!("{} on the inputs in the file; to see it again: {} LIST", w.name, w.cmd.join(" ")),
                });
            } else if st.code() != Some(124) && st.code() != Some(137) {
                let t: String = e.chars().take(300).collect();
                self.trouble.push(format!("{}: {:?} {}", w.name, st, t.replace('\n', " ")));
            }
        }
        r.text = format!("{}: {} processes, {} finished their list, {} inputs", w.name, r.runs, r.finished, r.inputs);
        r
    }

    fn pools(&self) -> Vec<String> {
        let mut seen = HashSet::new();
        let mut all = vec![];
        for k in 0..self.shards {
            for l in fs::read_to_string(self.dir.join(format!("pool.{k}"))).unwrap_or_default().lines() {
                if let Some(s) = file::unhex(l) {
                    if seen.insert(s.clone()) {
                        all.push(s);
                    }
                }
            }
        }
        all
    }

    fn deal(&self, name: &str, items: &[(u16, String)], n: usize) -> Vec<PathBuf> {
        (0..n)
            .map(|k| {
                let t: String = items.iter().skip(k).step_by(n).map(|(f, s)| format!("{f:x} {}\n", file::hex(s))).collect();
                let p = self.dir.join(format!("{name}.{k}.list"));
                let _ = fs::write(&p, t);
                p
            })
            .collect()
    }

    /// Miri and AddressSanitizer on what the workers found worth keeping.
    fn sanitize(&mut self, ev: &mut BTreeMap<String, String>) {
        let h = verif().join("harness");
        let quick = self.tier == "quick";
        let mut r = crate::rng::Rng::new(self.seed ^ 0xa5a5);
        let pool = self.pools();
        let list = |r: &mut crate::rng::Rng, n: usize, max: usize| -> Vec<(u16, String)> {
            // the table of operators, the corpus and what reached new code, in turn
            let mut v: Vec<(u16, String)> = vec![];
            let corpus = props::corpus();
            let es: Vec<_> = ["C09", "C12", "C10", "C13", "C18", "C14"].iter().flat_map(|p| props::find(p).map(|p| (p.enums)()).unwrap_or_default()).collect();
            while v.len() < n {
                let s = match r.below(10) {
                    // the pool is in the order of length, one worker after the other
                    0..=3 if !pool.is_empty() => r.pick(&pool).clone(),
                    4 => r.pick(corpus).to_string(),
                    5 => {
                        // every operator's slot, and beyond
                        let c = (b'0' + r.below(75) as u8) as char;
                        let p = *r.pick(&["??", "??_", "??__", "??$?", "??$?_"]);
                        if p.contains('$') { format!("{p}{c}H@@@YAXXZ") } else { format!("{p}{c}A@@QAEXXZ") }
                    }
                    6 => {
                        // full tables
                        let k = r.range(7, 13);
                        let names: String = (0..k).map(|i| if r.pct(10) { format!("?$n{i}@H@") } else { format!("n{i}@") }).collect();
                        let ps: String = (0..k).map(|_| *r.pick(&["PAH", "PAD", "QAH", "AAN", "U0@"])).collect();
                        format!("?f@{names}@YAX{ps}{}{}@Z", r.below(10), r.below(10))
                    }
                    7 => {
                        let mut p = crate::gen::Profile::default();
                        p.budget = 30;
                        if r.pct(50) {
                            p.weird_ident = 60;
                        }
                        if r.pct(30) {
                            p.tops = [0, 0, 0, 0, 9, 0, 0, 0, 0];
                        }
                        crate::gen::Gen::new(r, p).symbol()
                    }
                    8 if !pool.is_empty() => {
                        let (a, b) = (r.pick(&pool).clone(), r.pick(&pool).clone());
                        crate::gen::mutate(r, &a, &b)
                    }
                    _ => {
                        let e = r.pick(&es).clone();
                        (e.at)(r.u64() % e.n)
                    }
                };
                if s.len() <= if r.pct(88) { max.min(90) } else { max } {
                    v.push((judge::some_flags(r), s));
                }
            }
            v
        };
        let asan = h.join("target/asan/x86_64-unknown-linux-gnu/release/plain");
        if asan.exists() {
            let items = list(&mut r, if quick { 200_000 } else { 2_000_000 }, 5000);
            let lists = self.deal("asan", &items, 8);
            let w = Watch {
                name: "AddressSanitizer",
                cmd: vec![asan.to_string_lossy().into()],
                env: vec![("ASAN_OPTIONS".into(), "detect_leaks=1:abort_on_error=0:detect_stack_use_after_return=1".into())],
                lists,
                time: Duration::from_secs(if quick { 60 } else { 300 }),
                threads: 0,
            };
            let x = self.watch(&w);
            ev.insert("address_sanitizer".into(), x.text);
            ev.insert("asan_inputs".into(), x.inputs.to_string());
        } else {
            self.trouble.push("no AddressSanitizer build".into());
        }
        if !self.found.is_empty() {
            return;
        }
        let miri = miri_cmd(&h);
        let items = list(&mut r, if quick { 6_000 } else { 100_000 }, 400);
        let lists = self.deal("miri", &items, 8);
        let w = Watch {
            name: "Miri",
            cmd: miri.0,
            env: miri.1,
            lists,
            time: Duration::from_secs(if quick { 75 } else { 420 }),
            threads: 0,
        };
        let x = self.watch(&w);
        if x.inputs == 0 {
            self.trouble.push("Miri ran nothing".into());
        }
        ev.insert("miri".into(), x.text);
        ev.insert("miri_inputs".into(), x.inputs.to_string());
    }

    /// Miri's data race detector, on threads which share nothing but the code.
    fn races(&mut self, ev: &mut BTreeMap<String, String>) {
        let h = verif().join("harness");
        let quick = self.tier == "quick";
        let mut r = crate::rng::Rng::new(self.seed ^ 0x7ace);
        let corpus = props::corpus();
        let n = if quick { 8 * 25 } else { 8 * 300 };
        let mut items = vec![];
        while items.len() < n {
            let s = if r.pct(60) { r.pick(corpus).to_string() } else { crate::gen::Gen::new(&mut r, Default::default()).symbol() };
            if s.len() < 150 {
                items.push((judge::some_flags(&mut r), s));
            }
        }
        let lists = self.deal("races", &items, 8);
        let (cmd, mut env) = miri_cmd(&h);
        for e in &mut env {
            if e.0 == "MIRIFLAGS" {
                e.1 += " -Zmiri-preemption-rate=0.05";
                e.1 += &format!(" -Zmiri-seed={}", self.seed);
            }
        }
        let w = Watch {
            name: "Miri threads",
            cmd,
            env,
            lists,
            time: Duration::from_secs(if quick { 40 } else { 300 }),
            threads: 3,
        };
        let x = self.watch(&w);
        ev.insert("miri_threads".into(), x.text);
        ev.insert("miri_thread_calls".into(), x.inputs.to_string());
    }
}

fn miri_cmd(h: &Path) -> (Vec<String>, Vec<(String, String)>) {
    let c = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--profile", "miri", "--bin", "plain", "--manifest-path"];
    let mut cmd: Vec<String> = c.iter().map(|s| s.to_string()).collect();
    cmd.push(h.join("Cargo.toml").to_string_lossy().into());
    cmd.push("--".into());
    let env = vec![
        ("MIRIFLAGS".to_string(), "-Zmiri-disable-isolation".to_string()),
        ("CARGO_TARGET_DIR".to_string(), h.join("target/miri").to_string_lossy().into()),
        ("RUSTFLAGS".to_string(), String::new()),
    ];
    (cmd, env)
}

// ---------------------------------------------------------------- the check

pub fn main(id: &str) -> i32 {
    let Some(prop) = props::find(id) else {
        eprintln!("no property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { "thorough" } else { "quick" };
    let secs = env_u64("UNDMON_SECS", if tier == "quick" { 20 } else { 420 });
    let dir = std::env::temp_dir().join(format!("undmon-{id}-{}", std::process::id()));
    if let Err(e) = fs::create_dir_all(&dir) {
        eprintln!("{}: {e}", dir.display());
        return 2;
    }
    let me = std::env::current_exe().expect("our own path");
    let mut exes = vec![me.clone()];
    if prop.kind == Kind::Total {
        let d = verif().join("harness/target/main/debug/undmon");
        if d.exists() {
            exes.push(d);
        }
    }
    let mut run = Run {
        prop,
        tier,
        seed,
        dir: dir.clone(),
        time: Duration::from_secs(secs),
        exes,
        shards: env_u64("UNDMON_WORKERS", 8),
        found: vec![],
        trouble: vec![],
    };
    run.workers();
    let mut extra = BTreeMap::new();
    if run.found.is_empty() {
        match run.prop.kind {
            Kind::Ub => run.sanitize(&mut extra),
            Kind::Purity => run.races(&mut extra),
            _ => (),
        }
    }
    let code = run.conclude(t0, &extra);
    let _ = fs::remove_dir_all(&dir);
    code
}

impl Run {
    fn conclude(&mut self, t0: Instant, extra: &BTreeMap<String, String>) -> i32 {
        let id = self.prop.id;
        let mut sums: BTreeMap<&str, u64> = BTreeMap::new();
        let (mut feats, mut samples, mut families) = (0u128, vec![], BTreeMap::<String, (u64, u64)>::new());
        let mut known = HashSet::new();
        let (mut distinct, mut sets) = (HashSet::<u64>::new(), HashSet::<u128>::new());
        for k in 0..self.shards {
            let m = Shm::open(&self.dir.join(format!("{k}.shm")));
            for (name, s) in [
                ("evaluations", S::Evaluations), ("calls", S::RealCalls), ("accepted", S::Accepted), ("refused", S::Rejected),
                ("no_verdict", S::NoVerdict), ("out_of_scope", S::OutOfScope), ("nontrivial", S::NonTrivial),
                ("compared", S::Compared), ("histories", S::Histories), ("threads", S::Threads), ("flag_sets_applied", S::FlagSets),
                ("panics", S::Panics), ("skipped", S::Skipped),
                ("refused_as_syntax", S::BadSyntax), ("refused_as_backref", S::BadBackref), ("refused_as_number", S::BadNumber),
                ("refused_as_string", S::BadStr), ("refused_as_structor", S::BadStructor), ("refused_as_trailing", S::BadTrailing),
            ] {
                *sums.entry(name).or_default() += m.get(s);
            }
            for (name, s) in [
                ("code_edges_reached_by_one_worker", S::Edges), ("code_edges", S::EdgesTotal), ("max_nodes", S::MaxNodes),
                ("max_depth", S::MaxDepth), ("max_text_bytes", S::MaxText), ("max_input_bytes", S::MaxInput),
                ("max_heap_bytes", S::MaxPeakHeap), ("max_cpu_micros", S::MaxCpuMicros), ("max_allocations", S::MaxAllocs),
            ] {
                let e = sums.entry(name).or_default();
                *e = (*e).max(m.get(s));
            }
            feats |= u128::from(m.get(S::FeatsLo)) | u128::from(m.get(S::FeatsHi)) << 64;
            let rd = |n: &str| fs::read(self.dir.join(format!("{n}.{k}"))).unwrap_or_default();
            for c in rd("distinct").chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().expect("eight bytes")));
            }
            for c in rd("feats").chunks_exact(16) {
                sets.insert(u128::from_le_bytes(c.try_into().expect("sixteen bytes")));
            }
            for l in String::from_utf8_lossy(&rd("log")).lines() {
                if let Some(s) = l.strip_prefix("sample=") {
                    samples.push(s.to_string());
                } else if let Some(k) = l.strip_prefix("known=") {
                    known.insert(k.to_string());
                } else if let Some(f) = l.strip_prefix("family=") {
                    let mut p = f.split('\t');
                    if let (Some(n), Some(Ok(a)), Some(Ok(b))) = (p.next(), p.next().map(str::parse::<u64>), p.next().map(str::parse::<u64>)) {
                        let e = families.entry(n.into()).or_insert((0, b));
                        e.0 += a;
                    }
                }
            }
        }
        let kf = file::known(&verif().join("known_findings.txt"));
        for k in &known {
            if let Some(f) = k.parse::<usize>().ok().and_then(|i| kf.get(i)) {
                println!("KNOWN-FINDING: property={id} {} {:?}", f.3, f.2);
            }
        }
        let mut code = 0;
        let rdir = verif().join("evidence/replay");
        let _ = fs::create_dir_all(&rdir);
        for (k, r) in self.found.iter().enumerate().take(3) {
            let p = rdir.join(format!("{id}-{}-{}.txt", self.seed, k + 1));
            let _ = r.save(&p);
            println!("VIOLATION property={id} replay={}", p.display());
            println!("  kind:     {}", r.violation.kind);
            if let Some((s, f)) = r.violation.calls.last() {
                println!("  input:    {} flags 0x{f:x}", judge::clip(s));
            }
            println!("  expected: {}", r.violation.expected);
            println!("  got:      {}", r.violation.got);
            println!("  note:     {}", r.note);
            code = 1;
        }
        for t in &self.trouble {
            eprintln!("note: {t}");
        }
        let evaluations = sums["evaluations"] + num(extra, "asan_inputs") + num(extra, "miri_inputs") + num(extra, "miri_thread_calls");
        if code == 0 && (sums["nontrivial"] == 0 || distinct.len() < 10) {
            eprintln!("nothing was observed");
            code = 2;
        }
        samples.truncate(24);
        let mut j = Json::new();
        j.str("property", id);
        j.str("tier", self.tier);
        j.raw("seed", &self.seed.to_string());
        j.str("level", "exploration");
        let mut c = Json::new();
        c.raw("evaluations", &evaluations.to_string());
        c.raw("distinct_nontrivial", &distinct.len().to_string());
        c.str("rule", &format!("Cases come from systematic families, a grammar-based generator and coverage-guided mutation; distinct by input text, non-trivial when {}.", self.prop.rule));
        c.raw("samples", &list(&samples));
        for (k, v) in &sums {
            if *k != "evaluations" && *v != 0 {
                c.raw(k, &v.to_string());
            }
        }
        c.raw("distinct_feature_sets", &sets.len().to_string());
        if feats != 0 && !matches!(self.prop.kind, Kind::Purity) {
            let names: Vec<String> = Feats(feats).list().iter().map(|f| format!("{f:?}")).collect();
            c.raw("grammar_features_reached", &list(&names));
            let names: Vec<String> = Feats(!feats).list().iter().map(|f| format!("{f:?}")).collect();
            c.raw("grammar_features_not_reached", &list(&names));
        }
        let fams: Vec<String> = families
            .iter()
            .map(|(n, (a, b))| format!("{n}: {a} of {b}{}", if a == b { ", complete" } else { "" }))
            .collect();
        c.raw("families", &list(&fams));
        for (k, v) in extra {
            match v.parse::<u64>() {
                Ok(n) => c.raw(k, &n.to_string()),
                Err(_) => c.str(k, v),
            }
        }
        if !self.trouble.is_empty() {
            c.raw("notes", &list(&self.trouble));
        }
        let builds: Vec<String> = self.exes.iter().map(|e| e.display().to_string()).collect();
        c.raw("builds", &list(&builds));
        j.raw("coverage", &c.done());
        j.raw("wall_s", &format!("{:.2}", t0.elapsed().as_secs_f64()));
        j.raw("assumptions", &list(&assumptions(self.prop.kind)));
        j.raw("violations", &self.found.len().to_string());
        let p = verif().join(format!("evidence/{id}.json"));
        if let Err(e) = fs::write(&p, j.done() + "\n") {
            eprintln!("{}: {e}", p.display());
            return 2;
        }
        println!(
            "{id}: {} evaluations, {} distinct non-trivial, {} feature sets, {:.1} s{}",
            evaluations,
            distinct.len(),
            sets.len(),
            t0.elapsed().as_secs_f64(),
            if code == 0 { ", held" } else { "" }
        );
        code
    }
}

fn num(m: &BTreeMap<String, String>, k: &str) -> u64 {
    m.get(k).and_then(|v| v.parse().ok()).unwrap_or(0)
}

fn assumptions(k: Kind) -> Vec<String> {
    let mut v = vec!["what was not run was not checked: the evidence is about the executions counted here".to_string()];
    match k {
        Kind::Model | Kind::Flags | Kind::NameOnly | Kind::Ordinary | Kind::Trailing => {
            v.push("the reference demangler in harness/src/model.rs says what is right; it was checked against LLVM's demangler".into());
        }
        Kind::Compiled => v.push("the mangling of the installed clang 18, for the types and declarations which the programs are made of".into()),
        Kind::Made => v.push("the layout and the mangling of the installed clang 18, for the classes and variables which the programs are made of".into()),
        Kind::Llvm => v.push("llvm-undname of the installed LLVM 18, outside the constructs on which the two differ by design".into()),
        Kind::Ub => v.push("Miri's and AddressSanitizer's idea of undefined behaviour".into()),
        _ => (),
    }
    v
}

fn list(v: &[String]) -> String {
    let x: Vec<String> = v.iter().map(|s| quote(s)).collect();
    format!("[{}]", x.join(", "))
}
fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 || c == '\u{7f}' => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

struct Json(Vec<String>);
impl Json {
    fn new() -> Json {
        Json(vec![])
    }
    fn raw(&mut self, k: &str, v: &str) {
        self.0.push(format!("{}: {v}", quote(k)));
    }
    fn str(&mut self, k: &str, v: &str) {
        self.raw(k, &quote(v));
    }
    fn done(&self) -> String {
        format!("{{{}}}", self.0.join(",\n "))
    }
}
