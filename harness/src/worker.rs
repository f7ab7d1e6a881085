//! One process of a run: walks the systematic families, then makes up inputs until its time is
//! over, keeping those which reach something new to vary them further.

use crate::{
    cov, file,
    file::Replay,
    gen::{self, Gen, Profile},
    judge::{Env, Verdict, Violation},
    model::Feats,
    props::{self, Kind, Prop},
    rng::Rng,
    shm::{Shm, S},
};
use std::{
    collections::HashSet,
    fmt::Write as _,
    fs,
    hash::{Hash, Hasher},
    path::{Path, PathBuf},
    time::{Duration, Instant},
};

pub struct Args {
    pub id: String,
    pub shard: u64,
    pub shards: u64,
    pub seed: u64,
    pub time: Duration,
    pub dir: PathBuf,
    pub thorough: bool,
    pub known: PathBuf,
}

pub const EXIT_VIOLATION: i32 = 3;
const DISTINCT_CAP: usize = 3_000_000;

pub struct W {
    pub a: Args,
    pub prop: Prop,
    pub shm: Shm,
    pub rng: Rng,
    pub start: Instant,
    map: cov::Map,
    distinct: HashSet<u64>,
    feats: HashSet<u128>,
    all_feats: u128,
    pub samples: Vec<String>,
    log: String,
    known: Vec<(String, u16, String, String)>,
    known_hit: HashSet<usize>,
    pub violations: usize,
    pool: Vec<String>,
}

pub fn hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn main(a: Args) -> i32 {
    crate::judge::quiet_panics();
    let prop = props::find(&a.id).expect("a property");
    let shm = Shm::open(&a.dir.join(format!("{}.shm", a.shard)));
    let rng = Rng::new(a.seed.wrapping_mul(0x1_0001).wrapping_add(a.shard) ^ hash(&a.id));
    // a panic or an overflow in here is about the code under test, or about this harness
    let stack = if prop.kind == Kind::Total { 2 << 20 } else { 1 << 30 };
    let h = std::thread::Builder::new().stack_size(stack).spawn(move || {
        let mut w = W {
            known: file::known(&a.known),
            a,
            prop,
            shm,
            rng,
            start: Instant::now(),
            map: cov::Map::new(),
            distinct: HashSet::new(),
            feats: HashSet::new(),
            all_feats: 0,
            samples: vec![],
            log: String::new(),
            known_hit: HashSet::new(),
            violations: 0,
            pool: vec![],
        };
        w.shm.set(S::EdgesTotal, cov::total() as u64);
        match w.prop.kind {
            Kind::Buffer => crate::special::buffer(&mut w),
            Kind::Purity => crate::special::purity(&mut w),
            Kind::Llvm => crate::special::llvm(&mut w),
            Kind::Composed => crate::compose::monitor(&mut w),
            Kind::Made => crate::made::monitor(&mut w),
            Kind::Compiled => crate::compile::monitor(&mut w),
            _ => w.run(),
        }
        w.finish()
    });
    h.expect("a thread").join().unwrap_or(4)
}

impl W {
    pub fn left(&self) -> Duration {
        self.a.time.saturating_sub(self.start.elapsed())
    }
    pub fn over(&self) -> bool {
        self.left().is_zero() || self.violations > 0
    }

    fn run(&mut self) {
        self.enumerate(if self.a.thorough { 0.5 } else { 0.55 });
        self.fuzz(|w, s| w.check(s));
    }

    /// Walks the families of the property's.
    pub fn enumerate(&mut self, share: f64) {
        let es = (self.prop.enums)();
        let until = self.a.time.mul_f64(share);
        let left: Vec<_> = es.iter().map(|e| e.n).collect();
        let mut order: Vec<usize> = (0..es.len()).collect();
        order.sort_by_key(|&i| left[i]);
        for (k, &i) in order.iter().enumerate() {
            let e = &es[i];
            let rest = until.saturating_sub(self.start.elapsed());
            let slice = rest / (order.len() - k) as u32;
            let t0 = Instant::now();
            // a walk through all of them in an order which makes any part of it a fair sample
            let step = stride(e.n, &mut Rng::new(self.a.seed));
            let mut done = 0u64;
            let mut j = self.a.shard;
            while j < e.n {
                let at = ((u128::from(j) * u128::from(step)) % u128::from(e.n)) as u64;
                self.check(&(e.at)(at));
                done += 1;
                j += self.a.shards;
                if self.violations > 0 {
                    return;
                }
                if done % 16 == 0 && t0.elapsed() > slice {
                    break;
                }
            }
            let _ = writeln!(self.log, "family={}\t{done}\t{}", e.name, e.n);
        }
    }

    /// Makes up inputs until time is over.
    pub fn fuzz(&mut self, mut f: impl FnMut(&mut W, &str)) {
        while !self.over() {
            let s = self.make();
            f(self, &s);
        }
    }

    /// A new input for the property.
    pub fn make(&mut self) -> String {
        let corpus = props::corpus();
        let mut p = Profile::default();
        (self.prop.profile)(&mut self.rng, &mut p);
        let r = &mut self.rng;
        match r.below(10) {
            0..=4 => Gen::new(r, p).symbol(),
            5 => {
                let a = Gen::new(r, p).symbol();
                let b = *r.pick(corpus);
                gen::mutate(r, &a, b)
            }
            6 => {
                let (a, b) = (*r.pick(corpus), *r.pick(corpus));
                gen::mutate(r, a, b)
            }
            _ if !self.pool.is_empty() => {
                let n = self.pool.len();
                // rather the newer ones
                let i = if r.pct(50) { r.below(n) } else { n - 1 - r.below(n.min(200)) };
                let j = r.below(n);
                gen::mutate(r, &self.pool[i], &self.pool[j])
            }
            _ => Gen::new(r, p).symbol(),
        }
    }

    /// Runs the monitor on one input.
    pub fn check(&mut self, s: &str) {
        cov::reset();
        let env = Env { shm: Some(&self.shm), prop: &self.prop };
        let v = env.judge(&mut self.rng, s);
        self.shm.inc(S::Evaluations);
        if self.map.merge() && s.len() < 3000 {
            self.pool.push(s.to_string());
            self.shm.set(S::Edges, self.map.edges as u64);
            self.shm.set(S::Queue, self.pool.len() as u64);
        }
        match v {
            Verdict::Held(f) => self.held(s, f),
            Verdict::Trivial => (),
            Verdict::OutOfScope => self.shm.inc(S::OutOfScope),
            Verdict::None => self.shm.inc(S::NoVerdict),
            Verdict::Violated(v) => self.violated(*v),
        }
    }

    pub fn held(&mut self, s: &str, f: Feats) {
        self.shm.inc(S::NonTrivial);
        if self.distinct.len() < DISTINCT_CAP {
            self.distinct.insert(hash(s));
        }
        if f.0 != 0 && self.feats.len() < 1_000_000 {
            self.feats.insert(f.0);
        }
        self.all_feats |= f.0;
        let n = self.shm.get(S::NonTrivial);
        if n.is_power_of_two() && n >= 64 && self.samples.len() < 12 && s.len() < 400 {
            let env = Env { shm: None, prop: &self.prop };
            let o = if self.prop.kind == Kind::NameOnly { env.real(s, 0x200) } else { env.real(s, 0) };
            self.samples.push(format!("{s:?} -> {}", o.show()));
        }
    }

    pub fn violated(&mut self, v: Violation) {
        if let Some((s, f)) = v.calls.last() {
            let k = self.known.iter().position(|k| k.0 == self.prop.id && k.1 == *f && k.2 == *s);
            if let Some(k) = k {
                self.known_hit.insert(k);
                return;
            }
        }
        self.violations += 1;
        let v = self.shrink(v);
        let r = Replay {
            property: self.prop.id.into(),
            violation: v,
            note: format!("seed {} shard {} of {}, evaluation {}", self.a.seed, self.a.shard, self.a.shards, self.shm.get(S::Evaluations)),
        };
        let p = self.a.dir.join(format!("violation.{}.{}", self.a.shard, self.violations));
        let _ = r.save(&p);
    }

    /// A smaller input with the same kind of violation, if one is found quickly.
    fn shrink(&self, v: Violation) -> Violation {
        if v.calls.len() != 1 || !matches!(self.prop.kind, Kind::Model | Kind::Flags | Kind::NameOnly | Kind::Ordinary | Kind::Total | Kind::Reason | Kind::Neat | Kind::Composed) {
            return v;
        }
        let env = Env { shm: Some(&self.shm), prop: &self.prop };
        let fl = v.calls[0].1;
        let t0 = Instant::now();
        let mut best = v;
        let mut cur: Vec<char> = best.calls[0].0.chars().collect();
        let mut size = cur.len() / 2;
        while size > 0 && t0.elapsed() < Duration::from_secs(4) {
            let mut i = 0;
            let mut any = false;
            while i < cur.len() && t0.elapsed() < Duration::from_secs(4) {
                let mut t = cur.clone();
                t.drain(i..(i + size).min(t.len()));
                let s: String = t.iter().collect();
                match env.judge_with(&s, fl) {
                    Verdict::Violated(b) if b.kind == best.kind => {
                        best = *b;
                        cur = t;
                        any = true;
                    }
                    _ => i += size,
                }
            }
            if !any {
                size /= 2;
            }
        }
        best
    }

    fn finish(mut self) -> i32 {
        self.shm.set(S::FeatsLo, self.all_feats as u64);
        self.shm.set(S::FeatsHi, (self.all_feats >> 64) as u64);
        self.shm.set(S::Done, 1);
        let d: Vec<u8> = self.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
        let f: Vec<u8> = self.feats.iter().flat_map(|h| h.to_le_bytes()).collect();
        let w = |n: &str, b: &[u8], dir: &Path| fs::write(dir.join(format!("{n}.{}", self.a.shard)), b);
        let _ = w("distinct", &d, &self.a.dir);
        let _ = w("feats", &f, &self.a.dir);
        for k in &self.known_hit {
            let _ = writeln!(self.log, "known={k}");
        }
        for s in &self.samples {
            let _ = writeln!(self.log, "sample={}", s.replace('\n', " "));
        }
        let _ = w("log", self.log.as_bytes(), &self.a.dir);
        self.pool.sort_by_key(String::len);
        let p: String = self.pool.iter().map(|s| file::hex(s) + "\n").collect();
        let _ = w("pool", p.as_bytes(), &self.a.dir);
        if self.violations > 0 {
            EXIT_VIOLATION
        } else {
            0
        }
    }
}

/// a step which visits every index below `n` once before it repeats
fn stride(n: u64, r: &mut Rng) -> u64 {
    if n < 3 {
        return 1;
    }
    let gcd = |mut a: u64, mut b: u64| {
        while b != 0 {
            (a, b) = (b, a % b);
        }
        a
    };
    loop {
        let k = n / 5 + r.below((n - n / 3) as usize) as u64;
        let k = k % n;
        if k > 0 && gcd(k, n) == 1 {
            return k;
        }
    }
}
