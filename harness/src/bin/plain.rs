//! Runs the code under test on a list of inputs and does nothing else: what Miri and the
//! sanitizers watch. `plain FILE [threads N]`; every line of the file is `flags input`, in
//! hexadecimal. Prints the index of an input before running it.

use std::{io::Write as _, panic, sync::Arc};
use undname::Flags;

fn unhex(h: &str) -> Option<String> {
    // plain loops: Miri runs this too
    let h = h.as_bytes();
    let digit = |b: u8| if b <= b'9' { b - b'0' } else { b - b'a' + 10 };
    let mut v = Vec::with_capacity(h.len() / 2);
    let mut i = 0;
    while i + 1 < h.len() {
        v.push(digit(h[i]) << 4 | digit(h[i + 1]));
        i += 2;
    }
    String::from_utf8(v).ok()
}

fn one(i: usize, s: &str, fl: u16, buf: &mut String) -> Option<String> {
    let f = Flags::from_bits_retain(fl);
    // the input in an allocation of exactly its size, so that reading past it is seen
    let exact: Box<str> = s.into();
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| {
        if i % 4 == 0 {
            buf.clear();
            buf.push_str("left over é");
            let r = undname::demangle_into(&exact, f, buf);
            return r.ok().map(|()| buf.clone());
        }
        undname::demangle(&exact, f).ok()
    }));
    let t = r.ok().flatten()?;
    // looks at every byte of the result
    let copy = t.clone();
    assert!(copy == t && std::str::from_utf8(t.as_bytes()).is_ok(), "unsafe precondition: not UTF-8");
    Some(t)
}

fn main() {
    panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if m.contains("unsafe precondition") || m.contains("disagree") {
            eprintln!("{m}");
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).expect("the list");
    let mut items = text.lines().filter_map(|l| {
        let (f, h) = l.split_once(' ')?;
        Some((u16::from_str_radix(f, 16).ok()?, unhex(h)?))
    });
    let threads: usize = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(0);
    if threads > 1 {
        let items: Arc<Vec<(u16, String)>> = Arc::new(items.collect());
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let items = items.clone();
                std::thread::spawn(move || {
                    let mut buf = String::new();
                    let mut sums = vec![None; items.len()];
                    for j in 0..items.len() {
                        let i = if k % 2 == 0 { j } else { items.len() - 1 - j };
                        let (f, s) = &items[i];
                        sums[i] = one(i, s, *f, &mut buf);
                        buf.clear();
                    }
                    sums
                })
            })
            .collect();
        let all: Vec<Vec<Option<String>>> = hs.into_iter().map(|h| h.join().expect("a thread")).collect();
        for s in &all {
            assert!(*s == all[0], "threads disagree");
        }
        println!("done {}", items.len() * threads);
        return;
    }
    let mut buf = String::new();
    let mut out = std::io::stdout();
    let mut n = 0;
    while let Some((f, s)) = items.next() {
        let _ = writeln!(out, "{n}");
        let _ = out.flush();
        one(n, &s, f, &mut buf);
        n += 1;
    }
    println!("done {n}");
}
