//! Runtime monitors for layered-nlp. See /verif/DESIGN.md.

mod checks;
#[macro_use]
mod engine;
mod gen;
mod model;
mod render;
mod rng;
mod supervise;

use engine::*;
use std::fmt::Write as _;
use std::time::Duration;

fn num(s: Option<&String>) -> u64 {
    s.and_then(|s| s.parse().ok()).unwrap_or_else(|| usage())
}

fn usage() -> ! {
    eprintln!("usage: lnmon supervise ID TIER SEED | worker ID TIER SEED STATUS RESULT SCALE CAP | single ID TIER SEED CASE | tiny ID SEED FROM COUNT | digest SEED N | replay FILE | list");
    std::process::exit(2)
}

fn check_arg(s: Option<&String>) -> &'static Check {
    s.and_then(|s| checks::find(s)).unwrap_or_else(|| usage())
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a = |i: usize| args.get(i);
    match args.first().map(String::as_str) {
        Some("supervise") => {
            let code = supervise::supervise(check_arg(a(1)), a(2).map(String::as_str) == Some("thorough"), num(a(3)));
            std::process::exit(code)
        }
        Some("worker") => {
            install_hook();
            worker(&args)
        }
        Some("single") => {
            install_hook();
            let (c, thorough, seed, idx) = (check_arg(a(1)), a(2).map(String::as_str) == Some("thorough"), num(a(3)), num(a(4)));
            single(c, thorough, seed, idx)
        }
        Some("replay") => {
            let text = a(1).and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_else(|| usage());
            let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|s| s.trim().to_string()));
            let (id, tier) = (field("property:"), field("tier:"));
            let (seed, case) = (field("seed:"), field("case:"));
            install_hook();
            single(check_arg(id.as_ref()), tier.as_deref() == Some("thorough"), num(seed.as_ref()), num(case.as_ref()))
        }
        Some("tiny") => {
            install_hook();
            let (c, seed, from, count) = (check_arg(a(1)), num(a(2)), num(a(3)), num(a(4)));
            let mut st = Stats::default();
            for i in 0..count {
                let (ctx, r) = run_case(c, seed, from + i, false, true, false, std::mem::take(&mut st));
                st = ctx.st;
                match r {
                    Ok(()) => {}
                    Err(Fail::Setup(m)) => println!("SETUP case={} {m}", from + i),
                    Err(Fail::Violation(m)) => {
                        println!("BROKEN case={} {}", from + i, m.replace('\n', " / "));
                        std::process::exit(1);
                    }
                }
            }
            let mut s = format!("TINY-DONE cases={count}");
            for (k, v) in &st.counts {
                let _ = write!(s, " {k}={v}");
            }
            println!("{s}");
        }
        Some("digest") => {
            install_hook();
            println!("{}", checks::global::digest(num(a(1)), num(a(2))));
        }
        Some("alone") => {
            install_hook();
            println!("{}", checks::global::alone((num(a(1)), num(a(2)), num(a(3)), num(a(4)))));
        }
        Some("list") => {
            for c in checks::CHECKS {
                println!("{}", c.id);
            }
        }
        _ => usage(),
    }
}

fn worker(args: &[String]) -> ! {
    let a = |i: usize| args.get(i);
    let (c, thorough, seed) = (check_arg(a(1)), a(2).map(String::as_str) == Some("thorough"), num(a(3)));
    let (status, result) = (a(4).cloned().unwrap_or_else(|| usage()), a(5).cloned().unwrap_or_else(|| usage()));
    let (scale, cap) = (num(a(6)), num(a(7)));
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(2, 8);
    let o = run_all(c, seed, thorough, threads, Duration::from_secs(cap), scale, Some(std::path::Path::new(&status)), 100);
    let mut s = String::new();
    let one = |m: &str| m.replace(['\n', '\t', '\r'], " ");
    let _ = writeln!(s, "evaluations\t{}", o.st.evaluations);
    let _ = writeln!(s, "planned\t{}", o.planned);
    let _ = writeln!(s, "truncated\t{}", o.truncated as u8);
    let _ = writeln!(s, "nontrivial\t{}", o.st.nontrivial);
    let _ = writeln!(s, "distinct\t{}", o.st.sigs.len());
    let _ = writeln!(s, "setup_failed\t{}", o.st.setup_failed);
    let _ = writeln!(s, "threads\t{threads}");
    if let Some(m) = &o.st.setup_sample {
        let _ = writeln!(s, "setup_sample\t{}", one(m));
    }
    for (k, v) in &o.st.counts {
        let _ = writeln!(s, "count\t{k}\t{v}");
    }
    for (k, v) in &o.st.maxes {
        let _ = writeln!(s, "max\t{k}\t{v}");
    }
    for (i, m) in &o.violations {
        let _ = writeln!(s, "violation\t{i}\t{}", one(m));
    }
    if o.violations.is_empty() {
        // some of the cases, written out
        for k in 0..4u64 {
            let idx = c.fixed + rng::mix(seed, k) % (o.planned - c.fixed);
            let (ctx, r) = run_case(c, seed, idx, thorough, false, true, Stats::default());
            let _ = writeln!(s, "sample\tcase {idx}{}: {}", if r.is_ok() { "" } else { " (not set up)" }, one(&short(&ctx.notes.join("; "))));
        }
    }
    let _ = writeln!(s, "end");
    if std::fs::write(&result, s).is_err() {
        std::process::exit(98);
    }
    std::process::exit(if o.violations.is_empty() { 0 } else { 1 })
}

fn single(c: &'static Check, thorough: bool, seed: u64, idx: u64) -> ! {
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || run_case(c, seed, idx, thorough, false, true, Stats::default()));
    let h = match h {
        Ok(h) => h,
        Err(_) => std::process::exit(2),
    };
    let t = std::time::Instant::now();
    while !h.is_finished() {
        std::thread::sleep(Duration::from_millis(if t.elapsed() < Duration::from_secs(1) { 5 } else { 200 }));
        let cpu = process_cpu_s().unwrap_or(0);
        if cpu > 120 || (t.elapsed() > Duration::from_secs(200) && cpu < 5) {
            println!("case {idx}: no end after {cpu} s of CPU time");
            std::process::exit(EXIT_HANG);
        }
    }
    let Ok((ctx, r)) = h.join() else { std::process::exit(2) };
    for n in &ctx.notes {
        println!("{n}");
    }
    match r {
        Ok(()) => {
            println!("case {idx}: nothing wrong");
            std::process::exit(0)
        }
        Err(Fail::Setup(m)) => {
            println!("case {idx}: not set up: {m}");
            std::process::exit(3)
        }
        Err(Fail::Violation(m)) => {
            println!("case {idx}: VIOLATED: {m}");
            std::process::exit(1)
        }
    }
}
