//! Runs the worker and the sanitizer legs as child processes, judges how they ended, writes the
//! evidence and the replay file.

use crate::engine::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn root() -> PathBuf {
    PathBuf::from(std::env::var("LNMON_ROOT").unwrap_or_else(|_| "/verif".into()))
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    err: String,
    timed_out: bool,
}

fn tail(s: &str) -> String {
    let l: Vec<&str> = s.lines().collect();
    l[l.len().saturating_sub(60)..].join("\n")
}

fn run(mut c: Command, limit: Duration) -> std::io::Result<Ran> {
    // output through files: no pipe can fill up
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let k = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let base = std::env::temp_dir().join(format!("lnmon-{}-{k}", std::process::id()));
    let (po, pe) = (base.with_extension("out"), base.with_extension("err"));
    let mut ch = c
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&po)?)
        .stderr(std::fs::File::create(&pe)?)
        .spawn()?;
    let t = Instant::now();
    let mut timed_out = false;
    let st = loop {
        if let Some(s) = ch.try_wait()? {
            break s;
        }
        if t.elapsed() > limit {
            timed_out = true;
            let _ = ch.kill();
            break ch.wait()?;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let rd = |p: &PathBuf| {
        let b = std::fs::read(p).unwrap_or_default();
        let _ = std::fs::remove_file(p);
        String::from_utf8_lossy(&b).into_owned()
    };
    Ok(Ran { code: st.code(), signal: st.signal(), out: rd(&po), err: rd(&pe), timed_out })
}

#[derive(Default)]
struct Report {
    nums: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    maxes: BTreeMap<String, u64>,
    violations: Vec<(u64, String)>,
    samples: Vec<String>,
    setup_sample: Option<String>,
    complete: bool,
}

fn parse(s: &str) -> Report {
    let mut r = Report::default();
    for l in s.lines() {
        let f: Vec<&str> = l.splitn(3, '\t').collect();
        match f.as_slice() {
            ["count", k, v] => {
                r.counts.insert(k.to_string(), v.parse().unwrap_or(0));
            }
            ["max", k, v] => {
                r.maxes.insert(k.to_string(), v.parse().unwrap_or(0));
            }
            ["violation", k, v] => r.violations.push((k.parse().unwrap_or(0), v.to_string())),
            ["sample", v] => r.samples.push(v.to_string()),
            ["setup_sample", v] => r.setup_sample = Some(v.to_string()),
            ["end"] => r.complete = true,
            [k, v] => {
                r.nums.insert(k.to_string(), v.parse().unwrap_or(0));
            }
            _ => {}
        }
    }
    r
}

enum Verdict {
    Held,
    /// (what, case, notes of the run)
    Broken(String, Option<u64>, String),
    Unclear(String),
}

struct Sup {
    check: &'static Check,
    thorough: bool,
    seed: u64,
    exe: PathBuf,
    dir: PathBuf,
}

impl Sup {
    fn tier(&self) -> &'static str {
        if self.thorough {
            "thorough"
        } else {
            "quick"
        }
    }
    /// A run of the plain build that eats memory ends itself, not the sandbox; sanitizers need
    /// room for their shadow memory.
    fn command(&self, exe: &PathBuf) -> Command {
        if *exe != self.exe {
            return Command::new(exe);
        }
        let mut c = Command::new("bash");
        c.args(["-c", "ulimit -v 16000000; exec \"$0\" \"$@\""]).arg(exe);
        c
    }
    fn single(&self, exe: &PathBuf, idx: u64) -> std::io::Result<Ran> {
        let mut c = self.command(exe);
        c.args(["single", self.check.id, self.tier(), &self.seed.to_string(), &idx.to_string()]);
        run(c, Duration::from_secs(320))
    }

    /// A worker of some build over the cases of the tier divided by `scale`.
    fn workers(&self, name: &str, exe: &PathBuf, scale: u64, cap: u64, envs: &[(&str, &str)]) -> (Report, Verdict) {
        let (status, result) = (self.dir.join(format!("{name}.status")), self.dir.join(format!("{name}.result")));
        let mut c = self.command(exe);
        c.args(["worker", self.check.id, self.tier(), &self.seed.to_string()]);
        c.arg(&status).arg(&result).args([scale.to_string(), cap.to_string()]);
        for (k, v) in envs {
            c.env(k, v);
        }
        let ran = match run(c, Duration::from_secs(cap + 240)) {
            Ok(r) => r,
            Err(e) => return (Report::default(), Verdict::Unclear(format!("{name}: {e}"))),
        };
        let rep = parse(&std::fs::read_to_string(&result).unwrap_or_default());
        for mark in ["ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer", "ERROR: LeakSanitizer"] {
            if let Some(p) = ran.err.find(mark) {
                let t: String = ran.err[p..].chars().take(6000).collect();
                let head = t.lines().next().unwrap_or("").to_string();
                return (rep, Verdict::Broken(format!("{name}: {head}"), None, t));
            }
        }
        if let Some((idx, m)) = rep.violations.first().cloned() {
            let notes = match self.single(exe, idx) {
                Ok(r) if r.code == Some(1) => r.out,
                Ok(r) => format!("(run on its own the case ends with {:?}: what is wrong depends on what ran before or beside it)\n{}", r.code, r.out),
                Err(e) => e.to_string(),
            };
            return (rep, Verdict::Broken(m, Some(idx), notes));
        }
        if ran.code == Some(0) && rep.complete {
            return (rep, Verdict::Held);
        }
        // died or hung: which of the cases in progress does it on its own?
        let slots = std::fs::read(&status).unwrap_or_default();
        let mut tried = vec![];
        for s in slots.chunks_exact(8) {
            let v = u64::from_le_bytes([s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]]);
            if v == 0 {
                continue;
            }
            let idx = v - 1;
            let Ok(r) = self.single(exe, idx) else { continue };
            match (r.code, r.signal) {
                (Some(0), _) | (Some(2), _) | (Some(3), _) => tried.push(idx),
                (Some(1), _) => return (rep, Verdict::Broken("violated".into(), Some(idx), r.out)),
                (Some(EXIT_HANG), _) => return (rep, Verdict::Broken("the case does not end".into(), Some(idx), r.out)),
                (_, Some(9)) => tried.push(idx),
                (c, s) => {
                    let m = format!("the process dies on this case (code {c:?}, signal {s:?})");
                    return (rep, Verdict::Broken(m, Some(idx), format!("{}\n{}", tail(&r.out), tail(&r.err))));
                }
            }
        }
        let m = format!(
            "{name}: worker ended with code {:?}, signal {:?}, timed out {}; the cases in progress {tried:?} end well on their own\n{}",
            ran.code, ran.signal, ran.timed_out, tail(&ran.err)
        );
        (rep, Verdict::Unclear(m))
    }

    /// Miri: the interpreter reports undefined behaviour and data races.
    fn miri(&self, script: &str) -> (BTreeMap<String, u64>, Verdict) {
        let mut total: BTreeMap<String, u64> = BTreeMap::new();
        // several interpreters side by side, each with its own scheduling and allocation seed
        let (procs, each) = match (self.check.id, self.thorough) {
            ("C24", false) => (6u64, 2u64),
            ("C24", true) => (8, 25),
            (_, false) => (6, 6),
            (_, true) => (8, 80),
        };
        let hs: Vec<_> = (0..procs)
            .map(|p| {
                let mut c = Command::new("bash");
                let from = self.check.fixed + p * each;
                c.arg(script).args([self.check.id, &self.seed.to_string(), &from.to_string(), &each.to_string()]);
                c.env("LNMON_MIRI_SEED", (self.seed.wrapping_mul(1000) + p).to_string());
                let limit = if self.thorough { 1500 } else { 240 };
                std::thread::spawn(move || run(c, Duration::from_secs(limit)))
            })
            .collect();
        let mut unclear = None;
        let mut broken = None;
        for h in hs {
            let Ok(Ok(r)) = h.join() else {
                unclear = Some("miri could not be started".to_string());
                continue;
            };
            if r.err.contains("Undefined Behavior") || r.out.contains("BROKEN ") {
                let e: String = r.err.find("Undefined Behavior").map_or(String::new(), |p| r.err[p..].chars().take(6000).collect());
                let b: String = r.out.lines().find(|l| l.contains("BROKEN ")).unwrap_or("").to_string();
                let head = if b.is_empty() { e.lines().next().unwrap_or("").to_string() } else { b };
                broken = Some((head, format!("{}\n{e}", tail(&r.out))));
            } else if let Some(l) = r.out.lines().find(|l| l.starts_with("TINY-DONE")) {
                *total.entry("interpreters".into()).or_default() += 1;
                for kv in l.split(' ').skip(1) {
                    if let Some((k, v)) = kv.split_once('=') {
                        *total.entry(k.into()).or_default() += v.parse::<u64>().unwrap_or(0);
                    }
                }
            } else {
                unclear = Some(format!("miri ended with {:?}, timed out {}: {}", r.code, r.timed_out, tail(&r.err)));
            }
        }
        if let Some((m, n)) = broken {
            return (total, Verdict::Broken(format!("miri: {m}"), None, n));
        }
        if total.is_empty() {
            return (total, Verdict::Unclear(unclear.unwrap_or_default()));
        }
        (total, Verdict::Held)
    }
}

pub fn supervise(check: &'static Check, thorough: bool, seed: u64) -> i32 {
    let started = Instant::now();
    let root = root();
    let dir = std::env::temp_dir().join(format!("lnmon-{}-{}", check.id, std::process::id()));
    if std::fs::create_dir_all(&dir).is_err() {
        eprintln!("no scratch directory");
        return 2;
    }
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let sup = Sup { check, thorough, seed, exe: exe.clone(), dir: dir.clone() };
    let cap = if thorough { 1500 } else { 150 };
    let (rep, verdict) = sup.workers("plain", &sup.exe, 1, cap, &[]);
    let mut legs: Vec<(String, String)> = vec![];
    let mut broken: Option<(String, Option<u64>, String)> = None;
    let mut unclear: Option<String> = None;
    match verdict {
        Verdict::Held => {}
        Verdict::Broken(m, i, n) => broken = Some((m, i, n)),
        Verdict::Unclear(m) => unclear = Some(m),
    }
    // other builds of the same workload
    let scale: u64 = std::env::var("LNMON_SAN_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    for (name, var, scale) in [("unoptimised", "LNMON_O0", 4 * scale), ("asan", "LNMON_ASAN", scale), ("tsan", "LNMON_TSAN", scale)] {
        if broken.is_some() {
            break;
        }
        let Ok(p) = std::env::var(var) else { continue };
        if p.is_empty() {
            legs.push((name.into(), jstr("not built here: this leg did not run")));
            continue;
        }
        let envs = [
            ("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:exitcode=66"),
            ("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:report_signal_unsafe=0"),
        ];
        let (r, v) = sup.workers(name, &PathBuf::from(p), scale, cap, &envs);
        let what = match v {
            Verdict::Held => format!(
                "{{\"cases\":{},\"reports\":0,\"events\":{{{}}}}}",
                r.nums.get("evaluations").unwrap_or(&0),
                r.counts.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",")
            ),
            Verdict::Broken(m, i, n) => {
                let w = jstr(&m);
                broken = Some((m, i, n));
                w
            }
            Verdict::Unclear(m) => jstr(&format!("no answer: {}", short(&m))),
        };
        legs.push((name.into(), what));
    }
    if broken.is_none() {
        if let Ok(script) = std::env::var("LNMON_MIRI") {
            let (n, v) = if script.is_empty() {
                (BTreeMap::new(), Verdict::Unclear("not built here: this leg did not run".into()))
            } else {
                sup.miri(&script)
            };
            let what = match v {
                Verdict::Held => format!("{{{},\"reports\":0}}", n.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",")),
                Verdict::Broken(m, i, n) => {
                    let w = jstr(&m);
                    broken = Some((m, i, n));
                    w
                }
                Verdict::Unclear(m) => jstr(&format!("no answer: {}", short(&m))),
            };
            legs.push(("miri".into(), what));
        }
    }
    let num = |k: &str| rep.nums.get(k).copied().unwrap_or(0);
    if broken.is_none() && unclear.is_none() {
        for m in check.must {
            if rep.counts.get(*m).copied().unwrap_or(0) == 0 {
                unclear = Some(format!("nothing was observed for {m}"));
            }
        }
        if num("setup_failed") * 2 > num("evaluations") {
            unclear = Some(format!("most cases could not be set up: {:?}", rep.setup_sample));
        }
    }
    // evidence
    let mut cov = format!(
        "\"evaluations\":{},\"distinct_nontrivial\":{},\"nontrivial\":{},\"planned\":{},\"cut_short_by_time\":{},\"not_set_up\":{},\"threads\":{},\"rule\":{}",
        num("evaluations"),
        num("distinct"),
        num("nontrivial"),
        num("planned"),
        num("truncated") == 1,
        num("setup_failed"),
        num("threads"),
        jstr(check.rule)
    );
    let obj = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",");
    let _ = write!(cov, ",\"observed\":{{{}}},\"largest\":{{{}}}", obj(&rep.counts), obj(&rep.maxes));
    if let Some(m) = &rep.setup_sample {
        let _ = write!(cov, ",\"not_set_up_example\":{}", jstr(m));
    }
    if !legs.is_empty() {
        let _ = write!(cov, ",\"sanitizers\":{{{}}}", legs.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(","));
    }
    let mut samples: Vec<String> = rep.samples.iter().map(|s| jstr(s)).collect();
    if let Some((m, i, n)) = &broken {
        samples.insert(0, jstr(&format!("violating case {i:?}: {m}: {}", short(n))));
    }
    let _ = write!(cov, ",\"samples\":{}", jarr(samples));
    let ev = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{seed},\"level\":\"exploration\",\"coverage\":{{{cov}}},\"assumptions\":{},\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(check.id),
        sup.tier(),
        jarr(check.assumptions.iter().map(|s| jstr(s))),
        started.elapsed().as_secs_f64(),
        broken.is_some() as u8
    );
    let _ = std::fs::create_dir_all(root.join("evidence"));
    let wrote = std::fs::write(root.join(format!("evidence/{}.json", check.id)), ev).is_ok();
    let _ = std::fs::remove_dir_all(&dir);
    if let Some((m, idx, notes)) = broken {
        let _ = std::fs::create_dir_all(root.join("replays"));
        let p = root.join(format!("replays/{}-{}-{}.txt", check.id, sup.tier(), idx.map_or("sanitizer".to_string(), |i| i.to_string())));
        let text = format!(
            "property: {}\ntier: {}\nseed: {seed}\ncase: {}\nwhat: {}\n\nAgain: bash {}/check.sh --replay {}\n\n{notes}\n",
            check.id,
            sup.tier(),
            idx.map_or("none".into(), |i| i.to_string()),
            m.replace('\n', " "),
            root.display(),
            p.display()
        );
        let _ = std::fs::write(&p, text);
        println!("{}: {}", check.id, short(&m));
        println!("VIOLATION property={} replay={}", check.id, p.display());
        return 1;
    }
    if let Some(m) = unclear {
        println!("{}: no answer: {}", check.id, short(&m));
        return 2;
    }
    if !wrote {
        println!("{}: evidence could not be written", check.id);
        return 2;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial), {:.1} s",
        check.id,
        num("evaluations"),
        num("distinct"),
        started.elapsed().as_secs_f64()
    );
    0
}
