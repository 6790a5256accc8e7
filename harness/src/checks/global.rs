//! C24-C26: whole pipelines.

use super::resolvers::{alike_words, recorded};
use super::tokens::first_diff;
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::rng::{hash_str, mix, Rng};
use crate::{ensure, same, with_ty};
use layered_amount::{Amount, AmountResolver};
use layered_clauses::{Clause, ClauseKeyword, ClauseKeywordResolver, ClauseResolver};
use layered_nlp::{
    create_line_from_input_tokens, debug_line, x, InputToken, LLLine, LLSelection, TextMatchAssignResolver,
};
use layered_part_of_speech::{POSTagResolver, Tag};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Barrier};

#[derive(Debug, Clone, PartialEq)]
pub struct Found(pub u32);

#[derive(Clone, Debug)]
enum Step {
    Amounts(bool),
    AmountsWith(Vec<char>, char),
    Keywords(usize),
    Clauses,
    Pos,
    Lookup(bool, u64),
    Layer(Ty, u64),
    /// keywords taken from the line itself
    OwnKeywords(u64),
    /// a map with texts of the line itself
    OwnLookup(bool, u64),
}

const KW: &[(&[&str], &[&str], &[&str])] =
    &[(&["if", "when"], &["and"], &["then"]), (&["si"], &["et"], &["alors"]), (&["unless", "open"], &["or", "the"], &["go"])];

fn lookup(insensitive: bool, seed: u64) -> TextMatchAssignResolver<Found> {
    let mut r = Rng::new(seed);
    let mut map = HashMap::new();
    let mut seen = std::collections::HashSet::new();
    for _ in 0..r.range(1, 12) {
        let w = *r.pick(gen::VOCAB);
        let k = gen::recase(&mut r, w);
        // keys differing only by case would make the order depend on the map
        if seen.insert(k.to_lowercase()) {
            map.insert(k, (0..r.range(1, 3)).map(|i| Found(i as u32 * 100 + r.below(50) as u32)).collect());
        }
    }
    if insensitive {
        TextMatchAssignResolver::new_case_insensitive(map)
    } else {
        TextMatchAssignResolver::new(map)
    }
}

/// Up to six texts of the line, short ones only, each with a number.
fn own_texts(line: &LLLine, r: &mut Rng) -> Vec<(String, usize)> {
    let texts: Vec<String> = observed_tokens(line).into_iter().flatten().map(|t| t.0).filter(|t| t.len() <= 6).collect();
    (0..if texts.is_empty() { 0 } else { r.range(1, 6) }).map(|_| (r.pick(&texts).clone(), r.below(60))).collect()
}

/// Keyword resolvers keep `&'static str`s: each text is kept once.
fn kept(t: &str) -> &'static str {
    static KEPT: std::sync::Mutex<std::collections::BTreeSet<&'static str>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
    let mut set = KEPT.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(s) = set.get(t) {
        return s;
    }
    let s: &'static str = Box::leak(t.to_string().into_boxed_str());
    set.insert(s);
    s
}

fn step_name(s: &Step) -> &'static str {
    match s {
        Step::Amounts(_) | Step::AmountsWith(..) => "amount_runs",
        Step::Keywords(_) | Step::OwnKeywords(_) => "keyword_runs",
        Step::Clauses => "clause_runs",
        Step::Pos => "pos_runs",
        Step::Lookup(..) | Step::OwnLookup(..) => "lookup_runs",
        Step::Layer(..) => "layer_runs",
    }
}

fn run_step(line: LLLine, s: &Step) -> LLLine {
    match s {
        Step::Amounts(true) => line.run(&AmountResolver::english()),
        Step::Amounts(false) => line.run(&AmountResolver::french()),
        Step::AmountsWith(d, c) => line.run(&AmountResolver::new(d.clone(), *c)),
        Step::Keywords(k) => line.run(&ClauseKeywordResolver::new(KW[*k].0, KW[*k].1, KW[*k].2)),
        Step::Clauses => line.run(&ClauseResolver::default()),
        Step::Pos => line.run(&POSTagResolver::default()),
        Step::Lookup(i, seed) => line.run(&lookup(*i, *seed)),
        Step::OwnKeywords(seed) => {
            let mut r = Rng::new(*seed);
            let mut lists: [Vec<&'static str>; 3] = Default::default();
            for (text, k) in own_texts(&line, &mut r) {
                lists[k % 3].push(kept(&text.to_lowercase()));
            }
            line.run(&ClauseKeywordResolver::new(&lists[0], &lists[1], &lists[2]))
        }
        Step::OwnLookup(insensitive, seed) => {
            let mut r = Rng::new(*seed);
            let mut seen = std::collections::HashSet::new();
            let own = own_texts(&line, &mut r).into_iter().filter(|(t, _)| seen.insert(t.to_lowercase()));
            let map: HashMap<String, Vec<Found>> = own.map(|(t, k)| (t, vec![Found(k as u32)])).collect();
            line.run(&if *insensitive { TextMatchAssignResolver::new_case_insensitive(map) } else { TextMatchAssignResolver::new(map) })
        }
        Step::Layer(ty, seed) => {
            let mut r0 = Rng::new(*seed);
            let r = std::cell::RefCell::new(&mut r0);
            with_ty!(*ty, T => line.run(&resolver::<T, _>(|full| {
                let r = &mut **r.borrow_mut();
                let mut ids = Ids(0);
                let texts = full.find_by(&x::token_text());
                let mut out = vec![];
                for _ in 0..r.range(1, 5) {
                    let mut s = full.clone();
                    if !texts.is_empty() && r.chance(3, 4) {
                        s = r.pick(&texts).0.clone();
                        for _ in 0..r.below(4) {
                            if let Some((n, _)) = s.match_first_forwards(&x::token_text()) {
                                s = n;
                            }
                        }
                    }
                    out.push(s.finish_with_attr(<T as Val>::of(random_value(r, *ty, &mut ids))));
                }
                out
            })))
        }
    }
}

struct Program {
    specs: Vec<InSpec>,
    measure: Measure,
    steps: Vec<Step>,
}

fn random_step(r: &mut Rng, tiny: bool) -> Step {
    match r.below(if tiny { 9 } else { 12 }) {
        0 => Step::Amounts(true),
        1 => Step::Amounts(false),
        2 => Step::AmountsWith(vec![*r.pick(&[',', '\'', '_', ' ', ';']); r.below(3)], *r.pick(&['.', ',', 'x'])),
        3 | 4 => Step::Keywords(r.below(KW.len())),
        5 => Step::Clauses,
        6 => Step::Lookup(r.chance(1, 2), r.next()),
        7 | 8 => Step::Layer(*r.pick(&[Ty::A, Ty::B, Ty::S, Ty::Z, Ty::U, Ty::Ch, Ty::Tag]), r.next()),
        9 => Step::Pos,
        10 => Step::OwnKeywords(r.next()),
        _ => Step::OwnLookup(r.chance(1, 2), r.next()),
    }
}

fn program(seed: u64, tiny: bool) -> Program {
    let mut r = Rng::new(seed);
    let mut ids = Ids(0);
    let o = SpecOpts {
        max_inputs: if tiny { 2 } else { *r.pick(&[1, 3, 6]) },
        frags: if tiny { 3 } else { *r.pick(&[3, 8, 20]) },
        attr_pct: 30,
        lib_types: r.chance(1, 4),
        custom_pct: 15,
    };
    let mut specs = random_specs(&mut r, &o, &mut ids);
    if tiny {
        // an interpreter is three orders of magnitude slower
        for s in &mut specs {
            if let In::Text(t) = &mut s.kind {
                *t = t.chars().take(6).collect();
            }
        }
    } else if r.chance(1, 2) {
        let t = gen::clause_text(&mut r, KW[0].0, KW[0].1, KW[0].2);
        specs.push(InSpec { kind: In::Text(t), attrs: vec![], late: 0 });
    }
    let steps = (0..r.range(1, if tiny { 2 } else { 6 })).map(|_| random_step(&mut r, tiny)).collect();
    let measure = *r.pick(MEASURES);
    Program { specs, measure, steps }
}

impl Program {
    fn start(&self) -> LLLine {
        let m = self.measure;
        create_line_from_input_tokens(real_inputs(&self.specs), |s| m.of(s))
    }
    fn run(&self) -> LLLine {
        self.steps.iter().fold(self.start(), run_step)
    }
}

/// Everything a user can read from a line.
pub fn dump(line: &LLLine) -> String {
    let mut s = String::new();
    let _ = write!(s, "{:?}\n{:?}\n", observed_tokens(line), line.find(&x::token_text()));
    for ty in ALL_TYS {
        with_ty!(*ty, T => {
            let _ = write!(s, "{:?} {:?}\n", line.query::<T>(), line.find(&x::attr::<T>()).iter().map(|f| (f.range(), f.attr().mv())).collect::<Vec<_>>());
        });
    }
    let _ = write!(
        s,
        "{:?}\n{:?}\n{:?}\n{:?}\n{:?}\n",
        line.query::<Amount>(),
        line.query::<ClauseKeyword>(),
        line.query::<Clause>(),
        line.query::<Tag>().iter().map(|(r, t, v)| (r, t, format!("{v:?}"))).collect::<Vec<_>>(),
        line.query::<Found>(),
    );
    if line.ll_tokens().len() < 300 {
        let d = debug_line(line).with::<Amount>().with::<Clause>().with::<ClauseKeyword>().with::<A>().with::<layered_nlp::TextTag>();
        let _ = write!(s, "{d}");
    }
    s
}

fn diff_text(a: &str, b: &str) -> String {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    first_diff(&x, &y)
}

// ------------------------------------------------------------------ C24

#[allow(dead_code)]
trait NotThreadSafe {
    const SEND: bool = false;
    const SYNC: bool = false;
}
struct MarkerSend<T>(PhantomData<T>);
impl<T: Send> MarkerSend<T> {
    const SEND: bool = true;
}
impl<T> NotThreadSafe for MarkerSend<T> {}
struct MarkerSync<T>(PhantomData<T>);
impl<T: Sync> MarkerSync<T> {
    const SYNC: bool = true;
}
impl<T> NotThreadSafe for MarkerSync<T> {}

/// Whether the compiler lets lines be sent and shared; decided without requiring it, so that a
/// change in it is reported as a violation and not as a failure to build the monitor.
pub fn thread_markers() -> (bool, bool) {
    (MarkerSend::<LLLine>::SEND, MarkerSync::<LLLine>::SYNC)
}

struct Share<T>(T);
// Only used after `thread_markers` said that lines may be shared and sent.
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

/// The program of a seed with the texts and the steps of others, the texts changed a little
/// unless `change` is 0.
fn mixed_program((own, specs, steps, change): Mixed, tiny: bool) -> Program {
    let mut p = program(own, tiny);
    p.specs = program(specs, tiny).specs;
    p.steps = program(steps, tiny).steps;
    if change != 0 {
        let mut r = Rng::new(change);
        for s in &mut p.specs {
            if let In::Text(t) = &mut s.kind {
                *t = near(&mut r, t);
            }
        }
    }
    p
}
type Mixed = (u64, u64, u64, u64);

/// A text close to another: what is kept for the one must not be used for the other.
fn near(r: &mut Rng, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    match r.below(8) {
        0 => return t.to_uppercase(),
        1 => return gen::recase(r, t),
        2 => return t.split_whitespace().collect::<Vec<_>>().join(r.pick::<&str>(gen::SPACES)) + "x",
        3 => cs.reverse(),
        _ => {
            for _ in 0..r.range(1, 3) {
                let i = r.below(cs.len() + 1);
                match r.below(4) {
                    0 => cs.insert(i, *r.pick(&['\u{1}', '\0', '\u{301}', '\u{AD}', ' ', '1', ',', 'a'])),
                    1 if i < cs.len() && cs.len() > 1 => drop(cs.remove(i)),
                    _ if i < cs.len() => cs[i] = char::from_u32(cs[i] as u32 ^ (1 << r.below(6))).unwrap_or('x'),
                    _ => cs.push(*r.pick(&['s', '0', '\'', '\u{7F}'])),
                }
            }
        }
    }
    cs.into_iter().collect()
}

/// One program, to be run by a process of its own.
pub fn alone(p: Mixed) -> u64 {
    hash_str(&dump(&mixed_program(p, false).run()))
}

fn in_own_process(args: &[String]) -> Result<String, Fail> {
    let exe = std::env::current_exe().map_err(|e| Fail::Setup(e.to_string()))?;
    let o = std::process::Command::new(exe).args(args).output().map_err(|e| Fail::Setup(e.to_string()))?;
    if !o.status.success() {
        return Err(Fail::Setup(format!("process {args:?} ended with {:?}", o.status)));
    }
    Ok(String::from_utf8_lossy(&o.stdout).trim().to_string())
}

pub fn digest(seed: u64, n: u64) -> u64 {
    (0..n).fold(seed, |h, i| mix(h, hash_str(&dump(&program(mix(seed, 1000 + i), false).run()))))
}

thread_local!(static BUSY: std::cell::RefCell<Option<std::rc::Rc<dyn Fn()>>> = const { std::cell::RefCell::new(None) });
/// Runs the hook of this thread, unless it is running already.
fn busy() {
    let f = BUSY.with(|b| b.borrow_mut().take());
    if let Some(f) = f {
        f();
        BUSY.with(|b| *b.borrow_mut() = Some(f));
    }
}
struct Unhook;
impl Drop for Unhook {
    fn drop(&mut self) {
        BUSY.with(|b| b.borrow_mut().take());
    }
}
/// A value that processes another line whenever it is compared or shown.
struct Busy;
impl std::fmt::Debug for Busy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        busy();
        write!(f, "Busy")
    }
}
impl PartialEq for Busy {
    fn eq(&self, _: &Busy) -> bool {
        busy();
        true
    }
}
/// A matcher that does.
struct BusyMatch;
impl<'l> x::XMatch<'l> for BusyMatch {
    type Out = &'l str;
    fn go<D: x::XDirection<'l>>(&self, d: &D, line: &'l LLLine) -> Vec<(&'l str, x::ToIdx)> {
        busy();
        x::token_text().go(d, line)
    }
}

/// Runs a program with calls to the hook wherever the library calls its users.
fn busy_run(p: &Program, cut: usize) -> Result<LLLine, Fail> {
    let m = p.measure;
    let mut inputs = real_inputs(&p.specs);
    for t in &mut inputs {
        t.add_attr(Busy);
    }
    let mut line = create_line_from_input_tokens(inputs, |s| {
        busy();
        m.of(s)
    });
    for (i, s) in p.steps.iter().enumerate() {
        if i == cut {
            let eq = std::cell::Cell::new(None);
            line = line.run(&resolver::<Busy, _>(|full| {
                busy();
                let finds = full.find_by(&x::seq((BusyMatch, x::any_of((x::attr_eq(&Busy), BusyMatch))))).len();
                let equals = full.find_by(&x::attr_eq(&Busy)).len();
                let pieces = full.split_by(&x::all((x::attr_eq(&Busy), x::token_has_any(&[Busy])))).len();
                eq.set(Some((finds, equals, pieces, full.trim(&BusyMatch).is_some())));
                vec![]
            }));
            if let Some((_, equals, _, _)) = eq.get() {
                let supplied: usize = line.query::<Busy>().iter().map(|q| q.2.len()).sum();
                same!(equals, supplied, "equal values found while lines are processed inside");
            }
        }
        line = run_step(line, s);
    }
    let bars = debug_line(&line).with::<Busy>().to_string().matches("Busy").count();
    let supplied: usize = line.query::<Busy>().iter().map(|q| q.2.len()).sum();
    let texts: usize = p.specs.iter().map(|s| if let In::Text(t) = &s.kind { t.matches("Busy").count() } else { 0 }).sum();
    ensure!(bars >= supplied && bars <= supplied + texts + 1, "values shown while lines are processed inside: {bars} for {supplied}");
    Ok(line)
}

/// Processing given up in the middle, by a panic of the caller's own code, leaves nothing behind.
fn interrupted(ctx: &mut Ctx, progs: &[Program], base: &[String]) -> Res {
    for _ in 0..if ctx.tiny { 1 } else { 3 } {
        let outer = ctx.rng.below(progs.len());
        let most = *ctx.rng.pick(&[1, 4, 40]);
        let counter = std::cell::Cell::new(ctx.rng.below(most));
        BUSY.with(|b| {
            *b.borrow_mut() = Some(std::rc::Rc::new(move || {
                if counter.get() == 0 {
                    std::panic::resume_unwind(Box::new(Interrupt));
                }
                counter.set(counter.get() - 1);
            }))
        });
        let _unhook = Unhook;
        let cut = ctx.rng.below(progs[outer].steps.len() + 1);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| busy_run(&progs[outer], cut))) {
            Ok(r) => drop(r?),
            Err(e) if e.is::<Interrupt>() => ctx.count("interrupted_runs", 1),
            Err(e) => std::panic::resume_unwind(e),
        }
        BUSY.with(|b| b.borrow_mut().take());
        for (p, b) in progs.iter().zip(base) {
            let d = dump(&p.run());
            ensure!(d == *b, "after an interrupted run: {}", diff_text(&d, b));
        }
    }
    Ok(())
}
struct Interrupt;

/// One line processed in the middle of processing another: in its measure, its resolvers, its
/// matchers, the comparison and the rendering of its values.
fn nested(ctx: &mut Ctx, progs: &[Program], base: &[String]) -> Res {
    let outer = ctx.rng.below(progs.len());
    let inner = ctx.rng.below(progs.len());
    let (want, seed, measure) = (base[inner].clone(), ctx.rng.next(), progs[inner].measure);
    let most = if ctx.tiny { 1 } else { 12 };
    let wrong: std::rc::Rc<std::cell::RefCell<Option<String>>> = Default::default();
    let count = std::rc::Rc::new(std::cell::Cell::new(0u64));
    {
        let (wrong, count, rng) = (wrong.clone(), count.clone(), std::cell::RefCell::new(Rng::new(seed)));
        let p = Program { specs: progs[inner].specs.clone(), measure, steps: progs[inner].steps.clone() };
        BUSY.with(|b| {
            *b.borrow_mut() = Some(std::rc::Rc::new(move || {
                if count.get() < most && rng.borrow_mut().chance(1, 2) {
                    count.set(count.get() + 1);
                    let d = dump(&p.run());
                    if d != want {
                        *wrong.borrow_mut() = Some(diff_text(&d, &want));
                    }
                }
            }))
        });
    }
    let _unhook = Unhook;
    let cut = ctx.rng.below(progs[outer].steps.len() + 1);
    let line = busy_run(&progs[outer], cut)?;
    let d = dump(&line);
    ensure!(d == base[outer], "a line during whose processing others are processed: {}", diff_text(&d, &base[outer]));
    if let Some(w) = wrong.borrow().as_ref() {
        return violation(format!("a line processed while another is processed gives other results: {w}"));
    }
    ctx.count("nested_runs", count.get());
    Ok(())
}

/// What the resolvers find in a text, as ranges from its first token on.
type Finds = Vec<((usize, usize), String)>;
fn found_in(line: &LLLine, from: usize, n: usize) -> Finds {
    let mut v: Finds = vec![];
    let mut put = |(a, b): (usize, usize), what: String| {
        if a >= from && b < from + n {
            v.push(((a - from, b - from), what));
        }
    };
    macro_rules! all {
        ($($T:ty),*) => { $( for (rg, _, vs) in line.query::<$T>() { for x in vs { put(rg, format!("{x:?}")); } } )* };
    }
    all!(Tag, Amount, ClauseKeyword, Found);
    v
}

/// Texts that are alike, met alone, in several orders, on several threads and side by side in
/// one line: each is treated the same whatever was met before.
fn alike(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let mut texts: Vec<String> = match r.below(6) {
        0..=2 => alike_words(r),
        3 => {
            // numbers
            let base: String = (0..r.range(1, 25)).map(|_| *r.pick(&['0', '1', '7', '9', '4'])).collect();
            (0..r.range(2, 6)).map(|_| near(r, &base)).collect()
        }
        4 => {
            let mut cs: Vec<char> = r.pick::<&str>(gen::VOCAB).chars().collect();
            (0..4)
                .map(|_| {
                    r.shuffle(&mut cs);
                    cs.iter().collect()
                })
                .collect()
        }
        _ => {
            let base = alike_words(r).swap_remove(0);
            (0..r.range(2, 6)).map(|_| near(r, &base)).collect()
        }
    };
    if r.chance(1, 2) {
        let t = near(r, &texts[0]);
        texts.push(t);
    }
    if r.chance(1, 3) {
        let t = gen::recase(r, &texts[0]);
        texts.push(t);
    }
    texts.retain(|t| !t.is_empty());
    texts.sort();
    texts.dedup();
    r.shuffle(&mut texts);
    if texts.is_empty() {
        return Ok(());
    }
    let sig = texts.iter().fold(7, |h, t| mix(h, hash_str(t)));
    ctx.note(|| format!("texts {texts:?}"));
    let mut lists: [Vec<&'static str>; 3] = Default::default();
    let mut map: HashMap<String, Vec<Found>> = HashMap::new();
    let mut lowered = std::collections::HashSet::new();
    for (i, t) in texts.iter().enumerate() {
        if t.len() <= 30 && lowered.insert(t.to_lowercase()) && ctx.rng.chance(1, 2) {
            lists[ctx.rng.below(3)].push(kept(&t.to_lowercase()));
            map.insert(t.clone(), vec![Found(i as u32)]);
        }
    }
    let insensitive = ctx.rng.chance(1, 2);
    let keywords = ClauseKeywordResolver::new(&lists[0], &lists[1], &lists[2]);
    let lookup = || if insensitive { TextMatchAssignResolver::new_case_insensitive(map.clone()) } else { TextMatchAssignResolver::new(map.clone()) };
    let lookup_kept = lookup();
    let amounts = AmountResolver::english();
    let go = |inputs: Vec<InputToken>| {
        create_line_from_input_tokens(inputs, |s| s.len()).run(&POSTagResolver::default()).run(&keywords).run(&lookup_kept).run(&amounts)
    };
    let alone = |t: &String| {
        let l = go(vec![InputToken::text(t.clone(), vec![])]);
        let n = l.ll_tokens().len();
        (n, found_in(&l, 0, n))
    };
    let base: Vec<(usize, Finds)> = texts.iter().map(alone).collect();
    for round in 0..2 {
        let mut order: Vec<usize> = (0..texts.len()).collect();
        ctx.rng.shuffle(&mut order);
        if round == 1 {
            let again = order.clone();
            order.extend(again.into_iter().rev());
        }
        let compare = || -> Result<(), String> {
            for i in &order {
                let got = alone(&texts[*i]);
                if got != base[*i] {
                    return Err(format!("{:?} after other texts: {:?} but at first: {:?}", texts[*i], got, base[*i]));
                }
            }
            Ok(())
        };
        viol(compare())?;
        ctx.count("alike_texts_compared", order.len() as u64);
        // side by side
        let mut inputs = vec![];
        for i in &order {
            inputs.push(InputToken::text(texts[*i].clone(), vec![]));
            inputs.push(InputToken::text(" ; ".into(), vec![]));
        }
        let line = go(inputs);
        let mut at = 0;
        for i in &order {
            let (n, want) = &base[*i];
            let got = found_in(&line, at, *n);
            ensure!(got == *want, "{:?} in a line with other texts: {got:?} but alone: {want:?}", texts[*i]);
            at += n + 3;
        }
        same!(line.ll_tokens().len(), at, "tokens of the texts side by side");
    }
    // a thread that never met any of them meets them in another order
    let mut order: Vec<usize> = (0..texts.len()).collect();
    ctx.rng.shuffle(&mut order);
    let (texts, base) = (&texts, &base);
    let (lists, map) = (&lists, &map);
    let told: Result<(), String> = std::thread::scope(|sc| {
        sc.spawn(move || {
            for i in order {
                let l = create_line_from_input_tokens(vec![InputToken::text(texts[i].clone(), vec![])], |s| s.len())
                    .run(&POSTagResolver::default())
                    .run(&ClauseKeywordResolver::new(&lists[0], &lists[1], &lists[2]))
                    .run(&if insensitive { TextMatchAssignResolver::new_case_insensitive(map.clone()) } else { TextMatchAssignResolver::new(map.clone()) })
                    .run(&AmountResolver::english());
                let n = l.ll_tokens().len();
                let got = (n, found_in(&l, 0, n));
                if got != base[i] {
                    return Err(format!("{:?} on a new thread: {:?} but before: {:?}", texts[i], got, base[i]));
                }
            }
            Ok(())
        })
        .join()
        .unwrap_or_else(|_| Err("a thread panicked".to_string()))
    });
    viol(told)?;
    ctx.nontrivial(sig);
    Ok(())
}

pub fn c24(ctx: &mut Ctx) -> Res {
    let (send, sync) = thread_markers();
    ensure!(send, "LLLine cannot be sent to another thread");
    ensure!(sync, "LLLine cannot be shared between threads");
    if ctx.idx == 0 && !ctx.tiny {
        // other processes, environments and working directories
        let here = digest(ctx.seed, 60);
        for k in 0..3 {
            let exe = std::env::current_exe().map_err(|e| Fail::Setup(e.to_string()))?;
            let mut c = std::process::Command::new(exe);
            c.args(["digest", &ctx.seed.to_string(), "60"]);
            if k > 0 {
                c.env("LANG", ["C", "tr_TR.UTF-8", "C"][k]).env("LC_ALL", ["C", "tr_TR.UTF-8", "POSIX"][k]).env("TZ", "Asia/Tokyo").current_dir("/");
            }
            let o = c.output().map_err(|e| Fail::Setup(e.to_string()))?;
            if !o.status.success() {
                return Err(Fail::Setup(format!("digest process ended with {:?}", o.status)));
            }
            let there = String::from_utf8_lossy(&o.stdout).trim().to_string();
            ensure!(there == here.to_string(), "another process computed other results from the same inputs");
            ctx.count("process_comparisons", 1);
        }
        ctx.nontrivial(0);
        return Ok(());
    }
    if !ctx.tiny && ctx.idx % 4 != 1 {
        return alike(ctx);
    }
    let k = if ctx.tiny { 2 } else { ctx.rng.range(2, 6) };
    // some programs share their texts with others, so stale state would be found
    let seeds: Vec<Mixed> = {
        let mut v: Vec<Mixed> = vec![];
        for i in 0..k {
            let own = ctx.rng.next();
            let specs = if i > 0 && ctx.rng.chance(2, 3) { v[ctx.rng.below(i)].1 } else { own };
            let steps = if i > 0 && ctx.rng.chance(1, 3) { v[ctx.rng.below(i)].2 } else { own };
            let change = if ctx.rng.chance(1, 2) { ctx.rng.next() } else { 0 };
            v.push((own, specs, steps, change));
        }
        v
    };
    let progs: Vec<Program> = seeds.iter().map(|s| mixed_program(*s, ctx.tiny)).collect();
    for p in &progs {
        ctx.note(|| format!("program {:?} {:?} {:?}", p.specs, p.measure, p.steps));
    }
    let base: Vec<String> = progs.iter().map(|p| dump(&p.run())).collect();
    let sig = base.iter().fold(1, |h, d| mix(h, hash_str(d)));
    for p in &progs {
        for s in &p.steps {
            ctx.count(step_name(s), 1);
        }
    }
    // in a process that did nothing else before
    if !ctx.tiny && ctx.idx % 32 == 1 {
        for (s, b) in seeds.iter().zip(&base) {
            let there = in_own_process(&["alone".into(), s.0.to_string(), s.1.to_string(), s.2.to_string(), s.3.to_string()])?;
            ensure!(there == hash_str(b).to_string(), "a process that did nothing before computes other results than one that did: here {}", short(b));
            ctx.count("fresh_process_comparisons", 1);
        }
    }
    // again, in another order
    let mut order: Vec<usize> = (0..k).collect();
    ctx.rng.shuffle(&mut order);
    for i in order.iter().take(if ctx.tiny { 0 } else { k }) {
        let d = dump(&progs[*i].run());
        ensure!(d == base[*i], "a repetition gives other results: {}", diff_text(&d, &base[*i]));
        ctx.count("repetitions", 1);
    }
    // the lines side by side, step by step
    let mut lines: Vec<Option<LLLine>> = order.iter().map(|i| Some(progs[*i].start())).collect();
    for step in 0..if ctx.tiny { 0 } else { 6 } {
        for (slot, i) in lines.iter_mut().zip(&order) {
            if let (Some(s), Some(l)) = (progs[*i].steps.get(step), slot.take()) {
                *slot = Some(run_step(l, s));
            } else if slot.is_none() {
                // taken above without a step to run
            }
        }
        for (slot, i) in lines.iter_mut().zip(&order) {
            if slot.is_none() {
                *slot = Some(progs[*i].steps.iter().take(step + 1).fold(progs[*i].start(), run_step));
            }
        }
    }
    for (slot, i) in lines.iter().zip(&order).take(if ctx.tiny { 0 } else { k }) {
        if let Some(l) = slot {
            let d = dump(l);
            ensure!(d == base[*i], "processing lines alternately gives other results: {}", diff_text(&d, &base[*i]));
            // reading does not change anything
            let d = dump(l);
            ensure!(d == base[*i], "reading a second time gives other results: {}", diff_text(&d, &base[*i]));
            ctx.count("alternations", 1);
        }
    }
    nested(ctx, &progs, &base)?;
    interrupted(ctx, &progs, &base)?;
    // concurrently: own lines and shared lines, all threads released together
    let threads = if ctx.tiny { 2 } else { 4 };
    let shared: Vec<Share<LLLine>> = progs.iter().map(|p| Share(p.run())).collect();
    let half: Vec<Share<LLLine>> = progs.iter().map(|p| Share(p.start())).collect();
    let barrier = Barrier::new(threads);
    let seeds: Vec<u64> = (0..threads).map(|_| ctx.rng.next()).collect();
    let mut half: Vec<Option<Share<LLLine>>> = half.into_iter().map(Some).collect();
    let moved: Vec<Vec<(usize, Share<LLLine>)>> = (0..threads)
        .map(|t| (0..k).filter(|i| i % threads == t).filter_map(|i| half[i].take().map(|l| (i, l))).collect())
        .collect();
    let (progs_r, base_r, shared_r, barrier_r) = (Share(&progs), &base, &shared, &barrier);
    let progs_r = &progs_r;
    let ctx_tiny = ctx.tiny;
    let results: Vec<Result<u64, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .zip(moved)
            .map(|(seed, mine)| {
                let seed = *seed;
                let rounds = if ctx_tiny { 1 } else { 2 };
                sc.spawn(move || {
                    let mut r = Rng::new(seed);
                    let mut seen = 0;
                    barrier_r.wait();
                    for _ in 0..rounds {
                        let mut order: Vec<usize> = (0..base_r.len()).collect();
                        r.shuffle(&mut order);
                        for i in order {
                            if r.chance(1, 2) {
                                let d = dump(shared_r[i].get());
                                if d != base_r[i] {
                                    return Err(format!("a concurrent reader sees other contents: {}", diff_text(&d, &base_r[i])));
                                }
                            } else {
                                let d = dump(&progs_r.get()[i].run());
                                if d != base_r[i] {
                                    return Err(format!("a concurrent run gives other results: {}", diff_text(&d, &base_r[i])));
                                }
                            }
                            seen += 1;
                        }
                    }
                    // lines built on another thread, finished here
                    for (i, l) in mine {
                        let l = progs_r.get()[i].steps.iter().fold(l.take(), run_step);
                        let d = dump(&l);
                        if d != base_r[i] {
                            return Err(format!("a line moved between threads gives other results: {}", diff_text(&d, &base_r[i])));
                        }
                        seen += 1;
                    }
                    Ok(seen)
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|e| {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                Err(format!("a thread panicked: {}", m.unwrap_or_default()))
            }))
            .collect()
    });
    for r in results {
        let n = viol(r)?;
        ctx.count("concurrent_dumps_compared", n);
    }
    for (s, b) in shared.iter().zip(&base) {
        let d = dump(s.get());
        ensure!(d == *b, "a line changed while it was read: {}", diff_text(&d, b));
    }
    ctx.max("threads", threads as u64);
    ctx.nontrivial(sig);
    Ok(())
}

// ------------------------------------------------------------------ C25

/// A value whose construction and destruction are watched.
struct Tracked {
    id: usize,
    drops: Arc<Vec<AtomicU32>>,
    payload: String,
}
impl std::fmt::Debug for Tracked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Tracked({}, {})", self.id, self.payload)
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Tracked) -> bool {
        self.payload == o.payload
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        self.drops[self.id].fetch_add(1, Ordering::SeqCst);
    }
}

fn tracked_values(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.range(1, if ctx.tiny { 6 } else { 40 });
    let drops: Arc<Vec<AtomicU32>> = Arc::new((0..n).map(|_| AtomicU32::new(0)).collect());
    let mk = |id: usize| Tracked { id, drops: drops.clone(), payload: format!("p{}", id % 5) };
    let a = n / 2;
    let mut inputs = vec![InputToken::text("some text, 12".into(), vec![])];
    for i in 0..a {
        if i % 3 == 0 {
            inputs.push(InputToken::custom(1, vec![]));
        }
        if let Some(t) = inputs.last_mut() {
            t.add_attr(mk(i));
        }
    }
    let line = create_line_from_input_tokens(inputs, |s| s.len());
    let line = line.run(&resolver::<Tracked, _>(|full| (a..n).map(|i| full.finish_with_attr(mk(i))).collect()));
    let line = run_step(line, &Step::Keywords(0));
    let mut alive: Vec<usize> = vec![];
    for (_, _, vs) in line.query::<Tracked>() {
        for v in vs {
            ensure!(v.payload == format!("p{}", v.id % 5), "value {} reads back as {:?}", v.id, v.payload);
            alive.push(v.id);
        }
    }
    for f in line.find(&x::attr::<Tracked>()) {
        ensure!(f.attr().payload == format!("p{}", f.attr().id % 5), "value {} is found as {:?}", f.attr().id, f.attr().payload);
    }
    for id in alive {
        let d = drops[id].load(Ordering::SeqCst);
        ensure!(d == 0, "value {id} is still recorded but was dropped {d} times");
    }
    drop(line);
    for (id, d) in drops.iter().enumerate() {
        let d = d.load(Ordering::SeqCst);
        ensure!(d <= 1, "value {id} was dropped {d} times");
        ctx.count("drops_watched", d as u64);
    }
    Ok(())
}

/// Every operation on selections, results fed back, nothing judged but survival.
fn chaos(full: &LLSelection, r: &mut Rng, m: &MLine, steps: usize) -> (Vec<LLSelection>, u64) {
    let mut ids = Ids(0);
    let mut pool = vec![full.clone()];
    let mut done = 0;
    for _ in 0..steps {
        let base = r.pick(&pool).clone();
        let other = r.pick(&pool).clone();
        let d = r.below(3);
        let mat = random_mat(r, m, &mut ids, d);
        if Op::FindBoth(mat.clone()).model(m, (0, m.n() - 1)).is_err() {
            continue;
        }
        let op = match r.below(14) {
            0 => Op::Find(mat),
            1 => Op::FindFirst(mat),
            2 => Op::FindBoth(mat),
            3 => Op::MatchF(mat),
            4 => Op::MatchFirstF(mat),
            5 => Op::MatchB(mat),
            6 => Op::MatchFirstB(mat),
            7 => Op::SplitBy(mat),
            8 => Op::TrimS(mat),
            9 => Op::TrimE(mat),
            10 => Op::Trim(mat),
            11 => Op::After,
            12 => Op::SplitWith((0, 0)),
            _ => Op::Cloned,
        };
        let res = op.real(&base, Some(&other));
        done += 1;
        for (s, _) in res.into_iter().flatten() {
            if pool.len() < 200 {
                pool.push(s);
            } else {
                let k = r.below(pool.len());
                pool[k] = s;
            }
        }
    }
    (pool, done)
}

pub fn c25(ctx: &mut Ctx) -> Res {
    if ctx.idx < 8 && !ctx.tiny {
        return big(ctx);
    }
    if ctx.rng.chance(1, 10) || (ctx.tiny && ctx.idx % 4 == 3) {
        ctx.nontrivial(ctx.idx);
        return tracked_values(ctx);
    }
    let mut ids = Ids(0);
    let o = SpecOpts {
        max_inputs: if ctx.tiny { 2 } else { *ctx.rng.pick(&[1, 3, 8, 25]) },
        frags: if ctx.tiny { 3 } else { *ctx.rng.pick(&[1, 4, 10, 30]) },
        attr_pct: *ctx.rng.pick(&[0, 40, 80]),
        lib_types: true,
        custom_pct: *ctx.rng.pick(&[0, 15, 60, 100]),
    };
    let specs = random_specs(&mut ctx.rng, &o, &mut ids);
    let measure = *ctx.rng.pick(MEASURES);
    let k = ctx.rng.range(0, if ctx.tiny { 3 } else { 8 });
    let steps: Vec<Step> = (0..k).map(|_| random_step(&mut ctx.rng, ctx.tiny)).collect();
    ctx.note(|| format!("inputs {specs:?}, measure {measure:?}, steps {steps:?}"));
    let mut line = create_line_from_input_tokens(real_inputs(&specs), |s| measure.of(s));
    let m = build(&specs, measure).map(|b| b.1).unwrap_or_default();
    let n = line.ll_tokens().len();
    for s in &steps {
        line = run_step(line, s);
        ctx.count(step_name(s), 1);
    }
    if n > 0 && m.n() == n {
        let seed = ctx.rng.next();
        let done = std::cell::Cell::new(0);
        let chain = if ctx.tiny { 6 } else { 25 };
        line = line.run(&resolver::<Probe, _>(|full| {
            let mut r = Rng::new(seed);
            let (pool, d) = chaos(&full, &mut r, &m, chain);
            done.set(d);
            pool.iter().enumerate().map(|(i, s)| s.finish_with_attr(Probe(i as u32))).collect()
        }));
        ctx.count("operations", done.get());
    }
    let text = dump(&line);
    ctx.count("bytes_read", text.len() as u64);
    let shown = debug_line(&line).with::<Probe>().with::<Amount>().with::<Clause>().to_string();
    ctx.count("bytes_rendered", shown.len() as u64);
    ctx.max("tokens_in_a_line", n as u64);
    ctx.nontrivial(mix(hash_str(&text), steps.len() as u64));
    Ok(())
}

/// Runs something on a thread with the stack threads have by default; it panics if that does.
fn small_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    let run = move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic());
    match std::thread::Builder::new().stack_size(2 << 20).spawn(run).map(|h| h.join()) {
        Ok(Ok(Ok(v))) => v,
        Ok(Ok(Err(m))) => panic!("{m}"),
        _ => panic!("the thread did not end"),
    }
}

/// A value whose Debug text is given.
struct Long(String);
impl std::fmt::Debug for Long {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

/// Long and deep inputs.
fn big(ctx: &mut Ctx) -> Res {
    ctx.nontrivial(ctx.idx);
    match ctx.idx {
        0 => {
            let t = "If 1,000.50 é  then\t\tgo, and 5️⃣ x1y2. ".repeat(250);
            let line = layered_nlp::create_line_from_string(&t);
            let line = [Step::Amounts(true), Step::Amounts(false), Step::Keywords(0), Step::Clauses, Step::Pos, Step::Lookup(true, 5)]
                .iter()
                .fold(line, run_step);
            ctx.max("tokens_in_a_line", line.ll_tokens().len() as u64);
            let mut n = line.query::<Clause>().len() + line.query::<Amount>().len() + line.query::<Tag>().len();
            n += line.find(&x::seq((x::attr::<ClauseKeyword>(), x::whitespace(), x::attr::<Tag>()))).len();
            ctx.count("values_read", n as u64);
        }
        1 => {
            // a deep matcher
            let line = layered_nlp::create_line_from_string("a ".repeat(200));
            let mut mat = Mat::Text;
            for _ in 0..150 {
                mat = Mat::Seq2(Box::new(Mat::Text), Box::new(mat));
            }
            ctx.count("deep_matches", line.find(&mat).len() as u64);
            let mut mat = Mat::Text;
            for i in 0..300 {
                mat = if i % 2 == 0 { Mat::Any2(Box::new(Mat::Attr(Ty::Z)), Box::new(mat)) } else { Mat::All2(Box::new(Mat::Text), Box::new(mat)) };
            }
            ctx.count("deep_matches", line.find(&mat).len() as u64);
        }
        2 => {
            // digits, whitespace, words and marks of great length, on a stack of the usual size
            let texts = vec![
                "9".repeat(400_000),
                " ".repeat(400_000),
                "\t\u{3000}".repeat(1_500),
                "a".repeat(400_000),
                "é".repeat(200_000),
                ".".repeat(3_000),
                "😀".repeat(2_000),
                "don't".repeat(40_000),
                "1".repeat(30) + &",000".repeat(1_500),
                "1é".repeat(600),
                format!("a{}", "\u{301}".repeat(50_000)),
            ];
            let (read, shown) = small_stack(move || {
                let (mut read, mut shown) = (0, 0);
                for t in &texts {
                    let line = layered_nlp::create_line_from_string(t);
                    let line = [Step::Amounts(true), Step::Keywords(0), Step::Clauses, Step::Pos, Step::Lookup(true, 9)].iter().fold(line, run_step);
                    read += line.query::<Amount>().len() + line.query::<Clause>().len();
                    shown += debug_line(&line).with::<Amount>().to_string().len();
                }
                (read, shown)
            });
            ctx.count("values_read", read as u64);
            ctx.count("bytes_rendered", shown as u64);
        }
        3 => {
            // many layers
            let mut line = layered_nlp::create_line_from_string("If it rains, then 1,000 umbrellas open and close. ");
            for i in 0..400u64 {
                line = run_step(line, &[Step::Amounts(true), Step::Keywords(0), Step::Clauses, Step::Layer(Ty::A, i)][i as usize % 4]);
            }
            ctx.count("values_read", line.query::<A>().iter().map(|q| q.2.len() as u64).sum());
            ctx.count("bytes_rendered", debug_line(&line).with::<Clause>().to_string().len() as u64);
        }
        4 => {
            // punctuation and separators only, in every combination of three
            let cs = [",", ".", "'", "1", " ", "\t", "if", "é", "\u{301}"];
            for a in cs {
                for b in cs {
                    for c in cs {
                        for d in cs {
                            let t = format!("{a}{b}{c}{d}");
                            let line = layered_nlp::create_line_from_string(&t);
                            let line = [Step::Amounts(true), Step::Keywords(0), Step::Clauses].iter().fold(line, run_step);
                            ctx.count("values_read", line.query::<Clause>().len() as u64);
                        }
                    }
                }
            }
        }
        5 => {
            // values with long Debug texts, spans of many tokens, characters of 1 to 4 bytes at all offsets
            for (k, unit) in ["é", "世", "😀", "aé世😀", "\u{301}"].iter().enumerate() {
                for pad in 0..4 {
                    let value = "a".repeat(pad) + &unit.repeat(5_000);
                    let text = "b".repeat(pad) + &format!(" {unit}").repeat(700);
                    let line = layered_nlp::create_line_from_string(&text);
                    let line = line.run(&resolver::<Long, _>(|full| {
                        let mut v: Vec<_> = full.find_by(&x::token_text()).iter().take(2).map(|s| s.0.finish_with_attr(Long(value.clone()))).collect();
                        v.push(full.finish_with_attr(Long(value.clone())));
                        v.extend(full.split_by(&x::whitespace()).iter().take(3).map(|s| s.finish_with_attr(Long(String::new()))));
                        v
                    }));
                    let shown = debug_line(&line).with::<Long>().to_string();
                    ctx.count("bytes_rendered", shown.len() as u64);
                    let q = line.query::<Long>();
                    for (rg, t, _) in &q {
                        if std::str::from_utf8(t.as_bytes()).is_err() || t.chars().count() > text.len() {
                            return violation(format!("the text of span {rg:?} of unit {k} is no valid text"));
                        }
                    }
                    ctx.count("values_read", q.len() as u64);
                }
            }
        }
        6 => {
            // spans of every length over texts of several bytes a character, all read back
            let line = layered_nlp::create_line_from_string("é世 😀,".repeat(400));
            let line = line.run(&resolver::<Long, _>(|full| {
                let (mut v, mut s) = (vec![], full.find_first_by(&x::token_text()).map(|s| s.0));
                while let Some(t) = s {
                    if v.len() % 37 == 0 || v.len() < 40 {
                        v.push(t.finish_with_attr(Long(String::new())));
                    }
                    s = t.match_first_forwards(&x::token_text()).map(|s| s.0);
                    v.truncate(2000);
                    if let Some(t) = &s {
                        v.push(t.finish_with_attr(Long("世".into())));
                    }
                }
                v
            }));
            let q = line.query::<Long>();
            for (rg, t, _) in &q {
                if std::str::from_utf8(t.as_bytes()).is_err() {
                    return violation(format!("the text of span {rg:?} is no valid text"));
                }
            }
            ctx.count("values_read", q.len() as u64);
            ctx.count("bytes_rendered", debug_line(&line).with::<Long>().to_string().len() as u64);
        }
        _ => {
            // no tokens at all, and only customs
            for inputs in [vec![], vec![InputToken::custom(0, vec![])], (0..500).map(|i| InputToken::custom(i, vec![])).collect()] {
                let line = create_line_from_input_tokens(inputs, |s| s.len());
                let line = [Step::Amounts(true), Step::AmountsWith(vec![], '.'), Step::Keywords(0), Step::Clauses, Step::Pos, Step::Lookup(true, 9), Step::Layer(Ty::A, 1)]
                    .iter()
                    .fold(line, run_step);
                ctx.count("bytes_read", dump(&line).len() as u64);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C26

#[derive(PartialEq, Debug, Default, Clone)]
struct Out {
    amounts: Vec<(Rg, String)>,
    keywords: Vec<(Rg, ClauseKeyword)>,
    clauses: Vec<(Rg, Clause)>,
    tags: Vec<(Rg, String)>,
    found: Vec<(Rg, Found)>,
}

fn out_of(line: &LLLine) -> Out {
    Out {
        amounts: recorded::<Amount>(line).into_iter().map(|(rg, a)| (rg, a.get_decimal().to_string())).collect(),
        keywords: recorded(line),
        clauses: recorded(line),
        tags: line.query::<Tag>().into_iter().flat_map(|(rg, _, vs)| vs.into_iter().map(move |v| (rg, format!("{v:?}")))).collect(),
        found: recorded(line),
    }
}

pub fn c26(ctx: &mut Ctx) -> Res {
    let mut ids = Ids(0);
    // the same texts and customs, without attributes
    let mut specs: Vec<InSpec> = vec![];
    for _ in 0..ctx.rng.range(1, 4) {
        let r = &mut ctx.rng;
        let kind = match r.below(6) {
            0 => In::Custom(r.below(5)),
            1 => In::Text(gen::text(r, 8)),
            2 => In::Text(gen::numeral(r, &[",", ".", " ", "'"]) + " "),
            _ => In::Text(gen::clause_text(r, KW[0].0, KW[0].1, KW[0].2)),
        };
        specs.push(InSpec { kind, attrs: vec![], late: 0 });
    }
    if ctx.idx == 0 {
        specs.insert(0, InSpec { kind: In::Text("w ".repeat(3_000)), attrs: vec![], late: 0 });
    }
    let kw = ctx.rng.below(KW.len());
    let lookup_seed = ctx.rng.next();
    let insensitive = ctx.rng.chance(1, 2);
    let english = ctx.rng.chance(1, 2);
    let pool = [Step::Amounts(english), Step::Keywords(kw), Step::Clauses, Step::Pos, Step::Lookup(insensitive, lookup_seed)];
    let clean = || create_line_from_input_tokens(real_inputs(&specs), |s| s.len());
    // each resolver alone on the clean line; clauses after keywords
    let alone = Out {
        amounts: out_of(&run_step(clean(), &pool[0])).amounts,
        keywords: out_of(&run_step(clean(), &pool[1])).keywords,
        clauses: out_of(&run_step(run_step(clean(), &pool[1]), &pool[2])).clauses,
        tags: out_of(&run_step(clean(), &pool[3])).tags,
        found: out_of(&run_step(clean(), &pool[4])).found,
    };
    // now with unrelated attributes on the inputs, unrelated layers, in a random order
    let mut noisy = specs.clone();
    for s in &mut noisy {
        for _ in 0..ctx.rng.below(4) {
            let ty = *ctx.rng.pick(USER_TYS);
            s.attrs.push((ty, random_value(&mut ctx.rng, ty, &mut ids)));
        }
        s.late = ctx.rng.below(s.attrs.len() + 1);
    }
    let mut order: Vec<usize> = (0..5).collect();
    ctx.rng.shuffle(&mut order);
    let (a, b) = (order.iter().position(|i| *i == 1), order.iter().position(|i| *i == 2));
    if let (Some(a), Some(b)) = (a, b) {
        if a > b {
            order.swap(a, b);
        }
    }
    ctx.note(|| format!("inputs {noisy:?}, order {order:?} of {pool:?}"));
    let mut inputs = real_inputs(&noisy);
    let mut crowd = 0;
    if ctx.rng.chance(1, 12) {
        crowd = ctx.rng.range(3, CROWD);
        let late = ctx.rng.chance(1, 2);
        for (i, t) in inputs.iter_mut().enumerate() {
            if !late {
                crowd_token(t, crowd, i as u32);
            }
        }
    }
    // everyday types, in input attributes and layers
    let everyday: Vec<usize> = (0..if ctx.rng.chance(1, 2) { ctx.rng.range(1, 3) } else { 0 }).map(|_| ctx.rng.below(EVERYDAY)).collect();
    for k in &everyday {
        for t in &mut inputs {
            if ctx.rng.chance(1, 2) {
                everyday_token(t, *k, ctx.rng.below(12) as u64, "if");
            }
        }
    }
    let mut line = create_line_from_input_tokens(inputs, |s| s.len());
    let mut layers = 0;
    if ctx.rng.chance(1, 2) {
        for k in &everyday {
            line = everyday_layer(line, *k, ctx.rng.next());
            layers += 1;
        }
    }
    ctx.count("everyday_types", everyday.len() as u64);
    if crowd > 0 {
        for _ in 0..ctx.rng.range(1, 4) {
            line = crowd_layers(line, crowd, ctx.rng.below(1000), 1);
        }
        layers += crowd as u64;
        ctx.max("types_beside", crowd as u64);
    }
    for i in &order {
        for _ in 0..ctx.rng.below(3) {
            let seed = ctx.rng.next();
            line = run_step(line, &Step::Layer(*ctx.rng.pick(USER_TYS), seed));
            layers += 1;
        }
        if let Some(k) = everyday.get(ctx.rng.below(4)) {
            line = everyday_layer(line, *k, ctx.rng.next());
            layers += 1;
        }
        line = run_step(line, &pool[*i]);
    }
    let all = out_of(&line);
    let names: Vec<&str> = order.iter().map(|i| step_name(&pool[*i])).collect();
    same!(all.amounts, alone.amounts, "amounts with {layers} other layers, order {names:?}");
    same!(all.keywords, alone.keywords, "clause keywords with {layers} other layers, order {names:?}");
    same!(all.clauses, alone.clauses, "clauses with {layers} other layers, order {names:?}");
    same!(all.tags, alone.tags, "part-of-speech tags with {layers} other layers, order {names:?}");
    same!(all.found, alone.found, "text lookup with {layers} other layers, order {names:?}");
    // types which some of the resolvers read and the others do not
    let lib = *ctx.rng.pick(&[Ty::Ch, Ty::Tag]);
    for i in [1, 4, 3] {
        if i == 3 && lib == Ty::Tag {
            continue; // part-of-speech tags are given to words by their tag
        }
        let got = out_of(&run_step(run_step(clean(), &Step::Layer(lib, ctx.rng.next())), &pool[i]));
        same!(got.keywords, if i == 1 { alone.keywords.clone() } else { vec![] }, "clause keywords after a layer of {lib:?}");
        same!(got.found, if i == 4 { alone.found.clone() } else { vec![] }, "text lookup after a layer of {lib:?}");
        same!(got.tags, if i == 3 { alone.tags.clone() } else { vec![] }, "part-of-speech tags after a layer of {lib:?}");
    }
    let n = all.amounts.len() + all.keywords.len() + all.clauses.len() + all.tags.len() + all.found.len();
    ctx.count("values_compared", n as u64);
    ctx.count("unrelated_layers", layers);
    ctx.count("unrelated_attributes", noisy.iter().map(|s| s.attrs.len() as u64).sum());
    ctx.max("tokens_in_a_line", line.ll_tokens().len() as u64);
    if n > 2 {
        let h = hash_str(&format!("{:?}{order:?}", specs));
        ctx.nontrivial(h);
    }
    Ok(())
}
