//! C09-C16: matchers and selections. Operations run inside a resolver on the real line; every
//! selection involved is recorded with a probe, the event log is judged afterwards against the
//! naive model.

use super::store::{compare_store, random_assigns};
use super::tokens::first_diff;
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::rng::{hash_str, mix};
use crate::{ensure, same};
use layered_nlp::{create_line_from_input_tokens, create_line_from_string, x, LLLine, LLSelection};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub struct Scene {
    pub line: LLLine,
    pub m: MLine,
    pub ids: Ids,
    pub sig: u64,
}

/// A random line with overlapping, nested, repeated and adjacent spans of several types.
pub fn scene(ctx: &mut Ctx, all_selectable: bool) -> Result<Scene, Fail> {
    set_phase(Phase::Setup);
    let mut ids = Ids(0);
    let r = &mut ctx.rng;
    let shape = if ctx.tiny { 0 } else { r.below(40) };
    let o = SpecOpts {
        max_inputs: match shape {
            0..=24 => 4,
            25..=36 => 10,
            _ => 40,
        },
        frags: match shape {
            0..=19 => 2,
            20..=34 => 6,
            35..=38 => 12,
            _ => 40,
        },
        attr_pct: *r.pick(&[20, 50, 80]),
        lib_types: r.chance(1, 4),
        custom_pct: *r.pick(&[0, 15, 40]),
    };
    let mut specs = random_specs(r, &o, &mut ids);
    mark_customs(r, &mut specs);
    if all_selectable {
        let line = create_line_from_input_tokens(real_inputs(&specs), |s| s.len());
        if let Ok(spans) = input_spans(&specs, &observed_tokens(&line)) {
            for (s, sp) in specs.iter_mut().zip(spans) {
                if matches!(s.kind, In::Custom(_)) && !s.attrs.iter().any(|a| a.0 == Ty::M) {
                    s.attrs.push((Ty::M, Mv { class: sp.0 as u32 + 1, id: 0 }));
                }
            }
        }
    }
    ctx.note(|| format!("inputs {specs:?}"));
    let (mut line, mut m) = setup(build(&specs, Measure::Bytes))?;
    let mut sig = m.toks.iter().fold(3, |h, t| mix(h, t.text.as_deref().map_or(1, hash_str)));
    for _ in 0..ctx.rng.range(0, 4) {
        let ty = match ctx.rng.below(10) {
            0..=4 => Ty::A,
            5..=6 => Ty::B,
            7 if o.lib_types => *ctx.rng.pick(&[Ty::Ch, Ty::Tag]),
            _ => *ctx.rng.pick(USER_TYS),
        };
        let mut assigns = random_assigns(ctx, &m, ty, &mut ids);
        if ctx.rng.chance(1, 3) {
            // a chain of adjacent spans, so sequences have something to match
            let sel = m.selectable();
            let mut a = ctx.rng.below(m.n());
            while a < m.n() && assigns.len() < 40 {
                let b = (a + if ctx.rng.chance(1, 6) { ctx.rng.below(40) } else { ctx.rng.below(3) }).min(m.n() - 1);
                if can_cut(&sel, (a, b)) {
                    assigns.push(((a, b), random_value(&mut ctx.rng, ty, &mut ids)));
                }
                a = b + 1;
            }
        }
        ctx.note(|| format!("layer {ty:?} {assigns:?}"));
        for (rg, v) in &assigns {
            sig = mix(sig, (rg.0 * 31 + rg.1) as u64 + v.class as u64 * 1000);
        }
        line = setup(run_layer(line, &mut m, ty, &assigns))?;
    }
    setup(compare_store(&line, &m))?;
    set_phase(Phase::Observe);
    ctx.max("tokens_in_a_line", m.n() as u64);
    Ok(Scene { line, m, ids, sig })
}

/// A span whose edges touch recorded spans.
fn biased_span(ctx: &mut Ctx, m: &MLine, sel: &[bool]) -> Rg {
    let n = m.n();
    for _ in 0..6 {
        let r = &mut ctx.rng;
        let ty = *r.pick(&[Ty::A, Ty::B, Ty::A, Ty::S, Ty::U, Ty::Z, Ty::Tag]);
        let sp = m.spans(ty);
        if sp.is_empty() {
            continue;
        }
        let (a, b) = r.pick(sp).0;
        let (c, d) = r.pick(sp).0;
        let cand = match r.below(7) {
            0 => (a, d),
            1 => (a, b),
            2 => (b + 1, d.max(b + 1)),
            3 => (c.min(a.wrapping_sub(1)), a.wrapping_sub(1)),
            4 => (a, r.range(a, n - 1)),
            5 => (r.below(b + 1), b),
            _ => (a + (b - a) / 2, d),
        };
        if cand.0 <= cand.1 && cand.1 < n && can_cut(sel, cand) {
            return cand;
        }
    }
    random_span(&mut ctx.rng, sel)
}

/// One observed operation: the spans of the selections it was called with and what it returned.
pub struct Seen {
    pub base: Rg,
    pub other: Option<Rg>,
    pub slots: Vec<Slot>,
}

/// Runs the operations inside one resolver and reads all spans back.
pub fn observe(line: LLLine, m: &MLine, ops: &[(Rg, Op)]) -> Result<(LLLine, Vec<Seen>), Fail> {
    type Log = Vec<(u32, Option<u32>, Vec<Option<(u32, u64)>>)>;
    let log: RefCell<Log> = RefCell::new(vec![]);
    let lost = RefCell::new(None);
    let line = line.run(&resolver::<Probe, _>(|full| {
        let mut out = vec![];
        let mut probe = |s: &LLSelection| {
            let k = out.len() as u32;
            out.push(s.finish_with_attr(Probe(k)));
            k
        };
        set_phase(Phase::Setup);
        let cutter = Cutter::new(&full, m);
        let mut bases = vec![];
        for (rg, op) in ops {
            let b = cutter.cut(*rg);
            let o = match op {
                Op::SplitWith(o) => cutter.cut(*o),
                _ => None,
            };
            bases.push((b, o));
        }
        set_phase(Phase::Observe);
        for ((b, o), (rg, op)) in bases.into_iter().zip(ops) {
            let Some(b) = b else {
                *lost.borrow_mut() = Some(*rg);
                continue;
            };
            if matches!(op, Op::SplitWith(_)) && o.is_none() {
                *lost.borrow_mut() = Some(*rg);
                continue;
            }
            let res = op.real(&b, o.as_ref());
            let bp = probe(&b);
            let op_ = o.as_ref().map(&mut probe);
            let slots = res.into_iter().map(|s| s.map(|(s, h)| (probe(&s), h))).collect();
            log.borrow_mut().push((bp, op_, slots));
        }
        out
    }));
    if let Some(rg) = lost.into_inner() {
        return Err(Fail::Setup(format!("no selection over {rg:?} could be made")));
    }
    let log = log.into_inner();
    let total = log.iter().map(|l| 1 + l.1.iter().count() + l.2.iter().flatten().count()).sum();
    let spans = viol(probe_spans(&line, total))?;
    let seen = log
        .into_iter()
        .map(|(b, o, s)| Seen {
            base: spans[b as usize],
            other: o.map(|o| spans[o as usize]),
            slots: s.into_iter().map(|s| s.map(|(k, h)| (spans[k as usize], h))).collect(),
        })
        .collect();
    Ok((line, seen))
}

/// Runs and judges the operations.
fn judge(ctx: &mut Ctx, line: LLLine, m: &MLine, ops: &[(Rg, Op)]) -> Result<LLLine, Fail> {
    // drop operations whose result is too big to enumerate
    let most = if m.n() > 10_000 { CAP } else { usize::MAX };
    let ops: Vec<(Rg, Op)> = ops.iter().filter(|(rg, op)| op.model(m, *rg).map_or(false, |r| r.len() <= most)).cloned().collect();
    for (rg, op) in &ops {
        ctx.note(|| format!("{op:?} on {rg:?}"));
    }
    let (line, seen) = observe(line, m, &ops)?;
    for (s, (rg, op)) in seen.iter().zip(&ops) {
        let op = match (op, s.other) {
            (Op::SplitWith(_), Some(o)) => Op::SplitWith(o),
            _ => op.clone(),
        };
        let Ok(want) = op.model(m, s.base) else { continue };
        if s.slots != want {
            return violation(format!(
                "{} over tokens {:?} (asked {rg:?}) of a line of {} tokens, {op:?}: {}",
                op.name(),
                s.base,
                m.n(),
                first_diff(&s.slots, &want)
            ));
        }
        let found = s.slots.iter().flatten().count() as u64;
        ctx.count("operations", 1);
        ctx.count("selections_returned", found);
        if found > 0 {
            ctx.count("operations_with_results", 1);
        }
        ctx.count(op.name(), 1);
        if let Some(mat) = op.mat() {
            if found > 0 {
                ctx.count(mat.kind(), 1);
            }
        }
        ctx.max("results_of_one_operation", found);
    }
    Ok(line)
}

fn ops_sig(sc: u64, ops: &[(Rg, Op)]) -> u64 {
    ops.iter().fold(sc, |h, (rg, op)| mix(h, hash_str(op.name()) ^ (rg.0 * 65_537 + rg.1) as u64))
}

/// The line search must be the search of the whole selection.
fn judge_line_find(ctx: &mut Ctx, line: &LLLine, m: &MLine, mat: &Mat) -> Res {
    let Ok(want) = Op::Find(mat.clone()).model(m, (0, m.n() - 1)) else { return Ok(()) };
    let want: Vec<(Rg, u64)> =
        want.into_iter().flatten().map(|((a, b), h)| ((m.toks[a].start, m.toks[b].end), h)).collect();
    struct Run<'l>(&'l LLLine);
    impl<'l> Native<'l> for Run<'l> {
        type Res = Vec<(Rg, u64)>;
        fn with<M: x::XMatch<'l>, H: Fn(M::Out) -> u64>(self, m: &M, h: H) -> Self::Res {
            self.0.find(m).iter().map(|f| (f.range(), h(*f.attr()))).collect()
        }
    }
    let got = native(mat, Run(line));
    ensure!(got == want, "LLLine::find of {mat:?}: {}", first_diff(&got, &want));
    ctx.count("line_finds", 1);
    Ok(())
}

fn finish(ctx: &mut Ctx, sig: u64, n: usize) -> Res {
    if n > 1 {
        ctx.nontrivial(sig);
    }
    Ok(())
}

/// More values than any internal limit someone could think of, on one span and token.
fn crowded(ctx: &mut Ctx) -> Result<Scene, Fail> {
    set_phase(Phase::Setup);
    let mut ids = Ids(0);
    let mut attrs = vec![];
    for i in 0..300u32 {
        attrs.push((Ty::A, Mv { class: i % 3, id: ids.next() }));
        attrs.push((Ty::U, Mv { class: i, id: 0 }));
    }
    let spec = |k: &str, a: Vec<(Ty, Mv)>| InSpec { kind: In::Text(k.into()), attrs: a, late: 3 };
    let specs = vec![spec("one", attrs.clone()), spec(" ", vec![]), spec("two, three", attrs), spec("!", vec![])];
    let (mut line, mut m) = setup(build(&specs, Measure::Bytes))?;
    let assigns: Vec<(Rg, Mv)> =
        (0..60u32).map(|i| (((i % 3) as usize, (2 + i % 4) as usize), Mv { class: i % 2, id: ids.next() })).collect();
    line = setup(run_layer(line, &mut m, Ty::B, &assigns))?;
    setup(compare_store(&line, &m))?;
    set_phase(Phase::Observe);
    ctx.max("values_on_one_span", 300);
    Ok(Scene { line, m, ids, sig: 1 })
}

/// A long line: indexes beyond 8 and 16 bits (the latter only when asked).
pub fn long(ctx: &mut Ctx, n: usize) -> Result<Scene, Fail> {
    set_phase(Phase::Setup);
    let mut specs = vec![];
    let mut ids = Ids(0);
    let mut left = n;
    while left > 0 {
        let k = left.min(50);
        let attrs = if specs.len() % 4 == 1 || left < 120 { vec![(Ty::A, Mv { class: (left % 3) as u32, id: ids.next() })] } else { vec![] };
        specs.push(InSpec { kind: In::Text("w ".repeat(k / 2) + if k % 2 == 1 { "z" } else { "" }), attrs, late: 0 });
        left -= k;
    }
    let (mut line, mut m) = setup(build(&specs, Measure::Bytes))?;
    let n = m.n();
    let mut assigns = vec![];
    for a in [0, 3, 60, 64, 127, 128, 200, 255, 256, 257, 32_767, 65_533, 65_534, 65_535, 65_536, 65_537, n / 2, n - 3, n - 2, n - 1] {
        if a < n {
            for len in [1, 2, 3, 70, 255, 257, 65_535, 65_536, 65_537, n] {
                assigns.push(((a, (a + len - 1).min(n - 1)), Mv { class: (len % 3) as u32, id: ids.next() }));
            }
        }
    }
    line = setup(run_layer(line, &mut m, Ty::B, &assigns))?;
    setup(compare_store(&line, &m))?;
    set_phase(Phase::Observe);
    ctx.max("tokens_in_a_line", n as u64);
    Ok(Scene { line, m, ids, sig: n as u64 })
}

/// Scene of a case: the first indexes are the directed ones.
fn case_scene(ctx: &mut Ctx) -> Result<Scene, Fail> {
    match ctx.idx {
        0 => crowded(ctx),
        1 => long(ctx, 300),
        2 => long(ctx, 700),
        3 => long(ctx, 1500),
        4 => long(ctx, LONGEST),
        _ => scene(ctx, false),
    }
}
pub const FIXED: u64 = 5;
/// Beyond indexes of 16 bits.
pub const LONGEST: usize = 66_100;

// ------------------------------------------------------------------ C09, C10

fn matcher_case(ctx: &mut Ctx, composite: bool) -> Res {
    let Scene { line, m, mut ids, sig } = case_scene(ctx)?;
    let n = m.n();
    let sel = m.selectable();
    let mut ops = vec![];
    let mut mats = vec![];
    let k = if n > 200 { 2 } else { ctx.rng.range(1, 5) };
    for _ in 0..k {
        let mat = if composite {
            let d = *ctx.rng.pick(&[1, 1, 1, 2, 2, 3, 4, 5, 6]);
            random_composite(&mut ctx.rng, &m, &mut ids, d)
        } else {
            random_leaf(&mut ctx.rng, &m, &mut ids)
        };
        ops.push(((0, n - 1), Op::FindBoth(mat.clone())));
        if ctx.rng.chance(1, 2) {
            ops.push(((0, n - 1), Op::Find(mat.clone())));
        }
        for _ in 0..2 {
            let b = biased_span(ctx, &m, &sel);
            ops.push((b, if ctx.rng.chance(1, 2) { Op::MatchF(mat.clone()) } else { Op::MatchB(mat.clone()) }));
        }
        mats.push(mat);
    }
    // every leaf kind over every type, now and then
    if !composite && (ctx.idx < FIXED || ctx.rng.chance(1, 8)) {
        for ty in ALL_TYS {
            ops.push(((0, n - 1), Op::FindBoth(Mat::Attr(*ty))));
            let v = likely_value(&mut ctx.rng, &m, *ty, &mut ids);
            ops.push(((0, n - 1), Op::FindBoth(Mat::Eq(*ty, v))));
            let w = likely_value(&mut ctx.rng, &m, *ty, &mut ids);
            let mut set = vec![w, v, w];
            if ctx.rng.chance(1, 3) {
                for _ in 0..40 {
                    set.insert(0, likely_value(&mut ctx.rng, &m, *ty, &mut ids));
                }
            }
            ops.push(((0, n - 1), Op::FindBoth(Mat::HasAny(*ty, set))));
        }
        ops.push(((0, n - 1), Op::FindBoth(Mat::White)));
        ops.push(((0, n - 1), Op::FindBoth(Mat::Text)));
    }
    let sig = mats.iter().fold(ops_sig(sig, &ops), |h, m| mix(h, hash_str(m.kind())));
    for mat in &mats {
        judge_line_find(ctx, &line, &m, mat)?;
    }
    judge(ctx, line, &m, &ops)?;
    finish(ctx, sig, n)
}

pub fn c09(ctx: &mut Ctx) -> Res {
    matcher_case(ctx, false)
}
pub fn c10(ctx: &mut Ctx) -> Res {
    matcher_case(ctx, true)
}

// ------------------------------------------------------------------ C11-C15

fn any_mat(ctx: &mut Ctx, m: &MLine, ids: &mut Ids) -> Mat {
    let d = *ctx.rng.pick(&[0, 0, 0, 1, 2]);
    random_mat(&mut ctx.rng, m, ids, d)
}

fn op_case(ctx: &mut Ctx, mk: fn(&mut Ctx, &MLine, &mut Ids, &[bool]) -> Op) -> Res {
    let Scene { line, m, mut ids, sig } = case_scene(ctx)?;
    let n = m.n();
    let sel = m.selectable();
    let k = if n > 10_000 { 60 } else if n > 200 { 12 } else { ctx.rng.range(3, 14) };
    let mut ops = vec![];
    for _ in 0..k {
        let base = match ctx.rng.below(8) {
            0 => (0, n - 1),
            1 | 2 => random_span(&mut ctx.rng, &sel),
            _ => biased_span(ctx, &m, &sel),
        };
        let op = mk(ctx, &m, &mut ids, &sel);
        ops.push((base, op));
    }
    let sig = ops_sig(sig, &ops);
    let line = judge(ctx, line, &m, &ops)?;
    // the operations left what is recorded alone
    viol(compare_store(&line, &m))?;
    finish(ctx, sig, n)
}

pub fn c11(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 4) && ctx.idx >= FIXED {
        let Scene { line, m, mut ids, sig } = scene(ctx, false)?;
        for _ in 0..4 {
            let mat = any_mat(ctx, &m, &mut ids);
            ctx.note(|| format!("line find {mat:?}"));
            judge_line_find(ctx, &line, &m, &mat)?;
        }
        return finish(ctx, mix(sig, 5), m.n());
    }
    op_case(ctx, |ctx, m, ids, _| {
        let mat = any_mat(ctx, m, ids);
        match ctx.rng.below(4) {
            0 | 1 => Op::Find(mat),
            2 => Op::FindFirst(mat),
            _ => Op::FindBoth(mat),
        }
    })
}
pub fn c12(ctx: &mut Ctx) -> Res {
    op_case(ctx, |ctx, m, ids, _| {
        let mat = any_mat(ctx, m, ids);
        match ctx.rng.below(4) {
            0 => Op::MatchF(mat),
            1 => Op::MatchFirstF(mat),
            2 => Op::MatchB(mat),
            _ => Op::MatchFirstB(mat),
        }
    })
}
pub fn c13(ctx: &mut Ctx) -> Res {
    op_case(ctx, |ctx, m, ids, _| {
        let mat = if ctx.rng.chance(1, 3) { Mat::White } else { any_mat(ctx, m, ids) };
        match ctx.rng.below(3) {
            0 => Op::TrimS(mat),
            1 => Op::TrimE(mat),
            _ => Op::Trim(mat),
        }
    })
}
pub fn c14(ctx: &mut Ctx) -> Res {
    op_case(ctx, |ctx, m, ids, _| {
        let mat = if ctx.rng.chance(1, 8) { Mat::White } else { any_mat(ctx, m, ids) };
        Op::SplitBy(mat)
    })
}

pub fn c15(ctx: &mut Ctx) -> Res {
    if ctx.idx >= FIXED && ctx.rng.chance(1, 10) {
        return different_lines(ctx);
    }
    op_case(ctx, |ctx, m, _, sel| {
        if ctx.rng.chance(1, 4) {
            Op::After
        } else {
            let o = match ctx.rng.below(5) {
                0 => (0, m.n() - 1),
                1 | 2 => random_span(&mut ctx.rng, sel),
                _ => biased_span(ctx, m, sel),
            };
            Op::SplitWith(o)
        }
    })
}

/// Two selections of the same line made in different ways, and of different lines.
fn different_lines(ctx: &mut Ctx) -> Res {
    let t = crate::gen::text(&mut ctx.rng, 6);
    let same_text = ctx.rng.chance(2, 3);
    let u = if same_text { t.clone() } else { crate::gen::text(&mut ctx.rng, 6) };
    ctx.note(|| format!("split_with across lines {t:?} and {u:?}"));
    set_phase(Phase::Setup);
    let l1 = Rc::new(create_line_from_string(&t));
    let l2 = Rc::new(create_line_from_string(&u));
    let a = LLSelection::from_line(l1.clone());
    let b = LLSelection::from_line(l2);
    let (Some(a), Some(b)) = (a, b) else { return Err(Fail::Setup("no selection of a line with tokens".into())) };
    let mut sa: Vec<LLSelection> = a.find_by(&x::token_text()).into_iter().map(|(s, _)| s).collect();
    let mut sb: Vec<LLSelection> = b.find_by(&x::token_text()).into_iter().map(|(s, _)| s).collect();
    sa.push(a);
    sb.push(b);
    set_phase(Phase::Observe);
    for _ in 0..3 {
        let (p, q) = (ctx.rng.pick(&sa).clone(), ctx.rng.pick(&sb).clone());
        let r = catch_unwind(AssertUnwindSafe(|| p.split_with(&q)));
        ensure!(r.is_err(), "split_with of a selection of {t:?} with one of another line {u:?} was not refused: {:?}", r.ok());
        ctx.count("refusals", 1);
    }
    let _ = l1;
    ctx.nontrivial(mix(hash_str(&t), hash_str(&u)));
    Ok(())
}

// ------------------------------------------------------------------ C16

/// What a selection covers according to a search of its own tokens.
fn covers(s: &LLSelection) -> Vec<u64> {
    let any = Mat::Any2(Box::new(Mat::Text), Box::new(Mat::Attr(Ty::M)));
    s.find_by(&any).into_iter().map(|(_, h)| h).collect()
}

pub fn c16(ctx: &mut Ctx) -> Res {
    if ctx.idx == 0 {
        let empty = Rc::new(create_line_from_input_tokens(vec![], |s: &str| s.len()));
        ensure!(LLSelection::from_line(empty).is_none(), "a line without tokens has a selection");
        ctx.count("empty_lines", 1);
    }
    let Scene { line, m, mut ids, sig } = if ctx.idx > 0 && ctx.idx < FIXED { case_scene(ctx)? } else { scene(ctx, true)? };
    let n = m.n();
    let all = m.selectable().iter().all(|b| *b);
    let steps = match ctx.rng.below(6) {
        0 => ctx.rng.range(20, 60),
        _ => ctx.rng.range(3, 15),
    };
    // the chain is decided before, on random numbers only
    let plan: Vec<(u64, usize, Mat)> = (0..steps)
        .map(|_| (ctx.rng.next(), ctx.rng.below(14), any_mat(ctx, &m, &mut ids)))
        .filter(|(_, _, mat)| Op::FindBoth(mat.clone()).model(&m, (0, n - 1)).is_ok())
        .collect();
    for (p, k, mat) in &plan {
        ctx.note(|| format!("step op {k} choice {p} matcher {mat:?}"));
    }
    type Entry = (Vec<u64>, &'static str);
    let log: RefCell<Vec<Entry>> = RefCell::new(vec![]);
    let bad: RefCell<Option<String>> = RefCell::new(None);
    let eqs: RefCell<Vec<(usize, usize, bool)>> = RefCell::new(vec![]);
    let line = line.run(&resolver::<Probe, _>(|full| {
        let mut pool: Vec<LLSelection> = vec![full.clone()];
        let mut names: Vec<&'static str> = vec!["run"];
        for (p, k, mat) in &plan {
            let last = pool.len() - 1;
            let i = if p % 3 == 0 { last } else { (p >> 8) as usize % pool.len() };
            let j = (p >> 32) as usize % pool.len();
            let base = pool[i].clone();
            let (name, res): (&'static str, Vec<LLSelection>) = match k {
                0 => ("find_by", base.find_by(mat).into_iter().map(|r| r.0).collect()),
                1 => ("find_first_by", base.find_first_by(mat).into_iter().map(|r| r.0).collect()),
                2 => ("find_by_forwards_and_backwards", base.find_by_forwards_and_backwards(mat).into_iter().map(|r| r.0).collect()),
                3 => ("match_forwards", base.match_forwards(mat).into_iter().map(|r| r.0).collect()),
                4 => ("match_first_forwards", base.match_first_forwards(mat).into_iter().map(|r| r.0).collect()),
                5 => ("match_backwards", base.match_backwards(mat).into_iter().map(|r| r.0).collect()),
                6 => ("match_first_backwards", base.match_first_backwards(mat).into_iter().map(|r| r.0).collect()),
                7 => ("split_by", base.split_by(mat)),
                8 => ("trim_start", base.trim_start(mat).into_iter().collect()),
                9 => ("trim_end", base.trim_end(mat).into_iter().collect()),
                10 => ("trim", base.trim(mat).into_iter().collect()),
                11 => ("after", base.after().into_iter().collect()),
                12 => ("split_with", base.split_with(&pool[j]).into_iter().flatten().collect()),
                _ => {
                    let c = base.clone();
                    if c != base {
                        *bad.borrow_mut() = Some("a clone is not equal to its selection".into());
                    }
                    ("clone", vec![c])
                }
            };
            for s in res.into_iter().take(60) {
                if pool.len() < 400 {
                    pool.push(s);
                    names.push(name);
                }
            }
        }
        for i in 0..pool.len() {
            for d in 1..6 {
                let j = (i * 7 + d * 13) % pool.len();
                eqs.borrow_mut().push((i, j, pool[i] == pool[j]));
                let j2 = (i + d) % pool.len();
                eqs.borrow_mut().push((i, j2, pool[i] == pool[j2]));
            }
        }
        *log.borrow_mut() = pool.iter().zip(&names).map(|(s, n)| (if all { covers(s) } else { vec![] }, *n)).collect();
        pool.iter().enumerate().map(|(i, s)| s.finish_with_attr(Probe(i as u32))).collect()
    }));
    if let Some(b) = bad.into_inner() {
        return violation(b);
    }
    let log = log.into_inner();
    let spans = viol(probe_spans(&line, log.len()))?;
    let toks: Vec<u64> = (0..n)
        .flat_map(|i| m.go(&Mat::Any2(Box::new(Mat::Text), Box::new(Mat::Attr(Ty::M))), true, i).unwrap_or_default())
        .map(|t| t.0)
        .collect();
    for (i, ((cov, name), rg)) in log.iter().zip(&spans).enumerate() {
        ensure!(rg.0 <= rg.1 && rg.1 < n, "selection #{i} from {name} covers {rg:?} in a line of {n} tokens");
        if all {
            ensure!(
                cov.as_slice() == &toks[rg.0..=rg.1],
                "selection #{i} from {name} was recorded over {rg:?}, {} tokens, but covers {} tokens",
                rg.1 - rg.0 + 1,
                cov.len()
            );
            ctx.count("coverage_checked", 1);
        }
        ctx.count("selections", 1);
    }
    ensure!(spans[0] == (0, n - 1), "the selection given to the resolver covers {:?} of {n} tokens", spans[0]);
    for (i, j, eq) in eqs.into_inner() {
        ensure!(
            eq == (spans[i] == spans[j]),
            "selections over {:?} ({}) and {:?} ({}) of one line compare {}",
            spans[i],
            log[i].1,
            spans[j],
            log[j].1,
            if eq { "equal" } else { "different" }
        );
        ctx.count(if eq { "equal_pairs" } else { "different_pairs" }, 1);
    }
    ctx.max("chain", plan.len() as u64);
    // selections of line objects: same spans of another object are different
    if n <= 60 {
        let a = Rc::new(line);
        let text: String = m.toks.iter().filter_map(|t| t.text.as_deref()).collect();
        let text = if text.is_empty() { String::from("x y") } else { text };
        let (p, q) = (Rc::new(create_line_from_string(&text)), Rc::new(create_line_from_string(&text)));
        let fa = LLSelection::from_line(a.clone());
        let (fa2, fp, fp2, fq) =
            (LLSelection::from_line(a), LLSelection::from_line(p.clone()), LLSelection::from_line(p), LLSelection::from_line(q));
        ensure!(fa.is_some() && fp.is_some() && fq.is_some(), "a line with tokens has no selection");
        if all {
            if let Some(f) = &fa {
                ensure!(covers(f) == toks, "from_line does not cover the whole line");
            }
        }
        ensure!(fa == fa2 && fp == fp2, "two whole selections of one line are not equal");
        ensure!(fp != fq, "whole selections of two line objects are equal");
        if let (Some(fp), Some(fp2), Some(fq)) = (fp, fp2, fq) {
            let (a, b, c) = (fp.find_by(&x::token_text()), fp2.find_by(&x::token_text()), fq.find_by(&x::token_text()));
            same!((a.len(), b.len()), (c.len(), c.len()), "tokens of equal lines");
            for i in 0..a.len() {
                for j in 0..a.len() {
                    ensure!((a[i].0 == b[j].0) == (i == j), "tokens {i} and {j} of one line compare wrong");
                    ensure!(a[i].0 != c[j].0, "tokens {i} and {j} of two line objects are equal");
                }
            }
            ctx.count("object_pairs", (a.len() * a.len()) as u64);
        }
    }
    if n <= 60 {
        twins(ctx)?;
    }
    finish(ctx, mix(sig, plan.len() as u64), n)
}

/// Two lines made of the same inputs, with all kinds of contents: selections of the one are
/// never equal to selections of the other, and those of one are equal by their spans.
fn twins(ctx: &mut Ctx) -> Res {
    let mut ids = Ids(0);
    let r = &mut ctx.rng;
    let mut specs = match r.below(6) {
        0 => (0..r.range(1, 6)).map(|_| InSpec { kind: In::Custom(0), attrs: vec![], late: 0 }).collect(),
        1 => vec![InSpec { kind: In::Text(gen::text(r, 3)), attrs: vec![], late: 0 }],
        _ => {
            let o = SpecOpts {
                max_inputs: *r.pick(&[1, 2, 5]),
                frags: *r.pick(&[1, 4]),
                attr_pct: *r.pick(&[0, 50]),
                lib_types: false,
                custom_pct: *r.pick(&[0, 20, 100]),
            };
            random_specs(r, &o, &mut ids)
        }
    };
    if r.chance(1, 2) {
        mark_customs(r, &mut specs);
    }
    let measure = *r.pick(MEASURES);
    let make = || {
        let l = create_line_from_input_tokens(real_inputs(&specs), |s| measure.of(s));
        l.run(&resolver::<Probe, _>(|full| vec![full.finish_with_attr(Probe(7))]))
    };
    if let (Some(fa), Some(fb)) = (LLSelection::from_line(Rc::new(make())), LLSelection::from_line(Rc::new(make()))) {
        // with no other handle on either line
        ensure!(fa != fb && fb != fa, "selections of two line objects are equal; inputs {specs:?}, measure {measure:?}");
    }
    let (a, b) = (Rc::new(make()), Rc::new(make()));
    let (Some(fa), Some(fa2), Some(fb)) = (LLSelection::from_line(a.clone()), LLSelection::from_line(a), LLSelection::from_line(b)) else {
        ensure!(specs.iter().all(|s| matches!(&s.kind, In::Text(t) if t.is_empty())), "a line with tokens has no selection");
        return Ok(());
    };
    let parts = |f: &LLSelection| {
        let mut v = vec![f.clone()];
        v.extend(f.find_by(&x::attr::<Probe>()).into_iter().map(|s| s.0));
        v.extend(f.find_by(&x::attr::<M>()).into_iter().map(|s| s.0));
        v.extend(f.find_by(&x::token_text()).into_iter().map(|s| s.0));
        v.extend(f.split_by(&x::whitespace()));
        v.truncate(60);
        v
    };
    let (pa, pa2, pb) = (parts(&fa), parts(&fa2), parts(&fb));
    same!((pa2.len(), pb.len()), (pa.len(), pa.len()), "selections of lines made alike");
    for i in 0..pa.len() {
        ensure!(pa[i] == pa2[i], "selection {i} of one line, made twice, is not equal to itself; inputs {specs:?}");
        for j in 0..pb.len() {
            ensure!(pa[i] != pb[j] && pb[j] != pa[i], "selections {i} and {j} of two line objects are equal; inputs {specs:?}, measure {measure:?}");
        }
    }
    ctx.count("twin_pairs", (pa.len() * pb.len()) as u64);
    Ok(())
}
