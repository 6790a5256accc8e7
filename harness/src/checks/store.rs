//! C05-C08: what is recorded on a line, and that every view shows it.

use super::tokens::first_diff;
use crate::engine::*;
use crate::model::*;
use crate::rng::mix;
use crate::{ensure, same, with_ty};
use layered_nlp::{create_line_from_input_tokens, x, AnyAttribute, InputToken, LLLine, LLLineDisplay, LLSelection};
use std::any::TypeId;
use std::cell::{Cell, RefCell};

pub fn observed_store(line: &LLLine, ty: Ty) -> Vec<(Rg, String, Vec<Mv>)> {
    with_ty!(ty, T => line.query::<T>().into_iter()
        .map(|(r, t, v)| (r, t, v.into_iter().map(|v| v.mv()).collect()))
        .collect())
}

pub fn expected_store(m: &MLine, ty: Ty) -> Vec<(Rg, String, Vec<Mv>)> {
    m.spans(ty).iter().map(|(r, vs)| (*r, m.text_of(*r), vs.clone())).collect()
}

/// The query view of all types against the model.
pub fn compare_store(line: &LLLine, m: &MLine) -> Result<u64, String> {
    let mut n = 0;
    for ty in ALL_TYS {
        let (got, want) = (observed_store(line, *ty), expected_store(m, *ty));
        if got != want {
            return Err(format!("query of {ty:?}: {}", first_diff(&got, &want)));
        }
        n += got.iter().map(|g| g.2.len() as u64).sum::<u64>();
    }
    // a type nobody records
    if !line.query::<std::num::NonZeroU8>().is_empty() || !line.query::<Vec<u32>>().is_empty() {
        return Err("a type that was never recorded has values".into());
    }
    Ok(n)
}

/// Tokens and positions against the model.
pub fn compare_tokens(line: &LLLine, m: &MLine) -> Result<(), String> {
    let got = observed_tokens(line);
    let want: Vec<_> =
        m.toks.iter().map(|t| t.text.clone().map(|s| (s, t.tag.clone().expect("text tokens are tagged")))).collect();
    if got != want {
        return Err(format!("tokens: {}", first_diff(&got, &want)));
    }
    let got: Vec<Rg> = line.find(&x::token_text()).iter().map(|f| f.range()).collect();
    let want: Vec<Rg> = m.toks.iter().filter(|t| t.text.is_some()).map(|t| (t.start, t.end)).collect();
    if got != want {
        return Err(format!("positions: {}", first_diff(&got, &want)));
    }
    Ok(())
}

/// All other views of the given types against the model: the line search, selection searches in
/// both directions, matches out of partial selections, and the rendering.
pub fn compare_views(line: LLLine, m: &MLine, tys: &[Ty], partial: bool) -> Result<(LLLine, u64), String> {
    let mut events = 0u64;
    for ty in tys {
        let mut want = vec![];
        for i in 0..m.n() {
            for (rg, vs) in m.spans(*ty).iter().filter(|(rg, _)| rg.0 == i) {
                want.extend(vs.iter().map(|v| ((m.toks[rg.0].start, m.toks[rg.1].end), *v)));
            }
        }
        let got: Vec<(Rg, Mv)> =
            with_ty!(*ty, T => line.find(&x::attr::<T>()).iter().map(|f| (f.range(), f.attr().mv())).collect());
        if got != want {
            return Err(format!("line.find of {ty:?}: {}", first_diff(&got, &want)));
        }
        events += got.len() as u64;
    }
    if m.n() == 0 {
        return Ok((line, events));
    }
    // probes: every selection a search returned is recorded, and its span read back afterwards
    let seen: RefCell<Vec<(String, Vec<u64>)>> = RefCell::new(vec![]);
    let before = line.query::<Probe>().len();
    if before != 0 {
        return Err("probes on a line that has none".into());
    }
    let sel = m.selectable();
    let line = line.run(&resolver::<Probe, _>(|full| {
        let cutter = if partial { Some(Cutter::new(&full, m)) } else { None };
        let mut out = vec![];
        let mut log = |name: String, found: Vec<(LLSelection, u64)>| {
            let mut hs = vec![];
            for (s, h) in found {
                out.push(s.finish_with_attr(Probe(out.len() as u32)));
                hs.push(h);
            }
            seen.borrow_mut().push((name, hs));
        };
        for ty in tys {
            let mat = Mat::Attr(*ty);
            log(format!("find_by {ty:?}"), full.find_by(&mat));
            log(format!("find_both {ty:?}"), full.find_by_forwards_and_backwards(&mat));
            if let Some(c) = &cutter {
                for i in 0..m.n() {
                    if i + 1 < m.n() && can_cut(&sel, (i + 1, m.n() - 1)) {
                        if let Some(s) = c.cut((i + 1, m.n() - 1)) {
                            log(format!("match_backwards {ty:?} from {}", i + 1), s.match_backwards(&mat));
                        }
                    }
                    if i > 0 && can_cut(&sel, (0, i - 1)) {
                        if let Some(s) = c.cut((0, i - 1)) {
                            log(format!("match_forwards {ty:?} from {}", i - 1), s.match_forwards(&mat));
                        }
                    }
                }
            }
        }
        out
    }));
    let seen = seen.into_inner();
    let spans = probe_spans(&line, seen.iter().map(|s| s.1.len()).sum())?;
    let mut at = 0;
    let mut it = seen.into_iter();
    for ty in tys {
        let mat = Mat::Attr(*ty);
        let mut expect = vec![
            Op::Find(mat.clone()).model(m, (0, m.n() - 1)),
            Op::FindBoth(mat.clone()).model(m, (0, m.n() - 1)),
        ];
        if partial {
            for i in 0..m.n() {
                if i + 1 < m.n() && can_cut(&sel, (i + 1, m.n() - 1)) {
                    expect.push(Op::MatchB(mat.clone()).model(m, (i + 1, m.n() - 1)));
                }
                if i > 0 && can_cut(&sel, (0, i - 1)) {
                    expect.push(Op::MatchF(mat.clone()).model(m, (0, i - 1)));
                }
            }
        }
        for e in expect {
            let Some((name, hs)) = it.next() else { return Err("a partial selection could not be made".into()) };
            let got: Vec<Slot> = hs.iter().enumerate().map(|(k, h)| Some((spans[at + k], *h))).collect();
            at += hs.len();
            events += hs.len() as u64;
            if let Ok(want) = e {
                if got != want {
                    return Err(format!("{name}: {}", first_diff(&got, &want)));
                }
            }
        }
    }
    if m.n() <= 300 {
        if let Some(want) = crate::render::render(m, tys) {
            let mut d = LLLineDisplay::new(&line);
            for ty in tys {
                with_ty!(*ty, T => d.include::<T>());
            }
            let got = d.to_string();
            if got != want {
                return Err(format!("rendered as\n{}\nbut expected\n{}", short(&got), short(&want)));
            }
            events += 1;
        }
    }
    Ok((line, events))
}

fn sig(specs: &[InSpec], m: &MLine) -> u64 {
    let mut h = specs.len() as u64;
    for t in &m.toks {
        h = mix(h, t.text.as_deref().map_or(1, crate::rng::hash_str));
    }
    for (ty, v) in &m.store {
        for (rg, vs) in v {
            h = mix(mix(h, *ty as u64), (rg.0 * 7919 + rg.1) as u64 + vs.len() as u64 * 31);
        }
    }
    h
}

pub fn view_tys(ctx: &mut Ctx, m: &MLine) -> Vec<Ty> {
    let mut tys: Vec<Ty> = ALL_TYS.to_vec();
    if m.n() > 60 {
        ctx.rng.shuffle(&mut tys);
        tys.truncate(3);
    } else if ctx.rng.chance(1, 2) {
        ctx.rng.shuffle(&mut tys);
    }
    tys
}

fn store_specs(ctx: &mut Ctx, ids: &mut Ids) -> Vec<InSpec> {
    let o = SpecOpts {
        max_inputs: *ctx.rng.pick(&[1, 2, 4, 8, 30]),
        frags: *ctx.rng.pick(&[1, 2, 4, 10]),
        attr_pct: *ctx.rng.pick(&[30, 60, 90]),
        lib_types: true,
        custom_pct: *ctx.rng.pick(&[0, 20, 50, 100]),
    };
    let mut specs = random_specs(&mut ctx.rng, &o, ids);
    if ctx.rng.chance(1, 40) {
        // one input with very many attributes
        let k = ctx.rng.below(specs.len());
        let n = ctx.rng.range(20, 400);
        let one = ctx.rng.chance(1, 2).then(|| random_ty(&mut ctx.rng, true));
        for _ in 0..n {
            let ty = one.unwrap_or_else(|| random_ty(&mut ctx.rng, true));
            let v = random_value(&mut ctx.rng, ty, ids);
            specs[k].attrs.push((ty, v));
        }
        specs[k].late = ctx.rng.below(n);
    }
    mark_customs(&mut ctx.rng, &mut specs);
    specs
}

// ------------------------------------------------------------------ C05

/// Many types supplied with every input.
fn crowded_inputs(ctx: &mut Ctx) -> Res {
    let mut ids = Ids(0);
    let specs = store_specs(ctx, &mut ids);
    let n = ctx.rng.range(3, CROWD);
    set_phase(Phase::Setup);
    let (_, m) = setup(build(&specs, Measure::Bytes))?;
    let spans = m.input_spans.clone();
    set_phase(Phase::Observe);
    let mut inputs = real_inputs(&specs);
    for (i, t) in inputs.iter_mut().enumerate() {
        crowd_token(t, n, i as u32);
    }
    ctx.note(|| format!("inputs {specs:?}, each with {n} more types"));
    let line = create_line_from_input_tokens(inputs, |s| s.len());
    let want: Vec<(Rg, Vec<u32>)> = spans.iter().enumerate().map(|(i, s)| (*s, vec![i as u32])).collect();
    for (k, got) in crowd_read(&line, n).into_iter().enumerate() {
        same!(got, want, "values of type {k} of {n} supplied with each input");
    }
    for (k, got) in crowd_found(&line, n).into_iter().enumerate() {
        same!(got, want.len() as u64, "values of type {k} of {n} found by searching");
    }
    viol(compare_store(&line, &m))?;
    ctx.count("crowded_inputs", specs.len() as u64);
    ctx.max("types_on_one_input", n as u64);
    ctx.nontrivial(sig(&specs, &m) ^ n as u64);
    Ok(())
}

pub fn c05(ctx: &mut Ctx) -> Res {
    if ctx.idx > 0 && ctx.rng.chance(1, 40) {
        return crowded_inputs(ctx);
    }
    let mut ids = Ids(0);
    let specs = if ctx.idx == 0 {
        // many inputs: spans far into a long line
        (0..6000u32)
            .map(|i| InSpec {
                kind: if i % 7 == 3 { In::Custom(1) } else { In::Text("ab, 1".into()) },
                attrs: if i % 5 == 0 || i > 5990 { vec![(Ty::A, Mv { class: i % 3, id: i }), (Ty::U, Mv { class: i, id: 0 })] } else { vec![] },
                late: (i % 3) as usize,
            })
            .collect()
    } else {
        store_specs(ctx, &mut ids)
    };
    let measure = *ctx.rng.pick(MEASURES);
    ctx.note(|| format!("inputs {specs:?}"));
    // building may panic: that is a violation here
    let (line, m) = viol(build(&specs, measure))?;
    let n = viol(compare_store(&line, &m))?;
    let supplied: u64 = specs.iter().map(|s| s.attrs.len() as u64).sum();
    ctx.count("values_read_back", n);
    ctx.count("attributes_supplied", supplied);
    ctx.count("late_attributes", specs.iter().map(|s| s.late.min(s.attrs.len()) as u64).sum());
    ctx.max("attributes_on_one_input", specs.iter().map(|s| s.attrs.len() as u64).max().unwrap_or(0));
    ctx.max("tokens_in_a_line", m.n() as u64);
    if supplied > 0 {
        ctx.nontrivial(sig(&specs, &m));
    }
    if m.n() <= 400 {
        let tys = view_tys(ctx, &m);
        let (_, e) = viol(compare_views(line, &m, &tys, false))?;
        ctx.count("view_events", e);
    }
    Ok(())
}

// ------------------------------------------------------------------ layers

/// Assignments of one random layer.
pub fn random_assigns(ctx: &mut Ctx, m: &MLine, ty: Ty, ids: &mut Ids) -> Vec<(Rg, Mv)> {
    let sel = m.selectable();
    let k = match ctx.rng.below(30) {
        0 => 0,
        1 => ctx.rng.range(10, 60),
        2 if ctx.rng.chance(1, 6) => ctx.rng.range(200, 400),
        _ => ctx.rng.range(1, 6),
    };
    let focus = ctx.rng.chance(1, 3).then(|| random_span(&mut ctx.rng, &sel));
    let mut out: Vec<(Rg, Mv)> = vec![];
    for _ in 0..k {
        let rg = match focus {
            Some(f) if ctx.rng.chance(2, 3) => f,
            _ => random_span(&mut ctx.rng, &sel),
        };
        let v = if !out.is_empty() && ctx.rng.chance(1, 5) {
            // the same value again
            out[ctx.rng.below(out.len())].1
        } else {
            random_value(&mut ctx.rng, ty, ids)
        };
        out.push((rg, v));
    }
    out
}

// ------------------------------------------------------------------ C06

pub fn c06(ctx: &mut Ctx) -> Res {
    let mut ids = Ids(0);
    if ctx.idx == 1 {
        return longest(ctx);
    }
    if ctx.idx == 0 || ctx.rng.chance(1, 400) {
        // a line without tokens: resolvers are not invoked
        let calls = Cell::new(0u32);
        let line = create_line_from_input_tokens(vec![], |s| s.len());
        let line = line.run(&resolver::<A, _>(|_| {
            calls.set(calls.get() + 1);
            vec![]
        }));
        let line = line.run(&resolver::<u32, _>(|s| {
            calls.set(calls.get() + 1);
            vec![s.finish_with_attr(1)]
        }));
        same!(calls.get(), 0, "invocations on a line without tokens");
        ensure!(line.ll_tokens().is_empty() && line.query::<u32>().is_empty(), "something was recorded on a line without tokens");
        ctx.count("empty_lines", 1);
        return Ok(());
    }
    set_phase(Phase::Setup);
    let specs = store_specs(ctx, &mut ids);
    let measure = *ctx.rng.pick(MEASURES);
    ctx.note(|| format!("inputs {specs:?}"));
    let (mut line, mut m) = setup(build(&specs, measure))?;
    set_phase(Phase::Observe);
    let layers = match ctx.rng.below(12) {
        0 => ctx.rng.range(8, 24),
        _ => ctx.rng.range(1, 5),
    };
    for layer in 0..layers {
        if ctx.rng.chance(1, 10) {
            // one of the bundled resolvers
            let k = ctx.rng.below(3);
            ctx.note(|| format!("layer {layer}: bundled {k}"));
            line = match k {
                0 => line.run(&layered_amount::AmountResolver::english()),
                1 => line.run(&layered_clauses::ClauseKeywordResolver::new(&["if", "when"], &["and"], &["then"])),
                _ => line.run(&layered_clauses::ClauseResolver::default()),
            };
            viol(compare_tokens(&line, &m).map_err(|e| format!("after a bundled resolver: {e}")))?;
            viol(compare_store(&line, &m).map_err(|e| format!("after a bundled resolver: {e}")))?;
            ctx.count("bundled_runs", 1);
            continue;
        }
        let ty = if ctx.rng.chance(1, 8) { *ctx.rng.pick(&[Ty::Ch, Ty::Tag]) } else { *ctx.rng.pick(USER_TYS) };
        let assigns = random_assigns(ctx, &m, ty, &mut ids);
        ctx.note(|| format!("layer {layer}: {ty:?} {assigns:?}"));
        let calls = Cell::new(0u32);
        let inside: RefCell<Vec<(Ty, Vec<u64>)>> = RefCell::new(vec![]);
        let lost = RefCell::new(None);
        let whole = ctx.rng.chance(1, 4);
        let via_finish_with = ctx.rng.chance(1, 3);
        line = with_ty!(ty, T => line.run(&resolver::<T, _>(|full| {
            calls.set(calls.get() + 1);
            if layer < 4 {
                for ty in ALL_TYS {
                    let vs = full.find_by(&Mat::Attr(*ty)).into_iter().map(|(_, h)| h).collect();
                    inside.borrow_mut().push((*ty, vs));
                }
            }
            let cutter = Cutter::new(&full, &m);
            let mut sels = vec![];
            for (rg, v) in &assigns {
                match cutter.cut(*rg) {
                    Some(s) => sels.push((s, *v)),
                    None => *lost.borrow_mut() = Some(*rg),
                }
            }
            if whole {
                sels.push((full.clone(), Mv { class: 2, id: 0 }));
            }
            if via_finish_with {
                use layered_nlp::FinishWith;
                sels.finish_with(|v: Mv| <T as Val>::of(v))
            } else {
                sels.iter().map(|(s, v)| s.finish_with_attr(<T as Val>::of(*v))).collect()
            }
        })));
        if let Some(rg) = lost.into_inner() {
            return Err(Fail::Setup(format!("no selection over {rg:?}")));
        }
        same!(calls.get(), 1, "invocations of the resolver");
        for (ty, got) in inside.into_inner() {
            let want: Vec<u64> = (0..m.n())
                .flat_map(|i| m.go(&Mat::Attr(ty), true, i).unwrap_or_default().into_iter().map(|(h, _)| h))
                .collect();
            same!(got, want, "values of {ty:?} the resolver of layer {layer} could see");
            ctx.count("values_seen_inside", want.len() as u64);
        }
        for (rg, v) in &assigns {
            m.insert(ty, *rg, *v);
        }
        if whole {
            let v = with_ty!(ty, T => <T as Val>::of(Mv { class: 2, id: 0 }).mv());
            m.insert(ty, (0, m.n() - 1), v);
            ctx.count("whole_line_assignments", 1);
        }
        viol(compare_tokens(&line, &m).map_err(|e| format!("after layer {layer}: {e}")))?;
        let n = viol(compare_store(&line, &m).map_err(|e| format!("after layer {layer} ({ty:?} {assigns:?}): {e}")))?;
        ctx.count("assignments", assigns.len() as u64);
        ctx.count("values_read_back", n);
        ctx.count("runs", 1);
    }
    if ctx.rng.chance(1, 40) {
        // many types, one after the other
        let n = ctx.rng.range(3, CROWD);
        let pick = ctx.rng.below(1000);
        let texts: Vec<usize> = (0..m.n()).filter(|i| m.toks[*i].text.is_some()).collect();
        let mut want: Vec<(Rg, Vec<u32>)> = vec![];
        if !texts.is_empty() {
            let t = texts[pick % texts.len()];
            want.push(((t, t), vec![7]));
        }
        if want.first().map_or(false, |w| w.0 == (0, m.n() - 1)) {
            want[0].1.push(8);
        } else {
            want.push(((0, m.n() - 1), vec![8]));
        }
        line = crowd_layers(line, n, pick, 7);
        for (k, got) in crowd_read(&line, n).into_iter().enumerate() {
            same!(got, want, "values of type {k} of {n} assigned one after the other");
        }
        viol(compare_store(&line, &m).map_err(|e| format!("after layers of {n} types: {e}")))?;
        ctx.count("crowds", 1);
        ctx.max("types_on_one_line", n as u64);
    }
    if m.n() <= 200 {
        let tys = view_tys(ctx, &m);
        let (_, e) = viol(compare_views(line, &m, &tys, false))?;
        ctx.count("view_events", e);
    }
    ctx.max("layers", layers as u64);
    ctx.max("values_on_one_span", m.store.values().flatten().map(|s| s.1.len() as u64).max().unwrap_or(0));
    ctx.max("tokens_in_a_line", m.n() as u64);
    ctx.nontrivial(sig(&specs, &m));
    Ok(())
}

// ------------------------------------------------------------------ C07

/// A line of more tokens than 16 bits count, with short and long spans all over it.
fn longest(ctx: &mut Ctx) -> Res {
    let s = super::select::long(ctx, super::select::LONGEST)?;
    let (line, mut m) = (s.line, s.m);
    let n = m.n();
    let mut assigns = vec![];
    let mut ids = s.ids;
    for i in 0..300 {
        let a = if i % 2 == 0 { ctx.rng.below(n) } else { 65_500 + ctx.rng.below(70) };
        let b = if i % 3 == 0 { ctx.rng.range(a, n - 1) } else { (a + ctx.rng.below(3)).min(n - 1) };
        assigns.push(((a, b), random_value(&mut ctx.rng, Ty::A, &mut ids)));
    }
    let line = setup(run_layer(line, &mut m, Ty::A, &assigns))?;
    viol(compare_tokens(&line, &m))?;
    let k = viol(compare_store(&line, &m))?;
    let (line, e) = viol(compare_views(line, &m, &[Ty::A, Ty::B, Ty::S], false))?;
    viol(compare_store(&line, &m))?;
    ctx.count("values_read_back", k);
    ctx.count("view_events", e);
    ctx.max("tokens_in_a_line", n as u64);
    ctx.nontrivial(n as u64);
    Ok(())
}

pub fn c07(ctx: &mut Ctx) -> Res {
    if ctx.idx == 0 {
        return longest(ctx);
    }
    set_phase(Phase::Setup);
    let mut ids = Ids(0);
    let specs = store_specs(ctx, &mut ids);
    let measure = *ctx.rng.pick(MEASURES);
    ctx.note(|| format!("inputs {specs:?}"));
    let (mut line, mut m) = setup(build(&specs, measure))?;
    let layers = ctx.rng.range(0, 6);
    for _ in 0..layers {
        let ty = if ctx.rng.chance(1, 8) { *ctx.rng.pick(&[Ty::Ch, Ty::Tag]) } else { *ctx.rng.pick(USER_TYS) };
        let assigns = random_assigns(ctx, &m, ty, &mut ids);
        ctx.note(|| format!("layer {ty:?} {assigns:?}"));
        line = setup(run_layer(line, &mut m, ty, &assigns))?;
    }
    set_phase(Phase::Observe);
    let n = viol(compare_store(&line, &m))?;
    let tys = view_tys(ctx, &m);
    let partial = m.n() <= 40;
    let (line, e) = viol(compare_views(line, &m, &tys, partial))?;
    // and the probing itself did not change what is recorded
    viol(compare_store(&line, &m))?;
    ctx.count("values_read_back", n);
    ctx.count("view_events", e);
    ctx.max("tokens_in_a_line", m.n() as u64);
    if m.n() > 1 {
        ctx.nontrivial(sig(&specs, &m));
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

/// Look-alike types: same layout, same name, same Debug output, equal to each other, zero sized.
mod m1 {
    #[derive(Clone, PartialEq)]
    pub struct T(pub u32);
    #[derive(Clone, PartialEq, Default)]
    pub struct Z;
    #[derive(Clone, PartialEq)]
    pub struct G<X>(pub u32, pub std::marker::PhantomData<X>);
    #[derive(Clone, PartialEq)]
    #[repr(transparent)]
    pub struct W(pub u32);
    #[derive(Clone, PartialEq)]
    pub enum E {
        A(u32),
    }
}
mod m2 {
    #[derive(Clone, PartialEq)]
    pub struct T(pub u32);
    #[derive(Clone, PartialEq, Default)]
    pub struct Z;
    #[derive(Clone, PartialEq)]
    pub enum E {
        A(u32),
    }
}
macro_rules! dbg_same {
    ($($t:ty),*) => { $(impl std::fmt::Debug for $t {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("T") }
    })* };
}
dbg_same!(m1::T, m2::T, m1::Z, m2::Z, m1::W, m1::E, m2::E);
impl<X> std::fmt::Debug for m1::G<X> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("T")
    }
}
#[derive(Debug, Clone, PartialEq)]
#[repr(transparent)]
pub struct String2(String);
#[derive(Debug, Clone, PartialEq)]
pub struct Big([u64; 64]);
#[derive(Debug, Clone, PartialEq)]
#[repr(align(64))]
pub struct Aligned(u32);

/// What the monitor does with a type, erased.
trait Kind: Sync {
    fn type_id(&self) -> TypeId;
    fn name(&self) -> &'static str;
    fn mk(&self, k: u32) -> AnyAttribute;
    fn add(&self, t: &mut InputToken, k: u32);
    /// what reading `mk(k)` back gives
    fn key(&self, k: u32) -> u32;
    fn query(&self, l: &LLLine) -> Vec<(Rg, Vec<u32>)>;
    fn found(&self, l: &LLLine) -> Vec<u32>;
    fn extract(&self, a: AnyAttribute) -> Result<u32, AnyAttribute>;
    fn assign(&self, l: LLLine, ks: &[u32]) -> LLLine;
    fn shown(&self, l: &LLLine) -> usize;
}
struct P<T> {
    mk: fn(u32) -> T,
    key: fn(&T) -> u32,
}
impl<T: std::fmt::Debug + Send + Sync + 'static> Kind for P<T> {
    fn type_id(&self) -> TypeId {
        TypeId::of::<T>()
    }
    fn name(&self) -> &'static str {
        std::any::type_name::<T>()
    }
    fn mk(&self, k: u32) -> AnyAttribute {
        AnyAttribute::new((self.mk)(k))
    }
    fn add(&self, t: &mut InputToken, k: u32) {
        t.add_attr((self.mk)(k))
    }
    fn key(&self, k: u32) -> u32 {
        (self.key)(&(self.mk)(k))
    }
    fn query(&self, l: &LLLine) -> Vec<(Rg, Vec<u32>)> {
        l.query::<T>().into_iter().map(|(r, _, v)| (r, v.into_iter().map(self.key).collect())).collect()
    }
    fn found(&self, l: &LLLine) -> Vec<u32> {
        l.find(&x::attr::<T>()).iter().map(|f| (self.key)(f.attr())).collect()
    }
    fn extract(&self, a: AnyAttribute) -> Result<u32, AnyAttribute> {
        a.extract::<T>().map(|t| (self.key)(&t))
    }
    fn assign(&self, l: LLLine, ks: &[u32]) -> LLLine {
        l.run(&resolver::<T, _>(|s| ks.iter().map(|k| s.finish_with_attr((self.mk)(*k))).collect()))
    }
    fn shown(&self, l: &LLLine) -> usize {
        let text = LLLineDisplay::new(l).to_string().matches('╰').count();
        LLLineDisplay::new(l).with::<T>().to_string().matches('╰').count() - text
    }
}

fn kinds() -> Vec<Box<dyn Kind>> {
    use std::borrow::Cow;
    use std::sync::Arc;
    fn leak(k: u32) -> &'static str {
        ["s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7"][(k % 8) as usize]
    }
    fn num(s: &str) -> u32 {
        s.trim_start_matches('s').parse().unwrap_or(u32::MAX)
    }
    static NUMS: [u32; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
    static WS: [m1::W; 8] = [m1::W(0), m1::W(1), m1::W(2), m1::W(3), m1::W(4), m1::W(5), m1::W(6), m1::W(7)];
    fn f0() -> u32 {
        0
    }
    fn f1() -> u32 {
        1
    }
    macro_rules! k {
        ($t:ty, $mk:expr, $key:expr) => {
            Box::new(P::<$t> { mk: $mk, key: $key }) as Box<dyn Kind>
        };
    }
    vec![
        k!(u8, |k| k as u8, |t| *t as u32),
        k!(i8, |k| k as i8, |t| *t as u8 as u32),
        k!(u16, |k| k as u16, |t| *t as u32),
        k!(i16, |k| k as i16, |t| *t as u16 as u32),
        k!(u32, |k| k, |t| *t),
        k!(i32, |k| k as i32, |t| *t as u32),
        k!(f32, |k| f32::from_bits(k), |t| t.to_bits()),
        k!(char, |k| char::from_u32(k).unwrap_or('x'), |t| *t as u32),
        k!(u64, |k| k as u64, |t| *t as u32),
        k!(i64, |k| k as i64, |t| *t as u32),
        k!(usize, |k| k as usize, |t| *t as u32),
        k!(isize, |k| k as isize, |t| *t as u32),
        k!(f64, |k| k as f64, |t| *t as u32),
        k!(u128, |k| k as u128, |t| *t as u32),
        k!(i128, |k| k as i128, |t| *t as u32),
        k!(bool, |k| k % 2 == 1, |t| *t as u32),
        k!((), |_| (), |_| 0),
        k!(String, |k| format!("s{k}"), |t| num(t)),
        k!(&'static str, leak, |t| num(t)),
        k!(Box<str>, |k| format!("s{k}").into(), |t| num(t)),
        k!(Arc<str>, |k| format!("s{k}").into(), |t| num(t)),
        k!(Cow<'static, str>, |k| Cow::Owned(format!("s{k}")), |t| num(t)),
        k!(Vec<u8>, |k| vec![k as u8; 3], |t| t[0] as u32),
        k!(Vec<u32>, |k| vec![k; 2], |t| t[0]),
        k!(Vec<i32>, |k| vec![k as i32; 2], |t| t[0] as u32),
        k!(Vec<Vec<u32>>, |k| vec![vec![k]], |t| t[0][0]),
        k!(Vec<m1::T>, |k| vec![m1::T(k)], |t| t[0].0),
        k!(Vec<()>, |k| vec![(); k as usize % 100], |t| t.len() as u32),
        k!(Box<u32>, Box::new, |t| **t),
        k!(Box<i32>, |k| Box::new(k as i32), |t| **t as u32),
        k!(Box<Box<u32>>, |k| Box::new(Box::new(k)), |t| ***t),
        k!(Arc<u32>, |k| Arc::new(k), |t| **t),
        k!(Arc<String>, |k| Arc::new(format!("s{k}")), |t| num(t)),
        k!(Box<String>, |k| Box::new(format!("s{k}")), |t| num(t)),
        k!(Option<String>, |k| Some(format!("s{k}")), |t| t.as_deref().map_or(99, num)),
        k!(Option<&'static str>, |k| Some(leak(k)), |t| t.map_or(99, num)),
        k!(Vec<String>, |k| vec![format!("s{k}")], |t| num(&t[0])),
        k!(Vec<&'static str>, |k| vec![leak(k)], |t| num(t[0])),
        k!(Vec<Option<u32>>, |k| vec![Some(k)], |t| t[0].unwrap_or(99)),
        k!(Option<Vec<u32>>, |k| Some(vec![k]), |t| t.as_ref().map_or(99, |t| t[0])),
        k!(Box<[u32]>, |k| vec![k].into(), |t| t[0]),
        k!(std::collections::VecDeque<u32>, |k| vec![k].into(), |t| t[0]),
        k!(std::collections::BTreeSet<u32>, |k| Some(k).into_iter().collect(), |t| *t.first().unwrap()),
        k!(std::collections::HashMap<u32, u32>, |k| Some((k, k)).into_iter().collect(), |t| *t.keys().next().unwrap()),
        k!(Option<()>, |k| (k % 2 == 0).then_some(()), |t| t.is_some() as u32),
        k!(Option<bool>, |k| Some(k % 2 == 0), |t| t.map_or(2, |b| b as u32)),
        k!(Option<char>, |k| char::from_u32(k + 65), |t| t.map_or(99, |c| c as u32 - 65)),
        k!(String2, |k| String2(format!("s{k}")), |t| num(&t.0)),
        k!(std::path::PathBuf, |k| format!("s{k}").into(), |t| num(t.to_str().unwrap())),
        k!(std::ffi::OsString, |k| format!("s{k}").into(), |t| num(t.to_str().unwrap())),
        k!(std::time::Duration, |k| std::time::Duration::from_secs(k as u64), |t| t.as_secs() as u32),
        k!(std::sync::atomic::AtomicU32, |k| k.into(), |t| t.load(std::sync::atomic::Ordering::Relaxed)),
        k!(rust_decimal::Decimal, |k| k.into(), |t| t.to_string().parse().unwrap()),
        k!(layered_amount::Amount, |k| layered_amount::Amount::new(rust_decimal::Decimal::from(k)), |t| t.get_decimal().to_string().parse().unwrap()),
        k!(layered_part_of_speech::Tag, |_| layered_part_of_speech::Tag::Noun, |_| 0),
        k!(Option<u32>, |k| (k % 3 != 0).then_some(k), |t| t.unwrap_or(99)),
        k!(Option<i32>, |k| (k % 3 != 0).then_some(k as i32), |t| t.unwrap_or(99) as u32),
        k!(Option<Option<u32>>, |k| Some(Some(k)), |t| t.flatten().unwrap_or(99)),
        k!(Option<Box<u32>>, |k| Some(Box::new(k)), |t| t.as_deref().copied().unwrap_or(99)),
        k!(Result<u32, u32>, |k| if k % 2 == 0 { Ok(k) } else { Err(k) }, |t| match t { Ok(k) | Err(k) => *k }),
        k!([u32; 1], |k| [k], |t| t[0]),
        k!([i32; 1], |k| [k as i32], |t| t[0] as u32),
        k!([u32; 2], |k| [k, k], |t| t[0]),
        k!([u8; 4], |k| k.to_le_bytes(), |t| u32::from_le_bytes(*t)),
        k!((u32,), |k| (k,), |t| t.0),
        k!((i32,), |k| (k as i32,), |t| t.0 as u32),
        k!((u32, u32), |k| (k, k), |t| t.1),
        k!((i32, u32), |k| (1, k), |t| t.1),
        k!((u32, i32), |k| (k, 1), |t| t.0),
        k!(m1::T, m1::T, |t| t.0),
        k!(m2::T, m2::T, |t| t.0),
        k!(m1::W, m1::W, |t| t.0),
        k!(m1::Z, |_| m1::Z, |_| 0),
        k!(m2::Z, |_| m2::Z, |_| 0),
        k!(m1::E, m1::E::A, |m1::E::A(k)| *k),
        k!(m2::E, m2::E::A, |m2::E::A(k)| *k),
        k!(m1::G<u8>, |k| m1::G(k, Default::default()), |t| t.0),
        k!(m1::G<i8>, |k| m1::G(k, Default::default()), |t| t.0),
        k!(m1::G<m1::G<u8>>, |k| m1::G(k, Default::default()), |t| t.0),
        k!(std::marker::PhantomData<u8>, |_| std::marker::PhantomData, |_| 0),
        k!(std::marker::PhantomData<i8>, |_| std::marker::PhantomData, |_| 0),
        k!(&'static u32, |k| &NUMS[(k % 8) as usize], |t| **t),
        k!(&'static m1::W, |k| &WS[(k % 8) as usize], |t| t.0),
        k!(fn() -> u32, |k| if k % 2 == 0 { f0 } else { f1 }, |t| t()),
        k!(std::num::NonZeroU32, |k| std::num::NonZeroU32::new(k + 1).unwrap(), |t| t.get() - 1),
        k!(std::num::Wrapping<u32>, std::num::Wrapping, |t| t.0),
        k!(std::cmp::Reverse<u32>, std::cmp::Reverse, |t| t.0),
        k!(std::sync::Mutex<u32>, std::sync::Mutex::new, |t| *t.lock().unwrap()),
        k!(std::ops::Range<u32>, |k| 0..k, |t| t.end),
        k!(std::ops::RangeInclusive<u32>, |k| 0..=k, |t| *t.end()),
        k!(Big, |k| Big([k as u64; 64]), |t| t.0[63] as u32),
        k!(Aligned, Aligned, |t| t.0),
        k!(TypeId, |k| if k % 2 == 0 { TypeId::of::<u8>() } else { TypeId::of::<i8>() }, |t| (*t != TypeId::of::<u8>()) as u32),
        k!(layered_nlp::TextTag, |k| <layered_nlp::TextTag as Val>::of(Mv { class: k % 5, id: 0 }), |t| tag_class(t)),
        k!(layered_clauses::ClauseKeyword, |_| layered_clauses::ClauseKeyword::And, |_| 0),
        k!(layered_clauses::Clause, |_| layered_clauses::Clause::Independent, |_| 0),
    ]
}

pub const C08_FIXED: u64 = 60;
pub fn c08(ctx: &mut Ctx) -> Res {
    let ks = kinds();
    let nk = ks.len();
    if ctx.idx == 0 {
        // every ordered pair of types: extraction as the other type gives the attribute back
        for a in &ks {
            for b in &ks {
                let attr = a.mk(5);
                same!(attr.type_id(), a.type_id(), "type id of a prepared {}", a.name());
                match b.extract(attr) {
                    Ok(v) => {
                        ensure!(a.type_id() == b.type_id(), "a {} was extracted as {}", a.name(), b.name());
                        same!(v, a.key(5), "value extracted as {}", b.name());
                    }
                    Err(attr) => {
                        ensure!(a.type_id() != b.type_id(), "a {} could not be extracted as itself", a.name());
                        same!(attr.type_id(), a.type_id(), "type id after a failed extraction as {}", b.name());
                        // still usable as an attribute and still holding its value
                        let line = create_line_from_input_tokens(vec![InputToken::custom(1, vec![attr])], |s| s.len());
                        same!(a.query(&line), vec![((0, 0), vec![a.key(5)])], "{} after a failed extraction as {}", a.name(), b.name());
                        if a.type_id() != b.type_id() {
                            ensure!(b.query(&line).is_empty(), "a {} shows up as {}", a.name(), b.name());
                            ensure!(b.found(&line).is_empty(), "a {} is found as {}", a.name(), b.name());
                        }
                    }
                }
                ctx.count("type_pairs", 1);
            }
        }
        ctx.nontrivial(1);
        return Ok(());
    }
    if ctx.idx < C08_FIXED {
        // all types on one span, in any order
        let mut ks = ks;
        if ctx.idx > 1 {
            ctx.rng.shuffle(&mut ks);
        }
        let attrs: Vec<AnyAttribute> = ks.iter().map(|k| k.mk(3)).collect();
        let mut line = create_line_from_input_tokens(vec![InputToken::text("a b".into(), vec![]), InputToken::custom(0, attrs)], |s| s.len());
        for k in &ks {
            line = k.assign(line, &[2, 4]);
        }
        for k in &ks {
            let mut want = vec![((3, 3), vec![k.key(3)]), ((0, 3), vec![k.key(2), k.key(4)])];
            if k.type_id() == TypeId::of::<char>() || k.type_id() == TypeId::of::<layered_nlp::TextTag>() {
                continue; // the library adds some itself
            }
            let mut got = k.query(&line);
            want.sort();
            got.sort();
            same!(got, want, "values of {}", k.name());
            ctx.count("types_read_back", 1);
        }
        ctx.nontrivial(2 + ctx.idx);
        return Ok(());
    }
    // a few types, chosen close together (neighbours in the list look alike), on a random line
    let crowd = ctx.rng.chance(1, 6);
    let n_ty = if crowd { ctx.rng.range(6, 40) } else { ctx.rng.range(2, 9) };
    let base = ctx.rng.below(nk);
    let unit = ks.iter().position(|k| k.type_id() == TypeId::of::<()>()).unwrap_or(0);
    let mut chosen: Vec<usize> = vec![];
    for j in 0..n_ty {
        let i = match ctx.rng.below(12) {
            0 => unit, // everything fits where nothing is stored
            1..=8 => (base + j) % nk,
            _ => ctx.rng.below(nk),
        };
        if !chosen.contains(&i) {
            chosen.push(i);
        }
    }
    let mut store: Vec<(usize, Rg, u32)> = vec![]; // kind, span, key: in recording order
    let n_in = ctx.rng.range(1, 4);
    let mut inputs = vec![];
    let mut at = 0;
    let mut sigh = 0;
    for _ in 0..n_in {
        let custom = ctx.rng.chance(1, 2);
        // "b 1" tokenizes to three tokens
        let (mut tok, len) = if custom { (InputToken::custom(ctx.rng.below(3), vec![]), 1) } else { (InputToken::text("bb 11".into(), vec![]), 3) };
        let k = ctx.rng.range(0, if crowd { 50 } else { 6 });
        for _ in 0..k {
            let c = *ctx.rng.pick(&chosen);
            let v = ctx.rng.below(8) as u32;
            if ctx.rng.chance(1, 2) {
                ks[c].add(&mut tok, v);
            } else {
                let mut a = ks[c].mk(v);
                for _ in 0..ctx.rng.below(3) {
                    let o = *ctx.rng.pick(&chosen);
                    if o != c {
                        a = match ks[o].extract(a) {
                            Err(a) => a,
                            Ok(_) => return violation(format!("a {} was extracted as {}", ks[c].name(), ks[o].name())),
                        };
                    }
                }
                match &mut tok {
                    InputToken::Text { attrs, .. } | InputToken::Custom { attrs, .. } => attrs.push(a),
                }
            }
            sigh = mix(sigh, (c * 8) as u64 + v as u64);
            store.push((c, (at, at + len - 1), ks[c].key(v)));
        }
        inputs.push(tok);
        at += len;
    }
    ctx.note(|| format!("types {:?}, recorded (type, span, value) {store:?}", chosen.iter().map(|c| ks[*c].name()).collect::<Vec<_>>()));
    let mut line = create_line_from_input_tokens(inputs, |s| s.len());
    for _ in 0..ctx.rng.below(4) {
        let c = *ctx.rng.pick(&chosen);
        let vs: Vec<u32> = (0..ctx.rng.range(1, 3)).map(|_| ctx.rng.below(8) as u32).collect();
        line = ks[c].assign(line, &vs);
        for v in vs {
            store.push((c, (0, at - 1), ks[c].key(v)));
        }
    }
    let mut ask = chosen.clone();
    for d in 0..6 {
        ask.push((base + n_ty + d) % nk);
        ask.push((base + nk - 1 - d) % nk);
    }
    for c in ask {
        let k = &ks[c];
        let lib = k.type_id() == TypeId::of::<layered_nlp::TextTag>() || k.type_id() == TypeId::of::<char>();
        let mut want: Vec<(Rg, Vec<u32>)> = vec![];
        for (kc, rg, v) in &store {
            if *kc == c {
                match want.iter_mut().find(|w| w.0 == *rg) {
                    Some(w) => w.1.push(*v),
                    None => want.push((*rg, vec![*v])),
                }
            }
        }
        let total: usize = want.iter().map(|w| w.1.len()).sum();
        if !lib {
            same!(k.query(&line), want, "query of {}", k.name());
            same!(k.found(&line).len(), total, "values found of {}", k.name());
            same!(k.shown(&line), total, "values rendered of {}", k.name());
        } else {
            // the library's own values come first on single tokens
            for (rg, vs) in &want {
                let got = k.query(&line).into_iter().find(|g| g.0 == *rg).map(|g| g.1).unwrap_or_default();
                ensure!(got.ends_with(vs), "values of {} over {rg:?}: {got:?}, expected to end with {vs:?}", k.name());
            }
        }
        ctx.count("types_read_back", 1);
        ctx.count("values_read_back", total as u64);
    }
    if store.len() > 1 {
        ctx.nontrivial(sigh);
    }
    Ok(())
}
