//! C17: the rendered line.

use super::store::random_assigns;
use super::tokens::{block, first_diff, SWEEP};
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::render;
use crate::rng::{hash_str, mix};
use crate::{ensure, with_ty};
use layered_nlp::{debug_line, LLLine, LLLineDisplay};

/// Values with hostile Debug texts.
#[derive(Clone)]
pub struct Dbg(String);
impl std::fmt::Debug for Dbg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if f.alternate() {
            f.write_str("ALTERNATE")
        } else {
            f.write_str(&self.0)
        }
    }
}
#[derive(Debug, Clone)]
#[allow(dead_code)]
struct Nested {
    name: &'static str,
    value: Option<(u32, char)>,
}

fn check_rendering(ctx: &mut Ctx, line: &LLLine, m: &MLine, includes: &[Ty]) -> Res {
    let Some(want) = render::render(m, includes) else {
        ctx.count("width_not_additive", 1);
        return Ok(());
    };
    let style = ctx.rng.below(3);
    let got = match style {
        0 => {
            let mut d = LLLineDisplay::new(line);
            for ty in includes {
                with_ty!(*ty, T => d.include::<T>());
            }
            d.to_string()
        }
        1 => {
            let mut d = debug_line(line);
            for ty in includes {
                d = with_ty!(*ty, T => d.with::<T>());
            }
            format!("{d}")
        }
        _ => {
            let mut d = LLLineDisplay::new(line);
            for (i, ty) in includes.iter().enumerate() {
                if i % 2 == 0 {
                    with_ty!(*ty, T => d.include::<T>());
                } else {
                    d = with_ty!(*ty, T => d.with::<T>());
                }
            }
            // rendering twice gives the same
            let a = d.to_string();
            let b = d.to_string();
            ensure!(a == b, "two renderings differ");
            a
        }
    };
    if got != want {
        let (g, w): (Vec<&str>, Vec<&str>) = (got.split('\n').collect(), want.split('\n').collect());
        return violation(format!("rendering with {includes:?}: {}", first_diff(&g, &w)));
    }
    ctx.count("renderings", 1);
    ctx.count("bars", want.matches('╰').count() as u64);
    ctx.count("closed_bars", want.matches('╯').count() as u64);
    ctx.max("lines_rendered", want.lines().count() as u64);
    Ok(())
}

pub const C17_FIXED: u64 = 5 + SWEEP;

pub fn c17(ctx: &mut Ctx) -> Res {
    if ctx.idx >= 5 && ctx.idx < C17_FIXED {
        // every character as a token
        let chars: Vec<char> = block(ctx.idx - 5).collect();
        for part in chars.chunks(128) {
            let specs: Vec<InSpec> = part
                .iter()
                .enumerate()
                .map(|(i, c)| InSpec {
                    kind: In::Text(if i % 5 == 4 { format!("{c}b") } else { c.to_string() }),
                    attrs: if i % 3 == 0 { vec![(Ty::A, Mv { class: 0, id: i as u32 })] } else { vec![] },
                    late: 0,
                })
                .collect();
            let (line, m) = setup(build(&specs, Measure::Chars))?;
            check_rendering(ctx, &line, &m, &[Ty::A, Ty::Tag])?;
            ctx.count("characters_swept", part.len() as u64);
        }
        return Ok(());
    }
    set_phase(Phase::Setup);
    let mut ids = Ids(0);
    let specs = match ctx.idx {
        0 => vec![InSpec { kind: In::Text("word ".repeat(150)), attrs: vec![(Ty::A, Mv { class: 0, id: 1 })], late: 0 }],
        1 => (0..300u32)
            .map(|i| InSpec {
                kind: if i % 5 == 1 { In::Custom(3) } else { In::Text("世界 ok".into()) },
                attrs: vec![(Ty::A, Mv { class: 0, id: i })],
                late: 0,
            })
            .collect(),
        2 => vec![InSpec { kind: In::Text("x".repeat(9000)), attrs: vec![(Ty::B, Mv { class: 0, id: 1 })], late: 0 }],
        3 => vec![],
        // columns beyond 16 bits
        4 => ["x".repeat(70_000), "w é 世 ".repeat(300), "y".repeat(66_000), "🦶🏽 ".repeat(40)]
            .into_iter()
            .enumerate()
            .map(|(i, t)| InSpec { kind: In::Text(t), attrs: vec![(Ty::A, Mv { class: 0, id: i as u32 })], late: 0 })
            .collect(),
        _ => {
            let o = SpecOpts {
                max_inputs: *ctx.rng.pick(&[1, 3, 6, 15]),
                frags: *ctx.rng.pick(&[1, 3, 6, 15]),
                attr_pct: *ctx.rng.pick(&[30, 60]),
                lib_types: true,
                custom_pct: *ctx.rng.pick(&[0, 15, 50]),
            };
            random_specs(&mut ctx.rng, &o, &mut ids)
        }
    };
    let mut specs = specs;
    mark_customs(&mut ctx.rng, &mut specs);
    ctx.note(|| format!("inputs {specs:?}"));
    let (mut line, mut m) = setup(build(&specs, Measure::Chars))?;
    if m.n() == 0 {
        set_phase(Phase::Observe);
        ensure!(debug_line(&line).with::<A>().to_string().is_empty(), "a line without tokens renders as something");
        return Ok(());
    }
    for _ in 0..ctx.rng.range(0, 4) {
        let ty = if ctx.rng.chance(1, 8) { *ctx.rng.pick(&[Ty::Ch, Ty::Tag]) } else { *ctx.rng.pick(USER_TYS) };
        let assigns = random_assigns(ctx, &m, ty, &mut ids);
        ctx.note(|| format!("layer {ty:?} {assigns:?}"));
        line = setup(run_layer(line, &mut m, ty, &assigns))?;
    }
    setup(super::store::compare_store(&line, &m))?;
    // a layer of values with awkward Debug texts, rendered by hand below
    let texts = [
        "", "multi\nline", "╰─╯", "  spaced", "wide世界", "e\u{301}", "{:?}", "\u{1F600}", "a", "x ", "x\n", "\t", "\n", "\ny", "\r\n", " ", "\u{A0}", "\\n",
        "\"", "\0", "\u{1B}[0m", "\u{FEFF}",
    ];
    let sel = m.selectable();
    let many = if ctx.rng.chance(1, 50) { ctx.rng.range(4, 60) } else { ctx.rng.below(4) };
    let dbg: Vec<(Rg, String)> = (0..many)
        .map(|_| {
            let r = &mut ctx.rng;
            let t = match r.below(12) {
                0..=5 => r.pick(&texts).to_string(),
                6 if many < 4 && r.chance(1, 20) => {
                    // long, with characters of several bytes at any offset
                    let (k, unit) = (r.range(1, 4000), gen::text(r, 3));
                    format!("{}{}", "a".repeat(r.below(8)), unit.repeat(k.min(40_000 / unit.len().max(1))))
                }
                7 => r.pick(&texts).repeat(r.range(1, 9)),
                _ => gen::text(r, 6),
            };
            (random_span(&mut ctx.rng, &sel), t)
        })
        .collect();
    line = line.run(&resolver::<Dbg, _>(|full| {
        let c = Cutter::new(&full, &m);
        dbg.iter().filter_map(|(rg, t)| c.cut(*rg).map(|s| s.finish_with_attr(Dbg(t.clone())))).collect()
    }));
    line = line.run(&resolver::<Nested, _>(|full| vec![full.finish_with_attr(Nested { name: "q\"", value: Some((7, '\n')) })]));
    set_phase(Phase::Observe);
    // which types are included, in which order, possibly several times or never recorded
    let k = ctx.rng.range(0, 5);
    let mut includes: Vec<Ty> = (0..k).map(|_| *ctx.rng.pick(ALL_TYS)).collect();
    if ctx.idx == 4 {
        // characters and tags would be rendered once for each token, on a line of its own, each very long
        includes.retain(|t| USER_TYS.contains(t));
    }
    check_rendering(ctx, &line, &m, &includes)?;
    includes = if ctx.idx == 4 { USER_TYS.to_vec() } else { ALL_TYS.to_vec() };
    ctx.rng.shuffle(&mut includes);
    check_rendering(ctx, &line, &m, &includes)?;
    let toks: Vec<Option<String>> = m.toks.iter().map(|t| t.text.clone()).collect();
    if let Some((cols, mut want)) = render::columns(&toks) {
        let mut order: Vec<Rg> = vec![];
        for (rg, _) in &dbg {
            if !order.contains(rg) {
                order.push(*rg);
            }
        }
        for rg in order {
            for (_, t) in dbg.iter().rev().filter(|d| d.0 == rg) {
                want.push('\n');
                want.push_str(&render::bar(cols[rg.0].0, cols[rg.1].1, t));
            }
        }
        want.push('\n');
        want.push_str(&render::bar(0, cols[m.n() - 1].1, "Nested { name: \"q\\\"\", value: Some((7, '\\n')) }"));
        let got = debug_line(&line).with::<Dbg>().with::<Nested>().to_string();
        ensure!(got == want, "rendering of Debug texts {dbg:?}:\n{}\nbut expected\n{}", short(&got), short(&want));
        ctx.count("debug_texts", dbg.len() as u64 + 1);
        ctx.max("bytes_of_a_debug_text", dbg.iter().map(|d| d.1.len()).max().unwrap_or(0) as u64);
    }
    ctx.max("tokens_in_a_line", m.n() as u64);
    let s = m.toks.iter().fold(ids.0 as u64, |h, t| mix(h, t.text.as_deref().map_or(1, hash_str)));
    if !m.store.is_empty() {
        ctx.nontrivial(s);
    }
    Ok(())
}
