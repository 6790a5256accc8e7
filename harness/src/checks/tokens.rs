//! C01-C04: building lines.

use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::rng::{hash_str, mix, Rng};
use crate::{ensure, same, with_ty};
use layered_nlp::{create_line_from_input_tokens, create_line_from_string, x, InputToken, LLLine, TextTag};
use unicode_segmentation::UnicodeSegmentation;

/// Contexts in which every Unicode scalar value is tried.
pub const CONTEXTS: &[(&str, &str)] = &[("", ""), ("1", ""), ("1", "2"), ("a", ""), ("a", "b"), ("", "1"), (" ", " "), ("é", "'x")];
const BLOCK: u32 = 0x800;
/// Number of fixed cases used by the sweep over all scalar values.
pub const SWEEP: u64 = (0x11_0000 / BLOCK) as u64;

/// The characters of one block of the sweep.
pub fn block(k: u64) -> impl Iterator<Item = char> {
    (k as u32 * BLOCK..(k as u32 + 1) * BLOCK).filter_map(char::from_u32)
}

fn sweep_texts(idx: u64) -> Vec<String> {
    let mut v = vec![];
    for cp in idx as u32 * BLOCK..(idx as u32 + 1) * BLOCK {
        if let Some(c) = char::from_u32(cp) {
            for (a, b) in CONTEXTS {
                v.push(format!("{a}{c}{b}"));
            }
        }
    }
    v
}

/// Texts of directed shapes: long words, long digit runs, many tokens.
fn directed(k: u64) -> String {
    match k {
        0 => "a".repeat(70_000),
        1 => "7".repeat(70_000),
        2 => format!("1{}", "é".repeat(66_000)),
        3 => "1,".repeat(2_500) + "9",
        4 => " ".repeat(66_000),
        5 => "ab 12 ".repeat(1_100),
        6 => format!("a{}", "\u{301}".repeat(66_000)),
        7 => "5\u{FE0F}\u{20E3}".repeat(1_000),
        8 => "1a".repeat(3_000),
        9 => "👨‍👩‍👧‍👦".repeat(1_000),
        10 => "\r\n".repeat(2_000),
        11 => "don't ".repeat(600),
        12 => (0..=0x24Fu32).filter_map(char::from_u32).collect(),
        13 => (0..=0x24Fu32).filter_map(char::from_u32).flat_map(|c| ['1', c]).collect(),
        14 => gen::VOCAB.join(" "),
        15 => gen::DIGIT_GLUE.iter().map(|g| format!("1{g}2 ")).collect(),
        16 => gen::MID.iter().map(|g| format!("1{g}2 a{g}b 1{g} ")).collect(),
        _ => gen::SPECIAL.concat(),
    }
}
const DIRECTED: u64 = 18;

pub const FIXED: u64 = SWEEP + DIRECTED;

/// The specs of a random tokenizing case.
fn token_specs(r: &mut Rng) -> Vec<InSpec> {
    let mut ids = Ids(0);
    let n = match r.below(10) {
        0..=3 => 1,
        4..=7 => r.range(1, 5),
        8 => r.range(5, 20),
        _ => r.range(0, 3),
    };
    let custom = *r.pick(&[0, 10, 10, 40]);
    let mut specs: Vec<InSpec> = (0..n)
        .map(|_| {
            let kind = if r.below(100) < custom {
                In::Custom(custom_size(r))
            } else {
                let f = gen::sized(r) / 2;
                In::Text(gen::text(r, f.max(1)))
            };
            let attrs = if r.chance(1, 8) {
                let ty = random_ty(r, true);
                vec![(ty, random_value(r, ty, &mut ids))]
            } else {
                vec![]
            };
            InSpec { kind, attrs, late: 0 }
        })
        .collect();
    stretch(r, &mut specs);
    specs
}

fn custom_size(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => 0,
        1 => r.range(200, 300),
        2 => r.range(60_000, 70_000),
        3 => (1usize << 32) - 5 + r.below(20),
        4 => 1usize << r.range(0, 55),
        _ => r.range(0, 8),
    }
}

fn line_of(s: &str) -> LLLine {
    create_line_from_string(s)
}

fn specs_sig(specs: &[InSpec]) -> u64 {
    specs.iter().fold(7, |h, s| match &s.kind {
        In::Text(t) => mix(h, hash_str(t)),
        In::Custom(n) => mix(h ^ 0x77, *n as u64),
    })
}

// ------------------------------------------------------------------ C01

fn lossless(specs: &[InSpec], line: &LLLine) -> Result<Vec<Rg>, Fail> {
    let toks = observed_tokens(line);
    match input_spans(specs, &toks) {
        Ok(s) => Ok(s),
        Err(e) => violation(format!("tokens do not read back as the input: {e}")),
    }
}

fn text_spec(t: &str) -> InSpec {
    InSpec { kind: In::Text(t.to_string()), attrs: vec![], late: 0 }
}

fn texts_of(line: &LLLine) -> Vec<Option<(String, TextTag)>> {
    observed_tokens(line)
}

fn c01_text(ctx: &mut Ctx, t: &str, all_entries: bool) -> Res {
    let spec = [text_spec(t)];
    let a = line_of(t);
    lossless(&spec, &a)?;
    ctx.count("texts", 1);
    ctx.count("tokens", a.ll_tokens().len() as u64);
    if all_entries {
        let b = create_line_from_input_tokens(real_inputs(&spec), |s| s.len());
        #[allow(deprecated)]
        let c = layered_nlp::create_tokens(real_inputs(&spec), |s| s.len());
        let ta = texts_of(&a);
        same!(texts_of(&b), ta, "tokens of {t:?} through create_line_from_input_tokens");
        same!(texts_of(&c), ta, "tokens of {t:?} through create_tokens");
        let d = create_line_from_string(String::from(t));
        same!(texts_of(&d), ta, "tokens of {t:?} from an owned String");
    }
    Ok(())
}

pub fn c01(ctx: &mut Ctx) -> Res {
    if ctx.idx < SWEEP {
        let ts = sweep_texts(ctx.idx);
        for t in &ts {
            c01_text(ctx, t, false)?;
        }
        ctx.count("scalar_contexts", ts.len() as u64);
        ctx.nontrivial(ctx.idx);
        return Ok(());
    }
    if ctx.idx < FIXED {
        let t = directed(ctx.idx - SWEEP);
        ctx.nontrivial(hash_str(&t));
        return c01_text(ctx, &t, true);
    }
    if ctx.idx == FIXED {
        // more tokens than 16 bits can index
        let t = "a ".repeat(33_500);
        ctx.nontrivial(hash_str(&t));
        ctx.max("tokens_in_a_line", 67_000);
        return c01_text(ctx, &t, false);
    }
    let specs = token_specs(&mut ctx.rng);
    let m = *ctx.rng.pick(MEASURES);
    ctx.note(|| format!("inputs {:?}, measure {m:?}", specs));
    let line = create_line_from_input_tokens(real_inputs(&specs), |s| m.of(s));
    let spans = lossless(&specs, &line)?;
    ctx.count("inputs", specs.len() as u64);
    ctx.count("tokens", line.ll_tokens().len() as u64);
    ctx.max("tokens_in_a_line", line.ll_tokens().len() as u64);
    ctx.count("custom_inputs", specs.iter().filter(|s| matches!(s.kind, In::Custom(_))).count() as u64);
    let whole = texts_of(&line);
    #[allow(deprecated)]
    let alias = layered_nlp::create_tokens(real_inputs(&specs), |s| m.of(s));
    same!(texts_of(&alias), whole, "tokens through the deprecated alias");
    // the query view reads the same text back
    for (rg, text, _) in line.query::<TextTag>() {
        let expect: String = whole[rg.0..=rg.1].iter().flatten().map(|(s, _)| s.as_str()).collect();
        same!(text, expect, "text of span {rg:?}");
    }
    for (s, sp) in specs.iter().zip(&spans) {
        if let In::Text(t) = &s.kind {
            // each input alone, through the plain string entry point
            let alone = line_of(t);
            same!(texts_of(&alone), whole[sp.0..=sp.1].to_vec(), "tokens of {t:?} alone or among other inputs");
        }
    }
    if specs.len() > 1 || line.ll_tokens().len() > 2 {
        let s = specs_sig(&specs);
        ctx.nontrivial(s);
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

/// Reference segmentation.
pub fn expected_tokens(t: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for w in t.split_word_bounds() {
        if !w.as_bytes()[0].is_ascii_digit() {
            out.push(w.to_string());
            continue;
        }
        // 0: ASCII digit, 1: alphabetic, 2: single
        let class = |c: char| {
            if c.is_ascii_digit() {
                0
            } else if c.is_alphabetic() {
                1
            } else {
                2
            }
        };
        let mut last = 2;
        for c in w.chars() {
            let k = class(c);
            if k == 2 || k != last {
                out.push(String::new());
            }
            out.last_mut().unwrap().push(c);
            last = k;
        }
    }
    out
}

fn c02_text(ctx: &mut Ctx, t: &str, got: Vec<String>) -> Res {
    let want = expected_tokens(t);
    ctx.count("texts", 1);
    ctx.count("boundaries", want.len() as u64);
    let words = t.split_word_bounds().filter(|w| w.as_bytes()[0].is_ascii_digit()).count() as u64;
    ctx.count("digit_words", words);
    same!(got, want, "tokens of {t:?}");
    Ok(())
}

fn plain(line: &LLLine) -> Vec<String> {
    observed_tokens(line).into_iter().map(|t| t.map_or(String::from("<custom>"), |t| t.0)).collect()
}

pub fn c02(ctx: &mut Ctx) -> Res {
    if ctx.idx < SWEEP {
        for t in sweep_texts(ctx.idx) {
            let got = plain(&line_of(&t));
            c02_text(ctx, &t, got)?;
        }
        ctx.nontrivial(ctx.idx);
        return Ok(());
    }
    if ctx.idx < FIXED {
        let t = directed(ctx.idx - SWEEP);
        ctx.nontrivial(hash_str(&t));
        let got = plain(&line_of(&t));
        return c02_text(ctx, &t, got);
    }
    let mut specs = token_specs(&mut ctx.rng);
    if specs.is_empty() || ctx.rng.chance(1, 3) {
        // pairs of characters that segmentation rules look at together
        let n = ctx.rng.range(2, 8);
        let r = &mut ctx.rng;
        let mut t = String::new();
        for _ in 0..n {
            match r.below(6) {
                0 => t.push_str(r.pick(gen::MID)),
                1 => t.push_str(r.pick(gen::DIGIT_GLUE)),
                2 => t.push_str(&gen::digits(r)),
                3 => t.push_str(r.pick(gen::SPECIAL)),
                4 => t.push(gen::random_char(r)),
                _ => t.push_str(r.pick(&["a", "é", " ", "'", "-", "–", "_", "ー", "カ"])),
            }
        }
        specs.push(text_spec(&t));
    }
    ctx.note(|| format!("inputs {:?}", specs));
    let line = create_line_from_input_tokens(real_inputs(&specs), |s| s.len());
    let toks = plain(&line);
    // expected tokens of the whole line, input by input
    let mut want = vec![];
    for s in &specs {
        match &s.kind {
            In::Text(t) => {
                want.extend(expected_tokens(t));
                let alone = plain(&line_of(t));
                c02_text(ctx, t, alone)?;
            }
            In::Custom(_) => want.push("<custom>".into()),
        }
    }
    same!(toks, want, "tokens of the line");
    let s = specs_sig(&specs);
    if toks.len() > 1 {
        ctx.nontrivial(s);
    }
    Ok(())
}

// ------------------------------------------------------------------ C03

pub fn expected_tag(t: &str) -> TextTag {
    let mut cs = t.chars();
    if t.bytes().all(|b| b.is_ascii_digit()) {
        TextTag::NATN
    } else if t.chars().all(char::is_whitespace) {
        TextTag::SPACE
    } else if matches!(t, "," | "." | "!" | ";" | ":" | "?" | "'" | "\"") {
        TextTag::PUNC
    } else if cs.next().map_or(false, char::is_alphabetic)
        && cs.all(|c| c.is_alphabetic() || c == '\'' || c == '-' || c == '–')
    {
        TextTag::WORD
    } else {
        TextTag::SYMB
    }
}

fn c03_line(ctx: &mut Ctx, line: &LLLine, what: &dyn Fn() -> String) -> Res {
    let toks = observed_tokens(line);
    let mut want_tags: Vec<(Rg, String, Vec<TextTag>)> = vec![];
    let mut want_chars: Vec<(Rg, String, Vec<char>)> = vec![];
    for (i, t) in toks.iter().enumerate() {
        if let Some((t, tag)) = t {
            let want = expected_tag(t);
            ensure!(*tag == want, "token {i} {t:?} of {} is tagged {tag:?}, not {want:?}", what());
            ctx.count(
                match want {
                    TextTag::NATN => "natn",
                    TextTag::PUNC => "punc",
                    TextTag::SYMB => "symb",
                    TextTag::SPACE => "space",
                    TextTag::WORD => "word",
                },
                1,
            );
            want_tags.push(((i, i), t.clone(), vec![want]));
            let mut cs = t.chars();
            if let (Some(c), None) = (cs.next(), cs.next()) {
                want_chars.push(((i, i), t.clone(), vec![c]));
                ctx.count("single_chars", 1);
            }
        }
    }
    let tags: Vec<_> =
        line.query::<TextTag>().into_iter().map(|(r, t, v)| (r, t, v.into_iter().cloned().collect::<Vec<_>>())).collect();
    let chars: Vec<_> =
        line.query::<char>().into_iter().map(|(r, t, v)| (r, t, v.into_iter().copied().collect::<Vec<_>>())).collect();
    ensure!(tags == want_tags, "text tags of {}: {}", what(), first_diff(&tags, &want_tags));
    ensure!(chars == want_chars, "char attributes of {}: {}", what(), first_diff(&chars, &want_chars));
    Ok(())
}

pub fn first_diff<T: PartialEq + std::fmt::Debug>(got: &[T], want: &[T]) -> String {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            return short(&format!(
                "entry {i} of {}/{} observed {:?} but expected {:?}",
                got.len(),
                want.len(),
                got.get(i),
                want.get(i)
            ));
        }
    }
    String::from("(same)")
}

pub fn c03(ctx: &mut Ctx) -> Res {
    if ctx.idx < SWEEP {
        for t in sweep_texts(ctx.idx) {
            c03_line(ctx, &line_of(&t), &|| format!("{t:?}"))?;
        }
        ctx.nontrivial(ctx.idx);
        return Ok(());
    }
    if ctx.idx < FIXED {
        let t = directed(ctx.idx - SWEEP);
        ctx.nontrivial(hash_str(&t));
        return c03_line(ctx, &line_of(&t), &|| short(&format!("{t:?}")));
    }
    let mut specs = token_specs(&mut ctx.rng);
    for s in &mut specs {
        // supplied values of these types belong to C05
        s.attrs.retain(|(ty, _)| !matches!(ty, Ty::Ch | Ty::Tag));
    }
    if ctx.rng.chance(1, 3) {
        // word-like tokens around the word rule
        let r = &mut ctx.rng;
        let n = r.range(1, 7);
        let mut t = String::new();
        for _ in 0..n {
            t.push_str(r.pick(&["a", "é", "世", "'", "’", "-", "–", "—", "_", "·", "\u{301}", "\u{AD}", ".", ":", "1", "٣", "ª", "ㄱ", "ー", "\u{200D}", "\u{370}", "x", "\u{E0100}", "ไ"]));
        }
        specs.push(text_spec(&t));
    }
    ctx.note(|| format!("inputs {:?}", specs));
    let line = create_line_from_input_tokens(real_inputs(&specs), |s| s.len());
    if line.ll_tokens().len() > 1 {
        ctx.nontrivial(specs_sig(&specs));
    }
    let c = specs.clone();
    c03_line(ctx, &line, &|| format!("{c:?}"))
}

// ------------------------------------------------------------------ C04

pub fn c04(ctx: &mut Ctx) -> Res {
    if ctx.idx == 0 {
        // more tokens than 16 bits can index, positions beyond 32 bits
        let t = "a ".repeat(33_500);
        let mut specs = vec![text_spec(&t)];
        specs.push(InSpec { kind: In::Custom(1 << 33), attrs: vec![(Ty::M, Mv { class: 1, id: 0 })], late: 0 });
        specs.push(text_spec("tail"));
        let line = create_line_from_input_tokens(real_inputs(&specs), |s| s.len());
        let mut pos = 0;
        for f in line.find(&x::token_text()) {
            if *f.attr() == "tail" {
                pos += 1 << 33;
            }
            same!(f.range(), (pos, pos + f.attr().len()), "range of token {:?}", f.attr());
            pos += f.attr().len();
            ctx.count("ranges", 1);
        }
        same!(pos, 67_000 + (1 << 33) + 4, "end of the line");
        ctx.max("tokens_in_a_line", 67_002);
        ctx.nontrivial(1);
        return Ok(());
    }
    set_phase(Phase::Setup);
    let mut ids = Ids(0);
    let plain_string = ctx.rng.chance(1, 3);
    let measure = if plain_string { Measure::Bytes } else { *ctx.rng.pick(MEASURES) };
    let mut source = String::new();
    let mut specs;
    if plain_string {
        let f = gen::sized(&mut ctx.rng);
        source = gen::text(&mut ctx.rng, f);
        specs = vec![text_spec(&source)];
    } else {
        specs = token_specs(&mut ctx.rng);
        mark_customs(&mut ctx.rng, &mut specs);
    }
    ctx.note(|| format!("inputs {:?}, measure {measure:?}, plain string {plain_string}", specs));
    let (mut line, mut m) = setup(build(&specs, measure))?;
    if plain_string {
        line = line_of(&source);
    }
    if m.n() == 0 {
        set_phase(Phase::Observe);
        ensure!(line.find(&x::token_text()).is_empty(), "a line without tokens has matches");
        return Ok(());
    }
    // layers over random spans
    let layers = ctx.rng.range(0, 3);
    for _ in 0..layers {
        let ty = *ctx.rng.pick(USER_TYS);
        let sel = m.selectable();
        let k = ctx.rng.range(1, 6);
        let assigns: Vec<(Rg, Mv)> =
            (0..k).map(|_| (random_span(&mut ctx.rng, &sel), random_value(&mut ctx.rng, ty, &mut ids))).collect();
        ctx.note(|| format!("layer {ty:?} {assigns:?}"));
        line = setup(run_layer(line, &mut m, ty, &assigns))?;
    }
    set_phase(Phase::Observe);
    // every token: text tokens by their text, custom ones by their marker
    let want: Vec<(Rg, &str)> = m
        .toks
        .iter()
        .filter_map(|t| t.text.as_deref().map(|s| ((t.start, t.end), s)))
        .collect();
    let got: Vec<(Rg, &str)> = line.find(&x::token_text()).iter().map(|f| (f.range(), *f.attr())).collect();
    ensure!(got == want, "positions of tokens: {}", first_diff(&got, &want));
    ctx.count("ranges", got.len() as u64);
    for ty in ALL_TYS {
        // the recorded spans as the query shows them; a forward search goes by start token
        let rec: Vec<(Rg, String, Vec<Mv>)> = with_ty!(*ty, T => line.query::<T>().into_iter()
            .map(|(r, t, v)| (r, t, v.into_iter().map(|v| v.mv()).collect())).collect());
        let mut want = vec![];
        for i in 0..m.n() {
            for (rg, text, vs) in rec.iter().filter(|(rg, ..)| rg.0 == i) {
                for v in vs {
                    want.push(((m.toks[rg.0].start, m.toks[rg.1].end), *v, text));
                }
            }
        }
        let got: Vec<(Rg, Mv)> =
            with_ty!(*ty, T => line.find(&x::attr::<T>()).iter().map(|f| (f.range(), f.attr().mv())).collect());
        let w: Vec<(Rg, Mv)> = want.iter().map(|(r, v, _)| (*r, *v)).collect();
        ensure!(got == w, "positions of {ty:?} attributes: {}", first_diff(&got, &w));
        ctx.count("ranges", got.len() as u64);
        if plain_string {
            for ((r, _), (_, _, text)) in got.iter().zip(&want) {
                ensure!(source.get(r.0..r.1) == Some(text.as_str()), "range {r:?} slices {:?} out of the string, not {text:?}", source.get(r.0..r.1));
                ctx.count("slices", 1);
            }
        }
    }
    // composed matches: the selections found by the same matcher tell which tokens are matched
    let mut mats = vec![];
    for _ in 0..ctx.rng.range(1, 4) {
        let mat = random_mat(&mut ctx.rng, &m, &mut ids, 2);
        if Op::Find(mat.clone()).model(&m, (0, m.n() - 1)).is_ok() {
            mats.push(mat);
        }
    }
    let sizes = std::cell::RefCell::new(vec![]);
    let line = line.run(&resolver::<Probe, _>(|full| {
        let mut out = vec![];
        for mat in &mats {
            let found = full.find_by(mat);
            sizes.borrow_mut().push(found.len());
            for (s, _) in found {
                out.push(s.finish_with_attr(Probe(out.len() as u32)));
            }
        }
        out
    }));
    let sizes = sizes.into_inner();
    let spans = setup(probe_spans(&line, sizes.iter().sum()))?;
    let mut at = 0;
    for (mat, k) in mats.iter().zip(&sizes) {
        let want: Vec<Rg> = spans[at..at + k].iter().map(|(a, b)| (m.toks[*a].start, m.toks[*b].end)).collect();
        at += k;
        let found = line.find(mat);
        let got: Vec<Rg> = found.iter().map(|f| f.range()).collect();
        ensure!(got == want, "positions of {mat:?}: {}", first_diff(&got, &want));
        ctx.count("ranges", got.len() as u64);
        ctx.count("composed_ranges", got.len() as u64);
    }
    ctx.max("tokens_in_a_line", m.n() as u64);
    ctx.max("end_position", m.toks.last().map_or(0, |t| t.end) as u64);
    if m.n() > 1 {
        let s = mix(specs_sig(&specs), measure as u64);
        ctx.nontrivial(s);
    }
    Ok(())
}

#[allow(unused)]
fn _unused(_: InputToken) {}
