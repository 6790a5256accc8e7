//! C18-C23: the bundled resolvers, against independent readings of the token list.

use super::tokens::{block, first_diff, SWEEP};
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::rng::{hash_str, mix, Rng};
use crate::{ensure, same};
use layered_amount::{Amount, AmountResolver};
use layered_clauses::{Clause, ClauseKeyword, ClauseKeywordResolver, ClauseResolver};
use layered_nlp::{
    create_line_from_input_tokens, create_line_from_string, InputToken, LLLine, TextMatchAssignResolver, TextTag,
};
use layered_part_of_speech::{POSTagResolver, Tag};
use rust_decimal::Decimal;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Mutex, OnceLock};
use wiktionary_part_of_speech_extract::ENGLISH_TAG_LOOKUP;

type Toks = Vec<Option<(String, TextTag)>>;

/// All recorded (span, value) pairs of a type, as the query shows them.
pub fn recorded<T: Clone + 'static>(line: &LLLine) -> Vec<(Rg, T)> {
    line.query::<T>().into_iter().flat_map(|(rg, _, vs)| vs.into_iter().map(move |v| (rg, v.clone()))).collect()
}

fn single_char(t: &str) -> Option<char> {
    let mut cs = t.chars();
    match (cs.next(), cs.next()) {
        (Some(c), None) => Some(c),
        _ => None,
    }
}

/// Random inputs around a text: cut into several inputs at random places, customs in between.
fn scatter(r: &mut Rng, text: &str) -> Vec<InputToken> {
    let mut out = vec![];
    if r.chance(1, 2) {
        out.push(InputToken::text(text.to_string(), vec![]));
        return out;
    }
    let chars: Vec<char> = text.chars().collect();
    let mut at = 0;
    while at < chars.len() {
        let k = r.range(1, (chars.len() - at).min(30));
        out.push(InputToken::text(chars[at..at + k].iter().collect(), vec![]));
        at += k;
        if r.chance(1, 6) {
            out.push(InputToken::custom(r.below(4), vec![]));
        }
    }
    out
}

/// Supplies inputs with text tags that change nothing: a token with the tag it has anyway, and
/// several tokens (where `spans`) with a tag that makes none of them a word or number.
fn retag(r: &mut Rng, inputs: Vec<InputToken>, spans: bool) -> Vec<InputToken> {
    if !r.chance(1, 6) {
        return inputs;
    }
    let all = r.chance(1, 3);
    inputs
        .into_iter()
        .map(|mut input| {
            let InputToken::Text { text, .. } = &input else { return input };
            if text.len() > 300 || !(all || r.chance(1, 2)) {
                return input;
            }
            let toks = observed_tokens(&create_line_from_string(text));
            let tag = match &toks[..] {
                [Some((_, tag))] => tag.clone(),
                _ if spans => r.pick(&[TextTag::WORD, TextTag::NATN]).clone(),
                _ => return input,
            };
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                input.add_attr(tag.clone());
            }
            input
        })
        .collect()
}

fn build_line(inputs: Vec<InputToken>) -> LLLine {
    create_line_from_input_tokens(inputs, |s| s.len())
}

fn toks_sig(t: &Toks) -> u64 {
    t.iter().fold(t.len() as u64, |h, t| mix(h, t.as_ref().map_or(1, |t| hash_str(&t.0))))
}

/// One block of all Unicode scalar values, when this is a case of the sweep.
fn swept(ctx: &Ctx, first: u64) -> Option<Vec<char>> {
    (ctx.idx >= first && ctx.idx < first + SWEEP).then(|| block(ctx.idx - first).collect())
}

/// Each character as an input of its own, and its case forms.
fn forms(chars: &[char]) -> Vec<String> {
    let mut v = vec![];
    for c in chars {
        let c = c.to_string();
        for t in [c.to_uppercase(), c.to_lowercase()] {
            if t != c {
                v.push(t);
            }
        }
        v.push(c);
    }
    v
}
fn one_each(texts: &[String]) -> Vec<InputToken> {
    texts.iter().map(|t| InputToken::text(t.clone(), vec![])).collect()
}

// ------------------------------------------------------------------ C18

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Name(u32);

const CASED: &[&str] = &[
    "slack", "Slack", "SLACK", "sLaCk", "straße", "STRASSE", "Straße", "STRAẞE", "istanbul", "İstanbul", "ISTANBUL",
    "i\u{307}stanbul", "ıstanbul", "ΣΑΣ", "σας", "σασ", "Σας", "K", "k", "\u{212A}", "ſ", "s", "S", "Ǆ", "ǅ", "ǆ",
    "ﬁ", "FI", "fi", "É", "é", "E\u{301}", "e\u{301}", "ÀB", "àb", "Ω", "\u{2126}", "ω", "don't", "DON'T", "1", "12", "+",
    "💥", "Ⅷ", "ⅷ", "Ⓐ", "ⓐ", "Я", "я", "Ა", "ა", "Ꭰ", "ꭰ", "𐐀", "𐐨", "日本", "a", "A", "Ȿ", "ȿ", "ß", "ẞ", "SS", "ss",
    "Å", "å", "\u{212B}", " ", "\t", ".", ",", "'",
];

fn c18_keys(r: &mut Rng, toks: &Toks) -> Vec<String> {
    let n = match r.below(8) {
        0 => r.range(20, 60),
        _ => r.range(0, 8),
    };
    (0..n)
        .map(|_| match r.below(8) {
            0 | 1 => r.pick(CASED).to_string(),
            2 => {
                let w = gen::word(r);
                gen::recase(r, &w)
            }
            3 => String::from("two words"),
            _ => match r.pick(toks) {
                Some((t, _)) => gen::recase(r, t),
                None => String::new(),
            },
        })
        .collect()
}

pub const C18_FIXED: u64 = 4 + SWEEP;

/// Every character and its case forms looked up by each other.
fn c18_sweep(ctx: &mut Ctx, chars: &[char]) -> Res {
    let texts = forms(chars);
    let map: HashMap<String, Vec<Name>> = texts.iter().enumerate().map(|(i, t)| (t.clone(), vec![Name(i as u32)])).collect();
    let mut lower: HashMap<String, Vec<Name>> = HashMap::new();
    for (k, v) in &map {
        lower.entry(k.to_lowercase()).or_default().extend(v.iter().cloned());
    }
    for sensitive in [true, false] {
        let res = if sensitive { TextMatchAssignResolver::new(map.clone()) } else { TextMatchAssignResolver::new_case_insensitive(map.clone()) };
        let line = build_line(one_each(&texts)).run(&res);
        let mut want = vec![];
        for (i, t) in observed_tokens(&line).iter().enumerate() {
            let hit = t.as_ref().and_then(|(t, _)| if sensitive { map.get(t) } else { lower.get(&t.to_lowercase()) });
            want.extend(hit.into_iter().flatten().map(|v| ((i, i), v.clone())));
        }
        let mut got = recorded::<Name>(&line);
        got.sort();
        want.sort();
        ensure!(got == want, "lookup of single characters, case sensitive {sensitive}: {}", first_diff(&got, &want));
        ctx.count("characters_looked_up", texts.len() as u64);
    }
    Ok(())
}

pub fn c18(ctx: &mut Ctx) -> Res {
    if let Some(chars) = swept(ctx, 4) {
        return c18_sweep(ctx, &chars);
    }
    set_phase(Phase::Setup);
    let r = &mut ctx.rng;
    let mut text = String::new();
    let top = if r.chance(1, 8) { 80 } else { 12 };
    let n = r.range(1, top);
    for _ in 0..n {
        match r.below(6) {
            0 | 1 => text.push_str(r.pick(CASED)),
            2 | 3 => {
                let w = gen::word(r);
                text.push_str(&gen::recase(r, &w));
            }
            4 => text.push_str(&gen::text(r, 2)),
            _ => text.push_str(r.pick(gen::PUNCT)),
        }
        if r.chance(3, 4) {
            text.push_str(r.pick(gen::SPACES));
        }
    }
    if ctx.idx == 0 {
        // more tokens than 16 bits count
        text = "w ".repeat(33_000) + &text + " ΣΑΣ end";
    }
    let mut line = if ctx.idx == 0 { build_line(vec![InputToken::text(text.clone(), vec![])]) } else { build_line(scatter(r, &text)) };
    let toks = observed_tokens(&line);
    let mut keys = c18_keys(r, &toks);
    let big = ctx.idx > 0 && (ctx.idx < 4 || r.chance(1, 3000));
    if big {
        // more entries, and more values of one, than anyone would expect
        let n = r.range(300, 5000);
        keys.splice(0..0, (0..n).map(|i| format!("k{i}")));
    }
    let mut id = 0;
    let mut pairs: Vec<(String, Vec<Name>)> = vec![];
    for k in keys {
        let nv = match r.below(10) {
            0 => 0,
            1 => r.range(3, 20),
            2 if big => *r.pick(&[256, 257, 300, 1025]),
            _ => r.range(1, 3),
        };
        let vs = (0..nv)
            .map(|_| {
                if r.chance(1, 8) {
                    Name(7) // equal values are separate assignments
                } else {
                    id += 1;
                    Name(100 + id)
                }
            })
            .collect();
        pairs.push((k, vs));
    }
    let form = r.below(3);
    let runs = if r.chance(1, 10) { 2 } else { 1 };
    ctx.note(|| format!("text {text:?}, form {form}, runs {runs}, lookup {pairs:?}"));
    set_phase(Phase::Observe);
    // a map keeps one entry per key
    let mut map: HashMap<String, Vec<Name>> = HashMap::new();
    let mut arr: Vec<(&'static str, Name)> = vec![];
    match form {
        0 | 1 => {
            for (k, v) in &pairs {
                map.insert(k.clone(), v.clone());
            }
        }
        _ => {
            // the array form takes one value per entry, static keys, repeated keys allowed
            let n = if big { 300 } else { *ctx.rng.pick(&[0, 1, 2, 6, 6, 6, 40]) };
            for i in 0..n {
                arr.push((ctx.rng.pick(CASED), Name(i as u32)));
            }
            if n > 1 && ctx.rng.chance(1, 2) {
                arr[n - 1] = (arr[0].0, Name(900));
            }
        }
    }
    let entries: Vec<(String, Vec<Name>)> = if form == 2 {
        arr.iter().map(|(k, v)| (k.to_string(), vec![v.clone()])).collect()
    } else {
        map.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
    };
    ctx.note(|| format!("entries {entries:?}"));
    let mut want: Vec<(Rg, Name)> = vec![];
    for (i, t) in toks.iter().enumerate() {
        if let Some((t, _)) = t {
            for (k, vs) in &entries {
                let hit = if form == 0 { k == t } else { k.to_lowercase() == t.to_lowercase() };
                if hit {
                    for v in vs {
                        for _ in 0..runs {
                            want.push(((i, i), v.clone()));
                        }
                    }
                }
            }
        }
    }
    let res = match form {
        0 => TextMatchAssignResolver::new(map),
        1 => TextMatchAssignResolver::new_case_insensitive(map),
        _ => {
            fn array<const N: usize>(a: Vec<(&'static str, Name)>) -> TextMatchAssignResolver<Name> {
                let a: [(&'static str, Name); N] = a.try_into().expect("as many entries");
                TextMatchAssignResolver::new_case_insensitive_str_arr(a)
            }
            match arr.len() {
                0 => array::<0>(arr),
                1 => array::<1>(arr),
                2 => array::<2>(arr),
                6 => array::<6>(arr),
                40 => array::<40>(arr),
                _ => array::<300>(arr),
            }
        }
    };
    for _ in 0..runs {
        line = line.run(&res);
    }
    let mut got = recorded::<Name>(&line);
    // the order of values of one token follows the lookup's, which is unordered for maps
    got.sort();
    want.sort();
    ensure!(got == want, "text lookup form {form}: {}", first_diff(&got, &want));
    same!(observed_tokens(&line), toks, "tokens after the lookup");
    ctx.count(["sensitive", "insensitive_map", "insensitive_array"][form], 1);
    ctx.count("assignments", got.len() as u64);
    ctx.count("tokens", toks.len() as u64);
    if !got.is_empty() {
        ctx.nontrivial(mix(toks_sig(&toks), entries.len() as u64));
        ctx.count("lines_with_assignments", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ C19, C20

/// Characters a token carries: its own when it is a single one, plus supplied ones.
type Chars = Vec<Vec<char>>;

/// Independent reading: (span, written number with '.' as decimal point).
fn written_amounts(toks: &Toks, chars: &Chars, delims: &[char], decimal: char) -> Vec<(Rg, String)> {
    let n = toks.len();
    let num = |i: usize| match toks.get(i) {
        Some(Some((t, TextTag::NATN))) => Some(t.as_str()),
        _ => None,
    };
    let is_delim = |i: usize| i < n && chars[i].iter().any(|c| delims.contains(c));
    let is_dec = |i: usize| i < n && chars[i].contains(&decimal);
    let mut out = vec![];
    let mut i = 0;
    while i < n {
        let Some(first) = num(i) else {
            i += 1;
            continue;
        };
        let mut s = first.to_string();
        let mut e = i;
        while is_delim(e + 1) && num(e + 2).is_some() {
            s.push_str(num(e + 2).unwrap_or(""));
            e += 2;
        }
        // a separator that is also a delimiter was already taken as a delimiter
        if is_dec(e + 1) && !is_delim(e + 1) && num(e + 2).is_some() {
            s.push('.');
            s.push_str(num(e + 2).unwrap_or(""));
            e += 2;
            while is_delim(e + 1) && num(e + 2).is_some() {
                s.push_str(num(e + 2).unwrap_or(""));
                e += 2;
            }
        }
        out.push(((i, e), s));
        i = e + 1;
    }
    out
}

/// The value as text, without going through the library: leading zeros dropped, decimals kept.
fn canonical(s: &str) -> Option<String> {
    let (int, dec) = match s.split_once('.') {
        Some((i, d)) => (i, Some(d)),
        None => (s, None),
    };
    let digits = int.trim_start_matches('0').len() + dec.map_or(0, str::len);
    if digits > 28 {
        return None; // rounding or overflow: left to the decimal parser
    }
    let int = int.trim_start_matches('0');
    let int = if int.is_empty() { "0" } else { int };
    Some(match dec {
        Some(d) => format!("{int}.{d}"),
        None => int.to_string(),
    })
}

fn judge_amounts(ctx: &mut Ctx, line: &LLLine, toks: &Toks, chars: &Chars, delims: &[char], decimal: char) -> Res {
    let got: Vec<(Rg, String)> =
        recorded::<Amount>(line).into_iter().map(|(rg, a)| (rg, a.get_decimal().to_string())).collect();
    let mut want = vec![];
    for (rg, s) in written_amounts(toks, chars, delims, decimal) {
        match s.parse::<Decimal>() {
            Ok(d) => {
                let shown = d.to_string();
                if let Some(c) = canonical(&s) {
                    // the decimal type itself must be faithful where it fits
                    if c != shown {
                        return Err(Fail::Setup(format!("decimal type shows {shown} for {s}")));
                    }
                    ctx.count("exact_values", 1);
                } else {
                    ctx.count("wide_values", 1);
                }
                want.push((rg, shown));
            }
            Err(_) => {
                ctx.count("values_that_do_not_fit", 1);
                if canonical(&s).is_some() {
                    return Err(Fail::Setup(format!("decimal type refuses {s}")));
                }
            }
        }
        ctx.count(if s.contains('.') { "decimals" } else { "integers" }, 1);
        if rg.1 - rg.0 > 2 {
            ctx.count("several_groups", 1);
        }
    }
    ensure!(
        got == want,
        "amounts with delimiters {delims:?} and decimal {decimal:?} in {:?}: {}",
        short(&format!("{:?}", toks.iter().map(|t| t.as_ref().map(|t| t.0.as_str())).collect::<Vec<_>>())),
        first_diff(&got, &want)
    );
    ctx.count("amounts", got.len() as u64);
    Ok(())
}

fn own_chars(toks: &Toks) -> Chars {
    toks.iter().map(|t| t.as_ref().and_then(|t| single_char(&t.0)).into_iter().collect()).collect()
}

fn amount_inputs(r: &mut Rng, seps: &[&str]) -> (Vec<InputToken>, Vec<Option<char>>) {
    let mut inputs = vec![];
    let mut supplied = vec![];
    let n_in = *r.pick(&[1, 1, 1, 2, 4]);
    for _ in 0..n_in {
        if r.chance(1, 6) {
            let c = if r.chance(1, 2) { single_char(*r.pick(seps)) } else { None };
            let mut t = InputToken::custom(1, vec![]);
            if let Some(c) = c {
                t.add_attr(c);
            }
            inputs.push(t);
            supplied.push(c);
            continue;
        }
        let mut text = String::new();
        let n = match r.below(10) {
            0 => r.range(10, 60),
            _ => r.range(1, 8),
        };
        for _ in 0..n {
            match r.below(12) {
                0..=6 => text.push_str(&gen::numeral(r, seps)),
                7 => text.push_str(r.pick(seps)),
                8 => text.push_str(&gen::word(r)),
                9 => text.push_str(r.pick(gen::SPACES)),
                10 => text.push_str(&gen::digit_word(r)),
                _ => text.push_str(r.pick(gen::SYMBOLS)),
            }
            if r.chance(1, 3) {
                text.push(' ');
            }
        }
        inputs.push(InputToken::text(text, vec![]));
        supplied.push(None);
    }
    (inputs, supplied)
}

/// Numbers and separators as inputs of their own, so that a separator can be a number as well: a
/// digit, or any token that was supplied with the character.
fn separate_pieces(r: &mut Rng, seps: &[&str]) -> (Vec<InputToken>, Vec<Option<char>>) {
    (0..r.range(2, 14))
        .map(|_| {
            let c = if r.chance(1, 4) { single_char(r.pick(seps)) } else { None };
            let attrs = c.map(layered_nlp::AnyAttribute::new).into_iter().collect();
            let input = match r.below(12) {
                0..=4 => InputToken::text(gen::digits(r), attrs),
                5..=9 => InputToken::text(r.pick(seps).to_string(), attrs),
                10 => InputToken::text("w".into(), attrs),
                _ => InputToken::custom(1, attrs),
            };
            (input, c)
        })
        .unzip()
}

/// Amounts made by the caller give back their decimal with its sign and scale.
fn amounts_of_the_caller(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let bits = r.next();
    let d = match r.below(4) {
        0 => Decimal::from_parts(bits as u32, r.next() as u32, r.next() as u32, bits >> 63 == 1, r.below(29) as u32),
        1 => Decimal::from_parts((bits % 1000) as u32 * 1000, 0, 0, bits >> 63 == 1, r.below(29) as u32),
        2 => Decimal::from_parts(0, 0, 0, bits >> 63 == 1, r.below(29) as u32),
        _ => *r.pick(&[Decimal::MAX, Decimal::MIN, Decimal::ONE, Decimal::ZERO]),
    };
    let whole = bits as i64 >> r.below(64);
    let parts = |d: &Decimal| (d.serialize(), d.to_string());
    for a in [Amount::new(d), Amount::from(d), Amount::new(d).clone()] {
        same!(parts(a.get_decimal()), parts(&d), "decimal of an amount made from {d}");
    }
    same!(parts(Amount::new(whole).get_decimal()), parts(&Decimal::from(whole)), "decimal of an amount made from {whole}");
    ctx.count("amounts_of_the_caller", 4);
    Ok(())
}

fn describe_inputs(inputs: &[InputToken]) -> String {
    let v: Vec<String> = inputs
        .iter()
        .map(|t| match t {
            InputToken::Text { text, attrs } => format!("{text:?}+{}", attrs.len()),
            InputToken::Custom { size, attrs } => format!("<{size}>+{}", attrs.len()),
        })
        .collect();
    v.join(" ")
}

pub const C19_FIXED: u64 = 3 + SWEEP;

pub fn c19(ctx: &mut Ctx) -> Res {
    if let Some(chars) = swept(ctx, 3) {
        // every character as delimiter, and its neighbour as decimal separator
        for (k, c) in chars.iter().enumerate() {
            let d = chars[(k + 1) % chars.len()];
            let line = create_line_from_string(format!("1{c}23{d}4{c}5 6{c}"));
            let toks = observed_tokens(&line);
            let line = line.run(&AmountResolver::new(vec![*c], d));
            judge_amounts(ctx, &line, &toks, &own_chars(&toks), &[*c], d)?;
            ctx.count("separators_swept", 1);
        }
        return Ok(());
    }
    set_phase(Phase::Setup);
    let r = &mut ctx.rng;
    let pool: &[&str] = &[",", ".", "'", " ", "_", ";", "’", "·", "\u{A0}", "\u{202F}", "٫", "x", "-", "/", "\t", "😀", "，"];
    let k = *r.pick(&[0, 1, 1, 2, 2, 3, 6]);
    let mut seps: Vec<&str> = (0..k).map(|_| *r.pick(pool)).collect();
    let mut decimal = *r.pick(pool);
    let separate = r.chance(1, 8);
    if separate && r.chance(1, 2) {
        // separators that are numbers themselves
        let digits: &[&str] = &["0", "1", "5", "9"];
        seps.push(*r.pick(digits));
        if r.chance(1, 3) {
            decimal = *r.pick(digits);
        }
    } else if r.chance(1, 2) {
        (seps, decimal) = r.pick(&[(vec![",", "'"], "."), (vec![" ", ".", "'"], ","), (vec![","], "."), (vec![], ".")]).clone();
    }
    if ctx.idx < 3 {
        (seps, decimal) = (vec![",", "'"], ".");
    }
    let mut delims: Vec<char> = seps.iter().filter_map(|s| single_char(s)).collect();
    if r.chance(1, 60) {
        // many delimiters, the usual ones last
        let many: Vec<char> = (0..r.range(10, 300) as u32).filter_map(|i| char::from_u32(0x4E00 + i)).collect();
        delims.splice(0..0, many);
    }
    let decimal_c = single_char(decimal).unwrap_or('.');
    let mut used: Vec<&str> = seps.clone();
    used.push(decimal);
    if r.chance(1, 3) {
        used.push(*r.pick(pool));
    }
    let (inputs, supplied) = match ctx.idx {
        0 => (
            vec![InputToken::text(
                "1,000.50 and 0007 1,,2 1.2.3 ,5 .5 5, 5. 79228162514264337593543950335 79228162514264337593543950336 1,000,000,000,000,000,000,000,000,000,000.5 0.0000000000000000000000000001".into(),
                vec![],
            )],
            vec![None],
        ),
        2 => (vec![InputToken::text("w ".repeat(33_000) + "1,000.50 x 1,7 2.5, 3 ", vec![])], vec![None]),
        1 => (vec![InputToken::text("1,".repeat(4000) + "2", vec![]), InputToken::text(" 12,5 ".repeat(900), vec![])], vec![None, None]),
        _ if separate => separate_pieces(r, &used),
        _ => amount_inputs(r, &used),
    };
    ctx.note(|| format!("delimiters {delims:?} decimal {decimal_c:?} inputs {}", describe_inputs(&inputs)));
    let inputs = retag(&mut ctx.rng, inputs, true);
    let lens: Vec<usize> = inputs.iter().map(|t| if let InputToken::Text { text, .. } = t { text.len() } else { 0 }).collect();
    let line = build_line(inputs);
    let toks = observed_tokens(&line);
    // characters are only supplied with inputs of one token
    let mut chars = own_chars(&toks);
    let mut at = 0;
    for (len, c) in lens.into_iter().zip(supplied) {
        let first = at;
        let mut left = len;
        loop {
            let n = toks.get(at).and_then(|t| t.as_ref()).map_or(0, |t| t.0.len());
            at += 1;
            left = left.saturating_sub(n);
            if left == 0 || at >= toks.len() {
                break;
            }
        }
        if let (Some(c), Some(chars)) = (c, chars.get_mut(first)) {
            chars.push(c);
        }
    }
    set_phase(Phase::Observe);
    amounts_of_the_caller(ctx)?;
    let line = line.run(&AmountResolver::new(delims.clone(), decimal_c));
    judge_amounts(ctx, &line, &toks, &chars, &delims, decimal_c)?;
    same!(observed_tokens(&line), toks, "tokens after resolving amounts");
    ctx.count("number_tokens", toks.iter().flatten().filter(|t| t.1 == TextTag::NATN).count() as u64);
    if toks.iter().flatten().any(|t| t.1 == TextTag::NATN) {
        ctx.nontrivial(mix(toks_sig(&toks), decimal_c as u64));
    }
    Ok(())
}

pub const C20_FIXED: u64 = 1 + SWEEP;

pub fn c20(ctx: &mut Ctx) -> Res {
    if let Some(chars) = swept(ctx, 1) {
        // every character between numbers: only the documented ones join them
        for c in chars {
            let text = format!("1{c}234 x 5{c}6{c}7");
            for english in [true, false] {
                let (res, delims, decimal): (_, &[char], char) =
                    if english { (AmountResolver::english(), &[',', '\''], '.') } else { (AmountResolver::french(), &[' ', '.', '\''], ',') };
                let line = create_line_from_string(&text).run(&res);
                let toks = observed_tokens(&line);
                judge_amounts(ctx, &line, &toks, &own_chars(&toks), delims, decimal)?;
            }
            ctx.count("separators_swept", 1);
        }
        return Ok(());
    }
    let english = ctx.rng.chance(1, 2);
    let (delims, decimal): (&[char], char) = if english { (&[',', '\''], '.') } else { (&[' ', '.', '\''], ',') };
    let preset = || if english { AmountResolver::english() } else { AmountResolver::french() };
    if ctx.idx == 0 {
        for (e, text, value) in [
            (true, "1'000'240.00", "1000240.00"),
            (true, "1,000,000", "1000000"),
            (true, "1,00,00", "10000"),
            (true, "1.00,00", "1.0000"),
            (false, "1'000'240,00", "1000240.00"),
            (false, "1 000 000", "1000000"),
            (false, "1,00", "1.00"),
            (false, "1.00,00", "100.00"),
        ] {
            let r = if e { AmountResolver::english() } else { AmountResolver::french() };
            let line = create_line_from_string(text).run(&r);
            let n = line.ll_tokens().len();
            let got: Vec<_> = recorded::<Amount>(&line).into_iter().map(|(rg, a)| (rg, a.get_decimal().to_string())).collect();
            same!(got, vec![((0, n - 1), value.to_string())], "{} preset on {text}", if e { "english" } else { "french" });
            ctx.count("documented_examples", 1);
        }
    }
    let mk = |r: &mut Rng| amount_inputs(r, &[",", ".", "'", " ", ",", ".", "'", "\u{A0}", "’", "_"]).0;
    let mut r1 = ctx.rng.clone();
    let mut r2 = ctx.rng.clone();
    let (a, b) = (mk(&mut r1), mk(&mut r2));
    ctx.note(|| format!("english {english} inputs {}", describe_inputs(&a)));
    let plain: Vec<InputToken> = a.into_iter().filter(|t| matches!(t, InputToken::Text { .. })).collect();
    let plain2: Vec<InputToken> = b.into_iter().filter(|t| matches!(t, InputToken::Text { .. })).collect();
    let line = build_line(plain);
    let toks = observed_tokens(&line);
    let chars = own_chars(&toks);
    let line = line.run(&preset());
    judge_amounts(ctx, &line, &toks, &chars, delims, decimal)?;
    let mut ds = delims.to_vec();
    ctx.rng.shuffle(&mut ds);
    let explicit = build_line(plain2).run(&AmountResolver::new(ds, decimal));
    let dump = |l: &LLLine| recorded::<Amount>(l).into_iter().map(|(rg, a)| (rg, a.get_decimal().to_string())).collect::<Vec<_>>();
    same!(dump(&line), dump(&explicit), "preset against explicit configuration");
    ctx.count(if english { "english" } else { "french" }, 1);
    if toks.iter().flatten().any(|t| t.1 == TextTag::NATN) {
        ctx.nontrivial(mix(toks_sig(&toks), english as u64));
    }
    Ok(())
}

// ------------------------------------------------------------------ C21, C22

const COND: &[&[&str]] = &[&["if", "when"], &["si"], &["wenn", "falls", "sobald"], &[], &["if"], &["когда", "если"], &["i\u{307}f", "straße", "σας"], &["+", "1", "."]];
const AND: &[&[&str]] = &[&["and"], &["et"], &["und", "&"], &[], &["and", "or", "but", "then"], &["и"], &["if", "and"], &[","]];
const THEN: &[&[&str]] = &[&["then"], &["alors"], &["dann"], &[], &["then", "if"], &["то"], &["then", "and"], &["😀", ";"]];

type List = &'static [&'static str];

/// Keyword lists: of several languages, or made of random words, symbols and other texts.
fn lists(r: &mut Rng) -> (List, List, List) {
    if r.chance(1, 3) {
        // the resolver keeps `&'static str`s: a bounded number of lists is made, each from its number
        static MADE: Mutex<BTreeMap<usize, (List, List, List)>> = Mutex::new(BTreeMap::new());
        let k = r.below(4096);
        if let Some(l) = MADE.lock().unwrap_or_else(|e| e.into_inner()).get(&k) {
            return *l;
        }
        let r = &mut Rng::new(mix(0x11575, k as u64));
        let (c, a) = (made_list(r), made_list(r));
        let mut t = made_list(r);
        if r.chance(1, 4) {
            t = Box::leak([t, c, a].concat().into_boxed_slice());
        }
        MADE.lock().unwrap_or_else(|e| e.into_inner()).insert(k, (c, a, t));
        return (c, a, t);
    }
    if r.chance(1, 2) {
        let k = r.below(COND.len());
        (COND[k], AND[k], THEN[k])
    } else {
        (COND[r.below(COND.len())], AND[r.below(AND.len())], THEN[r.below(THEN.len())])
    }
}

fn made_list(r: &mut Rng) -> List {
    let n = match r.below(12) {
        0 => 0,
        1 => r.range(20, 200),
        _ => r.range(1, 5),
    };
    let mut v: Vec<&'static str> = vec![];
    for _ in 0..n {
        let w = match r.below(12) {
            0 => r.pick(gen::SYMBOLS).to_string(),
            1 => r.pick(gen::SPECIAL).to_string(),
            2 => r.pick(gen::PUNCT).to_string(),
            3 => r.pick(CASED).to_string(),
            4 => gen::digits(r),
            5 => gen::digit_word(r),
            6 => match r.below(4) {
                0 => String::new(),
                1 => r.pick(gen::SPACES).to_string(),
                2 => "two words".to_string(),
                _ => gen::text(r, 1),
            },
            _ => gen::word(r),
        };
        // the statement is over lowercase lists
        let w = w.to_lowercase();
        if w.to_lowercase() == w {
            v.push(Box::leak(w.into_boxed_str()));
        }
    }
    Box::leak(v.into_boxed_slice())
}

/// Independent keyword of a text.
fn keyword_of(t: &str, cond: &[&str], and: &[&str], then: &[&str]) -> Option<ClauseKeyword> {
    let l = t.to_lowercase();
    let has = |xs: &[&str]| xs.iter().any(|x| *x == l);
    if has(cond) {
        Some(ClauseKeyword::ConditionStart)
    } else if has(then) {
        Some(ClauseKeyword::Then)
    } else if has(and) {
        Some(ClauseKeyword::And)
    } else {
        None
    }
}

pub const C21_FIXED: u64 = 1 + SWEEP;

pub fn c21(ctx: &mut Ctx) -> Res {
    set_phase(Phase::Setup);
    let r = &mut ctx.rng;
    let (mut cond, mut and, mut then) = lists(r);
    let mut text = gen::clause_text(r, cond, and, then);
    if ctx.idx == 0 {
        text = "If it rains then and WHEN ".repeat(5_600);
    }
    let inputs = if let Some(chars) = swept(ctx, 1) {
        // every third character a keyword, all of them and their case forms as texts
        let mut l: [Vec<&'static str>; 3] = Default::default();
        for (k, c) in chars.iter().enumerate().step_by(3) {
            let w = c.to_string().to_lowercase();
            if w.to_lowercase() == w {
                l[k / 3 % 3].push(Box::leak(w.into_boxed_str()));
            }
        }
        [cond, and, then] = l.map(|l| &*Box::leak(l.into_boxed_slice()));
        ctx.count("characters_swept", chars.len() as u64);
        one_each(&forms(&chars))
    } else if ctx.idx == 0 {
        vec![InputToken::text(text.clone(), vec![])]
    } else {
        scatter(&mut ctx.rng, &text)
    };
    ctx.note(|| format!("lists {cond:?} {and:?} {then:?} inputs {}", describe_inputs(&inputs)));
    let line = build_line(inputs);
    let toks = observed_tokens(&line);
    let want: Vec<(Rg, ClauseKeyword)> = toks
        .iter()
        .enumerate()
        .filter_map(|(i, t)| Some(((i, i), keyword_of(&t.as_ref()?.0, cond, and, then)?)))
        .collect();
    set_phase(Phase::Observe);
    let line = line.run(&ClauseKeywordResolver::new(cond, and, then));
    let got = recorded::<ClauseKeyword>(&line);
    ensure!(got == want, "keywords {cond:?} {and:?} {then:?} in {:?}: {}", short(&text), first_diff(&got, &want));
    same!(observed_tokens(&line), toks, "tokens after resolving keywords");
    for (_, k) in &got {
        ctx.count(
            match k {
                ClauseKeyword::ConditionStart => "condition_starts",
                ClauseKeyword::Then => "thens",
                ClauseKeyword::And => "ands",
            },
            1,
        );
    }
    ctx.count("tokens", toks.len() as u64);
    if !got.is_empty() {
        ctx.nontrivial(mix(toks_sig(&toks), (cond.len() * 16 + and.len() * 4 + then.len()) as u64));
    }
    Ok(())
}

/// Independent reading of the clauses from tokens and the recorded keyword spans.
fn expected_clauses(toks: &Toks, kws: &[(Rg, ClauseKeyword)]) -> Vec<(Rg, Clause)> {
    let n = toks.len();
    let tag = |i: usize| toks[i].as_ref().map(|t| t.1.clone());
    let mut sep = vec![false; n];
    for ((a, b), _) in kws {
        for s in &mut sep[*a..=*b] {
            *s = true;
        }
    }
    for i in 0..n {
        if tag(i) == Some(TextTag::PUNC) {
            sep[i] = true;
        }
    }
    // runs, with the keyword that ends right before each
    let mut runs: Vec<(Rg, Option<ClauseKeyword>)> = vec![];
    let mut i = 0;
    while i < n {
        if sep[i] {
            i += 1;
            continue;
        }
        let s = i;
        while i < n && !sep[i] {
            i += 1;
        }
        let (mut a, mut b) = (s, i); // half open
        while a < b && tag(a) == Some(TextTag::SPACE) {
            a += 1;
        }
        while a < b && tag(b - 1) == Some(TextTag::SPACE) {
            b -= 1;
        }
        if a < b {
            let kw = kws.iter().find(|((_, e), _)| e + 1 == s).map(|k| k.1.clone());
            runs.push(((a, b - 1), kw));
        }
    }
    let alone = runs.len() == 1;
    let mut seen_condition = false;
    runs.into_iter()
        .map(|(rg, kw)| {
            let c = match kw {
                Some(ClauseKeyword::ConditionStart) => Clause::Condition,
                _ if alone => Clause::Independent,
                Some(ClauseKeyword::Then) => Clause::TrailingEffect,
                _ if seen_condition => Clause::TrailingEffect,
                _ => Clause::LeadingEffect,
            };
            seen_condition |= c == Clause::Condition;
            (rg, c)
        })
        .collect()
}

pub const C22_FIXED: u64 = 2 + SWEEP;

pub fn c22(ctx: &mut Ctx) -> Res {
    if let Some(chars) = swept(ctx, 2) {
        // every character between, before and after words
        let keywords = ClauseKeywordResolver::new(&["if"], &["and"], &["then"]);
        for c in chars {
            let line = create_line_from_string(format!("a{c}b {c} c if{c} then {c}")).run(&keywords);
            let (toks, kws) = (observed_tokens(&line), recorded::<ClauseKeyword>(&line));
            let got = recorded::<Clause>(&line.run(&ClauseResolver::default()));
            let want = expected_clauses(&toks, &kws);
            ensure!(got == want, "clauses in {toks:?}: {}", first_diff(&got, &want));
            ctx.count("characters_swept", 1);
        }
        return Ok(());
    }
    set_phase(Phase::Setup);
    let r = &mut ctx.rng;
    let (cond, and, then) = lists(r);
    let mut inputs;
    let mut supplied = 0;
    if ctx.idx == 0 {
        let t = "when it rains, then go home and sleep. ".repeat(120);
        inputs = vec![InputToken::text(t, vec![])];
    } else if ctx.idx == 1 {
        let t = "w ".repeat(32_700) + &"If it rains, then go home and sleep when Si et alors. ".repeat(60);
        inputs = vec![InputToken::text(t, vec![])];
    } else if r.chance(1, 4) {
        // keywords of several tokens, supplied with the input
        inputs = vec![];
        for _ in 0..r.range(1, 8) {
            if r.chance(1, 3) {
                let k = r.pick(&[ClauseKeyword::ConditionStart, ClauseKeyword::Then, ClauseKeyword::And]).clone();
                let t = *r.pick(&["as soon as", "in case", "as well as", "zzz", "so that,"]);
                if r.chance(1, 6) {
                    let mut t = InputToken::custom(1, vec![]);
                    t.add_attr(k);
                    inputs.push(t);
                } else {
                    let mut t = InputToken::text(t.to_string(), vec![]);
                    t.add_attr(k);
                    inputs.push(t);
                }
                supplied += 1;
            } else if r.chance(1, 6) {
                inputs.push(InputToken::custom(1, vec![]));
            } else {
                inputs.push(InputToken::text(gen::clause_text(r, cond, and, then), vec![]));
            }
        }
    } else {
        let text = gen::clause_text(r, cond, and, then);
        inputs = scatter(r, &text);
    }
    let inputs = retag(&mut ctx.rng, inputs, false);
    ctx.note(|| format!("lists {cond:?} {and:?} {then:?} inputs {}", describe_inputs(&inputs)));
    let line = build_line(inputs);
    let toks = observed_tokens(&line);
    let line = line.run(&ClauseKeywordResolver::new(cond, and, then));
    let kws = recorded::<ClauseKeyword>(&line);
    // which of several keywords ending at one token decides is not stated
    let mut ends = HashSet::new();
    if !kws.iter().all(|((_, e), _)| ends.insert(*e)) {
        ctx.count("ambiguous_skipped", 1);
        return Ok(());
    }
    let want = expected_clauses(&toks, &kws);
    set_phase(Phase::Observe);
    let line = line.run(&ClauseResolver::default());
    let got = recorded::<Clause>(&line);
    ensure!(
        got == want,
        "clauses with {cond:?} {and:?} {then:?} in {}: {}",
        short(&format!("{:?}", toks.iter().map(|t| t.as_ref().map(|t| t.0.as_str())).collect::<Vec<_>>())),
        first_diff(&got, &want)
    );
    same!(recorded::<ClauseKeyword>(&line), kws, "keywords after resolving clauses");
    for (_, c) in &got {
        ctx.count(
            match c {
                Clause::LeadingEffect => "leading_effects",
                Clause::TrailingEffect => "trailing_effects",
                Clause::Condition => "conditions",
                Clause::Independent => "independents",
            },
            1,
        );
    }
    ctx.count("supplied_keywords", supplied);
    ctx.max("clauses_in_a_line", got.len() as u64);
    if !got.is_empty() {
        ctx.nontrivial(mix(toks_sig(&toks), kws.len() as u64));
    }
    Ok(())
}

// ------------------------------------------------------------------ C23

/// The whole dictionary, from the data file of the dictionary's crate (none when it is not found).
fn dictionary() -> Vec<String> {
    let home = std::env::var("CARGO_HOME").or_else(|_| std::env::var("HOME").map(|h| format!("{h}/.cargo"))).unwrap_or_default();
    let mut v = vec![];
    let Ok(sources) = std::fs::read_dir(format!("{home}/registry/src")) else { return v };
    for s in sources.flatten() {
        let Ok(crates) = std::fs::read_dir(s.path()) else { continue };
        for c in crates.flatten() {
            if !c.file_name().to_string_lossy().starts_with("wiktionary-part-of-speech-extract-") {
                continue;
            }
            let Ok(bytes) = std::fs::read(c.path().join("dist/english-word-tags.fst")) else { continue };
            let Ok(map) = fst::Map::new(bytes) else { continue };
            if let Ok(words) = map.stream().into_str_keys() {
                v.extend(words);
            }
        }
    }
    v
}

/// Dictionary words: the dictionary, the vocabulary and every short word the dictionary knows.
pub fn known_words() -> &'static Vec<String> {
    static W: OnceLock<Vec<String>> = OnceLock::new();
    W.get_or_init(|| {
        let mut v: Vec<String> = gen::VOCAB.iter().map(|s| s.to_lowercase()).collect();
        let letters: Vec<char> = ('a'..='z').chain("éèàüöñ'-".chars()).collect();
        let mut stems: Vec<String> = vec![String::new()];
        for _ in 0..3 {
            let mut next = vec![];
            for s in &stems {
                for l in &letters {
                    let w = format!("{s}{l}");
                    if ENGLISH_TAG_LOOKUP.get(&w).is_some() {
                        v.push(w.clone());
                    }
                    next.push(w);
                }
            }
            stems = next;
        }
        for base in v.clone() {
            for suffix in ["s", "ed", "ing", "er", "ly", "ness", "'s", "-like"] {
                let w = format!("{base}{suffix}");
                if ENGLISH_TAG_LOOKUP.get(&w).is_some() {
                    v.push(w);
                }
            }
        }
        v.extend(dictionary());
        v.sort();
        v.dedup();
        v
    })
}

/// Words with long beginnings, or long ends, in common.
pub fn alike_words(r: &mut Rng) -> Vec<String> {
    static BACK: OnceLock<Vec<String>> = OnceLock::new();
    let words = if r.chance(2, 3) {
        known_words()
    } else {
        BACK.get_or_init(|| {
            let mut v = known_words().clone();
            v.sort_by(|a, b| a.bytes().rev().cmp(b.bytes().rev()));
            v
        })
    };
    let n = r.range(2, 8);
    let i = r.below(words.len().saturating_sub(n).max(1));
    words.iter().skip(i).take(n).cloned().collect()
}

fn tag_key(t: &Tag) -> String {
    format!("{t:?}")
}

pub fn c23(ctx: &mut Ctx) -> Res {
    set_phase(Phase::Setup);
    let words = known_words();
    let fixed = 1000;
    let text = if ctx.idx == fixed {
        // more tokens than 16 bits count
        let mut t = String::new();
        for i in 0..33_100 {
            t.push_str(if i % 100 < 95 && i < 32_000 { "2" } else { ctx.rng.pick(words) });
            t.push(' ');
        }
        t
    } else if ctx.idx < fixed {
        // every known word, spread over the fixed cases
        let mut t: Vec<String> = vec![];
        let mut i = ctx.idx as usize;
        while i < words.len() {
            t.push(words[i].clone());
            i += fixed as usize;
        }
        if t.is_empty() {
            t.push("x".into());
        }
        ctx.count("dictionary_words_swept", t.len() as u64);
        for w in &mut t {
            *w = gen::recase(&mut ctx.rng, w);
        }
        t.join(" ")
    } else {
        let r = &mut ctx.rng;
        let mut t = String::new();
        let top = if r.chance(1, 8) { 100 } else { 14 };
        for _ in 0..r.range(1, top) {
            match r.below(10) {
                0..=4 => {
                    let w = r.pick(words).clone();
                    t.push_str(&gen::recase(r, &w));
                }
                5 => {
                    // words that are alike, one after the other
                    let mut alike = alike_words(r);
                    r.shuffle(&mut alike);
                    let one_case = r.chance(1, 2);
                    for w in alike {
                        t.push_str(&if one_case { w } else { gen::recase(r, &w) });
                        t.push(' ');
                    }
                }
                6 => t.push_str(r.pick(CASED)),
                7 => t.push_str(&gen::digit_word(r)),
                8 => t.push_str(&gen::text(r, 3)),
                _ => t.push_str(r.pick(gen::SYMBOLS)),
            }
            t.push_str(r.pick(&[" ", " ", " ", ",", ".", "-", "\u{A0}", ""]));
        }
        if t.is_empty() {
            t.push('a');
        }
        t
    };
    let inputs = if let Some(chars) = swept(ctx, fixed + 1) {
        ctx.count("characters_swept", chars.len() as u64);
        one_each(&forms(&chars))
    } else if ctx.idx <= fixed { vec![InputToken::text(text, vec![])] } else { scatter(&mut ctx.rng, &text) };
    let inputs = retag(&mut ctx.rng, inputs, true);
    ctx.note(|| format!("inputs {}", describe_inputs(&inputs)));
    let line = build_line(inputs);
    let toks = observed_tokens(&line);
    let mut want: Vec<(Rg, String)> = vec![];
    let mut known = 0;
    let mut unknown = 0;
    for (i, t) in toks.iter().enumerate() {
        if let Some((t, TextTag::WORD)) = t {
            match ENGLISH_TAG_LOOKUP.get(&t.to_lowercase()) {
                Some(set) => {
                    known += 1;
                    for tag in set.tags() {
                        want.push(((i, i), tag_key(&tag)));
                    }
                }
                None => {
                    unknown += 1;
                    want.push(((i, i), tag_key(&Tag::Noun)));
                }
            }
        }
    }
    set_phase(Phase::Observe);
    let line = line.run(&POSTagResolver::default());
    let mut got: Vec<(Rg, String)> =
        line.query::<Tag>().into_iter().flat_map(|(rg, _, vs)| vs.into_iter().map(move |v| (rg, tag_key(v)))).collect();
    got.sort();
    want.sort();
    ensure!(got == want, "part-of-speech tags: {}", first_diff(&got, &want));
    same!(observed_tokens(&line), toks, "tokens after tagging");
    ctx.count("known_words", known);
    ctx.count("unknown_words", unknown);
    ctx.count("tags", got.len() as u64);
    ctx.count("other_tokens", toks.len() as u64 - known - unknown);
    if known + unknown > 0 {
        ctx.nontrivial(toks_sig(&toks));
    }
    Ok(())
}
pub const C23_FIXED: u64 = 1001 + SWEEP;
