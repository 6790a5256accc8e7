//! Hostile and realistic text workloads.

use crate::rng::Rng;

pub const VOCAB: &[&str] = &[
    "open", "the", "umbrella", "if", "it", "is", "raining", "then", "and", "when", "close", "garage", "door", "go",
    "home", "run", "don't", "should've", "peoples'", "baseball-card", "a", "I", "Paris", "glass", "step", "on",
    "broken", "message", "Slack", "Algolia", "search", "query", "table", "million", "bucks", "owe", "me", "dollars",
    "well", "fast", "blue", "of", "in", "she", "they", "harbor", "set", "light", "si", "et", "alors", "fatigué",
    "coucher", "naïve", "Straße", "ÉCOLE", "xyzzyq", "qwrtpsdf", "tablesaw", "unless", "because", "is", "not", "no",
    "café", "ΣΑΣ", "İstanbul", "мир", "世界", "こんにちは", "カタカナ", "안녕", "שלום", "مرحبا", "नमस्ते", "ไทย",
    "e.g", "example.com", "name@example.com", "U.S.A", "o'clock", "rock'n'roll", "l’eau", "x–y", "en–dash", "a_b", "_", "__",
    "abc123", "a1", "ﬁne", "ß", "K", "ſ", "ǅ", "e\u{301}", "co\u{AD}op",
];

pub const SPACES: &[&str] = &[
    " ", " ", " ", " ", " ", "  ", "   ", "\t", "\t\t", "\n", "\n\n\n", "\r\n", "\r", "\u{A0}", "\u{3000}", "\u{2009}", "\u{2003}\u{2003}",
    "\u{85}", "\u{2028}", "\u{1680}", "\u{205F}", " \t ", "\u{B}", "\u{C}", "\u{202F}", "\u{2007}",
];

pub const PUNCT: &[&str] = &[",", ".", "!", ";", ":", "?", "'", "\""];

pub const SYMBOLS: &[&str] = &[
    "$", "€", "£", "%", "#", "@", "(", ")", "-", "_", "–", "—", "/", "\\", "*", "&", "+", "=", "<", ">", "[", "]", "{", "}",
    "|", "~", "^", "`", "°", "©", "…", "‘", "’", "“", "”", "«", "»", "·", "،", "؛", "٫", "٬", "。", "、", "，", "．", "！", "？",
    "\u{37E}", "\u{2024}", "\u{FE52}", "\u{203F}", "\u{2040}", "\u{FF3F}", "½", "²", "№", "Ⅷ", "¼",
];

pub const SPECIAL: &[&str] = &[
    "😀", "🦶🏽", "👨‍👩‍👧‍👦", "🇫🇷", "🇫🇷🇩🇪", "🇫", "5️⃣", "#️⃣", "❤️", "❤", "☺︎", "⌚︎", "\u{200D}", "\u{200B}", "\u{FEFF}", "\u{AD}",
    "\u{301}", "\u{20E3}", "\u{FE0F}", "\u{FE0E}", "\u{338}", "لا", "ل\u{627}", "각", "ᄀ\u{1161}\u{11A8}", "क\u{94D}ष", "\u{0}", "\u{7F}", "\u{1B}",
    "\u{202E}", "\u{2066}", "\u{FFFD}", "\u{FFFF}", "\u{10FFFF}", "\u{E0001}", "\u{1F3FB}", "１２", "٣", "۳", "८", "𝟙", "𝐀", "ⅳ", "٠.٥",
    "\u{D7FF}", "\u{E000}", "a\u{308}", "ñ", "n\u{303}", "Ǆ", "ﷺ", "\u{3099}", "か\u{3099}", "가나", "ｶﾞ", "〆", "々", "\u{200C}", "\u{180E}", "\u{115F}", "\u{1160}",
];

/// Characters that Unicode word rules may glue after an ASCII digit.
pub const DIGIT_GLUE: &[&str] = &[
    "a", "Z", "é", "ß", "_", "\u{203F}", "\u{301}", "\u{FE0F}", "\u{20E3}", "\u{200D}", "\u{AD}", "\u{200C}", "٣", "८", "１", "א", "α", "я", "st", "nd", "km", "GB",
    "e5", "x", "º", "ª", "ℓ", "ⓐ", "ʰ", "\u{2060}", "\u{FEFF}", "𝟘", "\u{E0100}",
];
/// Characters that may sit inside a number word.
pub const MID: &[&str] = &[",", ".", ";", "'", "’", "٬", "٫", "\u{37E}", "\u{2024}", "\u{FE10}", "\u{FE14}", "_", ":", "·", "\u{387}", "\u{5F4}", "‘", "．", "，", "＇", "\u{FE52}", "\u{2044}"];

pub fn random_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(14) {
            0 => r.range(0, 0x7F),
            1 => r.range(0x20, 0x7E),
            2 => r.range(0x80, 0x24F),
            3 => r.range(0x2B0, 0x36F),
            4 => r.range(0x370, 0x52F),
            5 => r.range(0x590, 0x6FF),
            6 => r.range(0x900, 0xDFF),
            7 => r.range(0x1100, 0x11FF),
            8 => r.range(0x2000, 0x206F),
            9 => r.range(0x20A0, 0x2BFF),
            10 => r.range(0x3000, 0x30FF),
            11 => r.range(0x1F1E6, 0x1FAFF),
            12 => r.range(0xFE00, 0xFFFF),
            _ => r.range(0, 0x10FFFF),
        };
        if let Some(c) = char::from_u32(c as u32) {
            return c;
        }
    }
}

pub fn recase(r: &mut Rng, s: &str) -> String {
    match r.below(5) {
        0 | 1 => s.to_string(),
        2 => s.to_uppercase(),
        3 => {
            let mut cs = s.chars();
            match cs.next() {
                Some(c) => c.to_uppercase().chain(cs).collect(),
                None => String::new(),
            }
        }
        _ => s
            .chars()
            .map(|c| {
                if r.chance(1, 2) {
                    c.to_uppercase().next().unwrap()
                } else {
                    c
                }
            })
            .collect(),
    }
}

/// A word: of the vocabulary, or made up (any length, several scripts, apostrophes and marks inside).
pub fn word(r: &mut Rng) -> String {
    if r.chance(3, 4) {
        return r.pick(VOCAB).to_string();
    }
    const ALPHABETS: &[&str] = &[
        "abcdefghijklmnopqrstuvwxyz", "etaoinshrdlu", "ETAOIN", "éèàüößçñ", "абвгдеж", "αβγσς", "אבגד", "あいう", "日本語", "ab\u{301}\u{308}",
    ];
    let n = match r.below(40) {
        0 => r.range(30, 300),
        1..=5 => r.range(10, 30),
        _ => r.range(1, 10),
    };
    let alphabet: Vec<char> = r.pick(ALPHABETS).chars().collect();
    let mut s = String::new();
    for i in 0..n {
        s.push(*r.pick(&alphabet));
        if i + 1 < n && r.chance(1, 16) {
            s.push_str(r.pick(&["'", "’", "-", "_", ".", ":", "\u{AD}", "1", "é"]));
        }
    }
    if r.chance(1, 30) {
        s.push('\'');
    }
    s
}

pub fn digits(r: &mut Rng) -> String {
    let n = match r.below(20) {
        0..=12 => r.range(1, 4),
        13..=17 => r.range(1, 9),
        18 => r.range(10, 32),
        _ => r.range(20, 60),
    };
    (0..n)
        .map(|_| (b'0' + if r.chance(1, 4) { 0 } else { r.below(10) as u8 }) as char)
        .collect()
}

/// A number-like fragment with separators, possibly malformed.
pub fn numeral(r: &mut Rng, seps: &[&str]) -> String {
    let mut s = String::new();
    if r.chance(1, 10) {
        s.push_str(r.pick(seps));
    }
    if r.chance(1, 25) {
        // many small groups
        let few = r.pick(seps);
        for _ in 0..r.range(5, 33) {
            s.push((b'0' + r.below(10) as u8) as char);
            s.push_str(if r.chance(1, 30) { r.pick(seps) } else { few });
        }
    }
    s.push_str(&digits(r));
    let k = match r.below(10) {
        0..=3 => 0,
        4..=7 => r.range(1, 3),
        _ => r.range(2, 8),
    };
    for _ in 0..k {
        s.push_str(r.pick(seps));
        if r.chance(1, 12) {
            s.push_str(r.pick(seps));
        }
        s.push_str(&digits(r));
    }
    if r.chance(1, 4) {
        s.push_str(r.pick(seps));
    }
    s
}

pub fn digit_word(r: &mut Rng) -> String {
    let mut s = digits(r);
    for _ in 0..r.range(1, 5) {
        match r.below(4) {
            0 => s.push_str(r.pick(DIGIT_GLUE)),
            1 => {
                s.push_str(r.pick(MID));
                if r.chance(3, 4) {
                    s.push_str(&digits(r));
                }
            }
            2 => s.push_str(&digits(r)),
            _ => s.push(random_char(r)),
        }
    }
    s
}

fn fragment(r: &mut Rng, style: usize) -> String {
    // weights: word, number, space, punct, symbol, special, digit word, random char
    let ws: &[usize] = match style {
        0 => &[40, 6, 40, 10, 2, 1, 1, 0], // prose
        1 => &[8, 40, 25, 20, 5, 0, 4, 0], // numbers
        2 => &[10, 5, 15, 8, 10, 25, 10, 20], // unicode soup
        3 => &[2, 5, 3, 3, 3, 4, 40, 10],  // digit words
        4 => &[1, 1, 1, 1, 1, 5, 1, 60],   // random characters
        _ => &[10, 10, 10, 10, 10, 10, 10, 10],
    };
    match r.weighted(ws) {
        0 => {
            let w = word(r);
            recase(r, &w)
        }
        1 => numeral(r, &[",", ".", "'", " ", "_", ";", ",", "."]),
        2 => r.pick(SPACES).to_string(),
        3 => r.pick(PUNCT).to_string(),
        4 => r.pick(SYMBOLS).to_string(),
        5 => r.pick(SPECIAL).to_string(),
        6 => digit_word(r),
        _ => random_char(r).to_string(),
    }
}

/// A non-empty text of up to about `max` fragments.
pub fn text(r: &mut Rng, max: usize) -> String {
    let style = r.weighted(&[30, 15, 25, 12, 8, 10]);
    let n = r.range(1, max.max(1));
    let mut s = String::new();
    let mut last_word = false;
    for _ in 0..n {
        let f = fragment(r, style);
        // prose: keep words apart most of the time
        if style == 0 && last_word && f.chars().next().map_or(false, char::is_alphabetic) {
            s.push_str(r.pick(SPACES));
        }
        last_word = f.chars().last().map_or(false, char::is_alphabetic);
        s.push_str(&f);
    }
    if s.is_empty() {
        s.push('x');
    }
    s
}

pub fn sized(r: &mut Rng) -> usize {
    match r.below(100) {
        0..=49 => 4,
        50..=84 => 12,
        85..=96 => 40,
        97..=98 => 120,
        _ => 400,
    }
}

/// A sentence with clause keywords, punctuation and varied whitespace.
pub fn clause_text(r: &mut Rng, cond: &[&str], and: &[&str], then: &[&str]) -> String {
    let top = if r.chance(1, 10) { 60 } else { 14 };
    let n = r.range(1, top);
    let mut s = String::new();
    for _ in 0..n {
        match r.weighted(&[30, 8, 6, 6, 8, 22, 6, 2, 2]) {
            0 => {
                let w = word(r);
                s.push_str(&recase(r, &w));
            }
            1 => {
                let w = if cond.is_empty() { "if" } else { *r.pick(cond) };
                s.push_str(&recase(r, w));
            }
            2 => {
                let w = if and.is_empty() { "and" } else { *r.pick(and) };
                s.push_str(&recase(r, w));
            }
            3 => {
                let w = if then.is_empty() { "then" } else { *r.pick(then) };
                s.push_str(&recase(r, w));
            }
            4 => s.push_str(r.pick(PUNCT)),
            5 => s.push_str(r.pick(SPACES)),
            6 => s.push_str(&numeral(r, &[",", ".", " "])),
            7 => s.push_str(r.pick(SPECIAL)),
            _ => s.push_str(r.pick(SYMBOLS)),
        }
        if r.chance(4, 5) {
            s.push_str(if r.chance(9, 10) { " " } else { r.pick(SPACES) });
        }
    }
    if s.is_empty() {
        s.push('x');
    }
    s
}
