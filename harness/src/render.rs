//! Independent rendering of a line, for C07 and C17.

use crate::model::*;
use crate::with_ty;
use unicode_width::UnicodeWidthStr;

pub fn debug_text(ty: Ty, v: Mv) -> String {
    with_ty!(ty, T => format!("{:?}", <T as Val>::of(v)))
}

/// (first column, column after the last) of every token and the text line.
/// `None` if display width is not additive on this text, so that columns are not well defined.
pub fn columns(toks: &[Option<String>]) -> Option<(Vec<(usize, usize)>, String)> {
    let mut line = String::new();
    let mut cols = vec![];
    let mut col = 0;
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            line.push_str("  ");
            col += 2;
        }
        let s = t.as_deref().unwrap_or("<>");
        line.push_str(s);
        let w = UnicodeWidthStr::width(s);
        cols.push((col, col + w));
        col += w;
        if UnicodeWidthStr::width(line.as_str()) != col {
            return None;
        }
    }
    Some((cols, line))
}

pub fn bar(start: usize, end: usize, debug: &str) -> String {
    let w = end - start;
    let mut s = " ".repeat(start);
    s.push('╰');
    if w > 1 {
        s.push_str(&"─".repeat(w - 2));
        s.push('╯');
    }
    s.push_str(debug);
    s
}

pub fn render(m: &MLine, includes: &[Ty]) -> Option<String> {
    let toks: Vec<Option<String>> = m.toks.iter().map(|t| t.text.clone()).collect();
    let (cols, mut out) = columns(&toks)?;
    for ty in includes {
        for ((a, b), vs) in m.spans(*ty) {
            for v in vs.iter().rev() {
                out.push('\n');
                out.push_str(&bar(cols[*a].0, cols[*b].1, &debug_text(*ty, *v)));
            }
        }
    }
    Some(out)
}
