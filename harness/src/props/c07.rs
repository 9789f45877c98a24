//! C07: editor positions translate to document offsets and back exactly.
use super::util::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use ink_lsp_server::translator::{from_lsp, to_lsp, PositionTranslationContext};
use line_index::LineIndex;
use lsp_types::{Position, PositionEncodingKind, Range};

pub static PROP: Prop = Prop {
    id: "C07",
    rule: "a case is a document x encoding (UTF-8, UTF-16, UTF-32), all its character boundaries and a set of arbitrary client positions and ranges; non-trivial: the document has at least two lines and a non-ASCII character",
    quick: 400000,
    thorough: 8000000,
    run,
    fixed: Some((fixed_n, fixed)),
    shrink_evals: 3000,
    assumptions: &["lines are separated by \\n or \\r\\n (a lone \\r is a known finding)"],
    threads: 8,
};
pub const ENCODINGS: usize = 3;
pub fn encoding(i: usize) -> PositionEncodingKind {
    [PositionEncodingKind::UTF16, PositionEncodingKind::UTF8, PositionEncodingKind::UTF32][i % 3].clone()
}
/// Length of a text in code units of the encoding.
pub fn units(enc: &PositionEncodingKind, t: &str) -> u32 {
    if *enc == PositionEncodingKind::UTF8 {
        t.len() as u32
    } else if *enc == PositionEncodingKind::UTF32 {
        t.chars().count() as u32
    } else {
        t.encode_utf16().count() as u32
    }
}
/// Reference: offset (a character boundary) to position.
pub fn ref_position(enc: &PositionEncodingKind, t: &str, o: usize) -> Position {
    let line = t[..o].matches('\n').count() as u32;
    let start = t[..o].rfind('\n').map(|i| i + 1).unwrap_or(0);
    Position::new(line, units(enc, &t[start..o]))
}
fn lines(t: &str) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut a = 0;
    for (i, c) in t.char_indices() {
        if c == '\n' {
            out.push((a, i));
            a = i + 1;
        }
    }
    out.push((a, t.len()));
    out
}
const CHARS: &[&str] = &["a", " ", "\n", "é", "€", "😀", "\r\n", "\t", "字", "e\u{301}", "👨‍👩‍👧", "\u{feff}", "𝒳", "#[ink(message)]", "0123456789abcdef", "\n\n", "ß", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}"];

fn document(s: &mut Src) -> String {
    if s.chance(1, 12) {
        let v5 = s.bool();
        let f = valid_file(s, v5, Opts::default());
        let st = Style::random(s);
        let mut t = render(&f, s, &st).text.replace('\r', "");
        let mut e = t.len().min(400);
        while !t.is_char_boundary(e) {
            e -= 1;
        }
        t.truncate(e);
        return t;
    }
    let n = s.below(30);
    (0..n).map(|_| *s.pick(CHARS)).collect()
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    let t = document(s);
    let enc = encoding(s.below(3));
    let mut evals = 0;
    let ctx = PositionTranslationContext { encoding: enc.clone(), line_index: LineIndex::new(&t) };
    set_current(&t);
    let f = |sig: &str, m: String| fail::<Info>(sig, format!("encoding {enc:?}: {m}"), t.clone());
    let bounds: Vec<usize> = t.char_indices().map(|(i, _)| i).chain(std::iter::once(t.len())).collect();
    for o in &bounds {
        let p = to_lsp::position(ts(*o), &ctx);
        let want = ref_position(&enc, &t, *o);
        evals += 1;
        if p != Some(want) {
            return f("offset to position", format!("offset {o} is {p:?}, expected {want:?}"));
        }
        let back = from_lsp::offset(want, &ctx).map(usize::from);
        if back != Some(*o) {
            return f("position to offset", format!("position {want:?} is {back:?}, expected {o}"));
        }
        if to_lsp::offset(ts(*o), &enc, &t) != units(&enc, &t[..*o]) {
            return f("label offset", format!("offset {o} is {}, expected {}", to_lsp::offset(ts(*o), &enc, &t), units(&enc, &t[..*o])));
        }
    }
    // Offsets that are no positions in the document.
    for k in 0..4 {
        let o = match k {
            0 => t.len() + 1,
            1 => t.len() + 1 + s.below(100),
            2 => u32::MAX as usize,
            _ => s.below(t.len() + 1),
        };
        evals += 1;
        if bounds.binary_search(&o).is_err() {
            if let Some(p) = to_lsp::position(ts(o), &ctx) {
                return f("position of a non-offset", format!("offset {o} is no character boundary of the document, but is translated to {p:?}"));
            }
        }
    }
    // Arbitrary client positions.
    let ls = lines(&t);
    let mut ps = vec![];
    for _ in 0..8 {
        let line = match s.below(8) {
            0 => ls.len() as u32,
            1 => *s.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 16]),
            _ => s.below(ls.len()) as u32,
        };
        let len = ls.get(line as usize).map(|l| units(&enc, &t[l.0..l.1])).unwrap_or(0);
        let ch = match s.below(6) {
            0 => len,
            1 => len + 1 + s.below(4) as u32,
            2 => *s.pick(&[u32::MAX, u32::MAX - 1, u32::MAX - 3, 1 << 31, 1 << 16]),
            _ => s.below(len as usize + 1) as u32,
        };
        ps.push(Position::new(line, ch));
    }
    let mut offs = vec![];
    for p in &ps {
        let got = from_lsp::offset(*p, &ctx).map(usize::from);
        evals += 1;
        offs.push(got);
        let Some(o) = got else {
            if let Some(l) = ls.get(p.line as usize) {
                if (l.0..=l.1).any(|o| t.is_char_boundary(o) && units(&enc, &t[l.0..o]) == p.character) {
                    return f("valid position rejected", format!("{p:?}"));
                }
            }
            continue;
        };
        if !t.is_char_boundary(o) {
            return f("not a character boundary", format!("position {p:?} is offset {o} of {}", t.len()));
        }
        match ls.get(p.line as usize) {
            Some(l) => {
                // Positions past the end of a line are its end (before or after a carriage return).
                if o < l.0 || o > l.1 {
                    return f("outside the line", format!("position {p:?} is offset {o}, but line is {}..{}", l.0, l.1));
                }
                let u = units(&enc, &t[l.0..o]);
                let llen = units(&enc, &t[l.0..l.1]);
                if p.character <= llen {
                    // Exact, or a neighbour when the position is inside of a character.
                    let exact = (l.0..=l.1).find(|o| t.is_char_boundary(*o) && units(&enc, &t[l.0..*o]) == p.character);
                    match exact {
                        Some(e) if e != o => return f("position to offset", format!("position {p:?} is {o}, expected {e}")),
                        None if u.abs_diff(p.character) > 3 => return f("position inside a character", format!("position {p:?} is {o}")),
                        _ => (),
                    }
                } else if o + (t[..l.1].ends_with('\r') as usize) < l.1 {
                    return f("past the end of the line", format!("position {p:?} is {o}, but the line ends at {}", l.1));
                }
            }
            None => {
                if o != t.len() {
                    return f("past the end of the document", format!("position {p:?} is {o}"));
                }
            }
        }
    }
    // Ranges.
    for (i, j) in [(0usize, 1usize), (2, 3), (4, 5), (6, 7), (1, 0)] {
        let got = from_lsp::text_range(Range::new(ps[i], ps[j]), &ctx).map(r);
        evals += 1;
        let want = match (offs[i], offs[j]) {
            (Some(a), Some(b)) if a <= b => Some((a, b)),
            _ => None,
        };
        if got != want && got.is_some() {
            return f("range", format!("{:?}..{:?} is {got:?}, expected {want:?}", ps[i], ps[j]));
        }
        if want.is_some() && got.is_none() {
            return f("range rejected", format!("{:?}..{:?} is {got:?}, expected {want:?}", ps[i], ps[j]));
        }
        if let Some((a, b)) = want {
            let back = to_lsp::range(tr(a, b), &ctx);
            let w = Range::new(ref_position(&enc, &t, a), ref_position(&enc, &t, b));
            if back != Some(w) {
                return f("offset range to position range", format!("{a}..{b} is {back:?}, expected {w:?}"));
            }
        }
    }
    let wide = !t.is_ascii();
    Ok(Info {
        nontrivial: wide && ls.len() > 1,
        key: fnv(format!("{enc:?}{t}{ps:?}").as_bytes()),
        labels: vec![format!("{}", enc.as_str()), if wide { "wide".into() } else { "ascii".into() }, if t.contains("\r\n") { "crlf".into() } else { "lf".into() }],
        sample: format!("{enc:?} {t:?} {:?}", ps.iter().map(|p| (p.line, p.character)).collect::<Vec<_>>()),
        evals,
    })
}
fn fixed_n() -> usize {
    4
}
/// Positions on a very long line, and on many lines.
fn long(k: usize) -> Result<Info, Fail> {
    let enc = encoding(k);
    let line: String = "é😀b".repeat(23_000);
    let t = format!("{}{line}\r\n{line}", "\n".repeat(70_000));
    let ctx = PositionTranslationContext { encoding: enc.clone(), line_index: LineIndex::new(&t) };
    let mut evals = 0;
    for (n, start) in [(70_000u32, 70_000usize), (70_001, 70_000 + line.len() + 2)] {
        for i in (0..=line.len()).filter(|i| line.is_char_boundary(*i)).step_by(997).chain([line.len()]) {
            let want = Position::new(n, units(&enc, &line[..i]));
            evals += 1;
            let (p, o) = (to_lsp::position(ts(start + i), &ctx), from_lsp::offset(want, &ctx));
            if p != Some(want) || o != Some(ts(start + i)) {
                return fail("long line", format!("encoding {enc:?}: offset {} is {p:?}, expected {want:?}, which is {o:?}", start + i), "70000 empty lines, then two lines of 23000 x `é😀b`");
            }
        }
    }
    Ok(Info { nontrivial: true, key: 2 + k as u64, labels: vec!["long lines".into()], sample: "70000 empty lines, then two lines of 23000 x `é😀b`".into(), evals })
}
/// A lone carriage return ends a line in the protocol.
fn fixed(i: usize) -> Result<Info, Fail> {
    if i > 0 {
        return long(i - 1);
    }
    let t = "a\rb";
    let ctx = PositionTranslationContext { encoding: PositionEncodingKind::UTF16, line_index: LineIndex::new(t) };
    set_current(t);
    let p = to_lsp::position(ts(2), &ctx);
    if p != Some(Position::new(1, 0)) {
        return fail("lone carriage return", format!("offset 2 is {p:?}, expected line 1 column 0"), t);
    }
    Ok(Info { nontrivial: false, key: 1, labels: vec!["lone-cr".into()], sample: t.into(), evals: 1 })
}
