//! C05: rule violations are reported at the culprit; C03: quickfixes remove what they promise to fix.
use super::util::*;
use crate::core::*;
use crate::gen::*;
use crate::inject::*;
use crate::model::*;

pub static PROP: Prop = Prop {
    id: "C05",
    rule: "a case is a valid file (v4 or v5, random layout) into which one or two rule violations from a table are injected; non-trivial: an injection applied",
    quick: 12000,
    thorough: 150000,
    run,
    fixed: Some((n_fixed, fixed)),
    shrink_evals: 2500,
    assumptions: &["the expected message is recognised by a keyword of the broken rule, the place by the span of the offending code"],
    threads: 8,
};
pub static PROP3: Prop = Prop {
    id: "C03",
    rule: "a case is a file with one or two injected rule violations; every quickfix of every diagnostic is applied and the result re-analysed; non-trivial: at least one quickfix was applied",
    quick: 4000,
    thorough: 60000,
    run: run3,
    fixed: Some((n_fixed, fixed3)),
    shrink_evals: 1200,
    assumptions: &[],
    threads: 8,
};

pub struct Case {
    pub v5: bool,
    pub f: File,
    pub exps: Vec<Exp>,
    pub doc: Doc,
}
/// `which`: force one injection of the table.
pub fn gen(s: &mut Src, which: Option<usize>, many: bool) -> Option<Case> {
    let v5 = s.bool();
    let mut g = G::new(s, v5, Opts::default());
    g.file();
    let mut exps = vec![];
    match which {
        Some(k) => {
            let t = table();
            let one = &t[k..k + 1];
            exps.push(inject(&mut g, one)?);
        }
        None => {
            // Up to three local violations elsewhere, which must not hide the last one.
            let n = if many && g.s.chance(1, 3) { g.s.range(1, 3) } else { 0 };
            if n > 0 {
                let local: Vec<Inj> = table().into_iter().filter(|t| LOCAL.contains(&t.0)).collect();
                for _ in 0..n {
                    exps.extend(inject(&mut g, &local));
                }
            }
            exps.push(inject(&mut g, &table())?);
        }
    }
    let f = g.f;
    if exps.is_empty() {
        return None;
    }
    let style = Style::random(s);
    let doc = render(&f, s, &style);
    Some(Case { v5, f, exps, doc })
}
fn touches(a: (usize, usize), b: (usize, usize)) -> bool {
    a.0 <= b.1 && b.0 <= a.1
}
pub fn check(c: &Case) -> Result<Info, Fail> {
    let text = &c.doc.text;
    if let Some(e) = parse_errors(text).first() {
        // Some violations are not accepted by the Rust parser either; these prove nothing.
        if c.exps.len() == 1 && c.exps[0].name != "pub callable in a trait impl" {
            return fail(format!("generator: unparsable after `{}`", c.exps[0].name), e.clone(), text.clone());
        }
    }
    let ds = analyze(text, c.v5).diagnostics();
    let e = c.exps.last().unwrap();
    let spans: Vec<(usize, usize)> = e.spans.iter().filter_map(|(i, sp)| c.doc.sp(*i, *sp)).collect();
    let by_msg: Vec<_> = ds.iter().filter(|d| e.needles.is_empty() || e.needles.iter().any(|n| d.message.to_lowercase().contains(n))).collect();
    if by_msg.is_empty() {
        return fail(format!("not reported: {}", e.name), format!("v5={} injected `{}`; reported:\n{}", c.v5, e.name, show_diags(text, &ds)), text.clone());
    }
    if !by_msg.iter().any(|d| spans.iter().any(|sp| touches(r(d.range), *sp))) {
        return fail(
            format!("reported elsewhere: {}", e.name),
            format!("v5={} injected `{}` at {:?}; reported:\n{}", c.v5, e.name, spans.iter().map(|s| c.doc.slice(*s)).collect::<Vec<_>>(), show_diags(text, &ds)),
            text.clone(),
        );
    }
    Ok(Info { nontrivial: true, key: fnv(text.as_bytes()), labels: vec![format!("inj:{}", e.name), format!("v5={}", c.v5)], sample: format!("// {}\n{}", e.name, clip(text)), evals: 1 })
}
fn none() -> Info {
    Info { nontrivial: false, key: 0, labels: vec!["no injection".into()], sample: String::new(), evals: 1 }
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    match gen(s, None, true) {
        Some(c) => check(&c),
        None => Ok(none()),
    }
}
const PER: usize = 12;
fn n_fixed() -> usize {
    table().len() * PER
}
/// Every entry of the table is exercised, whatever the seed of the random search.
fn fixed(i: usize) -> Result<Info, Fail> {
    let k = i / PER;
    for a in 0..12u64 {
        let mut s = Src::random((i as u64) << 8 | a | 0xC05_0000_0000);
        if let Some(c) = gen(&mut s, Some(k), false) {
            return check(&c);
        }
    }
    Ok(none())
}
/// Maps a range through a set of disjoint edits (insertions at the borders are included).
fn map_range(rg: (usize, usize), edits: &[ink_analyzer::TextEdit]) -> (usize, usize) {
    let mut es: Vec<((usize, usize), usize)> = edits.iter().map(|e| (r(e.range), e.text.len())).collect();
    es.sort();
    let at = |p: usize, end: bool| {
        let mut d = 0isize;
        for ((a, b), n) in &es {
            if *b < p || (*b == p && (end || *a < *b)) {
                d += *n as isize - (*b - *a) as isize;
            } else if *a < p {
                // Inside a replaced range.
                return ((*a as isize + d) as usize, *n);
            }
        }
        ((p as isize + d) as usize, 0)
    };
    let s = at(rg.0, false);
    let e = at(rg.1, true);
    (s.0, e.0 + e.1)
}
/// Ranges of the text that the edits put in.
fn inserted(edits: &[ink_analyzer::TextEdit]) -> Vec<(usize, usize)> {
    let mut es: Vec<((usize, usize), usize)> = edits.iter().map(|e| (r(e.range), e.text.len())).collect();
    es.sort();
    let mut d = 0isize;
    let mut out = vec![];
    for ((a, b), n) in es {
        let s = (a as isize + d) as usize;
        if n > 0 {
            out.push((s, s + n));
        }
        d += n as isize - (b - a) as isize;
    }
    out
}
/// Findings that the existing unit tests pin (see known_findings.json).
fn pinned(text: &str, d: &ink_analyzer::Diagnostic, q: &ink_analyzer::Action) -> Option<&'static str> {
    let one = if q.edits.len() == 1 { &q.edits[0] } else { return None };
    if q.label == "Remove function body." && one.text.trim().is_empty() && one.range.start() == d.range.start() {
        return Some("quickfix `Remove function body.` deletes the body without leaving a `;`");
    }
    if q.label.ends_with("self reference receiver") && one.range.is_empty() && one.text.trim_end().trim_end_matches(',').ends_with("self") {
        let rest: String = text[usize::from(one.range.start())..].to_string();
        let first = lex(&rest).into_iter().find(|t| !t.starts_with("/*") && t != "mut");
        if strip_comments(&rest).trim_start().starts_with("self") || strip_comments(&rest).trim_start().starts_with("mut") || first.as_deref() == Some("self") {
            return Some("quickfix `Add .. self reference receiver` keeps an existing by-value `self` receiver");
        }
    }
    None
}
fn strip_comments(s: &str) -> String {
    let mut t = s.trim_start();
    loop {
        if t.starts_with("//") {
            t = t.split_once('\n').map(|x| x.1).unwrap_or("").trim_start();
        } else if t.starts_with("/*") {
            t = t.split_once("*/").map(|x| x.1).unwrap_or("").trim_start();
        } else {
            return t.to_string();
        }
    }
}
/// A label without the whitespace and comments of the code it quotes.
fn bare(label: &str) -> String {
    let mut out = String::new();
    let mut t = label;
    while let Some(c) = t.chars().next() {
        if let Some(x) = t.strip_prefix("/*") {
            t = x.split_once("*/").map_or("", |x| x.1);
        } else if let Some(x) = t.strip_prefix("//") {
            t = x.split_once('\n').map_or("", |x| x.1);
        } else {
            if !c.is_whitespace() {
                out.push(c);
            }
            t = &t[c.len_utf8()..];
        }
    }
    out
}
/// What a message complains about, without the code it quotes.
fn problem(m: &str) -> String {
    match m.split_once("__ink_:") {
        Some((a, _)) => format!("{a}__ink_"),
        None => msg_kind(m),
    }
}
fn check3(c: &Case) -> Result<Info, Fail> {
    let text = &c.doc.text;
    let ds = analyze(text, c.v5).diagnostics();
    let parsed = !has_parse_error(text);
    let mut n = 0;
    let mut labels = vec![];
    let mut known: Option<Fail> = None;
    for d in &ds {
        for q in d.quickfixes.iter().flatten() {
            n += 1;
            labels.push(format!("fix:{}", msg_kind(&q.label)));
            if let Err(f) = check_fix(c, text, parsed, &ds, d, q) {
                match pinned(text, d, q) {
                    Some(k) if f.sig.starts_with("quickfix breaks the syntax") => known = Some(Fail { sig: k.into(), ..f }),
                    _ if f.sig.starts_with("quickfix introduces") && c.v5 && q.edits.len() == 1 && q.edits[0].text.trim_start().starts_with("extension = ") && c.exps[0].name.starts_with("complementary argument alone on an extension function") => {
                        known = Some(Fail { sig: "quickfix for a lone `handle_status` adds the deprecated `extension` in ink! v5".into(), ..f })
                    }
                    _ => return Err(f),
                }
            }
        }
    }
    if let Some(f) = known {
        return Err(f);
    }
    labels.sort();
    labels.dedup();
    Ok(Info { nontrivial: n > 0, key: fnv(text.as_bytes()), labels, sample: format!("// {}\n{}", c.exps[0].name, clip(text)), evals: n.max(1) })
}
fn check_fix(c: &Case, text: &str, parsed: bool, ds: &[ink_analyzer::Diagnostic], d: &ink_analyzer::Diagnostic, q: &ink_analyzer::Action) -> Result<(), Fail> {
    let ctx = || format!("v5={}\ndiagnostic: {}\nquickfix: {} {:?}", c.v5, show_diag(text, d), q.label, q.edits);
    let mut cur = text.to_string();
    let mut cur_ds = ds.to_vec();
    let mut cur_d = d.clone();
    let mut cur_q = q.clone();
    // The same argument or attribute can be repeated, then the fix is offered for each occurrence in turn.
    for _ in 0..6 {
        let Some(t2) = apply(&cur, &cur_q.edits) else {
            return fail(format!("quickfix not applicable: {}", msg_kind(&q.label)), ctx(), text);
        };
        let again = || format!("{}\n--- result\n{}", ctx(), t2);
        if parsed {
            if let Some(e) = parse_errors(&t2).first() {
                return fail(format!("quickfix breaks the syntax: {}", msg_kind(&q.label)), format!("{e}\n{}", again()), text);
            }
        }
        // A bare tab stop asks the user for a value; nothing can be said before it is filled in.
        if cur_q.edits.iter().any(|e| e.snippet.as_deref().is_some_and(|s| s.contains("$1") || s.contains("${1}"))) {
            return Ok(());
        }
        let ds2 = analyze(&t2, c.v5).diagnostics();
        let kind = problem(&d.message);
        if let Some(x) = ds2.iter().find(|x| {
            let rx = r(x.range);
            c.exps.len() == 1 && ["Unknown", "deprecated", "conflict"].iter().any(|w| x.message.contains(w)) && problem(&x.message) != kind && cur_ds.iter().all(|y| problem(&y.message) != problem(&x.message)) && inserted(&cur_q.edits).iter().any(|i| rx.0 < i.1 && i.0 < rx.1)
        }) {
            return fail(format!("quickfix introduces: {} | {} -> {}", msg_kind(&d.message), msg_kind(&q.label), msg_kind(&x.message)), format!("{}\n--- reported after\n{}", again(), show_diags(&t2, &ds2)), text);
        }
        let same: Vec<_> = ds2.iter().filter(|x| problem(&x.message) == kind).collect();
        if same.len() < cur_ds.iter().filter(|x| problem(&x.message) == kind).count() {
            return Ok(());
        }
        let m = map_range(r(cur_d.range), &cur_q.edits);
        let ins = inserted(&cur_q.edits);
        let hit = |x: (usize, usize)| x == m || (x.0 < m.1 && m.0 < x.1) || (m.0 == m.1 && x.0 < m.0 && m.0 < x.1) || ins.iter().any(|i| x.0 < i.1 && i.0 < x.1);
        let Some(nd) = same.iter().find(|x| hit(r(x.range))) else {
            // Only other code is still reported.
            return Ok(());
        };
        let next = nd.quickfixes.iter().flatten().find(|x| bare(&x.label) == bare(&q.label)).cloned();
        let Some(nq) = next else {
            return fail(
                format!("quickfix does not fix: {} | {}", msg_kind(&d.message), msg_kind(&q.label)),
                format!("{}\n--- reported after\n{}", again(), show_diags(&t2, &ds2)),
                text,
            );
        };
        cur_d = (*nd).clone();
        cur_q = nq;
        cur_ds = ds2;
        cur = t2;
    }
    fail(
        format!("quickfix never fixes: {} | {}", msg_kind(&d.message), msg_kind(&q.label)),
        format!("{}\n--- reported after six rounds\n{}", ctx(), show_diags(&cur, &cur_ds)),
        text,
    )
}
fn run3(s: &mut Src) -> Result<Info, Fail> {
    match gen(s, None, true) {
        Some(c) => check3(&c),
        None => Ok(none()),
    }
}
fn fixed3(i: usize) -> Result<Info, Fail> {
    let k = i / PER;
    for a in 0..12u64 {
        let mut s = Src::random((i as u64) << 8 | a | 0xC03_0000_0000);
        if let Some(c) = gen(&mut s, Some(k), false) {
            return check3(&c);
        }
    }
    Ok(none())
}
