//! C01: no crash, no hang; C02: ranges in bounds, edits disjoint.
use super::util::*;
use crate::core::*;
use crate::fuzz::*;
use ink_analyzer::{Action, Completion, Hover, InlayHint, SignatureHelp, TextEdit, TextRange};

pub static PROP: Prop = Prop {
    id: "C01",
    rule: "a case is a generated document (mutated valid file, token soup, special shape, splice, deep nesting) on which every analysis feature runs at sampled offsets and ranges for both versions; non-trivial: the document mentions ink",
    quick: 9000,
    thorough: 150000,
    run: run1,
    fixed: Some((n_fixed, fixed1)),
    shrink_evals: 1500,
    assumptions: &["nesting depth is bounded by 60 and document size by 20 kB; a hang is more than 60 s of CPU time on one document"],
    threads: 8,
};
pub static PROP2: Prop = Prop {
    id: "C02",
    rule: "as C01; every range and edit list in every result is checked for bounds, character boundaries, order and disjointness; non-trivial: at least one range was checked",
    quick: 9000,
    thorough: 150000,
    run: run2,
    fixed: None,
    shrink_evals: 1500,
    assumptions: &["edits that insert at the same offset are ordered by their position in the list and do not overlap"],
    threads: 8,
};

pub struct Res {
    pub ranges: Vec<(&'static str, TextRange)>,
    pub edits: Vec<(String, Vec<TextEdit>)>,
}
fn push_actions(out: &mut Res, what: &'static str, xs: Vec<Action>) {
    for a in xs {
        out.ranges.push((what, a.range));
        out.edits.push((format!("{what}: {}", msg_kind(&a.label)), a.edits));
    }
}
/// Runs every feature and collects all ranges and edits.
pub fn exercise(s: &mut Src, text: &str, v5: bool, n: usize) -> Res {
    let a = analyze(text, v5);
    let mut out = Res { ranges: vec![], edits: vec![] };
    for d in a.diagnostics() {
        out.ranges.push(("diagnostic", d.range));
        for q in d.quickfixes.into_iter().flatten() {
            out.ranges.push(("quickfix", q.range));
            out.edits.push((format!("quickfix: {}", msg_kind(&q.label)), q.edits));
        }
    }
    let os = offsets(s, text, n);
    for (i, o) in os.iter().enumerate() {
        let cs: Vec<Completion> = a.completions(ts(*o));
        for c in cs {
            out.ranges.push(("completion", c.range));
            out.edits.push(("completion".into(), vec![c.edit]));
        }
        let o2 = os[(i + 1) % os.len()];
        let range = if i % 2 == 0 { tr(*o, *o) } else { tr((*o).min(o2), (*o).max(o2)) };
        // Code actions recompute all diagnostics, so they run at fewer places.
        if i < n.div_ceil(8) {
            push_actions(&mut out, "action", a.actions(range));
        }
        let h: Option<Hover> = a.hover(range);
        if let Some(h) = h {
            out.ranges.push(("hover", h.range));
        }
        let hs: Vec<InlayHint> = a.inlay_hints(if i == 0 { None } else { Some(range) });
        for h in hs {
            out.ranges.push(("inlay", h.range));
            out.ranges.push(("inlay", TextRange::empty(h.position)));
        }
        let ss: Vec<SignatureHelp> = a.signature_help(ts(*o));
        for h in ss {
            out.ranges.push(("signature", h.range));
            let l = h.label.len();
            for p in &h.parameters {
                let (x, y) = r(p.range);
                assert!(x <= y && y <= l && h.label.get(x..y).is_some(), "signature help parameter range out of the label");
            }
        }
        if i % 3 == 0 {
            if let Some(e) = a.extract(range) {
                out.ranges.push(("extract", TextRange::empty(e.import_offset)));
                out.edits.push(("extract".into(), e.edits));
            }
        }
    }
    out.edits.push(("migrate".into(), a.migrate()));
    out
}
fn run1(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let (t, kind) = fuzz_text(s, v5);
    let res = exercise(s, &t, v5, 24);
    let res2 = exercise(s, &t, !v5, 8);
    let n = res.ranges.len() + res2.ranges.len();
    Ok(Info { nontrivial: t.contains("ink"), key: fnv(t.as_bytes()), labels: vec![kind.into(), format!("ranges>{}", n > 0)], sample: clip(&t), evals: 1 })
}
const FIXED: &[&str] = &[
    "use a::*; mod a { use super::*; }",
    "use a::*; use b::*; mod a { use super::b::*; } mod b { use super::a::*; }",
    "type A = B; type B = A;",
    "use x as y; use y as x;",
    "mod a { pub use super::b::*; pub type E = super::b::E; } mod b { pub use super::a::*; pub type E = super::a::E; }",
    "use crate::E; pub use self::E as F; use F as E;",
    "use self::*;",
    "use crate::*; mod q { use crate::*; use super::*; }",
    "use self::a as b; use self::b as a;",
    "mod p { use super::q::p; } mod q { use super::p::q; }",
];
const FIXED_TAILS: &[&str] = &[
    "#[ink::contract(env = E)] mod c { use super::*; #[ink(storage)] pub struct S {} impl A for S { #[ink(message)] fn m(&self) {} } }",
    "#[ink::chain_extension] pub trait C { type ErrorCode = A; #[ink(extension = 1)] fn f(x: B, y: a::E) -> b::E; }",
    "#[derive(Encode, x::Decode, a::TypeInfo)] pub struct A; #[ink::chain_extension(extension = 1)] pub trait C { type ErrorCode = A; #[ink(function = 1)] fn f(x: A); }",
    "#[ink_e2e::test(environment = a::E)] async fn t(mut c: ink_e2e::Client<C, E>) -> E2EResult<()> { let a = y::build_message::<A>(x); Ok(()) } impl Environment for E {} impl a::Environment for E {} impl x::FromStatusCode for A {}",
    "#[ink::contract] mod c { impl a::b::T for S { #[ink(message)] fn m(&self) { y::env::set_contract_storage(&1, &2); x::get_contract_storage(); } } #[derive(y::Encode, E)] struct S; }",
];
fn n_fixed() -> usize {
    FIXED.len() * FIXED_TAILS.len() * 2 + 1
}
/// A listed finding: the Rust parser underneath panics on this text.
const PARSER_PANIC: &str = "###{##ink.0extension";
fn fixed1(i: usize) -> Result<Info, Fail> {
    if i == n_fixed() - 1 {
        if parser_panics(PARSER_PANIC) {
            return fail("rust parser panic on `###{##ink.0extension`", "ra_ap_parser 0.0.199 panics (unreachable code in shortcuts.rs)", PARSER_PANIC);
        }
        return Ok(Info { nontrivial: false, key: 0, labels: vec!["fixed".into()], sample: String::new(), evals: 1 });
    }
    let v5 = i % 2 == 1;
    let j = i / 2;
    let t = format!("{}\n{}", FIXED[j % FIXED.len()], FIXED_TAILS[j / FIXED.len()]);
    let mut s = Src::random(i as u64);
    exercise(&mut s, &t, v5, 20);
    Ok(Info { nontrivial: true, key: fnv(t.as_bytes()), labels: vec!["fixed".into()], sample: String::new(), evals: 1 })
}
pub fn check_ranges(text: &str, res: &Res) -> Result<usize, Fail> {
    let mut n = 0;
    let ok = |range: TextRange| {
        let (a, b) = r(range);
        a <= b && text.get(a..b).is_some()
    };
    for (what, range) in &res.ranges {
        n += 1;
        if !ok(*range) {
            return fail(format!("range out of bounds: {what}"), format!("{what} range {range:?}, text length {}", text.len()), text);
        }
    }
    for (what, es) in &res.edits {
        n += es.len();
        for e in es {
            if !ok(e.range) {
                return fail(format!("edit out of bounds: {what}"), format!("{e:?}, text length {}", text.len()), text);
            }
        }
        if apply(text, es).is_none() {
            return fail(format!("edits overlap: {what}"), format!("{es:#?}"), text);
        }
    }
    Ok(n)
}
fn run2(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let (t, kind) = fuzz_text(s, v5);
    let res = exercise(s, &t, v5, 24);
    let n = check_ranges(&t, &res)?;
    Ok(Info { nontrivial: n > 0, key: fnv(t.as_bytes()), labels: vec![kind.into()], sample: clip(&t), evals: n.max(1) })
}
