//! C17: inlay hints label every ink! argument value and nothing else.
use super::util::*;
use crate::attrs::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;

pub static PROP: Prop = Prop {
    id: "C17",
    rule: "a case is a generated file (valid, plus arbitrary known, unknown and misplaced ink! attributes, nested and dangling arguments) whose hints are compared as a whole and for random ranges with the model's; non-trivial: at least one hint is expected",
    quick: 20000,
    thorough: 400000,
    run,
    fixed: None,
    shrink_evals: 1500,
    assumptions: &["arguments that only ink! 5 has may or may not be labelled in ink! 4 files", "whether an argument without a (well-formed) value after its `=` is in a range is not specified"],
    threads: 8,
};
struct Hint {
    arg: (usize, usize),
    name: (usize, usize),
    label: &'static str,
    detail: bool,
    optional: bool,
    /// Where the argument ends is not specified.
    open: bool,
}
fn hints(doc: &Doc, a: &Arg, v5: bool, ctor: bool, out: &mut Vec<Hint>) {
    let label = value_type(&a.name, v5, ctor);
    if !label.is_empty() {
        let detail = matches!(a.name.as_str(), "additional_contracts" | "keep_attr" | "namespace" | "signature_topic" | "url" | "backend" | "env" | "environment" | "sandbox");
        out.push(Hint { arg: doc.sp(a.id, Sp::Arg).unwrap(), name: doc.sp(a.id, Sp::ArgName).unwrap(), label, detail, optional: !v5 && V5_ARGS.contains(&a.name.as_str()), open: matches!(&a.val, Val::Dangling) || matches!(&a.val, Val::Eq(v) if v == "-1" || v.contains('<')) });
    }
    if let Val::Nested(n) = &a.val {
        for a in n {
            hints(doc, a, v5, ctor, out);
        }
    }
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let mut f = valid_file(s, v5, Opts::default());
    sprinkle(s, &mut f);
    let style = Style::random(s);
    let doc = render(&f, s, &style);
    let text = &doc.text;
    let mut all = vec![];
    for l in attr_lists(&f) {
        let ctor = l.iter().any(|a| a.kind == AttrKind::Ink && primary(&a.args).is_some_and(|i| a.args[i].name == "constructor"));
        for a in l.iter().filter(|a| a.is_ink()) {
            for x in &a.args {
                hints(&doc, x, v5, ctor, &mut all);
            }
        }
    }
    let an = analyze(text, v5);
    let mut ranges = vec![None];
    for _ in 0..4 {
        let cs: Vec<usize> = (0..=text.len()).filter(|o| text.is_char_boundary(*o)).collect();
        let rg = if all.is_empty() || s.bool() {
            let (x, y) = (*s.pick(&cs), *s.pick(&cs));
            (x.min(y), x.max(y))
        } else {
            // The exact argument, or just off by one character.
            let h = s.pick(&all).arg;
            let (i, j) = (cs.iter().position(|c| *c == h.0).unwrap(), cs.iter().position(|c| *c == h.1).unwrap());
            match s.below(5) {
                0 => h,
                1 => (cs[i + 1], h.1),
                2 => (h.0, cs[j - 1].max(h.0)),
                3 => (cs[i.saturating_sub(1)], h.1),
                _ => (h.0, cs[(j + 1).min(cs.len() - 1)]),
            }
        };
        ranges.push(Some((rg.0.min(rg.1), rg.0.max(rg.1))));
    }
    for rg in &ranges {
        let mut got = an.inlay_hints(rg.map(|(a, b)| tr(a, b)));
        got.sort_by_key(|h| h.position);
        let mut want: Vec<&Hint> = all.iter().filter(|h| rg.map_or(true, |(a, b)| a <= h.arg.0 && h.arg.1 <= b)).collect();
        want.sort_by_key(|h| h.name.1);
        let ctx = |m: String| format!("{m}, range {rg:?}, {}", if v5 { "v5" } else { "v4" });
        let mut it = got.into_iter().peekable();
        for w in want {
            if (w.optional || (w.open && rg.is_some())) && it.peek().map(|g| r(g.range)) != Some(w.name) {
                continue;
            }
            let Some(g) = it.next() else { return fail("missing hint", ctx(format!("{} at {:?} `{}`", w.label, w.arg, &text[w.arg.0..w.arg.1])), text.clone()) };
            if r(g.range) != w.name || usize::from(g.position) != w.name.1 {
                let (x, y) = r(g.range);
                return fail("missing or extra hint", ctx(format!("{} at {:?} `{}`, but expected {} at `{}`", g.label, r(g.range), &text[x..y], w.label, &text[w.arg.0..w.arg.1])), text.clone());
            }
            if w.optional {
                continue;
            }
            if g.label != w.label {
                return fail("wrong label", ctx(format!("`{}` instead of `{}` for `{}`", g.label, w.label, &text[w.arg.0..w.arg.1])), text.clone());
            }
            if g.detail.is_some() != w.detail {
                return fail("wrong detail", ctx(format!("{:?} for `{}`", g.detail, &text[w.arg.0..w.arg.1])), text.clone());
            }
        }
        if let Some(g) = it.next() {
            let (x, y) = r(g.range);
            return fail("extra hint", ctx(format!("{} at {:?} `{}`", g.label, r(g.range), &text[x..y])), text.clone());
        }
    }
    let mut labels: Vec<String> = all.iter().map(|h| h.label.to_string()).collect();
    labels.sort();
    labels.dedup();
    labels.push(if v5 { "v5".into() } else { "v4".into() });
    Ok(Info { nontrivial: !all.is_empty(), key: fnv(text.as_bytes()), labels, sample: all.iter().take(5).map(|h| format!("{} -> {}", &text[h.arg.0..h.arg.1], h.label)).collect::<Vec<_>>().join("; "), evals: ranges.len() })
}
