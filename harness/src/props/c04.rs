//! C04: valid ink! code is never flagged.
use super::util::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;

pub static PROP: Prop = Prop {
    id: "C04",
    rule: "a case is a model-generated valid ink! file (v4 or v5), rendered with a random layout and attribute splitting; non-trivial: it contains at least one ink! entity",
    quick: 12000,
    thorough: 150000,
    run,
    fixed: None,
    shrink_evals: 3000,
    assumptions: &["validity of generated files follows the ink! 4/5 documentation as modelled by the generator"],
    threads: 8,
};

fn run(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let f = valid_file(s, v5, Opts::default());
    let style = Style::random(s);
    let doc = render(&f, s, &style);
    if let Some(e) = parse_errors(&doc.text).first() {
        return fail(format!("generator: unparsable {}", normalize(e)), e.clone(), doc.text);
    }
    let ds = analyze(&doc.text, v5).diagnostics();
    if let Some(d) = ds.first() {
        return fail(format!("flagged: {}", msg_kind(&d.message)), format!("v5={v5}\n{}", show_diags(&doc.text, &ds)), doc.text);
    }
    let nontrivial = f.items.iter().any(|i| i.role != Role::Plain);
    let mut labels = labels_for(&f);
    labels.push(format!("layout:{:?}", style.layout));
    Ok(Info { nontrivial, key: fnv(doc.text.as_bytes()), labels, sample: clip(&doc.text), evals: 1 })
}
