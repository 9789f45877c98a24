//! C06: selectors are computed as ink! specifies, and overlaps are reported.
use super::util::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use ink_analyzer_ir::ast::HasName;
use ink_analyzer_ir::syntax::AstNode;
use ink_analyzer_ir::{InkFile, IsInkCallable, IsInkFn};
use std::collections::{BTreeSet, HashSet};

pub static PROP: Prop = Prop {
    id: "C06",
    rule: "a case is a contract with up to four impl blocks (namespaces, relative and full trait paths, raw and unicode names, explicit selectors in every literal form, wildcards), rendered with a random layout; non-trivial: at least two callables of one kind; the oracle is an own BLAKE2b-256 (RFC 7693) and the ink! composition rules",
    quick: 16000,
    thorough: 600000,
    run,
    fixed: None,
    shrink_evals: 4000,
    assumptions: &["selector composition as documented by ink! (compose_selector): explicit value, or hash of namespace, trait (whole path only with leading colons) and identifier joined with `::`"],
    threads: 8,
};

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
/// BLAKE2b with a 32 byte digest, no key (RFC 7693).
pub fn blake2b256(data: &[u8]) -> [u8; 32] {
    let mut h = IV;
    h[0] ^= 0x01010000 ^ 32;
    let blocks = data.len().div_ceil(128).max(1);
    for b in 0..blocks {
        let mut m = [0u64; 16];
        let chunk = &data[b * 128..data.len().min(b * 128 + 128)];
        for (i, x) in chunk.iter().enumerate() {
            m[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        let last = b + 1 == blocks;
        let t = (b * 128 + chunk.len()) as u64;
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t;
        if last {
            v[14] = !v[14];
        }
        let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(32);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(24);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(63);
        };
        for r in 0..12 {
            let s = &SIGMA[r % 10];
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    let mut out = [0; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&h[i].to_le_bytes());
    }
    out
}
pub fn hash4(path: &str) -> u32 {
    let h = blake2b256(path.as_bytes());
    u32::from_be_bytes([h[0], h[1], h[2], h[3]])
}
/// The hash input of a callable.
pub fn pre_hash(ns: Option<&str>, trait_: Option<&str>, name: &str) -> String {
    let t = trait_.map(|t| if t.starts_with("::") { t.to_string() } else { t.rsplit("::").next().unwrap().to_string() });
    [ns.map(|s| s.to_string()), t, Some(name.to_string())].into_iter().flatten().collect::<Vec<_>>().join("::")
}

const NAMES: &[&str] = &["a", "b", "get", "new", "r#match", "größe", "値", "transfer_from_account_to_account_with_a_very_long_name_that_needs_more_than_one_hash_block_because_it_is_longer_than_one_hundred_and_twenty_eight_bytes"];
const TRAITS: &[&str] = &["T", "m::T", "m::n::T", "::m::T", "::T", "self::T", "crate::m::T", "::m::n::T", "T2", "super::T2", "a::b::c::d::T", "::größe::T"];
const NS: &[(&str, &str)] = &[("\"ns\"", "ns"), ("\"my_namespace\"", "my_namespace"), ("\"T\"", "T"), ("r\"ns\"", "ns"), ("r#\"ns\"#", "ns"), ("\"größe\"", "größe"), ("\"n\\u{73}\"", "ns")];

#[derive(Clone)]
struct Want {
    id: Id,
    con: bool,
    sel: u32,
    /// Argument with an explicit selector value (also wildcards).
    arg: Option<Id>,
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let mut g = G::new(s, v5, Opts::default());
    let mut want: Vec<Want> = vec![];
    let st = g.storage();
    let sname = st.name.clone();
    let mut items = vec![st];
    let mut labels = vec![];
    let n_impl = g.s.range(1, 4);
    // Hash inputs of the callables so far, so that explicit selectors can collide with computed ones.
    let mut pres: Vec<String> = vec![];
    for _ in 0..n_impl {
        let trait_ = if g.s.bool() { Some(*g.s.pick(TRAITS)) } else { None };
        let ns = if g.s.chance(1, 3) { Some(*g.s.pick(NS)) } else { None };
        let mut attrs = vec![];
        if let Some((lit, _)) = ns {
            let mut args = vec![eq(&mut g.f, "namespace", lit)];
            if g.s.bool() {
                let p = arg(&mut g.f, "impl", Val::None);
                if g.s.bool() {
                    let a = ink(&mut g.f, vec![p]);
                    attrs.push(a);
                } else {
                    args.insert(0, p);
                }
            }
            let a = ink(&mut g.f, args);
            attrs.push(a);
            labels.push("namespace".to_string());
        }
        if let Some(t) = trait_ {
            labels.push(format!("trait:{t}"));
        }
        let n = g.s.range(1, 3);
        let mut fns = vec![];
        for _ in 0..n {
            let con = g.s.chance(1, 2);
            let name = *g.s.pick(NAMES);
            let pre = pre_hash(ns.map(|n| n.1), trait_, name);
            let mut sel = hash4(&pre);
            let mut rest = vec![];
            let mut sarg = None;
            match g.s.below(8) {
                0 => {
                    let a = eq(&mut g.f, "selector", "_");
                    sarg = Some(a.id);
                    rest.push(a);
                    labels.push("wildcard".into());
                }
                1 if v5 && !con => {
                    sel = 0x9BAE9D5E;
                    let a = eq(&mut g.f, "selector", "@");
                    sarg = Some(a.id);
                    rest.push(a);
                    labels.push("complement".into());
                }
                2 | 3 | 4 => {
                    sel = match g.s.below(5) {
                        0 => g.s.below(4) as u32,
                        1 => u32::MAX - g.s.below(2) as u32,
                        2 => 0x9BAE9D5E,
                        3 if !pres.is_empty() => {
                            let k = g.s.below(pres.len());
                            hash4(&pres[k])
                        }
                        _ => {
                            let n = *g.s.pick(NAMES);
                            hash4(&pre_hash(None, None, n))
                        }
                    };
                    let lit = int_literal(g.s, sel);
                    let a = eq(&mut g.f, "selector", &lit);
                    sarg = Some(a.id);
                    rest.push(a);
                    labels.push("explicit".into());
                }
                _ => {}
            }
            if g.s.chance(1, 4) {
                rest.push(arg(&mut g.f, "payable", Val::None));
            }
            pres.push(pre);
            let p = arg(&mut g.f, if con { "constructor" } else { "message" }, Val::None);
            let inks = g.split_args(p, rest);
            let attrs = g.decorate(inks);
            let mut f = fun();
            if con {
                f.ret = Some("Self".into());
            } else {
                f.recv = Some("&self".into());
            }
            let vis = if trait_.is_some() { None } else { Some("pub") };
            let it = g.item(if con { Role::Constructor } else { Role::Message }, attrs, vis, name, Kind::Fn(f));
            want.push(Want { id: it.id, con, sel, arg: sarg });
            fns.push(it);
        }
        let it = g.item(Role::Impl, attrs, None, "", Kind::Impl { quals: vec![], generics: None, trait_: trait_.map(|t| t.to_string()), self_ty: sname.clone(), self_generics: None, items: fns });
        items.push(it);
    }
    let m = g.macro_attr("ink::contract", vec![]);
    let name = g.snake().replace("r#", "r_");
    let c = g.item(Role::Contract, vec![m], None, &name, Kind::Mod(Some(items)));
    g.f.items.push(c);
    let f = g.f.clone();
    let style = Style::random(s);
    let doc = render(&f, s, &style);
    let text = &doc.text;
    set_current(text);
    // 1. Selectors.
    let file = InkFile::parse(text);
    let Some(c) = file.contracts().first() else { return fail("no contract", "contract not found", text) };
    let got: Vec<(Option<(usize, usize)>, Option<u32>, bool)> = c
        .constructors()
        .iter()
        .map(|x| (name_of(x), x.composed_selector().map(|s| s.into_be_u32()), true))
        .chain(c.messages().iter().map(|x| (name_of(x), x.composed_selector().map(|s| s.into_be_u32()), false)))
        .collect();
    let exp: Vec<&Want> = want.iter().filter(|w| w.con).chain(want.iter().filter(|w| !w.con)).collect();
    if got.len() != exp.len() {
        return fail("callables missing", format!("{} callables, {} found", exp.len(), got.len()), text);
    }
    for w in &exp {
        let nm = doc.sp(w.id, Sp::Name);
        let Some(g) = got.iter().find(|g| g.0 == nm && g.2 == w.con) else {
            return fail("callable missing", format!("{:?} not found", nm.map(|n| doc.slice(n))), text);
        };
        if g.1 != Some(w.sel) {
            return fail(
                "selector",
                format!("v5={v5} selector of `{}` is {:#010x?}, expected {:#010x}", nm.map(|n| doc.slice(n)).unwrap_or(""), g.1, w.sel),
                text,
            );
        }
    }
    // 2. Overlaps.
    let mut over: BTreeSet<((usize, usize), bool)> = BTreeSet::new();
    for con in [true, false] {
        let mut seen = HashSet::new();
        for w in want.iter().filter(|w| w.con == con) {
            if !seen.insert(w.sel) {
                let rg = w.arg.and_then(|a| doc.sp(a, Sp::ArgVal)).or_else(|| doc.sp(w.id, Sp::Name)).unwrap();
                over.insert((rg, con));
                labels.push(format!("overlap:{}", if con { "constructor" } else { "message" }));
            }
        }
    }
    let ds = analyze(text, v5).diagnostics();
    let rep: Vec<((usize, usize), bool)> = ds
        .iter()
        .filter(|d| d.message.starts_with("Selector") && d.message.contains("must be unique"))
        .map(|d| (r(d.range), d.message.contains("constructors")))
        .collect();
    let rset: BTreeSet<_> = rep.iter().cloned().collect();
    let show = |x: &BTreeSet<((usize, usize), bool)>| x.iter().map(|(r, c)| format!("{}..{} `{}` {}", r.0, r.1, doc.slice(*r), if *c { "constructor" } else { "message" })).collect::<Vec<_>>().join(", ");
    if rset != over || rep.len() != over.len() {
        return fail(
            if rset.difference(&over).next().is_some() { "overlap reported wrongly" } else if rset == over { "overlap reported twice" } else { "overlap not reported" },
            format!("v5={v5} expected overlaps: {}\nreported: {}", show(&over), show(&rset)),
            text,
        );
    }
    let nc = want.iter().filter(|w| w.con).count();
    labels.push(format!("overlaps:{}", over.len().min(3)));
    labels.sort();
    labels.dedup();
    Ok(Info { nontrivial: nc > 1 || want.len() - nc > 1, key: fnv(text.as_bytes()), labels, sample: clip(text), evals: want.len() + 1 })
}
fn name_of<T: IsInkFn>(x: &T) -> Option<(usize, usize)> {
    x.fn_item().and_then(|f| f.name()).map(|n| r(n.syntax().text_range()))
}
#[cfg(test)]
mod tests {
    #[test]
    fn rfc7693() {
        assert_eq!(super::hash4("new"), 0x9BAE9D5E);
    }
}
