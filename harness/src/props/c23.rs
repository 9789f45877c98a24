//! C23: a reference means the item it names, however it is spelled.
use super::util::*;
use crate::core::*;
use ink_analyzer_ir::ast::HasName;
use ink_analyzer_ir::syntax::AstNode;
use ink_analyzer_ir::{InkEntity, InkFile, IsInkTrait};
use std::collections::HashMap;

pub static PROP: Prop = Prop {
    id: "C23",
    rule: "a case is a file with a chain extension and/or a contract whose error code, codec traits, status code trait, parameter types, environment and trait definitions are referred to by paths, imports, aliases, globs, groups, module aliases, type aliases and re-exports from modules at any depth, next to imports of similarly named items; each reference leads either to the right item or to another item of the same name; non-trivial if at least one reference is not a plain full path",
    quick: 10000,
    thorough: 500000,
    run,
    fixed: None,
    shrink_evals: 3000,
    assumptions: &[
        "names of local modules and imported modules do not shadow the crates ink, ink_env, scale, scale_info and parity_scale_codec",
        "implementations of external traits are attributed to the type by its name, so types with such implementations have distinct names",
    ],
    threads: 8,
};
#[derive(Default)]
struct Sc {
    name: String,
    attr: String,
    parts: Vec<String>,
    kids: Vec<Sc>,
}
type P = Vec<String>;
struct B<'a> {
    s: &'a mut Src,
    root: Sc,
    n: usize,
    labels: Vec<String>,
    fancy: bool,
    /// Whether globs are used; then other items of a name are not imported under it (imports shadow globs).
    globs: bool,
    plain: bool,
    /// What the names bound by items and imports of a module mean.
    bound: HashMap<(P, String), String>,
}
#[derive(Clone, Copy, PartialEq)]
enum K {
    Type,
    Trait,
}
fn segs(x: &str) -> P {
    x.split("::").map(String::from).collect()
}
fn join(a: &[String], b: &[&str]) -> P {
    a.iter().cloned().chain(b.iter().map(|x| x.to_string())).collect()
}
impl B<'_> {
    fn id(&mut self) -> usize {
        self.n += 1;
        self.n
    }
    /// The module with a path (without `crate`), created on demand.
    fn at(&mut self, path: &[String]) -> &mut Sc {
        let mut c = &mut self.root;
        for p in path {
            let i = match c.kids.iter().position(|k| &k.name == p) {
                Some(i) => i,
                None => {
                    c.kids.push(Sc { name: p.clone(), ..Default::default() });
                    c.kids.len() - 1
                }
            };
            c = &mut c.kids[i];
        }
        c
    }
    fn put(&mut self, scope: &[String], t: String) {
        self.at(scope).parts.push(t);
    }
    /// Binds a name in a module: whether it can be, and whether it is new.
    fn bind(&mut self, scope: &[String], name: &str, t: &str) -> (bool, bool) {
        match self.bound.get(&(scope.to_vec(), name.to_string())) {
            Some(x) => (x == t, false),
            None => {
                self.bound.insert((scope.to_vec(), name.to_string()), t.to_string());
                (true, true)
            }
        }
    }
    /// A module for an item: the given one, a new child of it, or a new one elsewhere.
    fn place(&mut self, near: &[String]) -> P {
        let i = self.id();
        let p = match self.s.below(5) {
            0 | 1 => near.to_vec(),
            2 => join(near, &[&format!("m{i}")]),
            3 => vec![format!("m{i}")],
            _ => vec![format!("m{i}"), format!("n{i}")],
        };
        self.at(&p);
        p
    }
    /// A direct path to an item or module (segments start with `crate` for local ones).
    fn direct(&mut self, scope: &[String], t: &[String]) -> String {
        if t[0] != "crate" {
            return format!("{}{}", if self.s.chance(1, 4) { "::" } else { "" }, t.join("::"));
        }
        let rest = &t[1..];
        let mut opts = vec![t.join("::")];
        if rest.len() > scope.len() && rest.starts_with(scope) {
            let rel = rest[scope.len()..].join("::");
            opts.push(rel.clone());
            opts.push(format!("self::{rel}"));
        }
        for k in 1..=scope.len() {
            let up = &scope[..scope.len() - k];
            if rest.len() > up.len() && rest.starts_with(up) {
                opts.push(format!("{}{}", "super::".repeat(k), rest[up.len()..].join("::")));
            }
        }
        self.s.pick(&opts).clone()
    }
    /// Spells a reference to an item from a module.
    fn spell(&mut self, scope: &[String], t: &[String], k: K, depth: usize) -> String {
        let name = t.last().unwrap().clone();
        let parent = t[..t.len() - 1].to_vec();
        let local = t[0] == "crate";
        let here = local && parent[1..] == *scope;
        let mut how = self.s.below(9);
        if (how == 3 && !self.globs) || (self.plain && matches!(how, 1 | 3 | 4)) {
            how = 2;
        }
        if how != 0 {
            self.fancy = true;
        }
        // A name that means something else here needs another way.
        let target = t.join("::");
        let mut known = false;
        if matches!(how, 1 | 3 | 4) && !here {
            let (ok, new) = self.bind(scope, &name, &target);
            if !ok {
                how = 2;
            }
            known = ok && !new;
        }
        if how == 5 && parent.len() > 1 && !here {
            let (ok, new) = self.bind(scope, parent.last().unwrap(), &parent.join("::"));
            if !ok {
                how = 6;
            }
            known = ok && !new;
        }
        let (label, out) = match how {
            1..=6 if here => ("relative", name),
            1 | 3 | 4 if known => ("import", name),
            5 if known && parent.len() > 1 => ("module", format!("{}::{name}", parent.last().unwrap())),
            1 => {
                let p = self.direct(scope, t);
                self.put(scope, format!("use {p};"));
                ("import", name)
            }
            2 => {
                let p = self.direct(scope, t);
                let a = format!("Al{}", self.id());
                self.put(scope, format!("use {p} as {a};"));
                ("alias", a)
            }
            3 if !local => {
                let p = self.direct(scope, &parent);
                self.put(scope, format!("use {p}::*;"));
                ("glob", name)
            }
            3 => {
                // A module with nothing but the item.
                let h = vec![format!("only{}", self.id())];
                let p = self.direct(&h, t);
                self.put(&h, format!("pub use {p};"));
                let p = self.direct(scope, &join(&["crate".to_string()], &[&h[0]]));
                self.put(scope, format!("use {p}::*;"));
                ("glob", name)
            }
            4 if parent.len() > 1 || !local => {
                // A group at any depth of the path.
                let cut = self.s.range(1, parent.len());
                let cut = if local && cut == 1 { parent.len() } else { cut };
                let p = self.direct(scope, &t[..cut]);
                let mut inner = t[cut..].join("::");
                let mut out = name.clone();
                if self.s.chance(1, 3) {
                    out = format!("Al{}", self.id());
                    inner = format!("{inner} as {out}");
                    self.bound.remove(&(scope.to_vec(), name.clone()));
                }
                let o = self.id();
                let g = match self.s.below(4) {
                    0 => format!("{{{inner}}}"),
                    1 => format!("{{other::Other{o}, {inner}}}"),
                    2 => format!("{{{inner}, other{o}::*}}"),
                    _ => format!("{{{inner}, other{o}::{{self, Thing{o} as Thang{o}}}}}"),
                };
                self.put(scope, format!("use {p}::{g};"));
                ("group", out)
            }
            5 if parent.len() > 1 => {
                // The parent module is imported (by itself, or as `self` of a group).
                let q = parent.last().unwrap().clone();
                let p = self.direct(scope, &parent);
                if local && parent[1..].len() == scope.len() + 1 && parent[1..].starts_with(scope) {
                    ("relative", format!("{p}::{name}"))
                } else {
                    let g = if self.s.bool() { "" } else { "::{self}" };
                    self.put(scope, format!("use {p}{g};"));
                    ("module", format!("{q}::{name}"))
                }
            }
            6 if parent.len() > 1 || !local => {
                let a = format!("al{}", self.id());
                let p = self.direct(scope, &parent);
                if local && parent[1..] == *scope {
                    ("relative", name)
                } else {
                    self.put(scope, format!("use {p} as {a};"));
                    ("module alias", format!("{a}::{name}"))
                }
            }
            7 if k == K::Type => {
                let a = format!("Al{}", self.id());
                let p = if depth > 0 { self.spell(scope, t, k, depth - 1) } else { self.direct(scope, t) };
                self.put(scope, format!("pub type {a} = {p};"));
                ("type alias", a)
            }
            8 if depth > 0 => {
                // Re-exported by another module.
                let i = self.id();
                let h = if self.s.bool() { vec![format!("prelude{i}")] } else { vec![format!("deep{i}"), "prelude".to_string()] };
                let mut n = name.clone();
                let p = self.direct(&h, t);
                let gp = self.direct(&h, &parent);
                if self.s.chance(1, 3) && !local && self.globs {
                    self.put(&h, format!("pub use {gp}::*;"));
                } else if self.s.chance(1, 3) {
                    n = format!("Re{i}");
                    self.put(&h, format!("pub use {p} as {n};"));
                } else {
                    self.put(&h, format!("pub use {p};"));
                }
                let mut r: P = vec!["crate".into()];
                r.extend(h);
                r.push(n);
                ("re-export", self.spell(scope, &r, k, depth - 1))
            }
            _ => ("path", self.direct(scope, t)),
        };
        self.labels.push(label.to_string());
        out
    }
    /// Imports of similarly named items that mean nothing for a reference to `name`.
    fn decoys(&mut self, scope: &[String], name: &str) {
        for _ in 0..self.s.below(3) {
            let i = self.id();
            let d = match self.s.below(9) {
                7 | 8 => {
                    // A local item, the name of which ends like the one that is meant.
                    let m = vec![format!("decoy{i}")];
                    let what = if name.starts_with("Api") { format!("pub trait N{i}{name} {{}}") } else { format!("pub enum N{i}{name} {{}}") };
                    self.put(&m, what);
                    format!("use crate::decoy{i}::N{i}{name};")
                }
                0 => format!("use unrelated::N{i}{name};"),
                1 => format!("use unrelated::{name}E{i};"),
                2 => format!("use unrelated::{name} as Other{i};"),
                3 => format!("use unrelated::{{N{i}{name}, {name}Ext as Ext{i}}};"),
                4 => format!("use unrelated::{name}::Part{i};"),
                5 => format!("pub type N{i}{name} = u8;"),
                _ => "use unrelated::prelude::*;".to_string(),
            };
            if !self.at(scope).parts.contains(&d) {
                self.put(scope, d);
            }
        }
    }
    /// A reference to an external item, or to something else of that name.
    fn external(&mut self, scope: &[String], good: bool, paths: &[&str], wrong: &[&str], k: K) -> String {
        let name = paths[0].rsplit("::").next().unwrap().to_string();
        self.decoys(scope, &name);
        if good {
            let p = segs(*self.s.pick(paths));
            return self.spell(scope, &p, k, 2);
        }
        let i = self.id();
        self.fancy = true;
        self.plain = self.globs;
        let way = self.s.below(7);
        let out = match way {
            2 | 4 | 6 if self.plain => format!("unrelated::{name}"),
            0 => {
                let t = segs(&format!("unrelated::{name}"));
                self.spell(scope, &t, k, 2)
            }
            1 => {
                let t = segs(&format!("unrelated::ink::env::{name}"));
                self.spell(scope, &t, k, 1)
            }
            2 => {
                // Another item under this name.
                let w = *self.s.pick(wrong);
                match self.bind(scope, &name, w) {
                    (true, true) => self.put(scope, format!("use {w} as {name};")),
                    (true, false) => {}
                    _ => return format!("unrelated::{name}"),
                }
                name
            }
            3 => {
                // A local item of this name.
                let m = self.place(&[format!("w{i}")]);
                self.put(&m, if k == K::Type { format!("pub struct {name};") } else { format!("pub trait {name} {{}}") });
                let mut t: P = vec!["crate".into()];
                t.extend(m);
                t.push(name);
                self.spell(scope, &t, k, 1)
            }
            4 => {
                // The right item, but imported by another module only; here the name is something else.
                let p = segs(*self.s.pick(paths));
                let m = vec![format!("w{i}")];
                self.put(&m, format!("use {};", p.join("::")));
                match self.bind(scope, &name, &format!("unrelated::{name}")) {
                    (true, true) => self.put(scope, format!("use unrelated::{name};")),
                    (true, false) => {}
                    _ => return format!("unrelated::{name}"),
                }
                name
            }
            6 => {
                // The name of nothing, but the end of the name of the right item.
                let p = self.s.pick(paths).to_string();
                match self.bind(scope, &name, &p) {
                    (true, true) => self.put(scope, format!("use {p};")),
                    (true, false) => {}
                    _ => return format!("unrelated::{name}"),
                }
                let cuts: Vec<usize> = name.char_indices().filter(|(i, c)| *i == 1 || (*i > 0 && c.is_uppercase())).map(|x| x.0).collect();
                name[*self.s.pick(&cuts)..].to_string()
            }
            _ => {
                // The right name under the wrong path of the right crate.
                let p = segs(*self.s.pick(paths));
                let t = join(&p[..1], &["somewhere", &name]);
                self.spell(scope, &t, k, 1)
            }
        };
        self.plain = false;
        out
    }
}
const ENC: &[&str] = &["scale::Encode", "ink::scale::Encode", "parity_scale_codec::Encode"];
const DEC: &[&str] = &["scale::Decode", "ink::scale::Decode", "parity_scale_codec::Decode"];
const INFO: &[&str] = &["scale_info::TypeInfo", "ink::scale_info::TypeInfo"];
const FSC: &[&str] = &["ink::env::chain_extension::FromStatusCode", "ink_env::chain_extension::FromStatusCode"];
const ENVT: &[&str] = &["ink::env::Environment", "ink_env::Environment"];
const DEFENV: &[&str] = &["ink::env::DefaultEnvironment", "ink_env::DefaultEnvironment"];
const CODEC: [(&[&str], &[&str], &str); 3] = [
    (ENC, &["scale::Output", "ink::scale::EncodeLike"], "scale::Encode"),
    (DEC, &["scale::Input", "ink::scale::DecodeAll"], "scale::Decode"),
    (INFO, &["scale::MaxEncodedLen", "scale_info::Type"], "scale_info::TypeInfo"),
];
impl B<'_> {
    /// A custom type with codec implementations; the missing traits.
    fn adt(&mut self, m: &[String], name: &str, by_impl: bool, p_bad: (usize, usize)) -> (usize, Vec<&'static str>) {
        let id = self.id();
        let mut missing = vec![];
        let mut one: Vec<String> = vec![];
        let mut cond: Vec<String> = vec![];
        for (paths, wrong, shown) in CODEC {
            let good = !self.s.chance(p_bad.0, p_bad.1);
            if !good {
                missing.push(shown);
                if self.s.chance(1, 3) {
                    continue;
                }
            }
            if by_impl && self.s.chance(1, 3) {
                let at = self.place(m);
                let tr = self.external(&at, good, paths, wrong, K::Trait);
                let mut t: P = vec!["crate".into()];
                t.extend(m.to_vec());
                t.push(name.to_string());
                let ty = self.direct(&at, &t);
                self.put(&at, format!("impl {tr} for {ty} {{}}"));
                continue;
            }
            let tr = self.external(m, good, paths, wrong, K::Trait);
            if self.s.chance(1, 3) {
                cond.push(tr);
            } else {
                one.push(tr);
            }
        }
        let mut attrs = vec![];
        if self.s.bool() {
            one.insert(self.s.below(one.len() + 1), self.s.pick(&["Debug", "Clone", "PartialEq"]).to_string());
        }
        if !one.is_empty() {
            attrs.push(format!("#[derive({})]", one.join(", ")));
        }
        if !cond.is_empty() {
            attrs.push(format!("#[cfg_attr(feature = \"std\", derive({}))]", cond.join(", ")));
        }
        self.s.shuffle(&mut attrs);
        let body = match self.s.below(2) {
            0 => format!("pub enum {name} {{ Mark{id}x }}"),
            _ => format!("pub struct {name} {{ mark{id}x: u8 }}"),
        };
        self.put(m, format!("{}\n{body}", attrs.join("\n")));
        (id, missing)
    }
    fn local(&mut self, m: &[String], name: &str) -> P {
        let id = [&["crate".to_string()], m, &[name.to_string()]].concat().join("::");
        self.bind(m, name, &id);
        let mut t: P = vec!["crate".into()];
        t.extend(m.to_vec());
        t.push(name.to_string());
        t
    }
}
fn render(s: &mut Src, c: &Sc, depth: usize, out: &mut String) {
    let ind = "    ".repeat(depth);
    let mut parts: Vec<Result<&String, &Sc>> = c.parts.iter().map(Ok).collect();
    parts.extend(c.kids.iter().map(Err));
    s.shuffle(&mut parts);
    for p in parts {
        match p {
            Ok(t) => {
                for l in t.trim().lines() {
                    out.push_str(&format!("{ind}{l}\n"));
                }
            }
            Err(k) => {
                if !k.attr.is_empty() {
                    out.push_str(&format!("{ind}{}\n", k.attr));
                }
                out.push_str(&format!("{ind}pub mod {} {{\n", k.name));
                render(s, k, depth + 1, out);
                out.push_str(&format!("{ind}}}\n"));
            }
        }
    }
}
/// What a diagnostic must say, and the mark of the item it must be at.
struct Want {
    what: &'static str,
    text: String,
    mark: Option<usize>,
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let which = s.below(3);
    let globs = s.bool();
    let mut b = B { s, root: Sc::default(), n: 0, labels: vec![], fancy: false, globs, plain: false, bound: HashMap::new() };
    let mut want: Vec<Want> = vec![];
    let mut evals = 0;
    // Trait definitions implemented by the contract: (mark in the implementation, mark in the trait or None).
    let mut impls: Vec<(usize, Option<usize>)> = vec![];
    let mut twins = 0;
    // References that lead nowhere, with the path that is meant.
    let mut replaced: Vec<(String, String)> = vec![];
    if which != 1 {
        // Chain extension.
        let p = b.place(&[]);
        let em = b.place(&p);
        let (eid, missing) = b.adt(&em, "TheError", true, (1, 8));
        evals += 3;
        if !missing.is_empty() {
            want.push(Want { what: "codec traits of the error code", text: format!("`ErrorCode` associated type must implement the {}", missing.iter().map(|m| format!("`{m}`")).collect::<Vec<_>>().join(", ")), mark: Some(eid) });
        }
        let et = b.local(&em, "TheError");
        let good = !b.s.chance(1, 4);
        let im = b.place(&p);
        let tr = b.external(&im, good, FSC, &["ink::env::chain_extension::FromInput", "ink::env::Environment"], K::Trait);
        let ty = b.direct(&im, &et);
        b.put(&im, format!("impl {tr} for {ty} {{\n    fn from_status_code(status_code: u32) -> Result<(), Self> {{ Ok(()) }}\n}}"));
        evals += 1;
        if !good {
            want.push(Want { what: "status code trait", text: "`ErrorCode` associated type must implement the `ink::env::chain_extension::FromStatusCode`".into(), mark: Some(eid) });
        }
        // A namesake of the error type, which the reference does not mean.
        let twin = b.s.chance(1, 2).then(|| b.id());
        if let Some(i) = twin {
            let m = vec![format!("twin{i}")];
            b.put(&m, "pub struct TheError;".into());
            twins += 1;
        }
        b.decoys(&p, "TheError");
        let ec = if twin.is_none() && b.s.chance(1, 8) {
            // Leads nowhere; the fix is the path of the only type of that name.
            want.clear();
            want.push(Want { what: "unresolved error code", text: "`ErrorCode` associated type must implement the `ink::env::chain_extension::FromStatusCode`".into(), mark: None });
            replaced.push((want.last().unwrap().text.clone(), et.join("::")));
            "nowhere::TheError".to_string()
        } else {
            b.spell(&p, &et, K::Type, 2)
        };
        let mut fns = vec![format!("type ErrorCode = {ec};")];
        for j in 0..b.s.below(3) {
            // Two types of the same name, one of which the function uses.
            let name = format!("Data{j}");
            let a = b.place(&p);
            let used = b.adt(&a, &name, false, (1, 4));
            if b.s.bool() {
                let i = b.id();
                let m = vec![format!("twin{i}")];
                b.adt(&m, &name, false, (1, 2));
                twins += 1;
            }
            evals += 3;
            if !used.1.is_empty() {
                want.push(Want { what: "codec traits of a parameter", text: format!("extension input and output types must implement the {}", used.1.iter().map(|m| format!("`{m}`")).collect::<Vec<_>>().join(", ")), mark: Some(used.0) });
            }
            let t = b.local(&a, &name);
            b.decoys(&p, &name);
            let r = b.spell(&p, &t, K::Type, 2);
            let sig = match b.s.below(5) {
                0 => format!("fn call{j}(data: {r});"),
                1 => format!("fn call{j}(data: &[{r}]);"),
                2 => format!("fn call{j}(n: u8, data: ({r}, u8));"),
                3 => format!("fn call{j}(data: Vec<{r}>);"),
                _ => format!("fn call{j}() -> {r};"),
            };
            fns.push(format!("#[ink({} = {}, handle_status = false)]\n    {sig}", if v5 { "function" } else { "extension" }, j + 1));
        }
        b.s.shuffle(&mut fns);
        let arg = if v5 { "(extension = 7)" } else { "" };
        b.put(&p, format!("#[ink::chain_extension{arg}]\npub trait TheExtension {{\n    {}\n}}", fns.join("\n    ")));
    }
    if which != 0 {
        // Contract with an environment and trait implementations.
        let p = b.place(&[]);
        let c = join(&p, &["contract"]);
        b.at(&c);
        let mut env = None;
        match b.s.below(4) {
            0 => {
                let good = !b.s.chance(1, 3);
                let r = b.external(&c, good, DEFENV, &["ink::env::Environment", "ink::env::NoEnvironment"], K::Type);
                evals += 1;
                // A reference to another local type is that of an environment without implementation.
                let local = b.root_has_struct("DefaultEnvironment");
                if !good {
                    if local {
                        want.push(Want { what: "environment trait", text: "Environment values must implement the `ink::env::Environment` trait".into(), mark: None });
                    } else {
                        want.push(Want { what: "environment", text: "argument value should be a path to a custom type".into(), mark: None });
                    }
                }
                env = Some(r);
            }
            1 | 2 => {
                let good = !b.s.chance(1, 3);
                let m = b.place(&p);
                let id = b.id();
                b.put(&m, format!("pub enum TheEnv {{ Mark{id}x }}"));
                let t = b.local(&m, "TheEnv");
                let at = b.place(&m);
                let tr = b.external(&at, good, ENVT, &["ink::env::chain_extension::FromStatusCode", "ink::env::DefaultEnvironment"], K::Trait);
                let ty = b.direct(&at, &t);
                b.put(&at, format!("impl {tr} for {ty} {{}}"));
                let twin = b.s.chance(1, 2).then(|| b.id());
                if let Some(i) = twin {
                    b.put(&[format!("twin{i}")], "pub enum TheEnv {}".into());
                    twins += 1;
                }
                evals += 2;
                if !good {
                    want.push(Want { what: "environment trait", text: "Environment values must implement the `ink::env::Environment` trait".into(), mark: Some(id) });
                }
                b.decoys(&c, "TheEnv");
                env = if twin.is_none() && b.s.chance(1, 8) {
                    if !good {
                        want.pop();
                    }
                    want.push(Want { what: "environment", text: "argument value should be a path to a custom type".into(), mark: None });
                    replaced.push((want.last().unwrap().text.clone(), t.join("::")));
                    Some("nowhere::TheEnv".to_string())
                } else {
                    Some(b.spell(&c, &t, K::Type, 2))
                };
            }
            _ => {}
        }
        b.at(&c).attr = match env {
            Some(e) => format!("#[ink::contract(env = {e})]"),
            None => "#[ink::contract]".into(),
        };
        b.put(&c, "#[ink(storage)]\npub struct Storage {}".into());
        b.put(&c, "impl Storage {\n    #[ink(constructor)]\n    pub fn new() -> Self { Self {} }\n    #[ink(message)]\n    pub fn get(&self) {}\n}".into());
        for j in 0..b.s.below(3) {
            let name = format!("Api{j}");
            // Up to three traits of the same name; the implementation means the first.
            let m = b.place(&p);
            let mut first = None;
            let n = b.s.range(1, 3);
            for k in 0..n {
                let id = b.id();
                let at = if k == 0 { m.clone() } else { vec![format!("twin{id}")] };
                let def = b.s.chance(2, 3);
                if k == 0 {
                    first = def.then_some(id);
                } else {
                    twins += 1;
                }
                let (a1, a2) = if def { ("#[ink::trait_definition]\n", "#[ink(message)]\n    ") } else { ("", "") };
                b.put(&at, format!("{a1}pub trait {name} {{\n    {a2}fn mark{id}x(&self);\n}}"));
            }
            let t = b.local(&m, &name);
            b.decoys(&c, &name);
            let r = b.spell(&c, &t, K::Trait, 2);
            let id = b.id();
            b.put(&c, format!("impl {r} for Storage {{\n    #[ink(message)]\n    fn mark{id}x(&self) {{}}\n}}"));
            impls.push((id, first));
            evals += 1;
        }
    }
    let (labels, fancy) = (b.labels, b.fancy);
    let root = b.root;
    let mut text = String::new();
    render(s, &root, 0, &mut text);
    if has_parse_error(&text) {
        return fail("harness: generated code does not parse", format!("{:?}", parse_errors(&text)), &text);
    }
    let a = analyze(&text, v5);
    let ds = a.diagnostics();
    let mut left: Vec<&Want> = want.iter().collect();
    let mark = |id: usize| text.find(&format!("Mark{id}x")).or_else(|| text.find(&format!("mark{id}x"))).unwrap();
    for d in &ds {
        let (x, y) = r(d.range);
        let hit = left.iter().position(|w| {
            d.message.contains(&w.text)
                && w.mark.map_or(true, |id| {
                    let m = mark(id);
                    let start = text[..m].rfind("pub ").unwrap();
                    start <= x && y <= m
                })
        });
        match hit {
            Some(i) => {
                left.remove(i);
            }
            None => {
                // Methods of trait implementations that are not those of the trait are another rule's business.
                if !impls.is_empty() && about_trait_methods(&d.message) {
                    continue;
                }
                return fail(format!("false alarm: {}", msg_kind(&d.message)), show_diag(&text, d), &text);
            }
        }
    }
    if let Some(w) = left.first() {
        return fail(format!("not reported: {}", w.what), format!("{} {:?}\n{}", w.text, w.mark, show_diags(&text, &ds)), &text);
    }
    for (msg, path) in &replaced {
        let d = ds.iter().find(|d| d.message.contains(msg)).unwrap();
        let all: Vec<&ink_analyzer::Action> = d.quickfixes.iter().flatten().collect();
        if !all.iter().any(|q| q.edits.len() == 1 && q.edits[0].text.rsplit(' ').next() == Some(path.as_str())) {
            return fail("fix with the wrong path", format!("{:?} instead of {path}", all.iter().map(|q| &q.label).collect::<Vec<_>>()), &text);
        }
    }
    // Trait implementations lead to the trait definition they name.
    if !impls.is_empty() {
        let f = InkFile::parse(&text);
        let Some(c) = f.contracts().first().cloned() else { return fail("no contract", "", &text) };
        for (id, def) in &impls {
            let m = mark(*id);
            let Some(i) = c.impls().iter().find(|i| i.syntax().text_range().contains(ts(m))) else { return fail("implementation not found", format!("mark {id}"), &text) };
            let got = i.trait_definition().and_then(|t| t.trait_item().map(|t| (t.name().map(|n| n.to_string()), r(t.syntax().text_range()))));
            let ok = match (def, &got) {
                (None, None) => true,
                (Some(d), Some((_, (x, y)))) => {
                    let p = mark(*d);
                    *x <= p && p < *y
                }
                _ => false,
            };
            if !ok {
                return fail("wrong trait definition", format!("implementation {id}: {got:?}, expected the one with {def:?}"), &text);
            }
        }
    }
    let mut labels = labels;
    labels.push(if want.is_empty() { "all right".into() } else { "wrong item".into() });
    if twins > 0 {
        labels.push("namesakes".into());
    }
    Ok(Info { nontrivial: fancy, key: fnv(text.as_bytes()), labels, sample: clip(&text), evals: evals + 1 })
}
fn about_trait_methods(m: &str) -> bool {
    m.contains("trait definition")
}
impl B<'_> {
    fn root_has_struct(&self, name: &str) -> bool {
        fn go(c: &Sc, t: &str) -> bool {
            c.parts.iter().any(|p| p == t) || c.kids.iter().any(|k| go(k, t))
        }
        go(&self.root, &format!("pub struct {name};"))
    }
}
