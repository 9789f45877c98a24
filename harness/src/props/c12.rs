//! C12: migrating a valid v4 contract yields a valid v5 contract.
use super::util::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;

pub static PROP: Prop = Prop {
    id: "C12",
    rule: "a case is a valid ink! 4 file with events, chain extensions, codec derives, host function calls and e2e tests (calls in every expression position, items imported and renamed in many ways, and look-alikes); the migrated file is compared token by token with an independent migration of the model; non-trivial: the model's migration changes something",
    quick: 5000,
    thorough: 120000,
    run,
    fixed: Some((|| FIXED.len(), fixed)),
    shrink_evals: 2500,
    assumptions: &[
        "a trailing comma may stay where a list item is removed",
        "extension ids fit ink! 5's 16 bits",
        "calls inside macro invocations are not migrated (they are token trees to the parser)",
    ],
    threads: 8,
};
/// The same code before and after migration; whether it can be followed by `.` or `?`.
#[derive(Clone, Debug)]
struct Ex {
    a: String,
    b: String,
    atom: bool,
}
fn plain(t: &str) -> Ex {
    Ex { a: t.into(), b: t.into(), atom: true }
}
/// The external items that a module imports, with the local name.
#[derive(Clone, Default)]
struct Scope {
    pretty: bool,
    /// (full path, as written in code)
    names: Vec<(String, String)>,
    /// `use` declarations before and after migration (None: removed).
    uses: Vec<(String, Option<String>)>,
}
impl Scope {
    fn paths(&self, full: &str) -> Vec<String> {
        let mut v: Vec<String> = self.names.iter().filter(|n| n.0 == full).map(|n| n.1.clone()).collect();
        v.push(full.to_string());
        if let Some(r) = full.strip_prefix("ink::env") {
            v.push(format!("ink_env{r}"));
        }
        if let Some(r) = full.strip_prefix("ink::scale_info") {
            v.push(format!("scale_info{r}"));
        } else if let Some(r) = full.strip_prefix("ink::scale") {
            v.push(format!("scale{r}"));
            v.push(format!("parity_scale_codec{r}"));
        }
        v
    }
}
fn scope(s: &mut Src, e2e: bool, pretty: bool) -> Scope {
    let mut sc = Scope { pretty, ..Default::default() };
    let opts: &[(&str, &[(&str, &str)])] = &[
        ("ink::env::call::build_call", &[("ink::env::call::build_call", "build_call")]),
        ("ink::env::call::{build_create, Call}", &[("ink::env::call::build_create", "build_create"), ("ink::env::call::Call", "Call")]),
        ("ink::env::call::build_call as bc", &[("ink::env::call::build_call", "bc")]),
        ("ink::env::call", &[("ink::env::call::build_call", "call::build_call"), ("ink::env::call::build_create", "call::build_create"), ("ink::env::call::Call", "call::Call")]),
        ("ink::env", &[("ink::env::invoke_contract", "env::invoke_contract"), ("ink::env::call::build_call", "env::call::build_call")]),
        ("ink::{env::{self as e, invoke_contract}}", &[("ink::env::invoke_contract", "invoke_contract"), ("ink::env::instantiate_contract", "e::instantiate_contract")]),
        ("ink_env::{instantiate_contract as make, call::*}", &[("ink::env::instantiate_contract", "make"), ("ink::env::call::build_create", "build_create"), ("ink::env::call::build_call", "build_call")]),
        ("ink::env::call::Call as C", &[("ink::env::call::Call", "C")]),
        ("scale::{Encode, Decode}", &[("ink::scale::Encode", "Encode"), ("ink::scale::Decode", "Decode")]),
        ("ink::scale_info::TypeInfo as Ti", &[("ink::scale_info::TypeInfo", "Ti")]),
        ("parity_scale_codec as codec", &[("ink::scale::Encode", "codec::Encode"), ("ink::scale::Decode", "codec::Decode")]),
    ];
    let n = s.below(3);
    for _ in 0..n {
        let (u, names) = opts[s.below(opts.len())];
        if sc.uses.iter().any(|x| x.0 == u) {
            continue;
        }
        // No two meanings for one local name.
        if names.iter().any(|n| sc.names.iter().any(|m| m.1.split("::").next() == n.1.split("::").next())) {
            continue;
        }
        sc.uses.push((u.into(), Some(u.into())));
        sc.names.extend(names.iter().map(|n| (n.0.to_string(), n.1.to_string())));
    }
    if e2e {
        let opts: &[(&str, Option<&str>, &[&str])] = &[
            ("ink_e2e::build_message", None, &["build_message"]),
            ("ink_e2e::{build_message, MessageBuilder}", None, &["build_message", "MessageBuilder"]),
            ("ink_e2e::{MessageBuilder, alice}", Some("ink_e2e::{alice}"), &["MessageBuilder"]),
            ("ink_e2e::{alice, build_message}", Some("ink_e2e::{alice}"), &["build_message"]),
            ("ink_e2e::{bob, MessageBuilder, alice, build_message}", Some("ink_e2e::{bob, alice}"), &["build_message", "MessageBuilder"]),
            ("{ink_e2e::build_message, std::vec}", Some("{std::vec}"), &["build_message"]),
            ("other::build_message as bm", Some("other::build_message as bm"), &[]),
            ("ink_e2e::*", Some("ink_e2e::*"), &["build_message", "MessageBuilder"]),
        ];
        if s.chance(2, 3) {
            let (u, v, names) = opts[s.below(opts.len())];
            sc.uses.push((u.into(), v.map(|x| x.to_string())));
            sc.names.extend(names.iter().map(|n| (format!("ink_e2e::{n}"), n.to_string())));
        }
    }
    sc
}
struct Gen<'a> {
    s: &'a mut Src,
    sc: Scope,
    e2e: bool,
    pretty: bool,
    /// Traits that the code needs.
    traits: Vec<&'static str>,
    changed: usize,
}
impl Gen<'_> {
    fn sub(&mut self, e: &Ex) -> (String, String) {
        if e.atom && self.s.chance(4, 5) {
            (e.a.clone(), e.b.clone())
        } else {
            (format!("({})", e.a), format!("({})", e.b))
        }
    }
    fn fill(&mut self, t: &str, d: usize, atom: bool) -> Ex {
        let (mut a, mut b) = (t.to_string(), t.to_string());
        while a.contains('@') {
            let e = self.expr(d.saturating_sub(1));
            let (x, y) = self.sub(&e);
            a = a.replacen('@', &x, 1);
            b = b.replacen('@', &y, 1);
        }
        Ex { a, b, atom }
    }
    fn path(&mut self, full: &str) -> String {
        let v = self.sc.paths(full);
        self.s.pick(&v).clone()
    }
    fn expr(&mut self, d: usize) -> Ex {
        if d == 0 {
            return match self.s.below(4) {
                0 => self.leaf(),
                _ => {
                    let t = *self.s.pick(&["x", "self.value", "1", "f(a, b)", "\"build_call()\"", "Self::env()", "self.env()", "client", "None"]);
                    plain(t)
                }
            };
        }
        let w: &[(&str, bool)] = &[
            ("Some(@)", true),
            ("(@, 1)", true),
            ("[@, 2]", true),
            ("[@; 2]", true),
            ("{ f(); @ }", false),
            ("if c { @ } else { y }", false),
            ("if @ { 1 } else if c { @ } else { @ }", false),
            ("if let Some(x) = @ { x } else { y }", false),
            ("match @ { Ok(v) => v, Err(_) => d }", false),
            ("match x { 0 if @ => 1, 1 => { @ } _ => @ }", false),
            ("loop { break @; }", false),
            ("'l: loop { if c { continue 'l; } @; }", false),
            ("while @ { f(@); }", false),
            ("for i in @ { g(i); @; }", false),
            ("|x| @", false),
            ("move |x: u8| -> u8 { @ }", false),
            ("foo(@, 2)", true),
            ("foo::<u8>(@)", true),
            ("self.set(1, @)", true),
            ("@.unwrap()", true),
            ("@?", true),
            ("&@", false),
            ("&mut @", false),
            ("*@", false),
            ("!@", false),
            ("-@", false),
            ("S { f: @, ..Default::default() }", false),
            ("S { f, ..@ }", false),
            ("x + @", false),
            ("@ == y", false),
            ("@ && c || @", false),
            ("x = @", false),
            ("x.y += @", false),
            ("@ as u8", false),
            ("a[@]", true),
            ("@[0]", true),
            ("@.0", true),
            ("@.field", true),
            ("return @", false),
            ("0..@", false),
            ("@..=9", false),
            ("unsafe { @ }", false),
            ("async move { @ }", false),
            ("{ let y = @; y }", false),
            ("{ let (a, b): (u8, u8) = (@, @); a + b }", false),
            ("{ let Some(z) = @ else { return @; }; z }", false),
            ("'b: { break 'b @; }", false),
            ("{ @; }", false),
            ("@.await", true),
            ("@.await?", true),
            ("@", true),
        ];
        match self.s.below(5) {
            0 | 1 => self.leaf(),
            _ => {
                let (t, atom) = w[self.s.below(w.len())];
                self.fill(t, d, atom)
            }
        }
    }
    /// Something that is migrated, or looks as if it were.
    fn leaf(&mut self) -> Ex {
        if self.e2e && self.s.chance(3, 4) {
            return self.e2e_leaf();
        }
        if self.s.chance(1, 5) {
            let t = *self.s.pick(&[
                "my::build_call::<E>().call(x)",
                "self.build_call().call(x)",
                "foo.call(x)",
                "Other::env().invoke_contract(p)",
                "other.env().invoke_contract(p)",
                "self.other().invoke_contract(p)",
                "self.invoke_contract(p)",
                "my::invoke_contract(p)",
                "self.env().caller()",
                "Self::env().transfer(a, 1)",
                "self.env().invoke_contract_delegate(&p)",
                "Self::env().invoke_contract_delegate(p)",
                "self.env().invoke_contract_v1(&p)",
                "Self::env().instantiate_contract_v1(&p)",
                "self.env().instantiate(p)",
                "ink::env::invoke_contract_delegate(&p)",
                "ink::env::instantiate_contract_v1::<E, C, A, S, R>(&p)",
                "ink::env::call::CallV1::new(a)",
                "ink::env::call::DelegateCall::new(a)",
                "self.env().emit_event(invoke_contract)",
                "self.invoke_contract",
                "my::Call::new(a)",
                "Call2::new(a)",
                "ink::env::call::build_call_v2()",
                "ink::env::transfer(a)",
                "my_build_create()",
            ]);
            return plain(t);
        }
        self.changed += 1;
        let form = self.s.below(6);
        let arg = if form != 1 && self.s.chance(1, 4) { self.expr(1) } else { plain(*self.s.pick(&["&p", "x", "AccountId::from([0x42; 32])"])) };
        let gen = *self.s.pick(&["", "::<DefaultEnvironment>", "::<FooRef>", "::<Vec<u8>>", "::<<Env as T>::E>"]);
        match form {
            0 => {
                let p = self.path("ink::env::call::build_call");
                let mut pre: Vec<String> = vec![];
                for m in ["gas_limit(5000)", "call_type(x)", "transferred_value(10)", "returns::<bool>()", "call_flags(CallFlags::default())"] {
                    if self.s.chance(1, 5) {
                        pre.push(m.into());
                    }
                }
                self.s.shuffle(&mut pre);
                let k = self.s.below(pre.len() + 1);
                let post = pre.split_off(k);
                let dot = |v: &[String]| v.iter().map(|m| format!(".{m}")).collect::<String>();
                let (x, y) = (arg.a, arg.b);
                let tail = *self.s.pick(&["", ".invoke()", ".try_invoke()", ".params()", ".exec_input(ExecutionInput::new(s).push_arg(1)).invoke()"]);
                let f = |c: &str, z: &str| format!("{p}{gen}(){}.{c}({z}){}{tail}", dot(&pre), dot(&post));
                Ex { a: f("call", &x), b: f("call_v1", &y), atom: true }
            }
            1 => {
                let p = self.path("ink::env::call::build_create");
                let tail = *self.s.pick(&["", ".code_hash(h).endowment(1).instantiate()", ".params()"]);
                Ex { a: format!("{p}{gen}(){tail}"), b: format!("{p}{gen}().instantiate_v1(){tail}"), atom: true }
            }
            2 | 3 => {
                let n = *self.s.pick(&["instantiate_contract", "invoke_contract"]);
                let p = self.path(&format!("ink::env::{n}"));
                // The name in the code is replaced (an alias is renamed as well).
                Ex { a: format!("{p}{gen}({})", arg.a), b: format!("{p}_v1{gen}({})", arg.b), atom: true }
            }
            4 => {
                let p = self.path("ink::env::call::Call");
                Ex { a: format!("{p}{gen}::new({})", arg.a), b: format!("ink::env::call::CallV1{gen}::new({})", arg.b), atom: true }
            }
            _ => {
                let n = *self.s.pick(&["instantiate_contract", "invoke_contract"]);
                let e = *self.s.pick(&["self.env()", "Self::env()"]);
                let g = *self.s.pick(&["", "::<u8>"]);
                Ex { a: format!("{e}.{n}{g}({})", arg.a), b: format!("{e}.{n}_v1{g}({})", arg.b), atom: true }
            }
        }
    }
    fn e2e_leaf(&mut self) -> Ex {
        let signer = *self.s.pick(&["&ink_e2e::alice()", "&signer", "&mut bob"]);
        let value = *self.s.pick(&["0", "0u128", "0x0", "10", "value", "1_000 * 2", "zero()"]);
        let v5v = if matches!(value, "0" | "0u128" | "0x0") { String::new() } else { format!(".value({value})") };
        // Known finding: a path with spaces in it is not recognized.
        let n = if self.pretty { 5 } else { 3 };
        let (limit, v5l) = [("None", ""), ("Some(5)", ".storage_deposit_limit(5)"), ("limit", ".storage_deposit_limit(limit)"), ("Option::None", ""), ("Option::Some(a + b)", ".storage_deposit_limit(a + b)")][self.s.below(n)];
        let tail = *self.s.pick(&["", ".await", ".await.expect(\"failed\")", ".await?"]);
        // A dry run is awaited at once (its result is unwrapped there).
        let dry = self.s.chance(1, 3);
        let tail = if dry && tail.is_empty() { ".await" } else { tail };
        let q = |b: String, dry: bool| if dry && tail.starts_with(".await") { format!("{b}.await?{}", &tail[6..]) } else { format!("{b}{tail}") };
        match self.s.below(9) {
            0 | 1 => {
                let m = if dry { "instantiate_dry_run" } else { "instantiate" };
                let c = *self.s.pick(&["constructor", "FlipperRef::new(true)", "&mut c"]);
                self.need("Contracts");
                let fin = if dry { ".dry_run()" } else { ".submit()" };
                Ex { a: format!("client.{m}(\"flipper\", {signer}, {c}, {value}, {limit}){tail}"), b: q(format!("client.{m}(\"flipper\", {signer}, {c}){v5v}{v5l}{fin}"), dry), atom: true }
            }
            2 | 3 => {
                let m = if dry { "call_dry_run" } else { "call" };
                self.need("Contracts");
                let fin = if dry { ".dry_run()" } else { ".submit()" };
                Ex { a: format!("client.{m}({signer}, &get, {value}, {limit}){tail}"), b: q(format!("client.{m}({signer}, &get){v5v}{v5l}{fin}"), dry), atom: true }
            }
            4 => {
                self.need("Contracts");
                Ex { a: format!("client.upload(\"flipper\", {signer}, {limit}){tail}"), b: format!("client.upload(\"flipper\", {signer}){v5l}.submit(){tail}"), atom: true }
            }
            5 => {
                self.need("Chain");
                Ex { a: format!("client.balance(acc){tail}"), b: format!("client.free_balance(acc){tail}"), atom: true }
            }
            6 => {
                self.need("Chain");
                let t = *self.s.pick(&["client.create_and_fund_account(&ink_e2e::alice(), 10)", "client.runtime_call(&signer, \"Balances\", \"transfer\", vec![])"]);
                plain(t)
            }
            7 => {
                let t = *self.s.pick(&["client.call(a)", "client.other(1, 2, 3)", "x.message(1).dry_run()", "my::build_message(acc).call(|c| c.get())", "client.balance()", "call_builder.get()"]);
                plain(t)
            }
            _ => {
                self.changed += 1;
                let m = *self.s.pick(&["get()", "set(1, &x)", "transfer::<u8>(a)"]);
                // Generic arguments of the message are inferred in ink! 5's builder.
                let m = if m.contains("::<") { "transfer(a)" } else { m };
                let cb = *self.s.pick(&["|c| c.@", "|flipper| { flipper.@ }", "|c| { return c.@; }", "|c| return c.@"]);
                let cb = cb.replace('@', m);
                let (a, b) = if self.s.bool() {
                    let p = self.path("ink_e2e::build_message");
                    let g = *self.s.pick(&["", "::<FlipperRef>", "::<foo::Bar<u8>>"]);
                    (format!("{p}{g}(acc.clone())"), format!("ink_e2e::create_call_builder{g}(acc.clone())"))
                } else {
                    let p = self.path("ink_e2e::MessageBuilder");
                    (format!("{p}::<ink_e2e::PolkadotConfig, FlipperRef>::from_account_id(acc)"), "ink_e2e::create_call_builder::<FlipperRef>(acc)".into())
                };
                if self.s.chance(1, 5) {
                    Ex { a, b, atom: true }
                } else {
                    Ex { a: format!("{a}.call({cb})"), b: format!("{b}.{m}"), atom: true }
                }
            }
        }
    }
    fn need(&mut self, t: &'static str) {
        self.changed += 1;
        if !self.traits.contains(&t) {
            self.traits.push(t);
        }
    }
    /// A function body.
    fn body(&mut self) -> (String, String) {
        let (mut a, mut b) = (String::new(), String::new());
        for _ in 0..self.s.range(1, 3) {
            let d = self.s.below(4);
            let t = *self.s.pick(&["let x = @;", "@;", "let r: Result<(), u8> = @;", "let _ = (@, 1);", "f(@);"]);
            let e = self.fill(t, d, false);
            // A statement must not start with a block-like or closure expression in one form only; both start the same.
            a += &e.a;
            a.push(' ');
            b += &e.b;
            b.push(' ');
        }
        if self.s.bool() {
            let d = self.s.below(3);
            let e = self.expr(d);
            let (x, y) = self.sub(&e);
            a += &x;
            b += &y;
        }
        if !self.e2e && self.s.chance(1, 8) {
            let e = self.leaf();
            a = format!("fn inner() {{ {}; }} {a}", e.a);
            b = format!("fn inner() {{ {}; }} {b}", e.b);
        }
        (a, b)
    }
}
fn use_item(f: &mut File, u: &str) -> Item {
    Item { id: f.id(), role: Role::Plain, attrs: vec![], vis: None, name: String::new(), kind: Kind::Use(u.into()) }
}
/// Splits at top-level commas.
fn commas(t: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut depth = 0;
    for c in t.chars() {
        match c {
            '(' | '<' | '[' => depth += 1,
            ')' | '>' | ']' => depth -= 1,
            _ => (),
        }
        if c == ',' && depth == 0 {
            out.push(String::new());
        } else {
            out.last_mut().unwrap().push(c);
        }
    }
    out.into_iter().map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect()
}
/// The codec traits in a `derive(..)` list and the rest.
fn split_derive(list: &str, sc: &Scope) -> (Vec<&'static str>, Vec<String>) {
    let (mut found, mut rest) = (vec![], vec![]);
    for x in commas(list) {
        let hit = [("Encode", "ink::scale::Encode"), ("Decode", "ink::scale::Decode"), ("TypeInfo", "ink::scale_info::TypeInfo")].into_iter().find(|(_, p)| sc.paths(p).contains(&x));
        match hit {
            Some((n, _)) => found.push(n),
            None => rest.push(x),
        }
    }
    (found, rest)
}
/// Migrates the derive attributes of an item.
fn derives(f: &mut File, attrs: &mut Vec<Attr>, sc: &Scope) -> bool {
    let mut all: Vec<&'static str> = vec![];
    let mut at = None;
    let mut out = vec![];
    for a in attrs.iter() {
        let mut a = a.clone();
        if let AttrKind::Raw(t) = &a.kind {
            let new = if let Some(l) = t.strip_prefix("derive(").and_then(|x| x.strip_suffix(')')) {
                let (found, rest) = split_derive(l, sc);
                (!found.is_empty()).then(|| {
                    all.extend(found);
                    (!rest.is_empty()).then(|| format!("derive({})", rest.join(", ")))
                })
            } else if let Some(l) = t.strip_prefix("cfg_attr(").and_then(|x| x.strip_suffix(')')) {
                let mut parts = commas(l);
                let i = parts.iter().position(|p| p.starts_with("derive("));
                i.and_then(|i| {
                    let l = parts[i].strip_prefix("derive(").unwrap().strip_suffix(')').unwrap().to_string();
                    let (found, rest) = split_derive(&l, sc);
                    (!found.is_empty()).then(|| {
                        all.extend(found);
                        if !rest.is_empty() {
                            parts[i] = format!("derive({})", rest.join(", "));
                        } else {
                            parts.remove(i);
                        }
                        (parts.len() > 1).then(|| format!("cfg_attr({})", parts.join(", ")))
                    })
                })
            } else {
                None
            };
            if let Some(new) = new {
                at.get_or_insert(out.len());
                match new {
                    Some(t) => a.kind = AttrKind::Raw(t),
                    None => continue,
                }
            }
        }
        out.push(a);
    }
    if let Some(i) = at {
        let args = all.iter().map(|n| arg(f, n, Val::None)).collect();
        let m = mac(f, "ink::scale_derive", args);
        out.insert(i, m);
        *attrs = out;
        return true;
    }
    false
}
/// Gives a codec type other forms of derives.
fn vary_derives(s: &mut Src, f: &mut File, i: &mut Item, sc: &Scope) {
    let pos = i.attrs.iter().position(|a| matches!(&a.kind, AttrKind::Raw(t) if t.contains("scale")));
    let Some(pos) = pos else { return };
    if !s.chance(2, 3) {
        return;
    }
    i.attrs.retain(|a| !matches!(&a.kind, AttrKind::Raw(t) if t.contains("scale")));
    let mut p = |s: &mut Src, full: &str| {
        let v = sc.paths(full);
        s.pick(&v).clone()
    };
    let (e, d, t) = (p(s, "ink::scale::Encode"), p(s, "ink::scale::Decode"), p(s, "ink::scale_info::TypeInfo"));
    let forms: Vec<Vec<String>> = vec![
        vec![format!("derive({e}, {d}, {t})")],
        vec![format!("derive({d}, Debug, {e}, {t},)")],
        vec![format!("derive(Debug, Clone, {t}, {d}, {e}, PartialEq)")],
        vec![format!("derive({e})"), format!("derive({d}, {t})")],
        vec![format!("derive({d}, {e})"), format!("cfg_attr(feature = \"std\", derive({t}))")],
        vec![format!("cfg_attr(feature = \"std\", derive({t}, ink::storage::traits::StorageLayout))"), format!("derive(Clone, {e}, {d})")],
        vec![format!("derive({e}, {d})"), format!("cfg_attr(feature = \"std\", derive({t}), allow(dead_code))")],
        vec![format!("derive({e}, {d}, Clone)"), format!("cfg_attr(feature = \"std\", allow(unused), derive({t}))")],
        vec![format!("cfg_attr(all(feature = \"std\", not(test)), derive({t}, {e}, {d}))")],
        vec!["derive(Clone)".into(), format!("derive({e}, {d})"), "derive(Debug)".into(), format!("derive({t})")],
    ];
    let form = s.pick(&forms).clone();
    let at = pos.min(i.attrs.len());
    for (k, t) in form.iter().enumerate() {
        let a = raw_attr(f, t);
        i.attrs.insert(at + k, a);
    }
}
/// Prepares the items of one module (before) and returns them as they have to be after.
fn module(s: &mut Src, f: &mut File, items: &mut Vec<Item>, e2e: bool, pretty: bool, changed: &mut usize) -> Vec<Item> {
    let sc = scope(s, e2e, pretty);
    let mut gone = vec![];
    let mut kept: Vec<(Id, String)> = vec![];
    for (u, v) in &sc.uses {
        let it = use_item(f, u);
        match v {
            None => gone.push(it.id),
            Some(v) => {
                if v != u {
                    *changed += 1;
                }
                kept.push((it.id, v.clone()))
            }
        }
        let at = if s.chance(1, 3) { s.below(items.len() + 1) } else { 0 };
        items.insert(at, it);
    }
    *changed += gone.len();
    let mut traits: Vec<&'static str> = vec![];
    let mut out: Vec<Item> = vec![];
    for i in items.iter_mut() {
        let mut j = one(s, f, i, &sc, &mut traits, changed);
        if gone.contains(&i.id) {
            continue;
        }
        if let Some((_, v)) = kept.iter().find(|k| k.0 == i.id) {
            j.kind = Kind::Use(v.clone());
        }
        // Events move in front of their contract.
        if i.role == Role::Contract {
            let mut events = vec![];
            if let Some(cs) = j.children_mut() {
                let (ev, rest): (Vec<Item>, Vec<Item>) = std::mem::take(cs).into_iter().partition(|c| c.role == Role::Event);
                *cs = rest;
                events = ev;
            }
            for e in &mut events {
                *changed += 1;
                let anon = e.ink_arg("anonymous").is_some();
                let keep = e.attrs.iter().position(|a| a.kind == AttrKind::Ink && a.args.iter().any(|x| x.name == "event"));
                let mut attrs = vec![];
                for (k, a) in e.attrs.iter().enumerate() {
                    if Some(k) == keep {
                        let args = if anon { vec![arg(f, "anonymous", Val::None)] } else { vec![] };
                        let mut m = mac(f, "ink::event", args);
                        m.parens = false;
                        attrs.push(m);
                    } else if a.kind != AttrKind::Ink {
                        attrs.push(a.clone());
                    }
                }
                e.attrs = attrs;
                let u = use_item(f, &format!("super::{}", e.name));
                if let Some(cs) = j.children_mut() {
                    // After the last import (ordered as the events are).
                    let at = cs.iter().rposition(|c| matches!(c.kind, Kind::Use(_))).map_or(0, |p| p + 1);
                    cs.insert(at, u);
                }
            }
            out.extend(events);
        }
        out.push(j);
    }
    traits.sort();
    // After the last import (the deleted ones counted).
    let last_use = items.iter().rposition(|c| matches!(c.kind, Kind::Use(_)));
    let at = match last_use {
        None => 0,
        Some(p) => {
            let before: Vec<Id> = items[..=p].iter().map(|i| i.id).collect();
            out.iter().rposition(|o| before.contains(&o.id)).map_or(0, |p| p + 1)
        }
    };
    for t in traits.iter().rev() {
        let u = use_item(f, &format!("ink_e2e::{t}Backend"));
        out.insert(at, u);
    }
    out
}
fn one(s: &mut Src, f: &mut File, i: &mut Item, sc: &Scope, traits: &mut Vec<&'static str>, changed: &mut usize) -> Item {
    if !matches!(i.role, Role::Event) {
        vary_derives(s, f, i, sc);
    }
    // Bodies.
    let mut after = None;
    if let Some(fun) = i.fun_mut() {
        if fun.body.is_some() && s.chance(2, 3) {
            let e2e = i.role == Role::E2E;
            let mut g = Gen { s, sc: sc.clone(), e2e, pretty: sc.pretty, traits: vec![], changed: 0 };
            let (mut a, mut b) = g.body();
            *changed += g.changed;
            for t in g.traits {
                if !traits.contains(&t) {
                    traits.push(t);
                }
            }
            if e2e {
                a += if a.ends_with("; ") || a.is_empty() { "Ok(())" } else { "" };
                b += if b.ends_with("; ") || b.is_empty() { "Ok(())" } else { "" };
            }
            if let Some(fun) = i.fun_mut() {
                fun.body_expr = a;
            }
            after = Some(b);
        }
    }
    let mut j = i.clone();
    if derives(f, &mut j.attrs, sc) {
        *changed += 1;
    }
    if let (Some(b), Some(fun)) = (after, j.fun_mut()) {
        fun.body_expr = b;
    }
    match i.role {
        Role::E2E => {
            *changed += 1;
            for a in &mut j.attrs {
                if matches!(a.kind, AttrKind::Macro(_)) {
                    let n = a.args.len();
                    a.args.retain(|x| !matches!(x.name.as_str(), "additional_contracts" | "keep_attr"));
                    if a.args.is_empty() && n > 0 {
                        a.parens = false;
                        a.trailing_comma = false;
                    }
                }
            }
            if let Some(fun) = j.fun_mut() {
                fun.generics = Some("<Client: E2EBackend>".into());
                fun.params = vec![("mut client".into(), "Client".into())];
            }
        }
        Role::ChainExt => {
            *changed += 1;
        }
        Role::ExtFn => {
            for a in &mut j.attrs {
                for x in &mut a.args {
                    if x.name == "extension" {
                        x.name = "function".into();
                    }
                }
            }
        }
        _ => (),
    }
    // Inside.
    let in_mod = matches!(i.kind, Kind::Mod(Some(_)));
    if let Some(cs) = i.children_mut() {
        let new = if in_mod {
            let e2e = cs.iter().any(|c| c.role == Role::E2E);
            module(s, f, cs, e2e, sc.pretty, changed)
        } else {
            cs.iter_mut().map(|c| one(s, f, c, sc, traits, changed)).collect()
        };
        if let Some(js) = j.children_mut() {
            *js = new;
        }
    }
    j
}
/// Gives the chain extensions ids.
fn chain_ids(f: &mut File) {
    let mut id = 0;
    let mut items = std::mem::take(&mut f.items);
    for i in &mut items {
        i.walk_mut(&mut |i| {
            if i.role == Role::ChainExt {
                id += 1;
                let v = eq(f, "extension", &id.to_string());
                for a in &mut i.attrs {
                    if matches!(a.kind, AttrKind::Macro(_)) {
                        a.args.push(v.clone());
                        a.trailing_comma = false;
                    }
                }
            }
        });
    }
    f.items = items;
}
/// Without optional commas, and with the imports of the e2e traits in order.
fn norm(text: &str) -> Vec<String> {
    let v = tokens(text);
    let mut out: Vec<String> = vec![];
    for t in v {
        if matches!(t.as_str(), ")" | "}" | "]") && out.last().is_some_and(|x| x == ",") {
            out.pop();
        }
        out.push(t);
    }
    let is_use = |w: &[String]| w[0] == "use" && w[1] == "ink_e2e" && w[3].ends_with("Backend") && w[4] == ";";
    let mut i = 0;
    while i + 10 <= out.len() {
        if is_use(&out[i..i + 5]) && is_use(&out[i + 5..i + 10]) && out[i + 3] > out[i + 8] {
            out.swap(i + 3, i + 8);
        }
        i += 1;
    }
    out
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    let opts = Opts { migratable: true, wildcard: false, ..Opts::default() };
    let mut f = valid_file(s, false, opts);
    let mut changed = 0;
    let mut items = std::mem::take(&mut f.items);
    let style = Style::random(s);
    let after = module(s, &mut f, &mut items, false, style.layout == Layout::Pretty, &mut changed);
    f.items = items;
    let mut f5 = f.clone();
    f5.items = after;
    f5.v5 = true;
    chain_ids(&mut f5);
    let d = render(&f, s, &style);
    let e = render(&f5, s, &Style { layout: Layout::Pretty, density: 0, comments: false });
    set_current(&d.text);
    if let Some(x) = parse_errors(&d.text).first().or(parse_errors(&e.text).first()) {
        return fail(format!("generator: unparsable {}", normalize(x)), x.clone(), format!("{}\n// ===== expected:\n{}", d.text, e.text));
    }
    // The Rust parser dependency attaches doc comments depending on the plain comments and empty lines after them.
    let conventional = render(&f, s, &Style { layout: Layout::Pretty, density: 0, comments: false });
    if style.comments && super::c19::shape(&d.text) != super::c19::shape(&conventional.text) {
        return Ok(Info { nontrivial: false, key: 0, labels: vec!["Rust parser differs".into()], sample: String::new(), evals: 1 });
    }
    check(&d.text, &e.text)?;
    let mut labels = labels_for(&f);
    labels.push(format!("layout:{:?}", style.layout));
    Ok(Info { nontrivial: changed > 0, key: fnv(d.text.as_bytes()), labels, sample: clip(&d.text), evals: 3 })
}
fn check(before: &str, expected: &str) -> Result<(), Fail> {
    let a = analyze(before, false);
    let ds = a.diagnostics();
    if let Some(x) = ds.first() {
        return fail(format!("flagged before: {}", msg_kind(&x.message)), show_diags(before, &ds), before.to_string());
    }
    let edits = a.migrate();
    let Some(out) = apply(before, &edits) else {
        return fail("edits do not apply", format!("{edits:?}"), before.to_string());
    };
    let show = || format!("{before}\n// ===== migrated:\n{out}\n// ===== expected:\n{expected}");
    if let Some(e) = parse_errors(&out).first() {
        return fail(format!("does not parse: {}", normalize(e)), e.clone(), show());
    }
    let (x, y) = (norm(&out), norm(expected));
    if x != y {
        return fail("migrated differently", diff(&x, &y), show());
    }
    let ds = analyze(&out, true).diagnostics();
    if let Some(x) = ds.first() {
        return fail(format!("flagged after: {}", msg_kind(&x.message)), show_diags(&out, &ds), show());
    }
    Ok(())
}
/// (name, body of an e2e test before and after)
const FIXED: &[(&str, &str, &str)] = &[
    ("call of another object", "other.call(a, b, c, None); Ok(())", "other.call(a, b, c, None); Ok(())"),
    (
        "message built in the arguments",
        "client.call(&alice, &ink_e2e::build_message::<R>(acc).call(|c| c.get()), 0, None).await; Ok(())",
        "client.call(&alice, &ink_e2e::create_call_builder::<R>(acc).get()).submit().await; Ok(())",
    ),
    ("path with spaces", "client.call(&alice, &get, 0, Option :: None).await; Ok(())", "client.call(&alice, &get).submit().await; Ok(())"),
];
fn fixed(i: usize) -> Result<Info, Fail> {
    let (name, before, after) = FIXED[i];
    let traits = if after.contains("client") { "use ink_e2e::ContractsBackend;" } else { "" };
    let before = &format!("#[cfg(all(test, feature = \"e2e-tests\"))]\nmod t {{\n    use super::*;\n    #[ink_e2e::test]\n    async fn t(mut client: ink_e2e::Client<C, E>) -> E2EResult<()> {{ {before} }}\n}}\n");
    let after = &format!("#[cfg(all(test, feature = \"e2e-tests\"))]\nmod t {{\n    use super::*;{traits}\n    #[ink_e2e::test]\n    async fn t<Client: E2EBackend>(mut client: Client) -> E2EResult<()> {{ {after} }}\n}}\n");
    check(before, after).map_err(|f| Fail { sig: format!("{name}: {}", f.sig), ..f })?;
    Ok(Info { nontrivial: true, key: fnv(before.as_bytes()), labels: vec!["fixed".into()], sample: clip(before), evals: 3 })
}
