//! Generator of valid ink! files (v4 and v5), as models with ground truth.

use crate::core::Src;
use crate::model::*;
use std::collections::HashSet;

pub struct G<'a> {
    pub s: &'a mut Src,
    pub f: File,
    used: HashSet<String>,
    used_ids: HashSet<u32>,
    pub opts: Opts,
    /// Names of root-level (codec capable) ADTs.
    pub adts: Vec<String>,
    pub traits: Vec<(String, Item)>,
    pub envs: Vec<String>,
}
#[derive(Clone)]
pub struct Opts {
    pub contract: bool,
    pub max_extra: usize,
    pub decoys: bool,
    /// Bodies may use v4 host functions / e2e API (migration).
    pub migratable: bool,
    pub unicode: bool,
    /// Use only literal forms that are the most common ones.
    pub wildcard: bool,
    pub tests: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { contract: true, max_extra: 3, decoys: true, migratable: false, unicode: true, wildcard: true, tests: true }
    }
}

pub const TYPES: &[&str] = &[
    "bool", "u8", "u32", "u128", "i64", "Balance", "AccountId", "Hash", "Vec<u8>", "Option<u32>", "[u8; 32]", "(u8, bool)", "String",
    "Result<(), u8>", "Option<Vec<(AccountId, u128)>>", "ink::prelude::vec::Vec<u8>", "BTreeMap<u8, Vec<bool>>",
];
const SNAKE: &[&str] = &["get", "flip", "transfer", "value", "total_supply", "new", "init", "inc", "balance_of", "approve", "set_code", "message", "storage", "event_of", "ink", "contract", "default_", "payable_fn", "selector", "topic", "impl_", "r#match", "r#move"];
const SNAKE_U: &[&str] = &["größe", "値", "naïve_sum"];
const PASCAL: &[&str] = &["Flipper", "Token", "Erc20", "Incrementer", "Transfer", "Approval", "Storage", "Event", "Message", "Ink", "Config", "Status", "MyError", "Psp22", "Dao"];
const PASCAL_U: &[&str] = &["Ünit", "Größe"];
const DOCS: &[&str] = &["Does things.", "`#[ink(message)]` is not here.", "Größe → 値 🦀", "See https://use.ink", "", "- item: `ink::contract`"];
const OTHER_ATTRS: &[&str] = &[
    "allow(dead_code)",
    "cfg(feature = \"std\")",
    "cfg_attr(feature = \"std\", derive(Debug, ink::storage::traits::StorageLayout))",
    "doc = \"ink(storage)\"",
    "inline",
    "rustfmt::skip",
    "allow(clippy::new_without_default, ink)",
    "not_ink::contract",
    "deprecated(note = \"ink(message)\")",
    "must_use",
];

/// One of the ways to write an integer.
pub fn int_literal(s: &mut Src, v: u32) -> String {
    match s.below(10) {
        0..=2 => format!("{v}"),
        3 => format!("{v:#X}").replace("0X", "0x"),
        4 => format!("{v:#010x}"),
        5 => {
            let h = format!("{v:08X}");
            format!("0x{}_{}", &h[..4], &h[4..])
        }
        6 => format!("{v}u32"),
        7 => format!("{v:#b}"),
        8 => format!("{v:#o}"),
        _ => {
            let d = format!("{v}");
            let k = d.len() / 2;
            if k > 0 { format!("{}_{}", &d[..k], &d[k..]) } else { format!("0x{v:x}") }
        }
    }
}
pub fn arg(f: &mut File, name: &str, val: Val) -> Arg {
    Arg { id: f.id(), name: name.into(), val }
}
pub fn eq(f: &mut File, name: &str, v: &str) -> Arg {
    arg(f, name, Val::Eq(v.into()))
}
pub fn ink(f: &mut File, args: Vec<Arg>) -> Attr {
    Attr { id: f.id(), kind: AttrKind::Ink, args, parens: true, trailing_comma: false }
}
pub fn mac(f: &mut File, path: &str, args: Vec<Arg>) -> Attr {
    Attr { id: f.id(), kind: AttrKind::Macro(path.into()), args, parens: false, trailing_comma: false }
}
pub fn raw_attr(f: &mut File, s: &str) -> Attr {
    Attr { id: f.id(), kind: AttrKind::Raw(s.into()), args: vec![], parens: false, trailing_comma: false }
}
pub fn fun() -> Fun {
    Fun { quals: vec![], generics: None, recv: None, params: vec![], variadic: false, ret: None, body: Some(vec![]), body_expr: String::new() }
}

impl<'a> G<'a> {
    pub fn new(s: &'a mut Src, v5: bool, opts: Opts) -> Self {
        G {
            s,
            f: File { v5, items: vec![], next_id: 0 },
            used: HashSet::new(),
            used_ids: HashSet::new(),
            opts,
            adts: vec![],
            traits: vec![],
            envs: vec![],
        }
    }
    pub fn v5(&self) -> bool {
        self.f.v5
    }
    pub fn unique_name(&mut self, base: &str) -> String {
        self.unique(base)
    }
    fn unique(&mut self, base: &str) -> String {
        let mut n = base.to_string();
        let mut k = 1;
        while !self.used.insert(n.clone()) {
            k += 1;
            n = format!("{base}{k}");
        }
        n
    }
    pub fn snake(&mut self) -> String {
        let b = if self.opts.unicode && self.s.chance(1, 12) { *self.s.pick(SNAKE_U) } else { *self.s.pick(SNAKE) };
        self.unique(b)
    }
    pub fn pascal(&mut self) -> String {
        let b = if self.opts.unicode && self.s.chance(1, 14) { *self.s.pick(PASCAL_U) } else { *self.s.pick(PASCAL) };
        self.unique(b)
    }
    pub fn ty(&mut self) -> String {
        self.s.pick(TYPES).to_string()
    }
    fn doc(&mut self) -> Attr {
        let d = self.s.pick(DOCS).to_string();
        Attr { id: self.f.id(), kind: AttrKind::Doc(d), args: vec![], parens: false, trailing_comma: false }
    }
    fn other_attr(&mut self) -> Attr {
        if self.s.chance(1, 2) {
            self.doc()
        } else {
            let r = *self.s.pick(OTHER_ATTRS);
            raw_attr(&mut self.f, r)
        }
    }
    /// Interleaves ink! attributes with unrelated ones.
    pub fn decorate(&mut self, inks: Vec<Attr>) -> Vec<Attr> {
        let mut out = Vec::new();
        for a in inks {
            if self.opts.decoys && self.s.chance(1, 4) {
                out.push(self.other_attr());
            }
            out.push(a);
        }
        if self.opts.decoys && self.s.chance(1, 5) {
            out.push(self.other_attr());
        }
        out
    }
    /// Splits `primary` + complementary args over one or more `#[ink(..)]` attributes.
    pub fn split_args(&mut self, primary: Arg, mut rest: Vec<Arg>) -> Vec<Attr> {
        self.s.shuffle(&mut rest);
        let mut attrs: Vec<Vec<Arg>> = vec![vec![primary]];
        for a in rest {
            if self.s.chance(1, 3) {
                attrs.push(vec![a]);
            } else {
                attrs.last_mut().unwrap().push(a);
            }
        }
        attrs
            .into_iter()
            .map(|v| {
                let mut a = ink(&mut self.f, v);
                a.trailing_comma = self.s.chance(1, 10);
                a
            })
            .collect()
    }
    pub fn macro_attr(&mut self, path: &str, mut args: Vec<Arg>) -> Attr {
        self.s.shuffle(&mut args);
        let mut a = mac(&mut self.f, path, args);
        a.parens = self.s.chance(1, 10);
        a.trailing_comma = self.s.chance(1, 10);
        a
    }
    pub fn item(&mut self, role: Role, attrs: Vec<Attr>, vis: Option<&str>, name: &str, kind: Kind) -> Item {
        Item { id: self.f.id(), role, attrs, vis: vis.map(|s| s.to_string()), name: name.into(), kind }
    }
    pub fn vis_opt(&mut self) -> Option<&'static str> {
        *self.s.pick(&[None, Some("pub"), Some("pub(crate)"), Some("pub (super)")])
    }
    pub fn params(&mut self, max: usize) -> Vec<(String, String)> {
        let n = self.s.below(max + 1);
        (0..n)
            .map(|i| {
                let b = *self.s.pick(&["to", "amount", "from", "_x", "self_", "data"]);
                let m = if self.s.chance(1, 10) { "mut " } else { "" };
                (format!("{m}{b}{i}"), self.ty())
            })
            .collect()
    }
    pub fn plain(&mut self) -> Item {
        let k = self.s.below(11);
        let attrs = self.decorate(vec![]);
        match k {
            0 => self.item(Role::Plain, attrs, None, "", Kind::Use("ink::prelude::vec::Vec".into())),
            1 => self.item(Role::Plain, attrs, None, "", Kind::Use("ink::storage::{Mapping, Lazy as L}".into())),
            2 => {
                let n = self.snake().to_uppercase().replace("R#", "R_");
                self.item(Role::Plain, attrs, Some("pub"), &n, Kind::Const { ty: "u32".into(), val: Some("42".into()) })
            }
            3 => {
                let n = self.snake();
                let p = self.params(2);
                let mut f = fun();
                f.params = p;
                f.body_expr = self.body();
                self.item(Role::Plain, attrs, None, &n, Kind::Fn(f))
            }
            4 => {
                let n = self.pascal();
                let fs = self.fields(3, false);
                self.item(Role::Plain, attrs, Some("pub"), &n, Kind::Struct { generics: None, fields: Fields::Named(fs) })
            }
            5 => {
                let n = self.pascal();
                self.item(Role::Plain, attrs, Some("pub"), &n, Kind::Enum { variants: vec!["A".into(), "B(u8)".into(), "C { x: u32 }".into()] })
            }
            6 => {
                let n = self.pascal();
                self.item(Role::Plain, attrs, None, &n, Kind::TypeAlias { generics: None, bounds: None, ty: Some("core::result::Result<u8, ()>".into()) })
            }
            7 => {
                let n = self.pascal();
                let m = self.snake();
                let mut f = fun();
                f.recv = Some("&self".into());
                f.body = None;
                let fi = self.item(Role::Plain, vec![], None, &m, Kind::Fn(f));
                self.item(Role::Plain, attrs, None, &n, Kind::Trait { quals: vec![], generics: None, supers: None, items: vec![fi] })
            }
            8 => self.item(Role::Plain, attrs, None, "", Kind::Raw("macro_rules! m { () => { #[ink(message)] fn x() {} }; }".into())),
            9 => {
                let n = self.snake().replace("r#", "r_");
                let c = self.item(Role::Plain, vec![], None, "", Kind::Use("super::*".into()));
                self.item(Role::Plain, attrs, None, &n, Kind::Mod(Some(vec![c])))
            }
            _ => {
                let m = self.snake();
                let mut f = fun();
                f.recv = Some("&self".into());
                f.body_expr = self.body();
                let fi = self.item(Role::Plain, vec![], None, &m, Kind::Fn(f));
                self.item(
                    Role::Plain,
                    attrs,
                    None,
                    "",
                    Kind::Impl { quals: vec![], generics: Some("<T>".into()), trait_: Some("Clone".into()), self_ty: "Wrapper".into(), self_generics: Some("<T>".into()), items: vec![fi] },
                )
            }
        }
    }
    pub fn fields(&mut self, max: usize, topics: bool) -> Vec<Field> {
        let n = self.s.below(max + 1);
        (0..n)
            .map(|i| {
                let inks = if topics && self.s.chance(1, 3) {
                    let a = arg(&mut self.f, "topic", Val::None);
                    vec![ink(&mut self.f, vec![a])]
                } else {
                    vec![]
                };
                let attrs = {
                    let mut out = Vec::new();
                    for a in inks {
                        if self.s.chance(1, 4) {
                            out.push(self.doc());
                        }
                        out.push(a);
                    }
                    if self.s.chance(1, 6) {
                        out.push(self.doc());
                    }
                    out
                };
                let vis = *self.s.pick(&[None, Some("pub"), Some("pub(crate)")]);
                let b = *self.s.pick(&["value", "from", "to", "owner", "größe", "topic"]);
                let ty = if self.s.chance(1, 6) { "ink::storage::Mapping<AccountId, Balance>".to_string() } else { self.ty() };
                Field { id: self.f.id(), attrs, vis: vis.map(|s| s.to_string()), name: Some(format!("{b}{i}")), ty }
            })
            .collect()
    }
    pub fn body(&mut self) -> String {
        let pool: &[&str] = &[
            "",
            "todo!()",
            "let x = 1; x + 2",
            "self.value = !self.value;",
            "let s = \"#[ink(storage)] // not code\"; s.len()",
            "if a { b() } else { c?; }",
            "self.env().emit_event(Event { from: None, to: Some(x) });",
            "let f = |x: u8| -> u8 { x }; f(1)",
            "for i in 0..10 { vec.push(i); }",
            "match x { Some(_) => 1, None => { 2 } }",
            "let v = vec![1, 2, 3]; assert_eq!(v[0], 1, \"{}\", 'a');",
            "let größe = r#\"raw \" 値\"#; größe",
            "Self::new(true)",
            "unsafe { core::hint::unreachable_unchecked() }",
            "loop { break; }",
        ];
        self.s.pick(pool).to_string()
    }
    fn body_items(&mut self) -> Vec<Item> {
        if self.s.chance(1, 12) {
            let n = self.pascal();
            let attrs = if self.v5() && self.s.bool() { vec![self.scale_derive()] } else { vec![] };
            let i = self.item(Role::Plain, attrs, None, &n, Kind::Enum { variants: vec!["A".into()] });
            vec![i]
        } else {
            vec![]
        }
    }
    pub fn scale_derive(&mut self) -> Attr {
        let mut args: Vec<Arg> = ["Encode", "Decode", "TypeInfo"].iter().map(|n| arg(&mut self.f, n, Val::None)).collect();
        self.s.shuffle(&mut args);
        let mut a = mac(&mut self.f, "ink::scale_derive", args);
        a.trailing_comma = self.s.chance(1, 10);
        a
    }
    pub fn selector_value(&mut self) -> (String, u32) {
        let mut v = match self.s.below(3) {
            0 => self.s.below(100) as u32,
            1 => 0xC0DE_0000u32 + self.s.below(0xffff) as u32,
            _ => self.s.u32(),
        };
        while !self.used_ids.insert(v) {
            v = v.wrapping_add(1);
        }
        let t = int_literal(self.s, v);
        (t, v)
    }
    fn callable_args(&mut self, selector: Option<String>) -> Vec<Arg> {
        let mut rest = Vec::new();
        if self.s.chance(1, 4) {
            rest.push(arg(&mut self.f, "payable", Val::None));
        }
        if self.s.chance(1, 5) {
            rest.push(arg(&mut self.f, "default", Val::None));
        }
        match selector {
            Some(v) => rest.push(eq(&mut self.f, "selector", &v)),
            None => {
                if self.s.chance(1, 4) {
                    let (t, _) = self.selector_value();
                    rest.push(eq(&mut self.f, "selector", &t));
                }
            }
        }
        rest
    }
    pub fn constructor(&mut self, selector: Option<String>, vis: Option<&str>) -> Item {
        let p = arg(&mut self.f, "constructor", Val::None);
        let rest = self.callable_args(selector);
        let inks = self.split_args(p, rest);
        let attrs = self.decorate(inks);
        let n = self.snake();
        let mut f = fun();
        f.params = self.params(3);
        f.ret = Some(self.s.pick(&["Self", "Result<Self, ()>", "Result<Self>", "core::result::Result<Self, Error>"]).to_string());
        f.body = Some(self.body_items());
        f.body_expr = self.body();
        self.item(Role::Constructor, attrs, vis, &n, Kind::Fn(f))
    }
    pub fn message(&mut self, role: Role, selector: Option<String>, vis: Option<&str>, with_body: bool) -> Item {
        let p = arg(&mut self.f, "message", Val::None);
        let rest = self.callable_args(selector);
        let inks = self.split_args(p, rest);
        let attrs = self.decorate(inks);
        let n = match self.snake() {
            // The selector of `new` is the wildcard complement selector.
            n if n == "new" => self.unique("renew"),
            n => n,
        };
        let mut f = fun();
        f.recv = Some(self.s.pick(&["&self", "&mut self", "&'a self"]).to_string());
        if f.recv.as_deref() == Some("&'a self") {
            f.recv = Some("&self".into());
        }
        f.params = self.params(3);
        f.ret = match self.s.below(3) {
            0 => None,
            1 => Some(self.ty()),
            _ => Some(self.s.pick(&["Result<bool, Error>", "Option<Self::Item>", "()", "impl Sized"]).to_string()),
        };
        if f.ret.as_deref() == Some("impl Sized") {
            f.ret = Some("u8".into());
        }
        if with_body {
            f.body = Some(self.body_items());
            f.body_expr = self.body();
        } else {
            f.body = None;
        }
        self.item(role, attrs, vis, &n, Kind::Fn(f))
    }
    pub fn codec_attrs(&mut self) -> Vec<Attr> {
        if self.v5() && self.s.bool() {
            vec![self.scale_derive()]
        } else {
            let d = *self.s.pick(&[
                "derive(scale::Encode, scale::Decode, scale_info::TypeInfo)",
                "derive(Debug, scale::Decode, scale::Encode, scale_info::TypeInfo, Clone)",
                "derive(ink::scale::Encode, ink::scale::Decode, ink::scale_info::TypeInfo)",
            ]);
            if self.s.chance(1, 4) {
                let a = raw_attr(&mut self.f, "derive(Debug, scale::Encode, scale::Decode)");
                let b = raw_attr(&mut self.f, "cfg_attr(feature = \"std\", derive(scale_info::TypeInfo))");
                vec![a, b]
            } else {
                vec![raw_attr(&mut self.f, d)]
            }
        }
    }
    /// A root-level ADT that implements the SCALE codec traits.
    pub fn codec_adt(&mut self) -> (String, Item) {
        let n = self.pascal();
        let attrs = self.codec_attrs();
        let attrs = self.decorate_codec(attrs);
        let i = if self.s.bool() {
            self.item(Role::Plain, attrs, Some("pub"), &n, Kind::Enum { variants: vec!["Failed".into(), "Other(u8)".into()] })
        } else {
            let fs = self.fields(2, false);
            self.item(Role::Plain, attrs, Some("pub"), &n, Kind::Struct { generics: None, fields: Fields::Named(fs) })
        };
        self.adts.push(n.clone());
        (n, i)
    }
    fn decorate_codec(&mut self, mut attrs: Vec<Attr>) -> Vec<Attr> {
        if self.s.chance(1, 4) {
            attrs.insert(0, Attr { id: self.f.next_id + 1, kind: AttrKind::Doc("codec".into()), args: vec![], parens: false, trailing_comma: false });
            self.f.next_id += 1;
        }
        attrs
    }
    /// Chain extension with everything it needs. Returns the items in order.
    pub fn chain_ext(&mut self) -> Vec<Item> {
        let (err, err_item) = self.codec_adt();
        let tr = *self.s.pick(&["ink::env::chain_extension::FromStatusCode", "ink_env::chain_extension::FromStatusCode"]);
        let mut ff = fun();
        ff.params = vec![("status_code".into(), "u32".into())];
        ff.ret = Some("Result<(), Self>".into());
        ff.body_expr = "match status_code { 0 => Ok(()), _ => panic!(\"unknown\") }".into();
        let fi = self.item(Role::Plain, vec![], None, "from_status_code", Kind::Fn(ff));
        let imp = self.item(
            Role::Plain,
            vec![],
            None,
            "",
            Kind::Impl { quals: vec![], generics: None, trait_: Some(tr.into()), self_ty: err.clone(), self_generics: None, items: vec![fi] },
        );
        let mut extra = vec![];
        let mut tys: Vec<String> = vec![err.clone()];
        if self.s.chance(1, 3) {
            let (n, i) = self.codec_adt();
            tys.push(n);
            extra.push(i);
        }
        let v5 = self.v5();
        let n = self.pascal();
        let mut args = vec![];
        if v5 {
            let v = self.ext_id(u16::MAX as u32);
            args.push(eq(&mut self.f, "extension", &v));
        }
        let m = self.macro_attr("ink::chain_extension", args);
        let attrs = self.decorate(vec![m]);
        let ec = self.item(Role::ErrorCode, vec![], None, "ErrorCode", Kind::TypeAlias { generics: None, bounds: None, ty: Some(err.clone()) });
        let nf = self.s.range(0, 3);
        let mut items = vec![ec];
        for _ in 0..nf {
            let fnn = self.ext_fn(&tys);
            items.push(fnn);
        }
        self.s.shuffle(&mut items);
        let t = self.item(Role::ChainExt, attrs, Some("pub"), &n, Kind::Trait { quals: vec![], generics: None, supers: None, items });
        let mut out = vec![err_item, imp];
        out.extend(extra);
        out.push(t);
        self.s.shuffle(&mut out);
        out
    }
    pub fn ext_id(&mut self, max: u32) -> String {
        let wrap = |x: u32| if max == u32::MAX { x } else { x % (max + 1) };
        let mut v = match self.s.below(3) {
            0 => self.s.below(50) as u32,
            1 => 0x1100 + self.s.below(255) as u32,
            _ => wrap(self.s.u32()),
        };
        while !self.used_ids.insert(v) {
            v = wrap(v.wrapping_add(1));
        }
        int_literal(self.s, v)
    }
    pub fn ext_fn(&mut self, tys: &[String]) -> Item {
        let v5 = self.v5();
        let id = self.ext_id(if v5 || self.opts.migratable { u16::MAX as u32 } else { u32::MAX });
        let p = eq(&mut self.f, if v5 { "function" } else { "extension" }, &id);
        let mut rest = vec![];
        if self.s.chance(1, 3) {
            let b = *self.s.pick(&["true", "false"]);
            rest.push(eq(&mut self.f, "handle_status", b));
        }
        let inks = self.split_args(p, rest);
        let attrs = self.decorate(inks);
        let n = self.snake();
        let mut f = fun();
        f.params = self.params(2);
        if !tys.is_empty() && self.s.chance(1, 3) {
            let t = self.s.pick(tys).clone();
            let w = *self.s.pick(&["T", "&T", "Vec<T>", "[T; 2]", "(u8, T)", "Option<Vec<T>>"]);
            f.params.push(("custom".into(), w.replace('T', &t)));
        }
        f.ret = match self.s.below(3) {
            0 => None,
            1 => Some(self.ty()),
            _ => {
                if tys.is_empty() {
                    None
                } else {
                    let t = self.s.pick(tys).clone();
                    Some(format!("Result<u32, {t}>"))
                }
            }
        };
        f.body = None;
        self.item(Role::ExtFn, attrs, None, &n, Kind::Fn(f))
    }
    pub fn trait_def(&mut self) -> Item {
        let n = self.pascal();
        let mut args = vec![];
        if self.s.chance(1, 4) {
            let ns = *self.s.pick(&["my_namespace", "ns1", "_n"]);
            args.push(eq(&mut self.f, "namespace", &format!("\"{ns}\"")));
        }
        if self.s.chance(1, 5) {
            args.push(eq(&mut self.f, "keep_attr", "\"foo, bar\""));
        }
        let m = self.macro_attr("ink::trait_definition", args);
        let attrs = self.decorate(vec![m]);
        let k = self.s.range(1, 3);
        let items: Vec<Item> = (0..k).map(|_| self.message(Role::TraitMessage, None, None, false)).collect();
        let t = self.item(Role::TraitDef, attrs, Some("pub"), &n, Kind::Trait { quals: vec![], generics: None, supers: None, items });
        self.traits.push((n, t.clone()));
        t
    }
    pub fn storage_item(&mut self) -> Item {
        let n = self.pascal();
        let mut args = vec![];
        if self.s.chance(1, 3) {
            let b = *self.s.pick(&["true", "false"]);
            args.push(eq(&mut self.f, "derive", b));
        }
        let m = self.macro_attr("ink::storage_item", args);
        let mut inks = vec![m];
        if self.v5() && self.s.chance(1, 4) {
            let d = self.scale_derive();
            inks.push(d);
            self.s.shuffle(&mut inks);
        }
        let attrs = self.decorate(inks);
        let vis = self.vis_opt();
        match self.s.below(3) {
            0 => {
                let fs = self.fields(3, false);
                self.item(Role::StorageItem, attrs, vis, &n, Kind::Struct { generics: Some("<T>".into()).filter(|_| self.f.next_id % 5 == 0), fields: Fields::Named(fs) })
            }
            1 => self.item(Role::StorageItem, attrs, vis, &n, Kind::Enum { variants: vec!["A".into(), "B(u8)".into()] }),
            _ => {
                let fs = self.fields(2, false);
                self.item(Role::StorageItem, attrs, vis, &n, Kind::Union(fs))
            }
        }
    }
    /// `enum Env {}` + `impl Environment`.
    pub fn environment(&mut self) -> Vec<Item> {
        let n = self.pascal();
        let adt = self.item(Role::Env, vec![], Some("pub"), &n, Kind::Enum { variants: vec![] });
        let tr = *self.s.pick(&["ink::env::Environment", "ink_env::Environment"]);
        let c = self.item(Role::Plain, vec![], None, "MAX_EVENT_TOPICS", Kind::Const { ty: "usize".into(), val: Some("3".into()) });
        let t = self.item(Role::Plain, vec![], None, "AccountId", Kind::TypeAlias { generics: None, bounds: None, ty: Some("[u8; 32]".into()) });
        let imp = self.item(
            Role::Plain,
            vec![],
            None,
            "",
            Kind::Impl { quals: vec![], generics: None, trait_: Some(tr.into()), self_ty: n.clone(), self_generics: None, items: vec![c, t] },
        );
        self.envs.push(n);
        vec![adt, imp]
    }
    fn env_path(&mut self) -> String {
        if !self.envs.is_empty() && self.s.chance(3, 4) {
            let e = self.s.pick(&self.envs.clone()).clone();
            format!("crate::{e}")
        } else {
            self.s.pick(&["ink::env::DefaultEnvironment", "ink_env::DefaultEnvironment"]).to_string()
        }
    }
    pub fn event(&mut self, v2: bool) -> Item {
        let n = self.pascal();
        let mut rest = vec![];
        let anon = self.s.chance(1, 4);
        if anon {
            rest.push(arg(&mut self.f, "anonymous", Val::None));
        } else if self.v5() && self.s.chance(1, 4) {
            let h: String = (0..64).map(|_| *self.s.pick(&['0', '1', 'a', 'f', '9', 'C'])).collect();
            let pre = if self.s.bool() { "0x" } else { "" };
            rest.push(eq(&mut self.f, "signature_topic", &format!("\"{pre}{h}\"")));
        }
        let inks = if v2 {
            vec![self.macro_attr("ink::event", rest)]
        } else {
            let p = arg(&mut self.f, "event", Val::None);
            self.split_args(p, rest)
        };
        let attrs = self.decorate(inks);
        let fields = match self.s.below(6) {
            0 => Fields::Unit,
            _ => Fields::Named(self.fields(4, true)),
        };
        self.item(if v2 { Role::EventV2 } else { Role::Event }, attrs, Some("pub"), &n, Kind::Struct { generics: None, fields })
    }
    pub fn storage(&mut self) -> Item {
        let n = self.pascal();
        let p = arg(&mut self.f, "storage", Val::None);
        let i = ink(&mut self.f, vec![p]);
        let attrs = self.decorate(vec![i]);
        let fields = if self.s.chance(1, 6) { Fields::Unit } else { Fields::Named(self.fields(4, false)) };
        let generics = if self.s.chance(1, 12) { Some("<T>".to_string()) } else { None };
        self.item(Role::Storage, attrs, Some("pub"), &n, Kind::Struct { generics, fields })
    }
    pub fn test_fn(&mut self, e2e: bool) -> Item {
        let n = self.snake();
        let mut f = fun();
        f.body_expr = self.body();
        let attrs = if e2e {
            let mut args = vec![];
            if self.s.chance(1, 3) {
                let p = self.env_path_for_test();
                args.push(eq(&mut self.f, "environment", &p));
            }
            if self.v5() {
                if self.s.chance(1, 2) {
                    let nested = match self.s.below(4) {
                        0 => arg(&mut self.f, "node", Val::None),
                        1 => {
                            let u = eq(&mut self.f, "url", "\"ws://127.0.0.1:8000\"");
                            arg(&mut self.f, "node", Val::Nested(vec![u]))
                        }
                        2 => arg(&mut self.f, "runtime_only", Val::None),
                        _ => {
                            let u = eq(&mut self.f, "sandbox", "ink_e2e::MinimalSandbox");
                            arg(&mut self.f, "runtime_only", Val::Nested(vec![u]))
                        }
                    };
                    args.push(arg(&mut self.f, "backend", Val::Nested(vec![nested])));
                }
            } else {
                if self.s.chance(1, 3) {
                    args.push(eq(&mut self.f, "additional_contracts", "\"adder/Cargo.toml flipper/Cargo.toml\""));
                }
                if self.s.chance(1, 4) {
                    args.push(eq(&mut self.f, "keep_attr", "\"foo,bar\""));
                }
            }
            f.quals = vec!["async".into()];
            f.params = vec![("mut client".into(), "ink_e2e::Client<C, E>".into())];
            f.ret = Some("E2EResult<()>".into());
            f.body_expr = format!("{} Ok(())", self.body_stmt());
            let m = self.macro_attr("ink_e2e::test", args);
            self.decorate(vec![m])
        } else {
            let m = self.macro_attr("ink::test", vec![]);
            self.decorate(vec![m])
        };
        self.item(if e2e { Role::E2E } else { Role::Test }, attrs, None, &n, Kind::Fn(f))
    }
    fn env_path_for_test(&mut self) -> String {
        if !self.envs.is_empty() && self.s.chance(1, 2) {
            let e = self.s.pick(&self.envs.clone()).clone();
            format!("crate::{e}")
        } else {
            "ink::env::DefaultEnvironment".to_string()
        }
    }
    fn body_stmt(&mut self) -> String {
        self.s.pick(&["", "let x = 1;", "assert!(true, \"#[ink::test]\");", "let c = Ref::new(1); c.call();"]).to_string()
    }
    pub fn test_mod(&mut self, e2e: bool) -> Item {
        let n = if e2e { "e2e_tests" } else { "tests" };
        let n = self.unique(n);
        let c = match (e2e, self.s.below(8)) {
            (true, 0) => "cfg(all(feature = \"e2e-tests\", test))",
            (true, 1) => "cfg(all(feature = \"std\", test, feature = \"e2e-tests\"))",
            (true, _) => "cfg(all(test, feature = \"e2e-tests\"))",
            (false, 0) => "cfg(all(feature = \"std\", test))",
            (false, 1) => "cfg(any(test, feature = \"mock\"))",
            (false, _) => "cfg(test)",
        };
        let cfg = raw_attr(&mut self.f, c);
        let mut items = vec![self.item(Role::Plain, vec![], None, "", Kind::Use("super::*".into()))];
        let k = self.s.range(1, 2);
        for _ in 0..k {
            let t = self.test_fn(e2e);
            items.push(t);
        }
        self.item(Role::TestMod, vec![cfg], None, &n, Kind::Mod(Some(items)))
    }
    /// The implementation of a trait definition: copies its messages.
    pub fn trait_impl(&mut self, storage: &str, path: &str, def: &Item) -> Item {
        let mut items = vec![];
        for m in def.children() {
            let mut attrs = vec![];
            for a in &m.attrs {
                if a.is_ink() {
                    let mut a = a.clone();
                    a.id = self.f.id();
                    for g in &mut a.args {
                        g.id = self.f.id();
                    }
                    attrs.push(a);
                }
            }
            let attrs = self.decorate(attrs);
            let mut f = m.fun().unwrap().clone();
            f.body = Some(vec![]);
            f.body_expr = self.body();
            items.push(self.item(Role::Message, attrs, None, &m.name, Kind::Fn(f)));
        }
        self.s.shuffle(&mut items);
        let attrs = if self.s.chance(1, 4) {
            let a = arg(&mut self.f, "impl", Val::None);
            let i = ink(&mut self.f, vec![a]);
            self.decorate(vec![i])
        } else {
            self.decorate(vec![])
        };
        self.item(
            Role::TraitImpl,
            attrs,
            None,
            "",
            Kind::Impl { quals: vec![], generics: None, trait_: Some(path.into()), self_ty: storage.into(), self_generics: None, items },
        )
    }
    pub fn contract(&mut self) -> Item {
        let mut args = vec![];
        if self.s.chance(1, 4) {
            let p = self.env_path();
            args.push(eq(&mut self.f, "env", &p));
        }
        if self.s.chance(1, 6) {
            args.push(eq(&mut self.f, "keep_attr", "\"foo, bar\""));
        }
        let m = self.macro_attr("ink::contract", args);
        let attrs = self.decorate(vec![m]);
        let vis = self.vis_opt();
        let name = self.snake().replace("r#", "r_");
        let storage = self.storage();
        let sname = storage.name.clone();
        let mut items = vec![storage];
        let ne = if self.s.chance(1, 12) { self.s.range(3, 6) } else { self.s.below(3) };
        for _ in 0..ne {
            let v2 = self.v5() && self.s.bool();
            let e = self.event(v2);
            items.push(e);
        }
        // Wildcards.
        let wild_ctor = self.opts.wildcard && self.s.chance(1, 8);
        let wild_msg = self.opts.wildcard && self.s.chance(1, 8);
        let n_impl = self.s.range(1, 3);
        let mut ctor_done = false;
        let mut msg_done = false;
        for k in 0..n_impl {
            let last = k + 1 == n_impl;
            let mut cs = vec![];
            let mut nc = self.s.below(3);
            if last && !ctor_done && nc == 0 {
                nc = 1;
            }
            for j in 0..nc {
                let sel = if wild_ctor && !ctor_done && j == 0 { Some("_".to_string()) } else { None };
                let c = self.constructor(sel, Some("pub"));
                cs.push(c);
                ctor_done = true;
            }
            let mut nm = self.s.below(4);
            if last && !msg_done && nm == 0 {
                nm = 1;
            }
            if wild_msg && self.v5() {
                // Exactly one wildcard and one complement message in total.
                if last {
                    let a = self.message(Role::Message, Some("_".into()), Some("pub"), true);
                    let b = self.message(Role::Message, Some("@".into()), Some("pub"), true);
                    cs.push(a);
                    cs.push(b);
                    msg_done = true;
                }
            } else {
                for j in 0..nm {
                    let sel = if wild_msg && !msg_done && j == 0 { Some("_".to_string()) } else { None };
                    let m = self.message(Role::Message, sel, Some("pub"), true);
                    cs.push(m);
                    msg_done = true;
                }
            }
            if self.s.chance(1, 4) {
                let n = self.snake();
                let mut f = fun();
                f.recv = Some("&self".into());
                f.body_expr = self.body();
                let h = self.item(Role::Plain, vec![], None, &n, Kind::Fn(f));
                cs.push(h);
            }
            self.s.shuffle(&mut cs);
            let has_callables = cs.iter().any(|c| matches!(c.role, Role::Message | Role::Constructor));
            let mut inks = vec![];
            if !has_callables || self.s.chance(1, 5) {
                let p = arg(&mut self.f, "impl", Val::None);
                let mut rest = vec![];
                if self.s.chance(1, 3) {
                    rest.push(eq(&mut self.f, "namespace", "\"my_ns\""));
                }
                inks = self.split_args(p, rest);
            } else if self.s.chance(1, 8) {
                let ns = eq(&mut self.f, "namespace", "\"other_ns\"");
                inks = vec![ink(&mut self.f, vec![ns])];
            }
            let attrs = self.decorate(inks);
            let im = self.item(
                Role::Impl,
                attrs,
                None,
                "",
                Kind::Impl { quals: vec![], generics: None, trait_: None, self_ty: sname.clone(), self_generics: None, items: cs },
            );
            items.push(im);
        }
        if !(wild_msg && self.v5()) && !self.traits.is_empty() && self.s.chance(2, 3) {
            let (tn, def) = self.s.pick(&self.traits.clone()).clone();
            let path = match self.s.below(3) {
                0 => format!("super::{tn}"),
                1 => format!("crate::{tn}"),
                _ => {
                    let u = self.item(Role::Plain, vec![], None, "", Kind::Use(format!("super::{tn}")));
                    items.push(u);
                    tn.clone()
                }
            };
            let ti = self.trait_impl(&sname, &path, &def);
            items.push(ti);
        }
        let n = self.s.below(self.opts.max_extra + 1);
        for _ in 0..n {
            let it = match self.s.below(5) {
                0 => self.storage_item(),
                1 if !self.v5() || true => {
                    if self.s.chance(1, 3) {
                        self.trait_def_local()
                    } else {
                        self.plain()
                    }
                }
                _ => self.plain(),
            };
            items.push(it);
        }
        self.s.shuffle(&mut items);
        if self.opts.tests {
            if self.s.chance(1, 3) {
                let t = self.test_mod(false);
                items.push(t);
            }
            if self.s.chance(1, 4) {
                let t = self.test_mod(true);
                items.push(t);
            }
        }
        self.item(Role::Contract, attrs, vis, &name, Kind::Mod(Some(items)))
    }
    fn trait_def_local(&mut self) -> Item {
        let t = self.trait_def();
        self.traits.pop();
        t
    }
    /// A whole valid file.
    pub fn file(&mut self) {
        let mut items = vec![];
        if self.s.chance(1, 3) {
            let e = self.environment();
            items.extend(e);
        }
        let nt = self.s.below(3).saturating_sub(self.s.below(2));
        for _ in 0..nt {
            let t = self.trait_def();
            items.push(t);
        }
        if self.s.chance(1, 3) {
            let c = self.chain_ext();
            items.extend(c);
        }
        let n = self.s.below(self.opts.max_extra + 1);
        for _ in 0..n {
            let it = match self.s.below(5) {
                0 => self.storage_item(),
                1 if self.v5() => self.event(true),
                2 => {
                    let (_, i) = self.codec_adt();
                    i
                }
                _ => self.plain(),
            };
            items.push(it);
        }
        if self.opts.contract && self.s.chance(7, 8) {
            let c = self.contract();
            items.push(c);
        }
        if self.opts.tests && self.s.chance(1, 8) {
            let t = self.test_mod(false);
            items.push(t);
        }
        self.s.shuffle(&mut items);
        self.f.items = items;
    }
}

pub fn valid_file(s: &mut Src, v5: bool, opts: Opts) -> File {
    let mut g = G::new(s, v5, opts);
    g.file();
    g.f
}
