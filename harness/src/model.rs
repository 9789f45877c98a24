//! A small Rust-item model with ink! attributes, and a renderer that records where every piece ends
//! up in the text, under arbitrary layout (spaces, newlines, comments between any two tokens).

use crate::core::Src;
use std::collections::HashMap;

pub type Id = usize;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    None,
    Eq(String),
    Nested(Vec<Arg>),
    /// `name =` with no value.
    Dangling,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Arg {
    pub id: Id,
    pub name: String,
    pub val: Val,
}
#[derive(Clone, Debug, PartialEq)]
pub enum AttrKind {
    /// `#[ink::contract(...)]`; the path is given in full.
    Macro(String),
    /// `#[ink(...)]`
    Ink,
    /// Any other attribute (the text between the brackets).
    Raw(String),
    /// A doc comment line.
    Doc(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
    pub id: Id,
    pub kind: AttrKind,
    pub args: Vec<Arg>,
    /// Render `()` even if there are no arguments.
    pub parens: bool,
    pub trailing_comma: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub id: Id,
    pub attrs: Vec<Attr>,
    pub vis: Option<String>,
    pub name: Option<String>,
    pub ty: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fields {
    Unit,
    Tuple(Vec<Field>),
    Named(Vec<Field>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fun {
    pub quals: Vec<String>,
    pub generics: Option<String>,
    pub recv: Option<String>,
    pub params: Vec<(String, String)>,
    pub variadic: bool,
    pub ret: Option<String>,
    /// None: `;`
    pub body: Option<Vec<Item>>,
    pub body_expr: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Mod(Option<Vec<Item>>),
    Struct { generics: Option<String>, fields: Fields },
    Enum { variants: Vec<String> },
    Union(Vec<Field>),
    Impl { quals: Vec<String>, generics: Option<String>, trait_: Option<String>, self_ty: String, self_generics: Option<String>, items: Vec<Item> },
    Fn(Fun),
    Trait { quals: Vec<String>, generics: Option<String>, supers: Option<String>, items: Vec<Item> },
    TypeAlias { generics: Option<String>, bounds: Option<String>, ty: Option<String> },
    Const { ty: String, val: Option<String> },
    Use(String),
    Raw(String),
}
/// What the item is meant to be in ink! terms (the generator's ground truth).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Role {
    Plain,
    Contract,
    Storage,
    Event,
    EventV2,
    Impl,
    TraitImpl,
    Constructor,
    Message,
    TraitDef,
    TraitMessage,
    ChainExt,
    ExtFn,
    ErrorCode,
    StorageItem,
    Test,
    E2E,
    Env,
    TestMod,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub id: Id,
    pub role: Role,
    pub attrs: Vec<Attr>,
    pub vis: Option<String>,
    pub name: String,
    pub kind: Kind,
}
impl Item {
    pub fn children(&self) -> &[Item] {
        match &self.kind {
            Kind::Mod(Some(v)) | Kind::Impl { items: v, .. } | Kind::Trait { items: v, .. } => v,
            Kind::Fn(Fun { body: Some(v), .. }) => v,
            _ => &[],
        }
    }
    pub fn children_mut(&mut self) -> Option<&mut Vec<Item>> {
        match &mut self.kind {
            Kind::Mod(Some(v)) | Kind::Impl { items: v, .. } | Kind::Trait { items: v, .. } => Some(v),
            Kind::Fn(Fun { body: Some(v), .. }) => Some(v),
            _ => None,
        }
    }
    pub fn fields(&self) -> &[Field] {
        match &self.kind {
            Kind::Struct { fields: Fields::Named(v) | Fields::Tuple(v), .. } => v,
            Kind::Union(v) => v,
            _ => &[],
        }
    }
    pub fn fields_mut(&mut self) -> Option<&mut Vec<Field>> {
        match &mut self.kind {
            Kind::Struct { fields: Fields::Named(v) | Fields::Tuple(v), .. } => Some(v),
            Kind::Union(v) => Some(v),
            _ => None,
        }
    }
    pub fn fun(&self) -> Option<&Fun> {
        match &self.kind {
            Kind::Fn(f) => Some(f),
            _ => None,
        }
    }
    pub fn fun_mut(&mut self) -> Option<&mut Fun> {
        match &mut self.kind {
            Kind::Fn(f) => Some(f),
            _ => None,
        }
    }
    /// First ink! argument with the given name in any of the item's ink! attributes.
    pub fn ink_arg(&self, name: &str) -> Option<&Arg> {
        self.attrs.iter().filter(|a| a.is_ink()).flat_map(|a| &a.args).find(|a| a.name == name)
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Item, &[&'a Item]), stack: &mut Vec<&'a Item>) {
        f(self, stack);
        stack.push(self);
        for c in self.children() {
            c.walk(f, stack);
        }
        stack.pop();
    }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut Item)) {
        f(self);
        if let Some(cs) = self.children_mut() {
            for c in cs {
                c.walk_mut(f);
            }
        }
    }
}
impl Attr {
    pub fn is_ink(&self) -> bool {
        matches!(self.kind, AttrKind::Macro(_) | AttrKind::Ink)
    }
}

#[derive(Clone, Debug, Default)]
pub struct File {
    pub v5: bool,
    pub items: Vec<Item>,
    pub next_id: Id,
}
impl File {
    pub fn id(&mut self) -> Id {
        self.next_id += 1;
        self.next_id
    }
    pub fn walk<'a>(&'a self, mut f: impl FnMut(&'a Item, &[&'a Item])) {
        let mut stack = Vec::new();
        for i in &self.items {
            i.walk(&mut f, &mut stack);
        }
    }
    pub fn walk_mut(&mut self, mut f: impl FnMut(&mut Item)) {
        for i in &mut self.items {
            i.walk_mut(&mut f);
        }
    }
    pub fn ids(&self, pred: impl Fn(&Item, &[&Item]) -> bool) -> Vec<Id> {
        let mut out = Vec::new();
        self.walk(|i, s| {
            if pred(i, s) {
                out.push(i.id);
            }
        });
        out
    }
    pub fn get(&self, id: Id) -> Option<&Item> {
        let mut out = None;
        self.walk(|i, _| {
            if i.id == id {
                out = Some(i);
            }
        });
        out
    }
    pub fn with<R>(&mut self, id: Id, f: impl FnOnce(&mut Item) -> R) -> Option<R> {
        let mut f = Some(f);
        let mut out = None;
        self.walk_mut(|i| {
            if i.id == id {
                if let Some(f) = f.take() {
                    out = Some(f(i));
                }
            }
        });
        out
    }
    pub fn parent(&self, id: Id) -> Option<Id> {
        let mut out = None;
        self.walk(|i, s| {
            if i.id == id {
                out = s.last().map(|p| p.id);
            }
        });
        out
    }
    pub fn remove(&mut self, id: Id) -> Option<Item> {
        fn rec(v: &mut Vec<Item>, id: Id) -> Option<Item> {
            if let Some(p) = v.iter().position(|i| i.id == id) {
                return Some(v.remove(p));
            }
            for i in v {
                if let Some(c) = i.children_mut() {
                    if let Some(r) = rec(c, id) {
                        return Some(r);
                    }
                }
            }
            None
        }
        rec(&mut self.items, id)
    }
    /// The list that holds item `id`, and its index there.
    pub fn siblings_mut(&mut self, id: Id) -> Option<(&mut Vec<Item>, usize)> {
        fn rec(v: &mut Vec<Item>, id: Id) -> Option<(&mut Vec<Item>, usize)> {
            if let Some(p) = v.iter().position(|i| i.id == id) {
                return Some((v, p));
            }
            for i in v.iter_mut() {
                if let Some(c) = i.children_mut() {
                    if let Some(r) = rec(c, id) {
                        return Some(r);
                    }
                }
            }
            None
        }
        rec(&mut self.items, id)
    }
}

// ---------------------------------------------------------------------------------------------
// Rendering
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sp {
    Item,
    /// From visibility/keyword to just before the body.
    Decl,
    Name,
    Vis,
    Quals,
    Generics,
    Recv,
    Params,
    Ret,
    RetTy,
    Body,
    Supers,
    SelfTy,
    SelfGenerics,
    Bounds,
    Ty,
    Variadic,
    Attr,
    /// The last path segment (macros) or `ink` (argument attributes).
    AttrName,
    AttrPath,
    /// `(...)` including the parens.
    AttrArgs,
    Arg,
    ArgName,
    ArgVal,
    Field,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    /// Must be followed by a newline (line comments).
    pub nl: bool,
    /// Layout hint: break line after this token in pretty mode.
    pub brk: bool,
}
#[derive(Clone, Debug)]
enum Ev {
    Tok(Tok),
    Open(Id, Sp),
    Close(Id, Sp),
}
#[derive(Default)]
pub struct Emit {
    ev: Vec<Ev>,
}
impl Emit {
    fn t(&mut self, s: &str) {
        self.ev.push(Ev::Tok(Tok { text: s.to_string(), nl: false, brk: false }));
    }
    fn tb(&mut self, s: &str) {
        self.ev.push(Ev::Tok(Tok { text: s.to_string(), nl: false, brk: true }));
    }
    /// Splits source text on whitespace into tokens (each chunk stays atomic).
    fn raw(&mut self, s: &str) {
        for w in lex(s) {
            self.t(&w);
        }
    }
    fn open(&mut self, id: Id, sp: Sp) {
        self.ev.push(Ev::Open(id, sp));
    }
    fn close(&mut self, id: Id, sp: Sp) {
        self.ev.push(Ev::Close(id, sp));
    }
    fn attr(&mut self, a: &Attr) {
        if let AttrKind::Doc(d) = &a.kind {
            self.open(a.id, Sp::Attr);
            let block = a.id % 4 == 3;
            let text = if block { format!("/** {d} */") } else { format!("/// {d}") };
            self.ev.push(Ev::Tok(Tok { text, nl: !block, brk: true }));
            self.close(a.id, Sp::Attr);
            return;
        }
        self.open(a.id, Sp::Attr);
        self.t("#");
        self.t("[");
        match &a.kind {
            AttrKind::Macro(path) => {
                self.open(a.id, Sp::AttrPath);
                let segs: Vec<&str> = path.split("::").collect();
                for (i, s) in segs.iter().enumerate() {
                    if i > 0 {
                        self.t("::");
                    }
                    if i + 1 == segs.len() {
                        self.open(a.id, Sp::AttrName);
                        self.t(s);
                        self.close(a.id, Sp::AttrName);
                    } else if !s.is_empty() {
                        self.t(s);
                    }
                }
                self.close(a.id, Sp::AttrPath);
            }
            AttrKind::Ink => {
                self.open(a.id, Sp::AttrPath);
                self.open(a.id, Sp::AttrName);
                self.t("ink");
                self.close(a.id, Sp::AttrName);
                self.close(a.id, Sp::AttrPath);
            }
            AttrKind::Raw(r) => self.raw(r),
            AttrKind::Doc(_) => unreachable!(),
        }
        if a.is_ink() && (a.parens || !a.args.is_empty()) {
            self.open(a.id, Sp::AttrArgs);
            self.t("(");
            self.args(&a.args);
            if a.trailing_comma && !a.args.is_empty() {
                self.t(",");
            }
            self.t(")");
            self.close(a.id, Sp::AttrArgs);
        }
        self.ev.push(Ev::Tok(Tok { text: "]".into(), nl: false, brk: true }));
        self.close(a.id, Sp::Attr);
    }
    fn args(&mut self, args: &[Arg]) {
        for (i, g) in args.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.open(g.id, Sp::Arg);
            self.open(g.id, Sp::ArgName);
            if !g.name.is_empty() {
                self.raw(&g.name);
            }
            self.close(g.id, Sp::ArgName);
            match &g.val {
                Val::None => {}
                Val::Dangling => self.t("="),
                Val::Eq(v) => {
                    self.t("=");
                    self.open(g.id, Sp::ArgVal);
                    self.raw(v);
                    self.close(g.id, Sp::ArgVal);
                }
                Val::Nested(n) => {
                    self.open(g.id, Sp::ArgVal);
                    self.t("(");
                    self.args(n);
                    self.t(")");
                    self.close(g.id, Sp::ArgVal);
                }
            }
            self.close(g.id, Sp::Arg);
        }
    }
    fn opt(&mut self, id: Id, sp: Sp, s: &Option<String>, pre: &str) {
        if let Some(s) = s {
            self.open(id, sp);
            if !pre.is_empty() {
                self.t(pre);
            }
            self.raw(s);
            self.close(id, sp);
        }
    }
    fn fields(&mut self, fs: &[Field], named: bool) {
        for f in fs {
            self.open(f.id, Sp::Field);
            for a in &f.attrs {
                self.attr(a);
            }
            self.opt(f.id, Sp::Vis, &f.vis, "");
            if named {
                self.open(f.id, Sp::Name);
                self.t(f.name.as_deref().unwrap_or("f"));
                self.close(f.id, Sp::Name);
                self.t(":");
            }
            self.open(f.id, Sp::Ty);
            self.raw(&f.ty);
            self.close(f.id, Sp::Ty);
            self.close(f.id, Sp::Field);
            self.tb(",");
        }
    }
    fn name(&mut self, i: &Item) {
        self.open(i.id, Sp::Name);
        self.t(&i.name);
        self.close(i.id, Sp::Name);
    }
    fn quals(&mut self, id: Id, q: &[String]) {
        if !q.is_empty() {
            self.open(id, Sp::Quals);
            for x in q {
                self.raw(x);
            }
            self.close(id, Sp::Quals);
        }
    }
    pub fn item(&mut self, i: &Item) {
        self.open(i.id, Sp::Item);
        for a in &i.attrs {
            self.attr(a);
        }
        self.open(i.id, Sp::Decl);
        self.opt(i.id, Sp::Vis, &i.vis, "");
        match &i.kind {
            Kind::Mod(items) => {
                self.t("mod");
                self.name(i);
                self.close(i.id, Sp::Decl);
                match items {
                    Some(v) => self.block(i, v, ""),
                    None => self.tb(";"),
                }
            }
            Kind::Struct { generics, fields } => {
                self.t("struct");
                self.name(i);
                self.opt(i.id, Sp::Generics, generics, "");
                self.close(i.id, Sp::Decl);
                match fields {
                    Fields::Unit => self.tb(";"),
                    Fields::Tuple(f) => {
                        self.open(i.id, Sp::Body);
                        self.t("(");
                        self.fields(f, false);
                        self.t(")");
                        self.close(i.id, Sp::Body);
                        self.tb(";");
                    }
                    Fields::Named(f) => {
                        self.open(i.id, Sp::Body);
                        self.tb("{");
                        self.fields(f, true);
                        self.tb("}");
                        self.close(i.id, Sp::Body);
                    }
                }
            }
            Kind::Union(f) => {
                self.t("union");
                self.name(i);
                self.close(i.id, Sp::Decl);
                self.open(i.id, Sp::Body);
                self.tb("{");
                self.fields(f, true);
                self.tb("}");
                self.close(i.id, Sp::Body);
            }
            Kind::Enum { variants } => {
                self.t("enum");
                self.name(i);
                self.close(i.id, Sp::Decl);
                self.open(i.id, Sp::Body);
                self.tb("{");
                for v in variants {
                    self.raw(v);
                    self.tb(",");
                }
                self.tb("}");
                self.close(i.id, Sp::Body);
            }
            Kind::Impl { quals, generics, trait_, self_ty, self_generics, items } => {
                self.quals(i.id, quals);
                self.t("impl");
                self.opt(i.id, Sp::Generics, generics, "");
                if let Some(t) = trait_ {
                    self.open(i.id, Sp::Supers);
                    self.raw(t);
                    self.close(i.id, Sp::Supers);
                    self.t("for");
                }
                self.open(i.id, Sp::SelfTy);
                self.raw(self_ty);
                self.opt(i.id, Sp::SelfGenerics, self_generics, "");
                self.close(i.id, Sp::SelfTy);
                self.close(i.id, Sp::Decl);
                self.block(i, items, "");
            }
            Kind::Trait { quals, generics, supers, items } => {
                self.quals(i.id, quals);
                self.t("trait");
                self.name(i);
                self.opt(i.id, Sp::Generics, generics, "");
                self.opt(i.id, Sp::Supers, supers, ":");
                self.close(i.id, Sp::Decl);
                self.block(i, items, "");
            }
            Kind::Fn(f) => {
                self.quals(i.id, &f.quals);
                self.t("fn");
                self.name(i);
                self.opt(i.id, Sp::Generics, &f.generics, "");
                self.open(i.id, Sp::Params);
                self.t("(");
                let mut first = true;
                if let Some(r) = &f.recv {
                    self.open(i.id, Sp::Recv);
                    self.raw(r);
                    self.close(i.id, Sp::Recv);
                    first = false;
                }
                for (p, t) in &f.params {
                    if !first {
                        self.t(",");
                    }
                    first = false;
                    self.raw(p);
                    self.t(":");
                    self.raw(t);
                }
                if f.variadic {
                    if !first {
                        self.t(",");
                    }
                    self.open(i.id, Sp::Variadic);
                    self.t("...");
                    self.close(i.id, Sp::Variadic);
                }
                self.t(")");
                self.close(i.id, Sp::Params);
                if let Some(r) = &f.ret {
                    self.open(i.id, Sp::Ret);
                    self.t("->");
                    self.open(i.id, Sp::RetTy);
                    self.raw(r);
                    self.close(i.id, Sp::RetTy);
                    self.close(i.id, Sp::Ret);
                }
                self.close(i.id, Sp::Decl);
                match &f.body {
                    Some(v) => self.block(i, v, &f.body_expr),
                    None => self.tb(";"),
                }
            }
            Kind::TypeAlias { generics, bounds, ty } => {
                self.t("type");
                self.name(i);
                self.opt(i.id, Sp::Generics, generics, "");
                self.opt(i.id, Sp::Bounds, bounds, ":");
                if let Some(ty) = ty {
                    self.t("=");
                    self.open(i.id, Sp::Ty);
                    self.raw(ty);
                    self.close(i.id, Sp::Ty);
                }
                self.close(i.id, Sp::Decl);
                self.tb(";");
            }
            Kind::Const { ty, val } => {
                self.t("const");
                self.name(i);
                self.t(":");
                self.raw(ty);
                if let Some(v) = val {
                    self.t("=");
                    self.raw(v);
                }
                self.close(i.id, Sp::Decl);
                self.tb(";");
            }
            Kind::Use(s) => {
                self.t("use");
                self.raw(s);
                self.close(i.id, Sp::Decl);
                self.tb(";");
            }
            Kind::Raw(s) => {
                self.raw(s);
                self.close(i.id, Sp::Decl);
                if let Some(Ev::Tok(t)) = self.ev.iter_mut().rev().find(|e| matches!(e, Ev::Tok(_))) {
                    t.brk = true;
                }
            }
        }
        self.close(i.id, Sp::Item);
    }
    fn block(&mut self, i: &Item, items: &[Item], expr: &str) {
        self.open(i.id, Sp::Body);
        self.tb("{");
        for c in items {
            self.item(c);
        }
        if !expr.is_empty() {
            self.raw(expr);
        }
        self.tb("}");
        self.close(i.id, Sp::Body);
    }
}

/// A tiny Rust lexer (identifiers, literals, lifetimes, common multi-char operators).
pub fn lex(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    let idc = |c: char| c.is_alphanumeric() || c == '_';
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        let st = i;
        if c == '/' && i + 1 < cs.len() && cs[i + 1] == '*' {
            i += 2;
            while i + 1 < cs.len() && !(cs[i] == '*' && cs[i + 1] == '/') {
                i += 1;
            }
            i = (i + 2).min(cs.len());
        } else if c == 'r' && i + 1 < cs.len() && (cs[i + 1] == '"' || (cs[i + 1] == '#' && i + 2 < cs.len() && cs[i + 2] == '"')) {
            let hash = cs[i + 1] == '#';
            i += if hash { 3 } else { 2 };
            while i < cs.len() && !(cs[i] == '"' && (!hash || (i + 1 < cs.len() && cs[i + 1] == '#'))) {
                i += 1;
            }
            i = (i + if hash { 2 } else { 1 }).min(cs.len());
        } else if c == 'r' && i + 2 < cs.len() && cs[i + 1] == '#' && idc(cs[i + 2]) {
            i += 2;
            while i < cs.len() && idc(cs[i]) {
                i += 1;
            }
        } else if idc(c) {
            let num = c.is_ascii_digit();
            while i < cs.len() && (idc(cs[i]) || (num && cs[i] == '.' && i + 1 < cs.len() && cs[i + 1].is_ascii_digit())) {
                i += 1;
            }
            // byte string / char prefix
            if i < cs.len() && cs[i] == '"' && i - st == 1 && c == 'b' {
                i += 1;
                while i < cs.len() && cs[i] != '"' {
                    if cs[i] == '\\' {
                        i += 1;
                    }
                    i += 1;
                }
                i = (i + 1).min(cs.len());
            }
        } else if c == '"' {
            i += 1;
            while i < cs.len() && cs[i] != '"' {
                if cs[i] == '\\' {
                    i += 1;
                }
                i += 1;
            }
            i = (i + 1).min(cs.len());
        } else if c == '\'' {
            // char literal or lifetime
            if i + 2 < cs.len() && cs[i + 2] == '\'' {
                i += 3;
            } else if i + 1 < cs.len() && cs[i + 1] == '\\' {
                i += 2;
                while i < cs.len() && cs[i] != '\'' {
                    i += 1;
                }
                i = (i + 1).min(cs.len());
            } else {
                i += 1;
                while i < cs.len() && idc(cs[i]) {
                    i += 1;
                }
            }
        } else {
            let rest: String = cs[i..cs.len().min(i + 3)].iter().collect();
            let ops = ["...", "..=", "<<=", ">>=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", ".."];
            let op = ops.iter().find(|o| rest.starts_with(**o));
            i += op.map(|o| o.len()).unwrap_or(1);
        }
        out.push(cs[st..i].iter().collect());
    }
    out
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub text: String,
    pub spans: HashMap<(Id, Sp), (usize, usize)>,
    /// Byte range of every token in the text.
    pub toks: Vec<(usize, usize)>,
}
impl Doc {
    pub fn sp(&self, id: Id, sp: Sp) -> Option<(usize, usize)> {
        self.spans.get(&(id, sp)).copied()
    }
    pub fn slice(&self, r: (usize, usize)) -> &str {
        &self.text[r.0..r.1]
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layout {
    Pretty,
    Compact,
    Wild,
}

fn need_space(a: &str, b: &str) -> bool {
    let l = a.chars().last().unwrap_or(' ');
    let f = b.chars().next().unwrap_or(' ');
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let brk = |c: char| "()[]{},;".contains(c);
    if id(l) && (id(f) || f == '"' || f == '\'' || f == '#') {
        return true;
    }
    if a.starts_with('\'') && id(f) {
        return true;
    }
    if !id(l) && !id(f) && !brk(l) && !brk(f) && l != '"' && f != '"' {
        return true;
    }
    // number followed by dot, `"` followed by ident (suffix)
    (id(l) && f == '.') && a.chars().next().is_some_and(|c| c.is_ascii_digit()) || (l == '"' || l == '\'') && id(f)
}

const COMMENTS: &[&str] = &["/* c */", "/* é */", "/**/", "/* 🦀 #[ink(storage)] */", "// note\n", "// ink!: übung 漢字\n", "/* a\n * b\n */", "/* ü\né\n */"];
const SPACES: &[&str] = &[" ", "  ", "\n", "\n    ", "\t", "\r\n", "\n\n"];

pub struct Style {
    pub layout: Layout,
    /// In wild mode: how many of 8 gaps get extra trivia.
    pub density: usize,
    pub comments: bool,
}
impl Style {
    pub fn pretty() -> Style {
        Style { layout: Layout::Pretty, density: 0, comments: false }
    }
    pub fn random(s: &mut Src) -> Style {
        match s.weighted(&[4, 1, 4]) {
            0 => Style::pretty(),
            1 => Style { layout: Layout::Compact, density: 0, comments: false },
            _ => Style { layout: Layout::Wild, density: s.range(1, 5), comments: s.bool() },
        }
    }
}

pub fn events(f: &File) -> Emit {
    let mut e = Emit::default();
    for i in &f.items {
        e.item(i);
    }
    e
}

pub fn render(f: &File, s: &mut Src, style: &Style) -> Doc {
    let e = events(f);
    let mut text = String::new();
    let mut toks: Vec<(usize, usize)> = Vec::new();
    let mut spans = HashMap::new();
    let mut opens: Vec<(Id, Sp)> = Vec::new();
    let mut started: HashMap<(Id, Sp), usize> = HashMap::new();
    let mut prev: Option<Tok> = None;
    let mut indent = 0usize;
    for ev in &e.ev {
        match ev {
            Ev::Open(id, sp) => opens.push((*id, *sp)),
            Ev::Close(id, sp) => {
                let end = toks.last().map(|t| t.1).unwrap_or(0);
                let st = match started.remove(&(*id, *sp)) {
                    Some(st) => st,
                    None => {
                        // Empty span.
                        opens.retain(|o| o != &(*id, *sp));
                        end
                    }
                };
                spans.insert((*id, *sp), (st, end));
            }
            Ev::Tok(t) => {
                let mut gap = String::new();
                if let Some(p) = &prev {
                    if t.text == "}" {
                        indent = indent.saturating_sub(1);
                    }
                    let needs = need_space(&p.text, &t.text);
                    match style.layout {
                        Layout::Pretty => {
                            if p.brk || p.nl {
                                gap.push('\n');
                                for _ in 0..indent {
                                    gap.push_str("    ");
                                }
                            } else if needs || nice_space(&p.text, &t.text) {
                                gap.push(' ');
                            }
                        }
                        Layout::Compact => {
                            if p.nl {
                                gap.push('\n');
                            } else if needs {
                                gap.push(' ');
                            }
                        }
                        Layout::Wild => {
                            if p.nl {
                                gap.push('\n');
                            }
                            if s.below(8) < style.density {
                                let n = s.range(1, 2);
                                for _ in 0..n {
                                    if style.comments && s.chance(1, 3) {
                                        gap.push_str(*s.pick(COMMENTS));
                                    } else {
                                        gap.push_str(*s.pick(SPACES));
                                    }
                                }
                            }
                            if needs && gap.is_empty() {
                                gap.push(' ');
                            }
                            // `/` next to a comment would merge; comments also count as separators.
                            if gap.starts_with('/') && (p.text.ends_with('/') || p.text.ends_with('*')) {
                                gap.insert(0, ' ');
                            }
                            if gap.ends_with('/') && (t.text.starts_with('/') || t.text.starts_with('*')) {
                                gap.push(' ');
                            }
                        }
                    }
                    if p.text == "{" {
                        indent += 0;
                    }
                } else if style.layout == Layout::Wild && s.chance(1, 4) {
                    gap.push_str(*s.pick(SPACES));
                    if style.comments && s.bool() {
                        gap.push_str(*s.pick(COMMENTS));
                    }
                }
                text.push_str(&gap);
                let st = text.len();
                for o in opens.drain(..) {
                    started.insert(o, st);
                }
                text.push_str(&t.text);
                toks.push((st, text.len()));
                if t.text == "{" {
                    indent += 1;
                }
                prev = Some(t.clone());
            }
        }
    }
    if prev.as_ref().is_some_and(|p| p.nl) || style.layout == Layout::Pretty {
        text.push('\n');
    } else if style.layout == Layout::Wild && s.chance(1, 4) {
        text.push_str(*s.pick(SPACES));
    }
    Doc { text, spans, toks }
}

fn nice_space(a: &str, b: &str) -> bool {
    matches!(a, "," | ":" | "=" | "->" | "=>" | "{" | "==" | "+" | ">") && !matches!(b, ")" | ">" | "," | ";" | "(" | "::")
        || matches!(b, "{" | "=" | "->" | "=>" | "==" | "+")
}
