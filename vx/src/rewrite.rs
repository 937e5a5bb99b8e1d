//! Mechanical rewrites applied to extracted bodies. Everything done here is listed in DESIGN.md
//! ("what the extraction changes") and counted in the map file.
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::{Parse, ParseStream, Parser};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct FnInfo {
    pub sig: Signature,
    pub block: Block,
    pub line: usize,
    pub end: usize,
    /// self type name for methods
    pub selfty: Option<String>,
    pub trait_: Option<String>,
}

pub struct SourceFile {
    pub path: String,
    pub items: Vec<Item>,
    /// key: "[Trait for ]Type::fn" or "fn"
    pub fns: BTreeMap<String, FnInfo>,
    pub consts: BTreeMap<String, Expr>,
    pub macros: BTreeMap<String, crate::iter::MacroDef>,
}

fn last_seg(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => last_seg(&r.elem),
        Type::Paren(p) => last_seg(&p.elem),
        _ => None,
    }
}

impl SourceFile {
    pub fn load(repo: &str, file: &str, ren: &BTreeMap<String, String>) -> std::result::Result<Self, String> {
        let path = if file.starts_with("crates/") {
            format!("{repo}/{file}")
        } else {
            format!("{repo}/crates/stream-download/src/{file}")
        };
        let text = std::fs::read_to_string(&path).map_err(|e| format!("{path}: {e}"))?;
        let f = if ren.is_empty() {
            syn::parse_file(&text)
        } else {
            text.parse::<TokenStream>().map_err(|e| syn::Error::new(Span::call_site(), e)).and_then(|t| syn::parse2::<File>(crate::names::apply(t, ren)))
        }
        .map_err(|e| format!("{path}: {e}"))?;
        let mut s = SourceFile { path, items: vec![], fns: BTreeMap::new(), consts: BTreeMap::new(), macros: BTreeMap::new() };
        s.collect(f.items);
        // constants of the parent modules may be imported
        let own = std::path::PathBuf::from(&s.path);
        let dir = own.parent().unwrap().to_path_buf();
        for m in [dir.join("mod.rs"), dir.join("lib.rs"), dir.join("../lib.rs")] {
            if m == own || !m.exists() {
                continue;
            }
            if let Ok(f) = syn::parse_file(&std::fs::read_to_string(&m).unwrap_or_default()) {
                for it in f.items {
                    if let Item::Const(c) = it {
                        s.consts.entry(c.ident.to_string()).or_insert(*c.expr);
                    }
                }
            }
        }
        Ok(s)
    }
    fn collect(&mut self, items: Vec<Item>) {
        for it in items {
            let attrs: &[Attribute] = match &it {
                Item::Fn(x) => &x.attrs,
                Item::Impl(x) => &x.attrs,
                Item::Mod(x) => &x.attrs,
                Item::Struct(x) => &x.attrs,
                Item::Enum(x) => &x.attrs,
                Item::Const(x) => &x.attrs,
                _ => &[],
            };
            if cfg_off(attrs) {
                continue;
            }
            match &it {
                Item::Fn(f) => self.add(None, None, &f.sig, &f.block),
                Item::Impl(im) => {
                    let ty = last_seg(&im.self_ty).unwrap_or_default();
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    // `From<X> for Y`: also under the trait with its arguments
                    let trg = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().to_token_stream().to_string().replace(' ', ""));
                    for ii in &im.items {
                        match ii {
                            ImplItem::Fn(f) if !cfg_off(&f.attrs) => {
                                self.add(Some(&ty), tr.as_deref(), &f.sig, &f.block);
                                if trg != tr {
                                    self.add(Some(&ty), trg.as_deref(), &f.sig, &f.block);
                                }
                            }
                            ImplItem::Const(c) => {
                                self.consts.insert(c.ident.to_string(), c.expr.clone());
                            }
                            _ => {}
                        }
                    }
                }
                Item::Const(c) => {
                    self.consts.insert(c.ident.to_string(), (*c.expr).clone());
                }
                // the items of pin_project! are ordinary items with #[pin] on some fields
                Item::Macro(m) if m.mac.path.segments.last().is_some_and(|x| x.ident == "pin_project") => {
                    if let Ok(mut f) = parse2::<File>(m.mac.tokens.clone()) {
                        for i in f.items.iter_mut() {
                            if let Item::Struct(st) = i {
                                for fl in st.fields.iter_mut() {
                                    fl.attrs.clear();
                                }
                            }
                        }
                        self.collect(f.items);
                    }
                }
                Item::Macro(m) => {
                    if let Some((n, d)) = crate::iter::macro_def(m) {
                        self.macros.insert(n, d);
                    }
                }
                Item::Mod(m) => {
                    if let Some((_, items)) = &m.content {
                        self.collect(items.clone());
                    }
                }
                Item::Trait(t) => {
                    for ti in &t.items {
                        if let TraitItem::Fn(f) = ti {
                            if let Some(b) = &f.default {
                                self.add(Some(&t.ident.to_string()), Some("default"), &f.sig, b);
                            }
                        }
                    }
                }
                _ => {}
            }
            self.items.push(it);
        }
    }
    fn add(&mut self, ty: Option<&str>, tr: Option<&str>, sig: &Signature, block: &Block) {
        let name = sig.ident.to_string();
        let key = match (ty, tr) {
            (Some(t), Some(r)) => format!("{r} for {t}::{name}"),
            (Some(t), None) => format!("{t}::{name}"),
            _ => name,
        };
        self.fns.insert(
            key,
            FnInfo {
                line: sig.ident.span().start().line,
                end: block.brace_token.span.close().end().line,
                sig: sig.clone(),
                block: block.clone(),
                selfty: ty.map(String::from),
                trait_: tr.map(String::from),
            },
        );
    }
    pub fn find(&self, imp: Option<&str>, name: &str) -> Option<&FnInfo> {
        let key = match imp {
            Some(i) => format!("{i}::{name}"),
            None => name.to_string(),
        };
        self.fns.get(&key)
    }
    /// helper lookup for inlining: any inherent method or free fn of that name
    /// (`ty`: of the type it is called through, `Type::name(..)`)
    pub fn helper(&self, name: &str, method: bool, ty: Option<&str>) -> Option<&FnInfo> {
        let mut c: Vec<&FnInfo> = self
            .fns
            .values()
            .filter(|f| f.sig.ident == name && f.trait_.is_none() && (!method || f.sig.receiver().is_some()))
            .filter(|f| ty.is_none_or(|t| f.selfty.as_deref() == Some(t)))
            .collect();
        if c.len() == 1 { c.pop() } else { None }
    }
}

pub fn cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let t = a.meta.to_token_stream().to_string();
            t.contains("windows") || t.contains("test") || t.contains("(kani") || t.contains("macos")
        }
    })
}

pub fn let_locals(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_local(&mut self, l: &'a Local) {
            struct P<'b>(&'b mut Vec<String>);
            impl<'b, 'a> Visit<'a> for P<'b> {
                fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                    self.0.push(p.ident.to_string());
                }
            }
            P(&mut self.0).visit_pat(&l.pat);
            visit::visit_local(self, l);
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}

/// the kinds of the loops in a body, in order: what the loop invariants were written against
pub fn loop_kinds(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Loop(_) => self.0.push("loop".into()),
                Expr::While(w) if matches!(&*w.cond, Expr::Let(_)) => self.0.push("while let".into()),
                Expr::While(_) => self.0.push("while".into()),
                Expr::ForLoop(_) => self.0.push("for".into()),
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}

fn bound_idents(b: &Block, sig: &Signature) -> BTreeSet<String> {
    struct P(BTreeSet<String>);
    impl<'a> Visit<'a> for P {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
        }
    }
    let mut v = P(BTreeSet::new());
    v.visit_block(b);
    for i in &sig.inputs {
        if let FnArg::Typed(t) = i {
            v.visit_pat(&t.pat);
        }
    }
    v.0
}

#[derive(Clone, Default)]
pub struct Config {
    pub methods: BTreeMap<String, String>,
    pub ghostargs: BTreeMap<String, String>,
    pub substs: Vec<(Vec<String>, TokenStream)>,
    pub combinators: BTreeMap<String, String>,
    pub known: BTreeSet<String>,
    pub async_ret: bool,
    /// method name -> (parameter type, result type, ensures over `k` and `vx_r`) of its closure argument
    pub closures: BTreeMap<String, (String, String, String)>,
    /// compare through vx_eq
    pub eq: bool,
    /// keep `x.unwrap_or_else(|e| ...)` etc. untouched for these method names
    pub keep: BTreeSet<String>,
}

#[derive(Default, Debug, Clone)]
pub struct Report {
    pub dropped: BTreeMap<String, usize>,
    pub inlined: Vec<String>,
    pub problems: Vec<String>,
}
impl Report {
    fn hit(&mut self, k: &str) {
        *self.dropped.entry(k.to_string()).or_default() += 1;
    }
}

fn is_tracing(p: &Path) -> bool {
    p.segments.last().is_some_and(|s| matches!(s.ident.to_string().as_str(), "trace" | "debug" | "info" | "warn" | "error" | "instrument"))
}

fn mac_name(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn simple_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() && p.path.segments[0].arguments.is_none() => {
            Some(p.path.segments[0].ident.to_string())
        }
        Expr::Paren(p) => simple_ident(&p.expr),
        _ => None,
    }
}

/// whether an expression is a Result (true) or an Option (false), as far as its last operation tells
fn resultish(e: &Expr, known: &dyn Fn(&str, bool) -> Option<bool>) -> Option<bool> {
    match e {
        Expr::Paren(p) => resultish(&p.expr, known),
        Expr::Await(a) => resultish(&a.base, known),
        Expr::Path(_) => known(&simple_ident(e)?, false),
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "flush" | "seek" | "stream_position" | "into_reader_writer" | "wrap_err" | "map_err" | "ok_or" | "ok_or_else" | "spawn" | "reopen" | "try_clone" | "try_send" | "inspect_err" => Some(true),
            "checked_add" | "checked_sub" | "checked_add_signed" | "checked_mul" | "ok" | "err" | "next" | "first" | "last" | "strip_prefix" | "split_once" => Some(false),
            "map" | "and_then" | "inspect" | "or_else" | "as_ref" | "as_mut" | "copied" | "cloned" => resultish(&m.receiver, known),
            n if simple_ident(&m.receiver).as_deref() == Some("self") => known(n, true),
            _ => None,
        },
        Expr::Match(m) => m.arms.iter().find_map(|a| match &a.pat {
            Pat::TupleStruct(t) => match t.path.segments.last().unwrap().ident.to_string().as_str() {
                _ if matches!(&*a.body, Expr::Call(_)) => match &*a.body {
                    Expr::Call(c) => match &*c.func {
                        Expr::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() {
                            "Ok" | "Err" => Some(true),
                            "Some" => Some(false),
                            _ => None,
                        },
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        }),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => match p.path.segments.last().map(|s| s.ident.to_string()).as_deref() {
                Some("try_from" | "from_str" | "Ok" | "Err" | "from_utf8") => Some(true),
                Some("Some") => Some(false),
                Some(n) => known(n, true),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}
/// whether a type is a Result (true) or an Option (false)
fn result_type(t: &Type) -> Option<bool> {
    if let Type::ImplTrait(i) = t {
        // impl Future<Output = T>
        return i.bounds.iter().find_map(|b| match b {
            TypeParamBound::Trait(t) => match &t.path.segments.last()?.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().find_map(|a| match a {
                    GenericArgument::AssocType(a) if a.ident == "Output" => result_type(&a.ty),
                    _ => None,
                }),
                _ => None,
            },
            _ => None,
        });
    }
    match last_seg(t)?.as_str() {
        "Result" => Some(true),
        "Option" => Some(false),
        _ => None,
    }
}
/// the names a pattern binds
fn pat_names(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string());
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}
/// what the functions of that name in the file return, if they agree
fn fn_kind(file: &SourceFile, name: &str) -> Option<bool> {
    let mut k: Vec<Option<bool>> = file
        .fns
        .values()
        .filter(|f| f.sig.ident == name)
        .map(|f| match &f.sig.output {
            ReturnType::Type(_, t) => result_type(t),
            _ => None,
        })
        .collect();
    k.dedup();
    if k.len() == 1 { k[0] } else { None }
}
/// expression without effects (used to decide whether a logging-only closure can be dropped)
fn trivial_block(b: &Block) -> bool {
    b.stmts.iter().all(|s| match s {
        Stmt::Expr(e, _) => trivial_expr(e),
        Stmt::Macro(m) => is_tracing(&m.mac.path),
        _ => false,
    })
}
fn trivial_expr(e: &Expr) -> bool {
    match e {
        Expr::Block(b) => trivial_block(&b.block),
        Expr::If(i) => trivial_block(&i.then_branch) && i.else_branch.as_ref().is_none_or(|(_, e)| trivial_expr(e)),
        Expr::Tuple(t) => t.elems.is_empty(),
        Expr::Macro(m) => is_tracing(&m.mac.path),
        Expr::Path(_) => true,
        _ => false,
    }
}

pub struct Rw<'a> {
    pub cfg: &'a Config,
    pub file: &'a SourceFile,
    pub rep: Report,
    pub locals: BTreeSet<String>,
    pub loops: usize,
    pub depth: usize,
    last_output: Option<String>,
    selfty: Option<String>,
    kinds: BTreeMap<String, Option<bool>>,
}

struct SelectArm {
    pat: Pat,
    fut: Expr,
    guard: Option<Expr>,
    body: Expr,
    is_else: bool,
}
struct Select(Vec<SelectArm>);
impl Parse for Select {
    fn parse(input: ParseStream) -> Result<Self> {
        let mut arms = vec![];
        if input.peek(Ident) && input.peek2(Token![;]) {
            let _: Ident = input.parse()?;
            let _: Token![;] = input.parse()?;
        }
        while !input.is_empty() {
            let (pat, fut, guard, is_else);
            if input.peek(Token![else]) {
                let _: Token![else] = input.parse()?;
                pat = parse_quote!(_);
                fut = parse_quote!(());
                guard = None;
                is_else = true;
            } else {
                pat = Pat::parse_multi_with_leading_vert(input)?;
                let _: Token![=] = input.parse()?;
                fut = input.parse()?;
                guard = if input.peek(Token![,]) && input.peek2(Token![if]) {
                    let _: Token![,] = input.parse()?;
                    let _: Token![if] = input.parse()?;
                    Some(input.parse()?)
                } else {
                    None
                };
                is_else = false;
            }
            let _: Token![=>] = input.parse()?;
            // a block body ends the arm, as in a match
            let body: Expr = if input.peek(token::Brace) {
                let b: Block = input.parse()?;
                parse_quote!(#b)
            } else {
                input.parse()?
            };
            let _: Option<Token![,]> = input.parse()?;
            arms.push(SelectArm { pat, fut, guard, body, is_else });
        }
        Ok(Select(arms))
    }
}

fn subst_ident_expr(b: &mut Vec<SelectArm>, name: &str, with: &Expr) -> usize {
    struct S<'a>(&'a str, &'a Expr, usize);
    impl VisitMut for S<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if simple_ident(e).as_deref() == Some(self.0) {
                *e = self.1.clone();
                self.2 += 1;
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut s = S(name, with, 0);
    for a in b {
        s.visit_expr_mut(&mut a.fut);
    }
    s.2
}

fn count_ident(ts: TokenStream, name: &str) -> usize {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => (i == name) as usize,
            TokenTree::Group(g) => count_ident(g.stream(), name),
            _ => 0,
        })
        .sum()
}

fn flatten_and(e: &Expr, out: &mut Vec<Expr>) {
    if let Expr::Binary(b) = e {
        if matches!(b.op, BinOp::And(_)) {
            flatten_and(&b.left, out);
            flatten_and(&b.right, out);
            return;
        }
    }
    out.push(e.clone());
}
fn has_let(e: &Expr) -> bool {
    let mut v = vec![];
    flatten_and(e, &mut v);
    v.iter().any(|x| matches!(x, Expr::Let(_)))
}

fn attrs_mut(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    Some(match e {
        Expr::Block(x) => &mut x.attrs,
        Expr::Call(x) => &mut x.attrs,
        Expr::MethodCall(x) => &mut x.attrs,
        Expr::If(x) => &mut x.attrs,
        Expr::Match(x) => &mut x.attrs,
        Expr::Loop(x) => &mut x.attrs,
        Expr::While(x) => &mut x.attrs,
        Expr::ForLoop(x) => &mut x.attrs,
        Expr::Assign(x) => &mut x.attrs,
        Expr::Closure(x) => &mut x.attrs,
        Expr::Let(x) => &mut x.attrs,
        Expr::Unary(x) => &mut x.attrs,
        Expr::Return(x) => &mut x.attrs,
        Expr::Struct(x) => &mut x.attrs,
        Expr::Macro(x) => &mut x.attrs,
        Expr::Try(x) => &mut x.attrs,
        Expr::Await(x) => &mut x.attrs,
        _ => return None,
    })
}

impl<'a> Rw<'a> {
    pub fn new(cfg: &'a Config, file: &'a SourceFile) -> Self {
        Rw { cfg, file, rep: Report::default(), locals: BTreeSet::new(), loops: 0, depth: 0, last_output: None, selfty: None, kinds: BTreeMap::new() }
    }

    pub fn run(&mut self, f: &FnInfo) -> Block {
        self.selfty = f.selfty.clone();
        let mut b = f.block.clone();
        let mut ex = crate::iter::Expand { defs: &self.file.macros, n: 0 };
        ex.visit_block_mut(&mut b);
        if ex.n > 0 {
            self.rep.hit("the file's own macro expanded");
        }
        let mut lp = crate::iter::Loops { k: 0, hits: vec![] };
        lp.visit_block_mut(&mut b);
        for h in lp.hits {
            self.rep.hit(h);
        }
        self.locals = bound_idents(&b, &f.sig);
        self.kinds.clear();
        for i in &f.sig.inputs {
            if let FnArg::Typed(t) = i {
                for n in pat_names(&t.pat) {
                    self.kinds.insert(n, if matches!(&*t.pat, Pat::Ident(_)) { result_type(&t.ty) } else { None });
                }
            }
        }
        self.visit_block_mut(&mut b);
        self.inline_block(&mut b, true);
        let mut l = crate::locks::Locks::default();
        syn::visit::Visit::visit_block(&mut l, &b);
        self.rep.problems.extend(l.problem);
        let mut m = LoopMark { n: 0 };
        m.visit_block_mut(&mut b);
        self.loops = m.n;
        b
    }

    fn select_stmt(&mut self, mac: &Macro) -> std::result::Result<Vec<SelectArm>, String> {
        Select::parse.parse2(mac.tokens.clone()).map(|s| s.0).map_err(|e| format!("select!: {e}"))
    }
    fn select_expr(&mut self, arms: Vec<SelectArm>) -> Expr {
        let mut out: Vec<Arm> = vec![];
        let n = arms.len();
        for (i, a) in arms.into_iter().enumerate() {
            let (p, f, b) = (a.pat, a.fut, a.body);
            if a.guard.is_some() || a.is_else {
                self.rep.problems.push("select! guard/else".into());
            }
            let body: Expr = parse_quote!({ let #p = #f; #b });
            let i = i as u32;
            if (i as usize) + 1 == n {
                out.push(parse_quote!(_ => #body));
            } else {
                out.push(parse_quote!(#i => #body));
            }
        }
        let n = n as u32;
        self.rep.hit("select!");
        parse_quote!(match vx_select(#n) { #(#out)* })
    }

    fn stmts(&mut self, stmts: &mut Vec<Stmt>) {
        // inline lazily polled futures into select! arms
        let mut i = 0;
        while i < stmts.len() {
            if let Stmt::Local(l) = &stmts[i] {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    let name = p.ident.to_string();
                    let init = (*init.expr).clone();
                    let rest: usize = stmts[i + 1..].iter().map(|s| count_ident(s.to_token_stream(), &name)).sum();
                    if rest == 1 {
                        for j in i + 1..stmts.len() {
                            let mac = match &stmts[j] {
                                Stmt::Macro(m) if mac_name(&m.mac.path) == "select" => Some((m.mac.clone(), m.semi_token)),
                                Stmt::Expr(Expr::Macro(m), s) if mac_name(&m.mac.path) == "select" => Some((m.mac.clone(), *s)),
                                _ => None,
                            };
                            if let Some((mac, semi)) = mac {
                                if count_ident(mac.tokens.clone(), &name) == 1 {
                                    if let Ok(mut arms) = self.select_stmt(&mac) {
                                        if subst_ident_expr(&mut arms, &name, &init) == 1 {
                                            let e = self.select_expr(arms);
                                            stmts[j] = Stmt::Expr(e, semi);
                                            stmts.remove(i);
                                            self.rep.hit("future inlined into select! arm");
                                            i = i.wrapping_sub(1);
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            i = i.wrapping_add(1);
        }
        self.futures(stmts);
        self.loop_values(stmts);
        let old = std::mem::take(stmts);
        let n = old.len();
        for (k, mut s) in old.into_iter().enumerate() {
            let last = k + 1 == n;
            match &mut s {
                Stmt::Macro(m) => {
                    if is_tracing(&m.mac.path) {
                        self.rep.hit("logging statement");
                        if last && m.semi_token.is_none() && !matches!(m.mac.delimiter, MacroDelimiter::Brace(_)) {
                            stmts.push(Stmt::Expr(parse_quote!(()), None));
                        }
                        continue;
                    }
                    if mac_name(&m.mac.path) == "select" {
                        match self.select_stmt(&m.mac) {
                            Ok(arms) => {
                                let e = self.select_expr(arms);
                                stmts.push(Stmt::Expr(e, m.semi_token));
                            }
                            Err(e) => self.rep.problems.push(e),
                        }
                        continue;
                    }
                    let mac = m.mac.clone();
                    let semi = m.semi_token;
                    stmts.push(Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac }), semi));
                    continue;
                }
                Stmt::Expr(e, semi) => {
                    if let Some(a) = attrs_mut(e) {
                        if cfg_off(a) {
                            self.rep.hit("cfg(windows) statement");
                            continue;
                        }
                        a.clear();
                    }
                    if let Expr::Macro(m) = e {
                        if is_tracing(&m.mac.path) {
                            self.rep.hit("logging statement");
                            if last && semi.is_none() {
                                stmts.push(Stmt::Expr(parse_quote!(()), None));
                            }
                            continue;
                        }
                    }
                }
                Stmt::Local(l) => {
                    if cfg_off(&l.attrs) {
                        continue;
                    }
                    l.attrs.clear();
                }
                Stmt::Item(_) => {}
            }
            stmts.push(s);
        }
    }

    fn kind_of(&self, e: &Expr) -> Option<bool> {
        resultish(e, &|n, call| if call { fn_kind(self.file, n) } else { self.kinds.get(n).copied().flatten() })
    }

    /// `let f = call(..); .. f.await` or `timeout(d, f)`: nothing of the call runs before it is awaited
    fn futures(&mut self, stmts: &mut Vec<Stmt>) {
        struct F<'a>(&'a str, &'a Expr, usize);
        impl VisitMut for F<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Await(a) if simple_ident(&a.base).as_deref() == Some(self.0) => {
                        *a.base = self.1.clone();
                        self.2 += 1;
                        return;
                    }
                    Expr::Call(c) if c.args.len() == 2 && simple_ident(&c.args[1]).as_deref() == Some(self.0) => {
                        if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "timeout")) {
                            c.args[1] = self.1.clone();
                            self.2 += 1;
                            return;
                        }
                    }
                    Expr::Closure(_) | Expr::Async(_) => return,
                    _ => {}
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        fn plain(e: &Expr) -> bool {
            match e {
                Expr::Path(_) | Expr::Lit(_) => true,
                Expr::Field(f) => plain(&f.base),
                Expr::Reference(r) => plain(&r.expr),
                _ => false,
            }
        }
        let mut i = 0;
        while i + 1 < stmts.len() {
            let found = match &stmts[i] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(init)) if init.diverge.is_none() => match &*init.expr {
                        Expr::MethodCall(m) if plain(&m.receiver) && m.args.iter().all(plain) => Some((p.ident.to_string(), (*init.expr).clone())),
                        Expr::Call(c) if c.args.iter().all(plain) => Some((p.ident.to_string(), (*init.expr).clone())),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, init)) = found {
                let all: usize = stmts[i + 1..].iter().map(|s| count_ident(s.to_token_stream(), &name)).sum();
                let mut next = stmts[i + 1].clone();
                let mut f = F(&name, &init, 0);
                f.visit_stmt_mut(&mut next);
                let straight = !matches!(&next, Stmt::Expr(Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_), _));
                if all == 1 && f.2 == 1 && straight {
                    stmts[i + 1] = next;
                    stmts.remove(i);
                    self.rep.hit("future moved to where it is awaited");
                    continue;
                }
            }
            i += 1;
        }
    }

    /// `let x = loop { .. break V; .. }` with one constant V: the loop, then `let x = V`
    fn loop_values(&mut self, stmts: &mut Vec<Stmt>) {
        fn constant(e: &Expr) -> bool {
            match e {
                Expr::Path(p) => p.path.segments.len() > 1,
                Expr::Lit(_) => true,
                Expr::Tuple(t) => t.elems.iter().all(constant),
                Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok") || p.path.is_ident("Some")) && c.args.iter().all(constant),
                _ => false,
            }
        }
        /// takes the values out of the breaks; false if there is an inner loop or a label
        fn breaks(ts: TokenStream, vals: &mut Vec<TokenStream>, ok: &mut bool) -> TokenStream {
            let mut out = TokenStream::new();
            let mut it = ts.into_iter().peekable();
            while let Some(t) = it.next() {
                match t {
                    TokenTree::Group(g) => {
                        let mut h = proc_macro2::Group::new(g.delimiter(), breaks(g.stream(), vals, ok));
                        h.set_span(g.span());
                        out.extend([TokenTree::Group(h)]);
                    }
                    TokenTree::Ident(i) if i == "loop" || i == "while" || i == "for" => {
                        *ok = false;
                        out.extend([TokenTree::Ident(i)]);
                    }
                    TokenTree::Ident(i) if i == "break" => {
                        out.extend([TokenTree::Ident(i)]);
                        let mut v = TokenStream::new();
                        while let Some(t) = it.next_if(|t| !matches!(t, TokenTree::Punct(p) if p.as_char() == ';' || p.as_char() == ',')) {
                            if matches!(&t, TokenTree::Punct(p) if p.as_char() == '\'') {
                                *ok = false;
                            }
                            v.extend([t]);
                        }
                        vals.push(v);
                    }
                    t => out.extend([t]),
                }
            }
            out
        }
        let n = stmts.len();
        let mut out = vec![];
        for (k, mut s) in std::mem::take(stmts).into_iter().enumerate() {
            let l: Option<&mut ExprLoop> = match &mut s {
                Stmt::Local(l) => match l.init.as_mut().map(|i| &mut *i.expr) {
                    Some(Expr::Loop(l)) => Some(l),
                    _ => None,
                },
                Stmt::Expr(Expr::Loop(l), None) if k + 1 == n => Some(l),
                _ => None,
            };
            let v = l.filter(|l| l.label.is_none()).and_then(|l| {
                let (mut vals, mut ok) = (vec![], true);
                let ts = breaks(l.body.to_token_stream(), &mut vals, &mut ok);
                let first = vals.first()?.to_string();
                if !ok || vals.iter().any(|v| v.to_string() != first) {
                    return None;
                }
                let v = parse2::<Expr>(vals[0].clone()).ok().filter(constant)?;
                l.body = parse2(ts).ok()?;
                Some((l.clone(), v))
            });
            match (v, s) {
                (Some((l, v)), Stmt::Local(mut x)) => {
                    out.push(Stmt::Expr(Expr::Loop(l), None));
                    *x.init.as_mut().unwrap().expr = v;
                    out.push(Stmt::Local(x));
                    self.rep.hit("value of a loop moved behind it");
                }
                (Some((l, v)), _) => {
                    out.push(Stmt::Expr(Expr::Loop(l), None));
                    out.push(Stmt::Expr(v, None));
                    self.rep.hit("value of a loop moved behind it");
                }
                (None, s) => out.push(s),
            }
        }
        *stmts = out;
    }

    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if self.cfg.keep.contains(&name) {
            return None;
        }
        let r = &m.receiver;
        let args: Vec<&Expr> = m.args.iter().collect();
        let clos = |i: usize| match args.get(i) {
            Some(Expr::Closure(c)) => Some(c),
            _ => None,
        };
        // apply a closure or function path to a fresh variable
        let app1 = |i: usize| -> Option<(Pat, Expr)> {
            match args.get(i)? {
                Expr::Closure(c) if c.inputs.len() == 1 => {
                    let p = match &c.inputs[0] {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    Some((p, (*c.body).clone()))
                }
                Expr::Path(p) => Some((parse_quote!(vx_v), parse_quote!(#p(vx_v)))),
                _ => None,
            }
        };
        let app0 = |i: usize| -> Option<Expr> {
            match args.get(i)? {
                Expr::Closure(c) if c.inputs.is_empty() => Some((*c.body).clone()),
                Expr::Path(p) => Some(parse_quote!(#p())),
                _ => None,
            }
        };
        let kind = match self.kind_of(r) {
            Some(true) => Some("Result"),
            Some(false) => Some("Option"),
            None => self.cfg.combinators.get(&name).map(String::as_str),
        };
        let some: Path = if kind == Some("Result") { parse_quote!(Ok) } else { parse_quote!(Some) };
        if args.iter().any(|a| matches!(a, Expr::Closure(c) if own_exit(&c.body))) {
            return None;
        }
        let e: Expr = match name.as_str() {
            "map_or" => {
                let d = args.first()?;
                let (p, b) = app1(1)?;
                parse_quote!((match #r { #some(#p) => #b, _ => #d }))
            }
            "map_or_else" => {
                let d = app0(0)?;
                let (p, b) = app1(1)?;
                parse_quote!((match #r { #some(#p) => #b, _ => #d }))
            }
            "ok_or_else" => {
                let d = app0(0)?;
                parse_quote!((match #r { Some(vx_v) => Ok(vx_v), _ => Err(#d) }))
            }
            "ok_or" => {
                let d = args.first()?;
                parse_quote!((match #r { Some(vx_v) => Ok(vx_v), _ => Err(#d) }))
            }
            "map_err" => {
                let (p, b) = app1(0)?;
                parse_quote!((match #r { Ok(vx_ok) => Ok(vx_ok), Err(#p) => Err(#b) }))
            }
            "map" => {
                let (p, b) = app1(0)?;
                if kind == Some("Result") {
                    parse_quote!((match #r { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) }))
                } else {
                    parse_quote!((match #r { Some(#p) => Some(#b), _ => None }))
                }
            }
            "and_then" => {
                let (p, b) = app1(0)?;
                if kind == Some("Result") {
                    parse_quote!((match #r { Ok(#p) => #b, Err(vx_e) => Err(vx_e) }))
                } else {
                    parse_quote!((match #r { Some(#p) => #b, _ => None }))
                }
            }
            "is_ok_and" => {
                let (p, b) = app1(0)?;
                parse_quote!((match #r { Ok(#p) => #b, _ => false }))
            }
            "is_some_and" => {
                let (p, b) = app1(0)?;
                parse_quote!((match #r { Some(#p) => #b, _ => false }))
            }
            "is_none_or" => {
                let (p, b) = app1(0)?;
                parse_quote!((match #r { Some(#p) => #b, _ => true }))
            }
            "is_err_and" => {
                let (p, b) = app1(0)?;
                parse_quote!((match #r { Err(#p) => #b, _ => false }))
            }
            "or_else" => match clos(0) {
                Some(c) if c.inputs.is_empty() => {
                    let b = &c.body;
                    parse_quote!((match #r { Some(vx_v) => Some(vx_v), _ => #b }))
                }
                Some(_) => {
                    let (p, b) = app1(0)?;
                    parse_quote!((match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => #b }))
                }
                _ => return None,
            },
            "then" => {
                let b = app0(0)?;
                parse_quote!((if #r { Some(#b) } else { None }))
            }
            "filter" => {
                let Some(c) = clos(0) else { return None };
                if c.inputs.len() != 1 {
                    return None;
                }
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let b = &c.body;
                match p {
                    // |&x| cond
                    Pat::Reference(q) => {
                        let q = &q.pat;
                        parse_quote!((match #r { Some(vx_v) => if { let #q = vx_v; #b } { Some(vx_v) } else { None }, _ => None }))
                    }
                    p => parse_quote!((match #r { Some(vx_v) => if { let #p = &vx_v; #b } { Some(vx_v) } else { None }, _ => None })),
                }
            }
            "unwrap_or_else" => {
                if let Some(c) = clos(0) {
                    if c.inputs.is_empty() {
                        let b = &c.body;
                        parse_quote!((match #r { Some(vx_v) => vx_v, _ => #b }))
                    } else {
                        let (p, b) = app1(0)?;
                        parse_quote!((match #r { Ok(vx_v) => vx_v, Err(#p) => #b }))
                    }
                } else {
                    return None;
                }
            }
            _ => return None,
        };
        self.rep.hit("combinator closure expanded to match");
        Some(e)
    }
}

/// does control leave the expression by `return` or `?` (nested closures and async blocks aside)
fn own_exit(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_async(&mut self, _: &'a ExprAsync) {}
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// is the expression a bool, going by its syntax alone
fn is_bool(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => is_bool(&p.expr),
        Expr::Group(p) => is_bool(&p.expr),
        Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }) => true,
        Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => is_bool(expr),
        Expr::Binary(b) => match b.op {
            BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => true,
            BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) => is_bool(&b.left) || is_bool(&b.right),
            _ => false,
        },
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            n.starts_with("is_") || n.starts_with("has_") || n.starts_with("contains") || n == "starts_with" || n == "ends_with"
        }
        Expr::Macro(m) => m.mac.path.is_ident("matches"),
        _ => false,
    }
}

fn slice_mut(e: &Expr) -> Option<Expr> {
    let e = match e {
        Expr::Paren(p) => &p.expr,
        e => e,
    };
    let Expr::Index(ix) = e else { return None };
    let Expr::Range(r) = (match &*ix.index {
        Expr::Paren(p) => &*p.expr,
        e => e,
    }) else {
        return None;
    };
    let b = &ix.expr;
    let lo: Expr = match &r.start {
        Some(x) => (**x).clone(),
        None => parse_quote!(0),
    };
    let hi: Expr = match (&r.end, &r.limits) {
        (Some(x), RangeLimits::HalfOpen(_)) => (**x).clone(),
        (Some(x), RangeLimits::Closed(_)) => parse_quote!((#x) + 1),
        (None, _) => parse_quote!(#b.vx_len()),
    };
    Some(parse_quote!(#b.vx_slice_mut(#lo, #hi)))
}

struct LoopMark {
    n: usize,
}
impl LoopMark {
    fn mark(&mut self, b: &mut Block, attrs: &mut Vec<Attribute>) {
        let k = Literal::usize(self.n);
        self.n += 1;
        b.stmts.insert(0, parse_quote!(vx_loop_marker!(#k);));
        attrs.clear();
        attrs.push(parse_quote!(#[verifier::loop_isolation(false)]));
        attrs.push(parse_quote!(#[verifier::exec_allows_no_decreases_clause]));
    }
}
use proc_macro2::Literal as PLit;
struct Literal;
impl Literal {
    fn usize(n: usize) -> PLit {
        PLit::usize_unsuffixed(n)
    }
}
impl VisitMut for LoopMark {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(l) => {
                let mut b = l.body.clone();
                self.mark(&mut b, &mut l.attrs);
                l.body = b;
            }
            Expr::While(l) => {
                let mut b = l.body.clone();
                self.mark(&mut b, &mut l.attrs);
                l.body = b;
            }
            Expr::ForLoop(l) => {
                let mut b = l.body.clone();
                self.mark(&mut b, &mut l.attrs);
                l.body = b;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl VisitMut for Rw<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let kinds = self.kinds.clone();
        self.stmts(&mut b.stmts);
        visit_mut::visit_block_mut(self, b);
        self.kinds = kinds;
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        let k = match (&l.pat, &l.init) {
            (Pat::Ident(_), Some(i)) if i.diverge.is_none() => self.kind_of(&i.expr),
            (Pat::Type(t), _) if matches!(&*t.pat, Pat::Ident(_)) => result_type(&t.ty),
            _ => None,
        };
        // the new name is not in scope in its own initialiser
        if let Some(i) = &mut l.init {
            self.visit_local_init_mut(i);
        }
        self.visit_pat_mut(&mut l.pat);
        for n in pat_names(&l.pat) {
            self.kinds.insert(n, k);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order: things that must be seen before their children are rewritten
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if (name == "inspect" || name == "inspect_err") && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let mut body = (*c.body).clone();
                    self.visit_expr_mut(&mut body);
                    if trivial_expr(&body) {
                        self.rep.hit("logging .inspect closure");
                        *e = (*m.receiver).clone();
                        self.visit_expr_mut(e);
                        return;
                    } else {
                        self.rep.problems.push(format!("non-logging .{name} closure"));
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // condvar.wait_while(&mut guard, |g| cond): wait again while the condition holds
            if m.method == "wait_while" && m.args.len() == 2 {
                if let (Expr::Reference(r), Expr::Closure(c)) = (&m.args[0], &m.args[1]) {
                    if let (Some(Pat::Ident(p)), Some(g)) = (c.inputs.first(), simple_ident(&r.expr)) {
                        let g = format_ident!("{g}");
                        let mut ren = BTreeMap::new();
                        let ge: Expr = parse_quote!(#g);
                        ren.insert(p.ident.to_string(), ge);
                        let mut cond = match &*c.body {
                            Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                                Stmt::Expr(x, None) => x.clone(),
                                _ => (*c.body).clone(),
                            },
                            x => x.clone(),
                        };
                        Subst(&ren).visit_expr_mut(&mut cond);
                        let rc = &m.receiver;
                        *e = parse_quote!(while #cond { #rc.vx_wait(&mut #g); });
                        self.rep.hit("wait_while unfolded to a loop");
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        if let Expr::Macro(m) = e {
            let n = mac_name(&m.mac.path);
            if is_tracing(&m.mac.path) {
                *e = parse_quote!(());
                self.rep.hit("logging expression");
                return;
            }
            if n == "format" {
                if let Some(x) = format_model(&m.mac.tokens) {
                    *e = x;
                    self.visit_expr_mut(e);
                    self.rep.hit("format! expanded to concatenation");
                } else {
                    *e = parse_quote!(vx_format());
                    self.rep.hit("format! message");
                }
                return;
            }
            if n == "select" {
                match self.select_stmt(&m.mac) {
                    Ok(arms) => {
                        *e = self.select_expr(arms);
                        self.visit_expr_mut(e);
                    }
                    Err(x) => self.rep.problems.push(x),
                }
                return;
            }
            if n == "unreachable" || n == "panic" || n == "unimplemented" || n == "todo" {
                *e = parse_quote!(vx_panic());
                return;
            }
            if n == "matches" {
                struct M(Expr, Pat, Option<Expr>);
                impl Parse for M {
                    fn parse(i: ParseStream) -> Result<Self> {
                        let a = i.parse()?;
                        let _: Token![,] = i.parse()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            let _: Token![if] = i.parse()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _: Option<Token![,]> = i.parse()?;
                        Ok(M(a, p, g))
                    }
                }
                if let Ok(M(a, p, g)) = parse2::<M>(m.mac.tokens.clone()) {
                    *e = match g {
                        Some(g) => parse_quote!((match #a { #p if #g => true, _ => false })),
                        None => parse_quote!((match #a { #p => true, _ => false })),
                    };
                    self.visit_expr_mut(e);
                }
                return;
            }
            if n == "ready" {
                if let Ok(x) = parse2::<Expr>(m.mac.tokens.clone()) {
                    *e = parse_quote!((match #x { Poll::Ready(vx_r) => vx_r, Poll::Pending => return Poll::Pending }));
                    self.rep.hit("ready!(..)");
                    self.visit_expr_mut(e);
                }
                return;
            }
            if n == "vec" {
                if let Ok(mut els) = (|i: ParseStream| punctuated::Punctuated::<Expr, Token![,]>::parse_terminated(i)).parse2(m.mac.tokens.clone()) {
                    for x in els.iter_mut() {
                        self.visit_expr_mut(x);
                    }
                    m.mac.tokens = els.to_token_stream();
                }
            }
            return;
        }
        // let chains
        if let Expr::If(i) = e {
            if has_let(&i.cond) && !matches!(*i.cond, Expr::Let(_)) {
                let mut conj = vec![];
                flatten_and(&i.cond, &mut conj);
                let els = i.else_branch.as_ref().map(|(_, x)| (**x).clone());
                let mut inner: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                for c in conj.into_iter().rev() {
                    let blk: Block = match inner {
                        Expr::Block(b) => b.block,
                        x => parse_quote!({ #x }),
                    };
                    inner = match &els {
                        Some(x) => parse_quote!(if #c #blk else #x),
                        None => parse_quote!(if #c #blk),
                    };
                }
                self.rep.hit("let chain nested");
                *e = inner;
            }
        }
        if let Some(a) = attrs_mut(e) {
            a.clear();
        }
        let bool_op = match e {
            Expr::Binary(b) => is_bool(&b.left) || is_bool(&b.right),
            _ => false,
        };
        visit_mut::visit_expr_mut(self, e);
        // post-order
        if let Expr::MethodCall(ExprMethodCall { args, .. }) | Expr::Call(ExprCall { args, .. }) = e {
            for a in args.iter_mut().filter(|_| self.cfg.known.contains("VxFrom")) {
                if let Expr::Range(ExprRange { start, end, limits: RangeLimits::HalfOpen(_), .. }) = a {
                    *a = match (start, end) {
                        (None, None) => parse_quote!(VxFull {}),
                        (Some(s), None) => parse_quote!(VxFrom { start: #s }),
                        (None, Some(t)) => parse_quote!(VxTo { end: #t }),
                        _ => continue,
                    };
                    self.rep.hit("open range");
                }
            }
        }
        match e {
            Expr::Await(a) => {
                *e = (*a.base).clone();
                self.rep.hit(".await");
            }
            Expr::Async(a) => {
                let b = &a.block;
                if own_exit(&parse_quote!(#b)) {
                    self.rep.problems.push("async block with an exit of its own".into());
                }
                *e = parse_quote!(#b);
                self.rep.hit("async block");
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if last == "ready" && c.args.len() == 1 && p.path.segments.len() > 1 && p.path.segments[p.path.segments.len() - 2].ident == "future" {
                        let x = &c.args[0];
                        *e = parse_quote!((#x));
                        self.rep.hit("future::ready(..)");
                        return;
                    }
                    if p.path.segments.len() > 1 && p.path.segments[p.path.segments.len() - 2].ident == "mem" {
                        let n = match last.as_str() {
                            "take" => Some("vx_mem_take"),
                            "replace" => Some("vx_mem_replace"),
                            _ => None,
                        };
                        if let Some(n) = n {
                            let f = format_ident!("{}", n);
                            let a = &c.args;
                            *e = parse_quote!(#f(#a));
                            self.rep.hit("mem::take/replace");
                            return;
                        }
                    }
                    if last == "drop" && c.args.len() == 1 && (p.path.segments.len() == 1 || p.path.segments[p.path.segments.len() - 2].ident == "mem") {
                        let a = &c.args[0];
                        *e = parse_quote!({ let vx_dropped = #a; });
                        self.rep.hit("drop(..)");
                        return;
                    }
                    if p.path.segments.len() > 1 && p.path.segments[p.path.segments.len() - 2].ident == "cmp" && matches!(last.as_str(), "min" | "max") && c.args.len() == 2 {
                        let (x, y) = (&c.args[0], &c.args[1]);
                        let f = format_ident!("{}", last);
                        *e = parse_quote!((#x).#f(#y));
                        self.rep.hit("cmp::min/max");
                        return;
                    }
                    if last == "timeout" && c.args.len() == 2 {
                        let (d, f) = (&c.args[0], &c.args[1]);
                        let g: Option<Expr> = self.cfg.ghostargs.get("timeout").map(|g| parse_str(g).unwrap());
                        let g = g.into_iter();
                        *e = parse_quote!((if vx_timeout_elapsed(#d #(, #g)*) { Err(vx_elapsed()) } else { Ok(#f) }));
                        self.rep.hit("timeout(..)");
                        return;
                    }
                    if p.path.segments.len() == 1 && p.qself.is_none() && self.locals.contains(&last) {
                        let f = &c.func;
                        let a = &c.args;
                        let m = format_ident!("vx_call{}", a.len());
                        *e = parse_quote!(#f.#m(#a));
                        self.rep.hit("callback call");
                        return;
                    }
                } else if matches!(&*c.func, Expr::Paren(_)) {
                    let f = &c.func;
                    let a = &c.args;
                    let m = format_ident!("vx_call{}", a.len());
                    *e = parse_quote!(#f.#m(#a));
                    self.rep.hit("callback call");
                    return;
                }
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Some(x) = slice_mut(&r.expr) {
                    *e = x;
                    self.rep.hit("&mut slice");
                }
            }
            Expr::Binary(b) if bool_op && matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = match b.op {
                    BinOp::BitAnd(_) => parse_quote!({ let (vx_a, vx_b) = (#l, #r); vx_a && vx_b }),
                    BinOp::BitOr(_) => parse_quote!({ let (vx_a, vx_b) = (#l, #r); vx_a || vx_b }),
                    _ => parse_quote!({ let (vx_a, vx_b) = (#l, #r); vx_a != vx_b }),
                };
                self.rep.hit("bool & | ^ without short circuit");
            }
            Expr::Binary(b) if bool_op && matches!(b.op, BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = match b.op {
                    BinOp::BitAndAssign(_) => parse_quote!({ let vx_b = #r; #l = #l && vx_b; }),
                    BinOp::BitOrAssign(_) => parse_quote!({ let vx_b = #r; #l = #l || vx_b; }),
                    _ => parse_quote!({ let vx_b = #r; #l = #l != vx_b; }),
                };
                self.rep.hit("bool & | ^ without short circuit");
            }
            Expr::Binary(b) if self.cfg.eq && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = match b.op {
                    BinOp::Eq(_) => parse_quote!(vx_eq(&(#l), &(#r))),
                    _ => parse_quote!((!vx_eq(&(#l), &(#r)))),
                };
                self.rep.hit("== as vx_eq");
            }
            Expr::MethodCall(m) => {
                if matches!(m.method.to_string().as_str(), "copy_from_slice" | "fill" | "copy_within" | "clone_from_slice") {
                    if let Some(x) = slice_mut(&m.receiver) {
                        *m.receiver = x;
                        self.rep.hit("&mut slice");
                    }
                }
                if m.method == "drain" && matches!(m.args.first(), Some(Expr::Range(r)) if r.start.is_none() && r.end.is_none()) {
                    let r = &m.receiver;
                    *e = parse_quote!(vx_mem_take(&mut #r));
                    self.rep.hit("drain(..)");
                    return;
                }
                if let Some(x) = self.combinator(m) {
                    *e = x;
                    return;
                }
                let n = m.method.to_string();
                if let (Some((ty, ret, ens)), [Expr::Closure(c)]) = (self.cfg.closures.get(&n), &m.args.iter().collect::<Vec<_>>()[..]) {
                    if let [Pat::Ident(p)] = &c.inputs.iter().collect::<Vec<_>>()[..] {
                        let mut ren = BTreeMap::new();
                        ren.insert("k".to_string(), p.ident.to_string());
                        let ens = rename_tokens(ens.parse().unwrap(), &ren);
                        let (ty, ret): (TokenStream, TokenStream) = (ty.parse().unwrap(), ret.parse().unwrap());
                        let body = &c.body;
                        m.args[0] = Expr::Verbatim(quote::quote!(|#p: #ty| -> (vx_r: #ret) ensures #ens { #body }));
                        self.rep.hit("closure given its (verified) contract");
                    }
                }
                if let Some(g) = self.cfg.ghostargs.get(&n) {
                    let g: Expr = parse_str(g).unwrap();
                    m.args.push(g);
                }
                if let Some(r) = self.cfg.methods.get(&n) {
                    m.method = Ident::new(r, m.method.span());
                    m.turbofish = None;
                }
            }
            Expr::Path(p) => {
                if p.path.segments.len() <= 2 && p.qself.is_none() {
                    let l = p.path.segments.last().unwrap().ident.to_string();
                    let okp = p.path.segments.len() == 1 || p.path.segments[0].ident == "Self" || p.path.segments[0].ident == "super";
                    if okp && l.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) && !self.cfg.known.contains(&l) {
                        if let Some(c) = self.file.consts.get(&l) {
                            *e = parse_quote!((#c));
                            self.rep.hit("constant inlined");
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = &*p {
            self.kinds.insert(i.ident.to_string(), None);
        }
        // a constant used as a pattern would turn into a binding once the constant is not there any more
        let name = match p {
            Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() => Some(i.ident.to_string()),
            Pat::Path(q) if q.qself.is_none() && q.path.segments.len() == 2 && matches!(q.path.segments[0].ident.to_string().as_str(), "Self" | "super" | "self") => {
                q.path.segments.last().map(|s| s.ident.to_string())
            }
            _ => None,
        };
        if let Some(n) = name {
            let upper = n.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) && n.chars().any(|c| c.is_ascii_uppercase());
            if upper && !self.cfg.known.contains(&n) {
                let c = self.file.consts.get(&n).cloned();
                let lit = match &c {
                    Some(e @ Expr::Lit(_)) => Some(e.to_token_stream()),
                    Some(e @ Expr::Unary(u)) if matches!(&*u.expr, Expr::Lit(_)) => Some(e.to_token_stream()),
                    _ => None,
                };
                match lit {
                    Some(t) => {
                        *p = Pat::Verbatim(t);
                        self.rep.hit("constant inlined");
                        return;
                    }
                    None if c.is_some() || n.len() > 1 => self.rep.problems.push(format!("constant {n} used as a pattern")),
                    None => {}
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        a.attrs.clear();
        visit_mut::visit_arm_mut(self, a);
        if let Expr::Macro(m) = &*a.body {
            if is_tracing(&m.mac.path) {
                a.body = parse_quote!({});
            }
        }
        if a.comma.is_none() {
            a.comma = Some(Default::default());
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        f.attrs.clear();
        visit_mut::visit_field_value_mut(self, f);
    }
}

/// `format!("lit{x}lit{}", y)` -> vx_concat chain when every piece is a plain placeholder
fn format_model(ts: &TokenStream) -> Option<Expr> {
    let args = (|i: ParseStream| punctuated::Punctuated::<Expr, Token![,]>::parse_terminated(i)).parse2(ts.clone()).ok()?;
    let mut it = args.iter();
    let lit = match it.next()? {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    if !lit.starts_with("bytes=") && lit != "{self}" {
        return None;
    }
    let mut pieces: Vec<Expr> = vec![];
    let mut cur = String::new();
    let cs: Vec<char> = lit.chars().collect();
    let mut i = 0;
    let mut rest: Vec<&Expr> = it.collect();
    rest.reverse();
    while i < cs.len() {
        if cs[i] == '{' {
            if cs.get(i + 1) == Some(&'{') {
                return None;
            }
            let j = (i..cs.len()).find(|&k| cs[k] == '}')?;
            let name: String = cs[i + 1..j].iter().collect();
            if !cur.is_empty() {
                let c = std::mem::take(&mut cur);
                pieces.push(parse_quote!(vx_lit(#c)));
            }
            if name.is_empty() {
                let a = rest.pop()?;
                pieces.push(parse_quote!(vx_display(&(#a))));
            } else {
                let id = parse_str::<Expr>(&name).ok()?;
                pieces.push(parse_quote!(vx_display(&#id)));
            }
            i = j + 1;
        } else {
            cur.push(cs[i]);
            i += 1;
        }
    }
    if !cur.is_empty() {
        pieces.push(parse_quote!(vx_lit(#cur)));
    }
    if !rest.is_empty() {
        return None;
    }
    let mut p = pieces.into_iter();
    let mut e = p.next()?;
    for x in p {
        e = parse_quote!(vx_concat(#e, #x));
    }
    Some(e)
}

// ---------------------------------------------------------------------------------------------
// inlining of helpers that have no contract of their own

fn contains_return(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}
fn contains_try(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}
fn expr_returns(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

/// Does control never fall out of the end of this block?
fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => expr_diverges(e),
        _ => false,
    }
}
fn expr_diverges(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block),
        Expr::If(i) => diverges(&i.then_branch) && i.else_branch.as_ref().is_some_and(|(_, e)| expr_diverges(e)),
        Expr::Match(m) => m.arms.iter().all(|a| expr_diverges(&a.body)),
        _ => false,
    }
}

/// Turn a statement list whose `return`s are in statement position into an expression.
fn lower(stmts: &[Stmt]) -> Option<Block> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        let st = s.to_token_stream();
        let b: Block = parse_quote!({ #st });
        if !contains_return(&b) {
            out.push(s.clone());
            continue;
        }
        let rest = &stmts[i + 1..];
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e: Expr = match &r.expr {
                    Some(e) if expr_returns(e) => return None,
                    Some(e) => (**e).clone(),
                    None => parse_quote!(()),
                };
                out.push(Stmt::Expr(e, None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Expr(e @ (Expr::If(_) | Expr::Match(_) | Expr::Block(_)), _) => {
                let e2 = lower_expr(e, rest)?;
                out.push(Stmt::Expr(e2, None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let (p, x) = (&l.pat, &init.expr);
                let r = match init.diverge.as_ref() {
                    None => lower_bind(x, &|v| {
                        let mut w: Vec<Stmt> = vec![parse_quote!(let #p = #v;)];
                        w.extend_from_slice(rest);
                        w
                    })?,
                    Some((_, els)) => {
                        if expr_returns(x) {
                            lower_bind(x, &|v| {
                                let mut w: Vec<Stmt> = vec![parse_quote!(let #p = #v else #els;)];
                                w.extend_from_slice(rest);
                                w
                            })?
                        } else {
                            let elb = match &**els {
                                Expr::Block(b) => lower(&b.block.stmts)?,
                                _ => return None,
                            };
                            let r = lower(rest)?;
                            parse_quote!(match #x { #p => #r, _ => #elb, })
                        }
                    }
                };
                out.push(Stmt::Expr(r, None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            // a value that contains an exit: bind it first
            Stmt::Expr(e, semi) => {
                let r = lower_bind(e, &|v| {
                    let mut w: Vec<Stmt> = match semi {
                        Some(_) => vec![parse_quote!(let _ = #v;)],
                        None => vec![Stmt::Expr(v, None)],
                    };
                    w.extend_from_slice(rest);
                    w
                })?;
                out.push(Stmt::Expr(r, None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            _ => return None,
        }
    }
    Some(Block { brace_token: Default::default(), stmts: out })
}
/// `e` may leave the function by `return`; `k` gives what follows, given the value of `e`
fn lower_bind(e: &Expr, k: &dyn Fn(Expr) -> Vec<Stmt>) -> Option<Expr> {
    if !expr_returns(e) {
        let b = lower(&k(e.clone()))?;
        return Some(parse_quote!(#b));
    }
    let block = |b: &Block| -> Option<Block> {
        if diverges(b) {
            return lower(&b.stmts);
        }
        let mut v = b.stmts.clone();
        match v.pop() {
            Some(Stmt::Expr(x, None)) => {
                if expr_returns(&x) {
                    let r = lower_bind(&x, k)?;
                    v.push(Stmt::Expr(r, None));
                    // what precedes may contain exits of its own
                    if v[..v.len() - 1].iter().any(|s| contains_return(&parse_quote!({ #s }))) {
                        return None;
                    }
                    Some(Block { brace_token: Default::default(), stmts: v })
                } else {
                    v.extend(k(x));
                    lower(&v)
                }
            }
            Some(s) => {
                v.push(s);
                v.extend(k(parse_quote!(())));
                lower(&v)
            }
            None => lower(&k(parse_quote!(()))),
        }
    };
    match e {
        Expr::Return(r) => {
            let s = Stmt::Expr(Expr::Return(r.clone()), None);
            let b = lower(&[s])?;
            Some(parse_quote!(#b))
        }
        Expr::Paren(p) => lower_bind(&p.expr, k),
        Expr::Block(b) => {
            let r = block(&b.block)?;
            Some(parse_quote!(#r))
        }
        Expr::If(i) => {
            let (_, el) = i.else_branch.as_ref()?;
            if expr_returns(&i.cond) {
                return lower_bind(&i.cond, &|v| {
                    let mut j = i.clone();
                    *j.cond = v;
                    k(Expr::If(j))
                });
            }
            let c = &i.cond;
            let t = block(&i.then_branch)?;
            let f = lower_bind(el, k)?;
            let f: Expr = match f {
                Expr::Block(_) => f,
                x => parse_quote!({ #x }),
            };
            Some(parse_quote!(if #c #t else #f))
        }
        Expr::Match(m) => {
            if expr_returns(&m.expr) {
                return lower_bind(&m.expr, &|v| {
                    let mut n = m.clone();
                    *n.expr = v;
                    k(Expr::Match(n))
                });
            }
            let x = &m.expr;
            let mut arms: Vec<Arm> = vec![];
            for a in &m.arms {
                if a.guard.as_ref().is_some_and(|(_, g)| expr_returns(g)) {
                    return None;
                }
                let mut a = a.clone();
                let nb = match &*a.body {
                    Expr::Block(b) => block(&b.block)?,
                    x => block(&parse_quote!({ #x }))?,
                };
                a.body = parse_quote!(#nb);
                a.comma = Some(Default::default());
                arms.push(a);
            }
            Some(parse_quote!(match #x { #(#arms)* }))
        }
        // the operand that is evaluated first
        Expr::Call(c) if c.args.iter().skip(1).all(|a| !expr_returns(a)) && matches!(&*c.func, Expr::Path(_)) => {
            lower_bind(c.args.first()?, &|v| {
                let mut d = c.clone();
                d.args[0] = v;
                k(Expr::Call(d))
            })
        }
        Expr::MethodCall(c) if c.args.iter().all(|a| !expr_returns(a)) => lower_bind(&c.receiver, &|v| {
            let mut d = c.clone();
            *d.receiver = v;
            k(Expr::MethodCall(d))
        }),
        Expr::Unary(c) => lower_bind(&c.expr, &|v| {
            let mut d = c.clone();
            *d.expr = parse_quote!((#v));
            k(Expr::Unary(d))
        }),
        Expr::Cast(c) => lower_bind(&c.expr, &|v| {
            let mut d = c.clone();
            *d.expr = parse_quote!((#v));
            k(Expr::Cast(d))
        }),
        Expr::Field(c) => lower_bind(&c.base, &|v| {
            let mut d = c.clone();
            *d.base = parse_quote!((#v));
            k(Expr::Field(d))
        }),
        Expr::Binary(c) if !expr_returns(&c.right) => lower_bind(&c.left, &|v| {
            let mut d = c.clone();
            *d.left = parse_quote!((#v));
            k(Expr::Binary(d))
        }),
        _ => None,
    }
}

/// `x?` as a match, for a body whose `?` cannot stay
struct Untry {
    option: bool,
}
impl VisitMut for Untry {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Closure(_) | Expr::Async(_)) {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = if self.option {
                parse_quote!(match #x { Some(vx_t) => vx_t, None => return None, })
            } else {
                parse_quote!(match #x { Ok(vx_t) => vx_t, Err(vx_t) => return Err(vx_t), })
            };
        }
    }
}

/// every `return e` (and nothing else) becomes `return k(e)`
struct MapReturn<'a>(&'a dyn Fn(Expr) -> Expr);
impl VisitMut for MapReturn<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Closure(_) | Expr::Async(_)) {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            let v: Expr = match &r.expr {
                Some(v) => (**v).clone(),
                None => parse_quote!(()),
            };
            let n = (self.0)(v);
            *e = parse_quote!(return #n);
        }
    }
}

fn has_loop(b: &Block) -> bool {
    !loop_kinds(b).is_empty()
}

fn lower_with(b: &Block, rest: &[Stmt]) -> Option<Block> {
    if diverges(b) || rest.is_empty() {
        lower(&b.stmts)
    } else {
        let mut v = b.stmts.clone();
        if let Some(Stmt::Expr(_, s)) = v.last_mut() {
            if s.is_none() {
                *s = Some(Default::default());
            }
        }
        v.extend_from_slice(rest);
        lower(&v)
    }
}
fn lower_expr(e: &Expr, rest: &[Stmt]) -> Option<Expr> {
    match e {
        Expr::If(i) => {
            if expr_returns(&i.cond) {
                return lower_bind(&i.cond, &|v| {
                    let mut j = i.clone();
                    *j.cond = v;
                    let mut w = vec![Stmt::Expr(Expr::If(j), None)];
                    w.extend_from_slice(rest);
                    w
                });
            }
            let t = lower_with(&i.then_branch, rest)?;
            let c = &i.cond;
            let el: Block = match &i.else_branch {
                Some((_, x)) => match &**x {
                    Expr::Block(b) => lower_with(&b.block, rest)?,
                    x @ Expr::If(_) => {
                        let y = lower_expr(x, rest)?;
                        parse_quote!({ #y })
                    }
                    _ => return None,
                },
                None => lower(rest)?,
            };
            Some(parse_quote!(if #c #t else #el))
        }
        Expr::Match(m) => {
            let x = &m.expr;
            if expr_returns(x) {
                return lower_bind(x, &|v| {
                    let mut n = m.clone();
                    *n.expr = v;
                    let mut w = vec![Stmt::Expr(Expr::Match(n), None)];
                    w.extend_from_slice(rest);
                    w
                });
            }
            let mut arms: Vec<Arm> = vec![];
            for a in &m.arms {
                let mut a = a.clone();
                let blk: Block = match &*a.body {
                    Expr::Block(b) => b.block.clone(),
                    x => parse_quote!({ #x }),
                };
                let nb = lower_with(&blk, rest)?;
                a.body = parse_quote!(#nb);
                a.comma = Some(Default::default());
                arms.push(a);
            }
            Some(parse_quote!(match #x { #(#arms)* }))
        }
        Expr::Block(b) => {
            let nb = lower_with(&b.block, rest)?;
            Some(parse_quote!(#nb))
        }
        _ => None,
    }
}

struct Subst<'a>(&'a BTreeMap<String, Expr>);
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = simple_ident(e) {
            if let Some(x) = self.0.get(&n) {
                *e = x.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `Self` of a helper that belongs to another type
struct SelfTy<'a>(&'a str);
impl VisitMut for SelfTy<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(s) = p.segments.first_mut() {
            if s.ident == "Self" {
                s.ident = Ident::new(self.0, s.ident.span());
            }
        }
    }
}

/// `(|p| body)(x)` is `{ let p = x; body }`
struct Beta;
impl VisitMut for Beta {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let (mut f, args) = match &*e {
            Expr::Call(c) => (&*c.func, &c.args),
            // a local callable, already turned into a recorded call
            Expr::MethodCall(m) if m.method.to_string().starts_with("vx_call") => (&*m.receiver, &m.args),
            _ => return,
        };
        while let Expr::Paren(p) = f {
            f = &p.expr;
        }
        if let Expr::Closure(k) = f {
            if k.inputs.len() == args.len() {
                let ps = k.inputs.iter();
                let vs = args.iter();
                let b = &k.body;
                *e = parse_quote!({ #(let #ps = #vs;)* #b });
            }
        }
    }
}

fn root_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Field(f) => root_ident(&f.base),
        Expr::Paren(p) => root_ident(&p.expr),
        Expr::Reference(r) => root_ident(&r.expr),
        e => simple_ident(e).filter(|x| x != "self"),
    }
}

/// `{ ..; let vx_r: T = { .. loop }; vx_r }` has no value
fn strip_value(e: Expr) -> Expr {
    if let Expr::Block(mut b) = e {
        let n = b.block.stmts.len();
        if n >= 2 && matches!(&b.block.stmts[n - 1], Stmt::Expr(Expr::Path(_), None)) {
            if let Stmt::Local(l) = b.block.stmts[n - 2].clone() {
                if let Some(i) = l.init {
                    b.block.stmts.truncate(n - 2);
                    b.block.stmts.push(Stmt::Expr(*i.expr, None));
                }
            }
        }
        return Expr::Block(b);
    }
    e
}

/// is the last thing a block does a `loop` that is only left by `return`
fn loop_forever(b: &Block) -> bool {
    fn has_break(b: &Block) -> bool {
        struct V(bool);
        impl<'a> Visit<'a> for V {
            fn visit_expr_break(&mut self, _: &'a ExprBreak) {
                self.0 = true;
            }
        }
        let mut v = V(false);
        v.visit_block(b);
        v.0
    }
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Loop(l), _)) => !has_break(&l.body),
        Some(Stmt::Expr(Expr::Block(b), _)) => loop_forever(&b.block),
        Some(Stmt::Expr(Expr::Path(_), None)) => match b.stmts.get(b.stmts.len().wrapping_sub(2)) {
            // `let vx_r: T = { .. loop }; vx_r`
            Some(Stmt::Local(l)) => match l.init.as_ref().map(|i| &*i.expr) {
                Some(Expr::Block(b)) => loop_forever(&b.block),
                _ => false,
            },
            _ => false,
        },
        _ => false,
    }
}

fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        Expr::Reference(r) => place(&r.expr),
        _ => false,
    }
}

impl Rw<'_> {
    /// tail: is the value of this block the value of the function being extracted
    fn inline_block(&mut self, b: &mut Block, tail: bool) {
        if tail {
            for i in 0..b.stmts.len() {
                if self.continue_with(b, i) {
                    break;
                }
            }
        }
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, semi) => {
                    let t = tail && i + 1 == n && semi.is_none();
                    self.inline_expr(e, t)
                }
                Stmt::Local(l) => {
                    if let Some(init) = &mut l.init {
                        self.inline_expr(&mut init.expr, false);
                        if let Some((_, d)) = &mut init.diverge {
                            self.inline_expr(d, false);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn inline_expr(&mut self, e: &mut Expr, tail: bool) {
        match e {
            Expr::Block(b) => return self.inline_block(&mut b.block, tail),
            Expr::If(i) => {
                self.inline_expr(&mut i.cond, false);
                self.inline_block(&mut i.then_branch, tail);
                if let Some((_, x)) = &mut i.else_branch {
                    self.inline_expr(x, tail);
                }
                return;
            }
            Expr::Match(m) => {
                self.inline_expr(&mut m.expr, false);
                for a in &mut m.arms {
                    self.inline_expr(&mut a.body, tail);
                }
                return;
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.inline_expr(x, true);
                }
                return;
            }
            Expr::Loop(l) => return self.inline_block(&mut l.body, false),
            Expr::While(l) => {
                self.inline_expr(&mut l.cond, false);
                return self.inline_block(&mut l.body, false);
            }
            Expr::ForLoop(l) => {
                self.inline_expr(&mut l.expr, false);
                return self.inline_block(&mut l.body, false);
            }
            Expr::Try(t) => {
                if let Some(mut x) = self.try_inline(&t.expr, true, false) {
                    self.inline_expr(&mut x, false);
                    *t.expr = x;
                    return;
                }
                self.inline_expr(&mut t.expr, false);
                return;
            }
            _ => {}
        }
        if let Some(x) = self.try_inline(e, tail, tail) {
            *e = x;
            self.inline_expr(e, tail);
            return;
        }
        // generic descent
        struct D<'x, 'y>(&'x mut Rw<'y>);
        impl VisitMut for D<'_, '_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                self.0.inline_expr(e, false);
            }
        }
        let mut d = D(self);
        visit_mut::visit_expr_mut(&mut d, e);
    }
    /// A helper whose exits cannot be lowered (they sit in a loop), called by `let p = helper(..)` in a block whose value
    /// is the function's: every exit of the helper goes on with the rest of the caller.
    fn continue_with(&mut self, b: &mut Block, i: usize) -> bool {
        let (p, value): (Pat, Expr) = match &b.stmts[i] {
            Stmt::Local(l) => match &l.init {
                Some(init) if init.diverge.is_none() => (l.pat.clone(), (*init.expr).clone()),
                _ => return false,
            },
            Stmt::Expr(e @ (Expr::Try(_) | Expr::Call(_) | Expr::MethodCall(_)), Some(_)) => (parse_quote!(_), e.clone()),
            _ => return false,
        };
        let (call, under_try) = match value {
            Expr::Try(t) => (*t.expr, true),
            x => (x, false),
        };
        let args: Vec<&Expr> = match &call {
            Expr::Call(c) => c.args.iter().collect(),
            Expr::MethodCall(c) => c.args.iter().collect(),
            _ => return false,
        };
        if args.iter().any(|a| own_exit(a)) {
            return false;
        }
        let problems = self.rep.problems.len();
        let hits = self.rep.dropped.clone();
        let depth = self.depth;
        if self.try_inline(&call, under_try, false).is_some() {
            // handled in the ordinary way
            self.rep.inlined.pop();
            self.rep.dropped = hits;
            self.depth = depth;
            return false;
        }
        if self.rep.problems.len() == problems {
            return false;
        }
        self.rep.dropped = hits;
        let rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
        let Some(mut x) = self.try_inline(&call, under_try, true) else {
            self.rep.problems.truncate(problems + 1);
            return true;
        };
        self.rep.problems.truncate(problems);
        if !under_try {
            // `?` of the helper leaves the helper only
            let opt = !matches!(self.last_output.as_deref(), Some("Result"));
            Untry { option: opt }.visit_expr_mut(&mut x);
        }
        let once = {
            let mut n = 0;
            let mut c = x.clone();
            let cell = std::cell::Cell::new(0);
            MapReturn(&|v| {
                cell.set(cell.get() + 1);
                v
            })
            .visit_expr_mut(&mut c);
            n += cell.get();
            n
        };
        if once > 4 || (once > 1 && has_loop(&Block { brace_token: Default::default(), stmts: rest.clone() })) {
            self.rep.problems.push("helper cannot be inlined: too many exits".to_string());
            return true;
        }
        let cont = |v: Expr| -> Expr {
            let v: Expr = if under_try { parse_quote!((#v)?) } else { v };
            parse_quote!({ let #p = #v; #(#rest)* })
        };
        MapReturn(&cont).visit_expr_mut(&mut x);
        let falls = match &x {
            Expr::Block(bl) => !loop_forever(&bl.block),
            _ => true,
        };
        let fin: Expr = if falls { cont(x) } else { strip_value(x) };
        b.stmts.truncate(i);
        b.stmts.push(Stmt::Expr(fin, None));
        true
    }
    /// q: the call is directly under `?` or in tail position, so `?` inside the helper can stay
    fn try_inline(&mut self, e: &Expr, q: bool, tail: bool) -> Option<Expr> {
        if self.depth > 16 {
            return None;
        }
        let (name, recv, args): (String, Option<Expr>, Vec<Expr>) = match e {
            Expr::MethodCall(m) => (m.method.to_string(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.path.segments.len() <= 2 => {
                    (p.path.segments.last().unwrap().ident.to_string(), None, c.args.iter().cloned().collect())
                }
                _ => return None,
            },
            _ => return None,
        };
        let qual = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.path.segments.len() == 2 => Some(p.path.segments[0].ident.to_string()),
                _ => None,
            },
            _ => None,
        };
        let own = recv.as_ref().is_some_and(|r| simple_ident(r).as_deref() == Some("self"));
        let ty = if own || qual.as_deref() == Some("Self") {
            self.selfty.clone().filter(|t| self.file.helper(&name, recv.is_some(), Some(t)).is_some())
        } else {
            qual.clone().filter(|q| q.chars().next().is_some_and(|c| c.is_ascii_uppercase()))
        };
        match &ty {
            Some(t) if self.file.helper(&name, recv.is_some(), Some(t)).is_some() => {
                if self.cfg.known.contains(&format!("{t}::{name}")) {
                    return None;
                }
            }
            _ => {
                if self.cfg.known.contains(&name) {
                    return None;
                }
            }
        }
        let f = self.file.helper(&name, recv.is_some(), ty.as_deref())?;
        let (recv, args) = match (recv, f.sig.receiver()) {
            (Some(r), Some(_)) => (Some(r), args),
            (None, Some(_)) if !args.is_empty() => (Some(args[0].clone()), args[1..].to_vec()),
            (None, None) => (None, args),
            _ => return None,
        };
        if let Some(r) = &recv {
            if !place(r) {
                return None;
            }
        }
        let mut body = f.block.clone();
        if (ty.is_some() && !own && qual.as_deref() != Some("Self")) || recv.as_ref().is_some_and(|r| simple_ident(r).as_deref() != Some("self")) {
            if let Some(t) = &f.selfty {
                SelfTy(t).visit_block_mut(&mut body);
            }
        }
        let saved = std::mem::replace(&mut self.locals, bound_idents(&body, &f.sig));
        self.depth += 1;
        let saved_hits = self.rep.dropped.clone();
        self.visit_block_mut(&mut body);
        let _ = saved_hits;
        self.locals = saved;
        self.last_output = match &f.sig.output {
            ReturnType::Type(_, t) => last_seg(t),
            _ => None,
        };
        let option = self.last_output.as_deref() == Some("Option");
        let res = (|| {
            if contains_try(&body) && !q && !tail {
                Untry { option }.visit_block_mut(&mut body);
            }
            let mut body = if contains_return(&body) {
                if tail {
                    body
                } else {
                    lower(&body.stmts)?
                }
            } else {
                body
            };
            if let Some(r) = &recv {
                let r = match r {
                    Expr::Reference(x) => (*x.expr).clone(),
                    x => x.clone(),
                };
                let mut m = BTreeMap::new();
                m.insert("self".to_string(), r);
                Subst(&m).visit_block_mut(&mut body);
            }
            let params: Vec<(Pat, Type)> = f
                .sig
                .inputs
                .iter()
                .filter_map(|i| match i {
                    FnArg::Typed(t) => Some(((*t.pat).clone(), (*t.ty).clone())),
                    _ => None,
                })
                .collect();
            if params.len() != args.len() {
                return None;
            }
            let inner = bound_idents(&body, &parse_quote!(fn f()));
            let captured = |e: &Expr| root_ident(e).is_some_and(|x| inner.contains(&x));
            if recv.as_ref().is_some_and(|r| captured(r)) {
                return None;
            }
            let mut lets: Vec<Stmt> = vec![];
            // evaluate arguments first under fresh names so that helper parameters cannot capture them
            let mut sub: BTreeMap<String, Expr> = BTreeMap::new();
            for (k, ((p, t), a)) in params.iter().zip(&args).enumerate() {
                let free = match p {
                    Pat::Ident(pi) => !inner.contains(&pi.ident.to_string()) && !captured(a),
                    _ => false,
                };
                if let (true, Pat::Ident(pi), Expr::Closure(c)) = (free, p, a) {
                    if !own_exit(&c.body) {
                        sub.insert(pi.ident.to_string(), a.clone());
                        continue;
                    }
                }
                if let (true, Pat::Ident(pi), Expr::Path(_)) = (free, p, a) {
                    if pi.mutability.is_none() && simple_ident(a).is_some() {
                        // plain variable passed on (possibly a reborrowed reference)
                        if matches!(t, Type::Reference(_)) || simple_ident(a) == Some(pi.ident.to_string()) {
                            sub.insert(pi.ident.to_string(), a.clone());
                            continue;
                        }
                    }
                }
                if let (true, Pat::Ident(pi), Expr::Reference(r)) = (free, p, a) {
                    if place(&r.expr) && pi.mutability.is_none() {
                        let x = &r.expr;
                        // method receivers / field accesses auto-deref either way
                        sub.insert(pi.ident.to_string(), parse_quote!((#a)));
                        let _ = x;
                        continue;
                    }
                }
                let v = format_ident!("vx_arg{}_{}", self.depth, k);
                if has_generics(t, &f.sig) {
                    lets.push(parse_quote!(let #v = #a;));
                } else {
                    lets.push(parse_quote!(let #v = #a;));
                }
                lets.push(parse_quote!(let #p = #v;));
            }
            // shadowing check: substituted names must not be re-bound inside the helper
            let bound = {
                let mut s = bound_idents(&body, &parse_quote!(fn f()));
                for (p, _) in &params {
                    let _ = p;
                }
                s.retain(|x| sub.contains_key(x));
                s
            };
            if !bound.is_empty() {
                return None;
            }
            Subst(&sub).visit_block_mut(&mut body);
            Beta.visit_block_mut(&mut body);
            let bs = &body.stmts;
            let out: Expr = match &f.sig.output {
                ReturnType::Default => parse_quote!({ #(#lets)* #(#bs)* }),
                ReturnType::Type(_, t) if !has_generics(t, &f.sig) && !mentions_self(t) => {
                    parse_quote!({ #(#lets)* let vx_r: #t = { #(#bs)* }; vx_r })
                }
                _ => parse_quote!({ #(#lets)* #(#bs)* }),
            };
            Some(out)
        })();
        match res {
            Some(x) => {
                self.rep.inlined.push(name);
                Some(x)
            }
            None => {
                self.depth -= 1;
                self.rep.problems.push(format!("helper {name} cannot be inlined"));
                None
            }
        }
    }
}

fn has_generics(t: &Type, sig: &Signature) -> bool {
    let s = t.to_token_stream();
    sig.generics.params.iter().any(|g| match g {
        GenericParam::Type(p) => count_ident(s.clone(), &p.ident.to_string()) > 0,
        _ => false,
    }) || count_ident(s.clone(), "impl") > 0
        || s.to_string().contains('\'')
        || matches!(t, Type::Reference(_))
}
fn mentions_self(t: &Type) -> bool {
    count_ident(t.to_token_stream(), "Self") > 0
}

// ---------------------------------------------------------------------------------------------
// token level substitution

pub fn flat(ts: &TokenStream) -> Vec<String> {
    let mut v = vec![];
    for t in ts.clone() {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    _ => ("", ""),
                };
                v.push(o.into());
                v.extend(flat(&g.stream()));
                v.push(c.into());
            }
            t => v.push(t.to_string()),
        }
    }
    v
}

fn tt_eq(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Group(x), TokenTree::Group(y)) => x.delimiter() == y.delimiter() && flat(&x.stream()) == flat(&y.stream()),
        (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => false,
        _ => a.to_string() == b.to_string(),
    }
}

pub fn subst_tokens(ts: TokenStream, from: &TokenStream, to: &TokenStream, hits: &mut usize) -> TokenStream {
    let f: Vec<TokenTree> = from.clone().into_iter().collect();
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if i + f.len() <= v.len() && !f.is_empty() && f.iter().zip(&v[i..]).all(|(a, b)| tt_eq(a, b)) {
            *hits += 1;
            let sp = v[i].span();
            for mut t in to.clone() {
                t.set_span(sp);
                out.extend([t]);
            }
            i += f.len();
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst_tokens(g.stream(), from, to, hits));
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

pub fn rename_tokens(ts: TokenStream, map: &BTreeMap<String, String>) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => match map.get(&i.to_string()) {
                Some(n) => TokenTree::Ident(Ident::new(n, i.span())),
                None => TokenTree::Ident(i),
            },
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), map));
                ng.set_span(g.span());
                TokenTree::Group(ng)
            }
            t => t,
        })
        .collect()
}

#[allow(dead_code)]
fn _unused() {
    let _ = (Span::call_site(), quote!());
}
