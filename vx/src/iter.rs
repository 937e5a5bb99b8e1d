//! Passes that run before the main rewriting: expansion of the file's own simple macros, inlining of
//! lazily evaluated iterator chains into the `for` that consumes them, `for` over collections as an
//! index loop.
use proc_macro2::{TokenStream, TokenTree};
use quote::{ToTokens, format_ident};
use std::collections::BTreeMap;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct MacroDef {
    params: Vec<String>,
    body: TokenStream,
}
/// only `($a:frag, $b:frag) => { body };` with a single arm
pub fn macro_def(m: &ItemMacro) -> Option<(String, MacroDef)> {
    let name = m.ident.as_ref()?.to_string();
    let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let (TokenTree::Group(p), TokenTree::Group(b)) = (t.first()?, t.get(3)?) else { return None };
    if t.len() > 5 {
        return None;
    }
    let mut params = vec![];
    let pt: Vec<TokenTree> = p.stream().into_iter().collect();
    let mut i = 0;
    while i < pt.len() {
        // $ name : frag ,
        if pt.get(i)?.to_string() != "$" || pt.get(i + 2)?.to_string() != ":" {
            return None;
        }
        params.push(pt.get(i + 1)?.to_string());
        match pt.get(i + 4).map(|x| x.to_string()) {
            None => {}
            Some(c) if c == "," => {}
            _ => return None,
        }
        i += 5;
    }
    Some((name, MacroDef { params, body: b.stream() }))
}
fn fill(ts: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
    let mut o = TokenStream::new();
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if v[i].to_string() == "$" && i + 1 < v.len() {
            if let Some(x) = m.get(&v[i + 1].to_string()) {
                o.extend(x.clone());
                i += 2;
                continue;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => o.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), fill(g.stream(), m)))]),
            x => o.extend([x.clone()]),
        }
        i += 1;
    }
    o
}
pub struct Expand<'a> {
    pub defs: &'a BTreeMap<String, MacroDef>,
    pub n: usize,
}
impl VisitMut for Expand<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(d) = m.mac.path.get_ident().and_then(|i| self.defs.get(&i.to_string())) {
                let mut args: Vec<TokenStream> = vec![TokenStream::new()];
                for t in m.mac.tokens.clone() {
                    if t.to_string() == "," {
                        args.push(TokenStream::new());
                    } else {
                        args.last_mut().unwrap().extend([t]);
                    }
                }
                if args.len() == d.params.len() {
                    let map = d.params.iter().cloned().zip(args).collect();
                    if let Ok(x) = parse2::<Expr>(fill(d.body.clone(), &map)) {
                        *e = x;
                        self.n += 1;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

enum Ad {
    FilterMap(Pat, Expr),
    Filter(Pat, Expr),
    Map(Pat, Expr),
}
enum Base {
    /// by reference or by value: an expression to index
    Get(Expr),
    /// by mutable reference: a place
    Mut(Expr),
}
fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            return Some((p, (*c.body).clone()));
        }
    }
    None
}
/// a function given by its path: `Into::into` is the method, anything else is called
fn path_fn(e: &Expr) -> Option<(Pat, Expr)> {
    let Expr::Path(p) = e else { return None };
    if p.path.segments.len() < 2 {
        return None;
    }
    let n = p.path.segments.len();
    let (t, m) = (&p.path.segments[n - 2].ident, &p.path.segments[n - 1].ident);
    let x = if matches!(t.to_string().as_str(), "Into" | "ToString" | "Clone" | "ToOwned") { parse_quote!(vx_p.#m()) } else { parse_quote!(#e(vx_p)) };
    Some((parse_quote!(vx_p), x))
}
/// `F(acc, x)` for a fold's function
fn apply2(f: &Expr, acc: &Expr, x: &Expr) -> Option<Expr> {
    match f {
        Expr::Path(_) => Some(parse_quote!(#f(#acc, #x))),
        Expr::Closure(c) if c.inputs.len() == 2 => {
            let (a, b, body) = (&c.inputs[0], &c.inputs[1], &c.body);
            Some(parse_quote!({ let #a = #acc; let #b = #x; #body }))
        }
        _ => None,
    }
}
/// a place that can be named again and again
fn plain(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => plain(&f.base),
        _ => false,
    }
}
/// folds, and extensions by a mapped iterator, as the loops they are
fn as_loop(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(m) = e else { return None };
    let (n, r) = (m.method.to_string(), &m.receiver);
    if n == "fold" && m.args.len() == 2 && matches!(chain(r), Some((_, _, true))) {
        let x: Expr = parse_quote!(vx_f);
        if matches!(&m.args[0], Expr::Path(p) if p.path.is_ident("self")) {
            let b = apply2(&m.args[1], &parse_quote!(self), &x)?;
            return Some(parse_quote!({ for vx_f in #r { self = #b; } self }));
        }
        let (i, b) = (&m.args[0], apply2(&m.args[1], &parse_quote!(vx_acc), &x)?);
        return Some(parse_quote!({ let mut vx_acc = #i; for vx_f in #r { vx_acc = #b; } vx_acc }));
    }
    if n == "extend" && m.args.len() == 1 && plain(r) && matches!(chain(&m.args[0]), Some((_, a, true)) if !a.is_empty()) {
        let a = &m.args[0];
        return Some(parse_quote!({ for vx_f in #a { #r.push(vx_f); } }));
    }
    None
}
fn chain(e: &Expr) -> Option<(Base, Vec<Ad>, bool)> {
    match e {
        Expr::Paren(p) => chain(&p.expr),
        Expr::Range(_) => None,
        Expr::Reference(r) if r.mutability.is_some() => Some((Base::Mut((*r.expr).clone()), vec![], false)),
        Expr::Reference(_) => Some((Base::Get(e.clone()), vec![], false)),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match (n.as_str(), m.args.len()) {
                ("iter", 0) => {
                    let r = &m.receiver;
                    Some((Base::Get(parse_quote!(#r.vx_iter())), vec![], true))
                }
                ("iter_mut", 0) => Some((Base::Mut((*m.receiver).clone()), vec![], true)),
                ("into_iter", 0) => Some((Base::Get((*m.receiver).clone()), vec![], true)),
                ("filter_map" | "filter" | "map", 1) => {
                    let (b, mut a, _) = chain(&m.receiver)?;
                    let (p, x) = closure1(&m.args[0]).or_else(|| path_fn(&m.args[0]))?;
                    a.push(match n.as_str() {
                        "filter_map" => Ad::FilterMap(p, x),
                        "filter" => Ad::Filter(p, x),
                        _ => Ad::Map(p, x),
                    });
                    Some((b, a, true))
                }
                _ => Some((Base::Get(e.clone()), vec![], false)),
            }
        }
        _ => Some((Base::Get(e.clone()), vec![], false)),
    }
}

/// uses of a name: (as the iterable of a for, all)
struct Uses<'a>(&'a str, usize, usize);
impl<'a> Visit<'a> for Uses<'_> {
    fn visit_expr(&mut self, e: &'a Expr) {
        if let Expr::ForLoop(f) = e {
            if matches!(&*f.expr, Expr::Path(p) if p.path.is_ident(self.0)) {
                self.1 += 1;
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(self.0) {
                self.2 += 1;
            }
        }
        visit::visit_expr(self, e);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.0) {
            self.2 += 1;
        }
    }
}
struct PutFor<'a>(&'a str, &'a Expr);
impl VisitMut for PutFor<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e {
            if matches!(&*f.expr, Expr::Path(p) if p.path.is_ident(self.0)) {
                *f.expr = self.1.clone();
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
pub struct Loops {
    pub k: usize,
    pub hits: Vec<&'static str>,
}
impl VisitMut for Loops {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if init.diverge.is_none() && matches!(chain(&init.expr), Some((Base::Get(_), a, true)) if !a.is_empty()) {
                        let name = p.ident.to_string();
                        let mut u = Uses(&name, 0, 0);
                        for s in &b.stmts[i + 1..] {
                            u.visit_stmt(s);
                        }
                        if u.1 > 0 && u.1 == u.2 {
                            let x = (*init.expr).clone();
                            let mut pf = PutFor(&name, &x);
                            for s in b.stmts[i + 1..].iter_mut() {
                                pf.visit_stmt_mut(s);
                            }
                            b.stmts.remove(i);
                            self.hits.push("iterator chain inlined into its for loop");
                            continue;
                        }
                    }
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(x) = as_loop(e) {
            let own = matches!(&*e, Expr::MethodCall(m) if m.args.len() == 2 && matches!(&m.args[0], Expr::Path(p) if p.path.is_ident("self")));
            self.hits.push(if own { "fold over self as a loop" } else { "fold or extend as a loop" });
            *e = x;
        }
        if let Expr::ForLoop(f) = e {
            if let Some((base, ads, _)) = chain(&f.expr) {
                if f.label.is_none() {
                    let k = self.k;
                    self.k += 1;
                    let (vi, vs) = (format_ident!("vx_i{k}"), format_ident!("vx_s{k}"));
                    let mut body = f.body.clone();
                    let mut pat = (*f.pat).clone();
                    for (n, a) in ads.iter().enumerate().rev() {
                        // what the previous stage hands over
                        let t = format_ident!("vx_t{k}_{n}");
                        body = match a {
                            Ad::FilterMap(p, x) => parse_quote!({ let #p = #t; match #x { Some(#pat) => #body, None => {} } }),
                            Ad::Filter(p, x) => parse_quote!({ let vx_keep = { let #p = &#t; #x }; if vx_keep { let #pat = #t; #body } }),
                            Ad::Map(p, x) => parse_quote!({ let #p = #t; let #pat = #x; #body }),
                        };
                        pat = parse_quote!(#t);
                    }
                    let stmts = &body.stmts;
                    let new: Expr = match base {
                        Base::Get(x) => parse_quote!({
                            let mut #vs = #x;
                            let mut #vi: usize = 0;
                            while #vi < #vs.vx_len() {
                                let #pat = #vs.vx_take(#vi);
                                #vi = #vi + 1;
                                #(#stmts)*
                            }
                        }),
                        Base::Mut(x) => parse_quote!({
                            let mut #vi: usize = 0;
                            while #vi < #x.len() {
                                let #pat = #x.vx_get_mut(#vi);
                                #vi = #vi + 1;
                                #(#stmts)*
                            }
                        }),
                    };
                    *e = new;
                    self.hits.push("for loop as index loop");
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
pub fn tokens_of(e: &Expr) -> TokenStream {
    e.to_token_stream()
}
