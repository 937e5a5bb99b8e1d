//! Renamed private names. The contracts name fields, functions and types as they were when the
//! contracts were written (`specs/baseline.json`, written by `vx baseline`). Where an item is gone and an
//! item of the same shape with a name that occurred nowhere stands in its place, the name is
//! read as the old one; every such reading is listed in the map file.
use proc_macro2::{Delimiter, Group, Ident, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use syn::*;

type Rows = Vec<(String, String)>;
/// function, the types of its signature, the words of its body
type FnRows = Vec<(String, String, String)>;
#[derive(Default)]
struct Table {
    idents: BTreeSet<String>,
    /// file -> type -> (field or variant, its type)
    types: BTreeMap<String, BTreeMap<String, Rows>>,
    /// file -> impl -> functions
    fns: BTreeMap<String, BTreeMap<String, FnRows>>,
}

fn sources(repo: &str) -> Vec<(String, String)> {
    fn walk(d: &Path, root: &Path, v: &mut Vec<(String, String)>) {
        let Ok(r) = std::fs::read_dir(d) else { return };
        let mut e: Vec<_> = r.flatten().map(|x| x.path()).collect();
        e.sort();
        for p in e {
            if p.is_dir() {
                walk(&p, root, v);
            } else if p.extension().is_some_and(|x| x == "rs") {
                if let Ok(t) = std::fs::read_to_string(&p) {
                    v.push((p.strip_prefix(root).unwrap().to_string_lossy().into_owned(), t));
                }
            }
        }
    }
    let root = Path::new(repo);
    let mut v = vec![];
    for c in ["crates/stream-download/src", "crates/stream-download-opendal/src"] {
        walk(&root.join(c), root, &mut v);
    }
    v
}

fn idents(ts: TokenStream, s: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                s.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), s),
            _ => {}
        }
    }
}
fn rows(f: &Fields) -> Rows {
    f.iter().map(|f| (f.ident.as_ref().map(ToString::to_string).unwrap_or_default(), f.ty.to_token_stream().to_string())).collect()
}
fn sig(s: &Signature) -> String {
    let mut o = format!("{} {} {} ", s.asyncness.is_some(), s.generics.to_token_stream(), s.generics.where_clause.to_token_stream());
    for i in &s.inputs {
        match i {
            FnArg::Receiver(r) => o += &format!("{} {},", r.reference.is_some(), r.mutability.is_some() && r.reference.is_some()),
            FnArg::Typed(t) => o += &format!("{},", t.ty.to_token_stream()),
        }
    }
    o + &s.output.to_token_stream().to_string()
}
fn body_words(ts: TokenStream, w: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => body_words(g.stream(), w),
            TokenTree::Literal(l) => w.push(l.to_string().chars().filter(|c| !c.is_whitespace()).collect()),
            TokenTree::Ident(i) => w.push(i.to_string()),
            TokenTree::Punct(_) => {}
        }
    }
}
/// do two bodies share most of their words?
fn alike(a: &str, b: &str, m: &BTreeMap<String, String>) -> bool {
    let count = |s: &str| {
        let mut c: BTreeMap<String, usize> = BTreeMap::new();
        for w in s.split(' ').filter(|w| !w.is_empty()) {
            *c.entry(m.get(w).cloned().unwrap_or_else(|| w.into())).or_default() += 1;
        }
        c
    };
    let (a, b) = (count(a), count(b));
    let common: usize = a.iter().map(|(w, n)| *n.min(b.get(w).unwrap_or(&0))).sum();
    2 * common >= a.values().sum::<usize>().max(b.values().sum())
}
fn collect(items: &[Item], types: &mut BTreeMap<String, Rows>, fns: &mut BTreeMap<String, FnRows>) {
    let mut add = |k: String, s: &Signature, b: Option<&Block>| {
        let mut w = vec![];
        if let Some(b) = b {
            body_words(b.to_token_stream(), &mut w);
        }
        w.sort();
        fns.entry(k).or_default().push((s.ident.to_string(), sig(s), w.join(" ")));
    };
    for it in items {
        match it {
            Item::Struct(s) => {
                types.insert(s.ident.to_string(), rows(&s.fields));
            }
            Item::Enum(e) => {
                types.insert(e.ident.to_string(), e.variants.iter().map(|v| (v.ident.to_string(), v.fields.to_token_stream().to_string())).collect());
            }
            Item::Fn(f) => add(String::new(), &f.sig, Some(&f.block)),
            Item::Impl(i) => {
                let k = format!("{} {}", i.trait_.as_ref().map(|t| t.1.to_token_stream().to_string()).unwrap_or_default(), i.self_ty.to_token_stream());
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        add(k.clone(), &f.sig, Some(&f.block));
                    }
                }
            }
            Item::Trait(t) => {
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        add(format!("trait {}", t.ident), &f.sig, f.default.as_ref());
                    }
                }
            }
            _ => {}
        }
    }
    for it in items {
        if let Item::Macro(m) = it {
            if m.mac.path.segments.last().is_some_and(|x| x.ident == "pin_project") {
                if let Ok(f) = parse2::<File>(m.mac.tokens.clone()) {
                    collect(&f.items, types, fns);
                }
            }
        }
    }
}
fn table(src: &[(String, String)]) -> Table {
    let mut t = Table::default();
    for (p, x) in src {
        if let Ok(ts) = x.parse::<TokenStream>() {
            idents(ts, &mut t.idents);
        }
        if let Ok(f) = parse_file(x) {
            collect(&f.items, t.types.entry(p.clone()).or_default(), t.fns.entry(p.clone()).or_default());
        }
    }
    t
}
pub fn baseline(repo: &str) -> Value {
    let t = table(&sources(repo));
    json!({"idents": t.idents, "types": t.types, "fns": t.fns})
}

/// is the name used on its own (a local, or a shorthand) rather than as a field, function or path?
fn bare(ts: &TokenStream, n: &str) -> bool {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    v.iter().enumerate().any(|(i, t)| match t {
        TokenTree::Group(g) => bare(&g.stream(), n),
        TokenTree::Ident(x) if x == n => {
            let before = i > 0 && (matches!(&v[i - 1], TokenTree::Punct(p) if matches!(p.as_char(), '.' | ':')) || matches!(&v[i - 1], TokenTree::Ident(k) if k == "fn"));
            let after = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == ':') || matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis);
            !before && !after
        }
        _ => false,
    })
}
pub fn apply(ts: TokenStream, m: &BTreeMap<String, String>) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => match m.get(&i.to_string()) {
                Some(o) => TokenTree::Ident(Ident::new(o, i.span())),
                None => TokenTree::Ident(i),
            },
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), apply(g.stream(), m));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}
fn words(s: &str, m: &BTreeMap<String, String>) -> String {
    match s.parse::<TokenStream>() {
        Ok(t) => apply(t, m).to_string(),
        Err(_) => s.into(),
    }
}

/// new name -> name in the contracts
pub fn renames(repo: &str, base: &Value) -> BTreeMap<String, String> {
    let known: BTreeSet<String> = base["idents"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect();
    let src = sources(repo);
    let mut all = BTreeSet::new();
    for (_, x) in &src {
        if let Ok(ts) = x.parse::<TokenStream>() {
            idents(ts, &mut all);
        }
    }
    let fresh: BTreeSet<&String> = all.difference(&known).collect();
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    if known.is_empty() || fresh.is_empty() {
        return m;
    }
    let cur = table(&src);
    let old: BTreeMap<String, BTreeMap<String, Rows>> = serde_json::from_value(base["types"].clone()).unwrap_or_default();
    let oldf: BTreeMap<String, BTreeMap<String, FnRows>> = serde_json::from_value(base["fns"].clone()).unwrap_or_default();
    let none = BTreeMap::new();
    let mut clash: BTreeSet<String> = BTreeSet::new();
    let mut put = |m: &mut BTreeMap<String, String>, n: &str, o: &str| {
        if n == o || n.is_empty() || o.is_empty() || n.contains('#') || o.contains('#') || !fresh.contains(&n.to_string()) || m.get(n).is_some_and(|x| x != o) {
            if n != o {
                clash.insert(n.into());
            }
            return;
        }
        m.insert(n.into(), o.into());
    };
    // types, by the names of their fields
    for (f, ts) in &old {
        let Some(now) = cur.types.get(f) else { continue };
        for (n, r) in ts {
            if now.contains_key(n) || all.contains(n) {
                continue;
            }
            let names = |r: &Rows| r.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
            let c: Vec<&String> = now.iter().filter(|(k, x)| !ts.contains_key(*k) && names(x) == names(r)).map(|x| x.0).collect();
            if let [one] = c[..] {
                put(&mut m, one, n);
            }
        }
    }
    // fields, by place and type
    for (f, ts) in &old {
        let Some(now) = cur.types.get(f) else { continue };
        for (n, r) in ts {
            let back = m.iter().find(|x| x.1 == n).map(|x| x.0.clone()).unwrap_or(n.clone());
            let Some(x) = now.get(&back) else { continue };
            if x.len() != r.len() || !x.iter().zip(r).all(|(a, b)| words(&a.1, &m) == words(&b.1, &none)) {
                continue;
            }
            // more than one new name of a type: only if the others keep their places
            for (a, b) in x.iter().zip(r) {
                if a.0 != b.0 && !x.iter().any(|y| y.0 == b.0) {
                    put(&mut m, &a.0, &b.0);
                }
            }
        }
    }
    // functions, by their signature
    for (f, ts) in &oldf {
        let Some(now) = cur.fns.get(f) else { continue };
        for (k, r) in ts {
            let Some(x) = now.iter().find(|x| words(x.0, &m) == words(k, &none)).map(|x| x.1) else { continue };
            for (n, s, w) in r.iter().filter(|a| !x.iter().any(|b| b.0 == a.0)) {
                let c: Vec<&(String, String, String)> = x.iter().filter(|b| words(&b.1, &m) == words(s, &none) && !r.iter().any(|a| a.0 == b.0)).collect();
                let o = r.iter().filter(|a| a.1 == *s && !x.iter().any(|b| b.0 == a.0)).count();
                if let ([one], 1) = (&c[..], o) {
                    if !alike(&one.2, w, &m) {
                        continue;
                    }
                    put(&mut m, &one.0, n);
                }
            }
        }
    }
    for c in clash {
        m.remove(&c);
    }
    // a local of one name must not meet a local of the other
    m.retain(|n, o| {
        !src.iter().any(|(_, x)| x.parse::<TokenStream>().is_ok_and(|ts| bare(&ts, n) && bare(&ts, o)))
    });
    m
}
