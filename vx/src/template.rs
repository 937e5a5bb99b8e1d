//! Unit templates: contracts (kept in /verif/specs) + bodies taken from /repo on every run.
use crate::print::Printer;
use crate::rewrite::*;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

pub struct Options {
    pub repo: String,
    pub unit: String,
    pub external: BTreeSet<String>,
    pub entry_false: bool,
    pub exit_false: Option<String>,
    /// names read as the ones the contracts use
    pub renames: std::collections::BTreeMap<String, String>,
}
pub struct Generated {
    pub text: String,
    pub map: Value,
}

struct Out {
    lines: Vec<String>,
    /// origin of every output line
    org: Vec<Value>,
}
impl Out {
    fn push(&mut self, s: impl Into<String>, o: Value) {
        let s = s.into();
        for l in s.split('\n') {
            self.lines.push(l.to_string());
            self.org.push(o.clone());
        }
    }
}

fn kv(s: &str) -> BTreeMap<String, String> {
    // key=value or key="va lue"
    let mut m = BTreeMap::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_whitespace() {
            i += 1;
            continue;
        }
        let st = i;
        while i < cs.len() && cs[i] != '=' && !cs[i].is_whitespace() {
            i += 1;
        }
        let k: String = cs[st..i].iter().collect();
        if i < cs.len() && cs[i] == '=' {
            i += 1;
            let v: String;
            if i < cs.len() && cs[i] == '"' {
                let st = i + 1;
                i += 1;
                while i < cs.len() && cs[i] != '"' {
                    i += 1;
                }
                v = cs[st..i].iter().collect();
                i += 1;
            } else {
                let st = i;
                while i < cs.len() && !cs[i].is_whitespace() {
                    i += 1;
                }
                v = cs[st..i].iter().collect();
            }
            m.insert(k, v);
        } else {
            m.insert(k, String::new());
        }
    }
    m
}
/// two quoted strings
fn two(s: &str) -> (String, String) {
    let p: Vec<&str> = s.split('"').collect();
    if p.len() >= 4 {
        (p[1].to_string(), p[3].to_string())
    } else {
        let mut w = s.split_whitespace();
        (w.next().unwrap_or("").into(), w.collect::<Vec<_>>().join(" "))
    }
}

fn read_lines(path: &str, out: &mut Vec<(String, String)>) {
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let name = std::path::Path::new(path).file_name().unwrap().to_string_lossy().to_string();
    for (i, l) in t.lines().enumerate() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            read_lines(dir.join(f.trim()).to_str().unwrap(), out);
        } else {
            out.push((l.to_string(), format!("{name}:{}", i + 1)));
        }
    }
}

fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

fn impl_type(l: &str) -> Option<String> {
    let f: syn::ItemImpl = syn::parse_str(&format!("{}}}", l)).ok()?;
    match &*f.self_ty {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

/// `fn x` and constants named in the template: these keep their own meaning and are not inlined
fn known_names(lines: &[(String, String)]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    // also as `Type::name` where the surrounding impl tells
    let mut imp: Option<(usize, String)> = None;
    for (l, _) in lines {
        let indent = l.len() - l.trim_start().len();
        let l = l.trim();
        if imp.as_ref().is_some_and(|(i, _)| *i == indent) && l.starts_with('}') {
            imp = None;
        }
        if imp.is_none() && l.starts_with("impl") && l.ends_with('{') {
            imp = impl_type(l).map(|t| (indent, t));
        }
        if l.starts_with("//") && !l.starts_with("//@sig") && !l.starts_with("//@known") {
            continue;
        }
        if let Some(r) = l.strip_prefix("//@known ") {
            s.extend(r.split_whitespace().map(String::from));
            continue;
        }
        for (kw, _) in [("fn ", 0), ("const ", 0)] {
            let mut rest = l;
            while let Some(p) = rest.find(kw) {
                let before = rest[..p].chars().last();
                let tail = &rest[p + kw.len()..];
                if before.is_none_or(|c| !c.is_alphanumeric() && c != '_') {
                    let n: String = tail.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    if !n.is_empty() {
                        if let Some((_, t)) = &imp {
                            s.insert(format!("{t}::{n}"));
                        }
                        s.insert(n);
                    }
                }
                rest = tail;
            }
        }
    }
    s
}

fn labels(line: &str) -> (Vec<String>, String) {
    // `... // #C01,C02 name`
    if let Some(p) = line.rfind("// #") {
        let t = &line[p + 4..];
        let mut w = t.splitn(2, char::is_whitespace);
        let props = w.next().unwrap_or("").split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
        (props, w.next().unwrap_or("").trim().to_string())
    } else {
        (vec![], String::new())
    }
}

struct FnSpec {
    head: BTreeMap<String, String>,
    sig: String,
    contract: Vec<(String, String)>,
    loops: BTreeMap<usize, Vec<(String, String)>>,
    entry: Vec<(String, String)>,
    locals: Vec<String>,
    substs: Vec<(String, String)>,
    methods: Vec<(String, String)>,
    ghostargs: Vec<(String, String)>,
    combs: Vec<(String, String)>,
    keep: Vec<String>,
    closures: Vec<(String, String)>,
    eq: bool,
    lits: bool,
    morelits: Vec<String>,
}

fn string_lits(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => string_lits(g.stream(), out),
            proc_macro2::TokenTree::Literal(l) if l.to_string().starts_with('"') => {
                out.insert(l.to_string());
            }
            _ => {}
        }
    }
}

fn parse_stream(s: &str) -> TokenStream {
    s.parse().unwrap_or_else(|e| panic!("bad tokens {s:?}: {e}"))
}

pub fn generate(o: &Options) -> Generated {
    let mut lines = vec![];
    read_lines(&o.unit, &mut lines);
    let known = known_names(&lines);
    let mut files: BTreeMap<String, std::result::Result<SourceFile, String>> = BTreeMap::new();
    let mut out = Out { lines: vec![], org: vec![] };
    let mut gsub: Vec<(String, String)> = vec![];
    let mut gmeth: Vec<(String, String)> = vec![];
    let mut gghost: Vec<(String, String)> = vec![];
    let mut gcomb: Vec<(String, String)> = vec![];
    let mut gkeep: Vec<String> = vec![];
    let mut fns: Vec<Value> = vec![];
    let mut lost: Vec<Value> = vec![];
    let mut geq = false;
    let mut i = 0;
    while i < lines.len() {
        let (l, at) = lines[i].clone();
        let t = l.trim();
        i += 1;
        if let Some(r) = t.strip_prefix("//@subst ") {
            gsub.push(two(r));
        } else if let Some(r) = t.strip_prefix("//@method ") {
            gmeth.push(two(r));
        } else if let Some(r) = t.strip_prefix("//@ghostarg ") {
            gghost.push(two_ghost(r));
        } else if let Some(r) = t.strip_prefix("//@comb ") {
            gcomb.push(two(r));
        } else if t == "//@eq" {
            geq = true;
        } else if let Some(r) = t.strip_prefix("//@keep ") {
            gkeep.extend(r.split_whitespace().map(String::from));
        } else if t.starts_with("//@known ") {
        } else if let Some(r) = t.strip_prefix("//@struct ").or_else(|| t.strip_prefix("//@enum ")) {
            let h = kv(r);
            let file = h["file"].clone();
            let sf = files.entry(file.clone()).or_insert_with(|| SourceFile::load(&o.repo, &file, &o.renames));
            match sf.as_ref().map_err(|e| e.clone()).and_then(|s| emit_type(s, &h, &gsub)) {
                Ok((txt, line)) => out.push(txt, json!({"k": "type", "name": h["name"], "file": file, "line": line})),
                Err(e) => {
                    lost.push(json!({"what": format!("type {} in {}", h["name"], file), "why": e}));
                    out.push(format!("// lost: {e}"), json!({"k":"lost"}));
                }
            }
        } else if let Some(r) = t.strip_prefix("//@fn ") {
            let mut s = FnSpec {
                head: kv(r),
                sig: String::new(),
                contract: vec![],
                loops: BTreeMap::new(),
                entry: vec![],
                locals: vec![],
                substs: gsub.clone(),
                methods: gmeth.clone(),
                ghostargs: gghost.clone(),
                combs: gcomb.clone(),
                keep: gkeep.clone(),
                closures: vec![],
                eq: geq,
                lits: false,
                morelits: vec![],
            };
            let mut sec = "none".to_string();
            while i < lines.len() {
                let (l, at) = lines[i].clone();
                let t = l.trim().to_string();
                i += 1;
                if t == "//@end" {
                    break;
                }
                if let Some(r) = t.strip_prefix("//@sig ") {
                    s.sig = r.to_string();
                    sec = "contract".into();
                } else if let Some(r) = t.strip_prefix("//@loop ") {
                    sec = format!("loop{}", r.trim());
                    s.loops.insert(r.trim().parse().unwrap(), vec![]);
                } else if t.starts_with("//@entry") {
                    sec = "entry".into();
                } else if let Some(r) = t.strip_prefix("//@locals") {
                    s.locals = r.split_whitespace().map(String::from).collect();
                } else if let Some(r) = t.strip_prefix("//@subst ") {
                    s.substs.push(two(r));
                } else if let Some(r) = t.strip_prefix("//@method ") {
                    s.methods.push(two(r));
                } else if let Some(r) = t.strip_prefix("//@ghostarg ") {
                    s.ghostargs.push(two_ghost(r));
                } else if let Some(r) = t.strip_prefix("//@comb ") {
                    s.combs.push(two(r));
                } else if let Some(r) = t.strip_prefix("//@closure ") {
                    s.closures.push(two_ghost(r));
                } else if let Some(r) = t.strip_prefix("//@lits") {
                    s.lits = true;
                    s.morelits.extend(r.split_whitespace().map(String::from));
                } else if t == "//@eq" {
                    s.eq = true;
                } else if let Some(r) = t.strip_prefix("//@keep ") {
                    s.keep.extend(r.split_whitespace().map(String::from));
                } else if let Some(k) = sec.strip_prefix("loop") {
                    s.loops.get_mut(&k.parse().unwrap()).unwrap().push((l, at));
                } else if sec == "entry" {
                    s.entry.push((l, at));
                } else if sec == "contract" {
                    s.contract.push((l, at));
                } else if !t.is_empty() && !t.starts_with("//") {
                    panic!("{at}: text outside of a section");
                }
            }
            emit_fn(o, &mut files, &s, &known, &mut out, &mut fns, &mut lost);
        } else {
            let (props, name) = labels(&l);
            let org = json!({"k": "template", "at": at, "props": props, "name": name});
            out.push(l, org);
        }
    }
    Generated {
        text: out.lines.join("\n") + "\n",
        map: json!({"fns": fns, "lost": lost, "renames": o.renames, "lines": out.org}),
    }
}

fn two_ghost(s: &str) -> (String, String) {
    let mut w = s.splitn(2, char::is_whitespace);
    let a = w.next().unwrap_or("").to_string();
    let b = w.next().unwrap_or("").trim().trim_matches('"').to_string();
    (a, b)
}

fn strip_types(ts: TokenStream, gsub: &[(String, String)]) -> TokenStream {
    let mut ts = ts;
    for (a, b) in gsub {
        let mut h = 0;
        ts = subst_tokens(ts, &parse_stream(a), &parse_stream(b), &mut h);
    }
    ts
}

fn emit_type(s: &SourceFile, h: &BTreeMap<String, String>, gsub: &[(String, String)]) -> std::result::Result<(String, usize), String> {
    let name = &h["name"];
    let as_ = h.get("as").unwrap_or(name);
    let gen = h.get("generics").cloned().unwrap_or_default();
    for it in &s.items {
        match it {
            Item::Struct(st) if st.ident == name => {
                let mut o = format!("pub struct {as_}{gen}");
                match &st.fields {
                    Fields::Named(n) => {
                        o += " {\n";
                        for f in &n.named {
                            if cfg_off(&f.attrs) {
                                continue;
                            }
                            let ty = strip_types(f.ty.to_token_stream(), gsub);
                            o += &format!("    pub {}: {},\n", f.ident.as_ref().unwrap(), ty);
                        }
                        o += "}";
                    }
                    Fields::Unnamed(n) => {
                        let v: Vec<String> =
                            n.unnamed.iter().map(|f| format!("pub {}", strip_types(f.ty.to_token_stream(), gsub))).collect();
                        o += &format!("({});", v.join(", "));
                    }
                    Fields::Unit => o += ";",
                }
                return Ok((o, st.ident.span().start().line));
            }
            Item::Enum(e) if e.ident == name => {
                let mut o = format!("pub enum {as_}{gen} {{\n");
                for v in &e.variants {
                    let mut v = v.clone();
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                    o += &format!("    {},\n", strip_types(v.to_token_stream(), gsub));
                }
                o += "}";
                return Ok((o, e.ident.span().start().line));
            }
            _ => {}
        }
    }
    Err(format!("type {name} not found in {}", s.path))
}

fn split_params(sig: &str) -> Vec<(String, String)> {
    // (name, type) of the canonical parameter list; self is skipped
    let Some(p) = sig.find("fn ") else { return vec![] };
    let s = &sig[p..];
    // skip generics
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut ang = 0;
    while i < cs.len() {
        match cs[i] {
            '<' => ang += 1,
            '>' => ang -= 1,
            '(' if ang == 0 => break,
            _ => {}
        }
        i += 1;
    }
    let st = i + 1;
    let mut d = 1;
    i = st;
    let mut parts = vec![];
    let mut cur = String::new();
    let mut ang = 0;
    while i < cs.len() && d > 0 {
        let c = cs[i];
        match c {
            '(' | '[' => d += 1,
            ')' | ']' => d -= 1,
            '<' => ang += 1,
            '>' if i > 0 && cs[i - 1] != '-' => ang -= 1,
            _ => {}
        }
        if d == 0 {
            break;
        }
        if c == ',' && d == 1 && ang == 0 {
            parts.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
        i += 1;
    }
    if !cur.trim().is_empty() {
        parts.push(cur);
    }
    parts
        .into_iter()
        .filter_map(|p| {
            let p = p.trim().to_string();
            if p.ends_with("self") || p.starts_with("Ghost(") || p.starts_with("Tracked(") || p.contains("self:") {
                return None;
            }
            let (n, t) = p.split_once(':')?;
            Some((n.trim().trim_start_matches("mut ").to_string(), t.trim().to_string()))
        })
        .collect()
}

fn emit_fn(
    o: &Options,
    files: &mut BTreeMap<String, std::result::Result<SourceFile, String>>,
    s: &FnSpec,
    known: &BTreeSet<String>,
    out: &mut Out,
    fns: &mut Vec<Value>,
    lost: &mut Vec<Value>,
) {
    let file = s.head["file"].clone();
    let name = s.head["fn"].clone();
    let imp = s.head.get("impl").cloned();
    let id = s.head.get("id").cloned().unwrap_or_else(|| match &imp {
        Some(i) => format!("{i}::{name}"),
        None => name.clone(),
    });
    let props: Vec<String> =
        s.head.get("props").map(|p| p.split(',').map(|x| x.trim().to_string()).collect()).unwrap_or_default();
    let sf = files.entry(file.clone()).or_insert_with(|| SourceFile::load(&o.repo, &file, &o.renames));
    let found = match sf {
        Ok(sf) => match (&*sf).find(imp.as_deref(), &name) {
            Some(f) => Ok((&*sf, f)),
            None => Err(format!("function {id} not found in {}", sf.path)),
        },
        Err(e) => Err(e.clone()),
    };
    let emit_sig = |out: &mut Out, attr: &str, contract: bool| {
        let org = json!({"k":"sig","fn":id,"props":props});
        if !attr.is_empty() {
            out.push(attr.to_string(), org.clone());
        }
        let vis = if s.head.contains_key("nopub") { "" } else { "pub " };
        out.push(format!("{vis}{}", s.sig), org);
        if contract {
            for (l, at) in &s.contract {
                let (lp, n) = labels(l);
                let lp = if lp.is_empty() { props.clone() } else { lp };
                out.push(l.clone(), json!({"k":"contract","fn":id,"props":lp,"name":n,"at":at}));
            }
        }
    };
    let external = |out: &mut Out, fns: &mut Vec<Value>, why: &str| {
        let st = out.lines.len() + 1;
        emit_sig(out, "#[verifier::external_body]", true);
        out.push("{ unimplemented!() }", json!({"k":"body","fn":id,"props":props}));
        fns.push(json!({"id": id, "name": name, "file": file, "props": props, "external": true, "why": why, "start": st, "end": out.lines.len()}));
    };
    let (sf, f) = match found {
        Ok(x) => x,
        Err(e) => {
            lost.push(json!({"what": id, "why": e, "props": props}));
            external(out, fns, &e);
            return;
        }
    };
    if o.external.contains(&id) {
        external(out, fns, "requested");
        return;
    }
    let mut cfg = Config::default();
    cfg.known = known.clone();
    for (a, b) in &s.methods {
        cfg.methods.insert(a.clone(), b.clone());
    }
    for (a, b) in &s.ghostargs {
        cfg.ghostargs.insert(a.clone(), b.clone());
    }
    for (a, b) in &s.combs {
        cfg.combinators.insert(a.clone(), b.clone());
    }
    cfg.eq = s.eq;
    for (a, b) in &s.closures {
        let w: Vec<&str> = b.splitn(3, '|').map(str::trim).collect();
        cfg.closures.insert(a.clone(), (w[0].into(), w[1].into(), w[2].into()));
    }
    cfg.keep = s.keep.iter().cloned().collect();
    let mut rw = Rw::new(&cfg, sf);
    let body = rw.run(f);
    // parameters
    let canon = split_params(&s.sig);
    let actual: Vec<&PatType> =
        f.sig.inputs.iter().filter_map(|x| if let FnArg::Typed(t) = x { Some(t) } else { None }).collect();
    let mut problems = rw.rep.problems.clone();
    let mut pre: Vec<String> = vec![];
    if canon.len() != actual.len() {
        problems.push(format!("parameter list changed: {} vs {}", canon.len(), actual.len()));
    } else {
        for ((c, _), a) in canon.iter().zip(&actual) {
            let p = a.pat.to_token_stream().to_string();
            if &p != c {
                pre.push(format!("let {p} = {c};"));
            }
        }
    }
    let mut ts = TokenStream::new();
    for st in &body.stmts {
        ts.extend(st.to_token_stream());
    }
    let mutself = f.sig.receiver().is_some_and(|r| r.reference.is_none() && (r.mutability.is_some() || rw.rep.dropped.contains_key("fold over self as a loop")));
    if mutself {
        pre.push("let mut vx_self = self;".into());
        let mut m = BTreeMap::new();
        m.insert("self".to_string(), "vx_self".to_string());
        ts = rename_tokens(ts, &m);
    }
    let mut hits: BTreeMap<String, usize> = BTreeMap::new();
    for (a, b) in &s.substs {
        let mut h = 0;
        ts = subst_tokens(ts, &parse_stream(a), &parse_stream(b), &mut h);
        if h > 0 {
            hits.insert(format!("{a} => {b}"), h);
        }
    }
    // annotations: follow renamed locals
    let cur = let_locals(&f.block);
    let cur_all = let_locals(&body);
    let mut ren: BTreeMap<String, String> = BTreeMap::new();
    let mut used = BTreeSet::new();
    for v in s.loops.values().chain(std::iter::once(&s.entry)) {
        for (l, _) in v {
            let l = l.split("//").next().unwrap_or("");
            if let Ok(ts) = l.parse::<TokenStream>() {
                idents(ts, &mut used);
            } else {
                // unbalanced line: crude split
                for w in l.split(|c: char| !c.is_alphanumeric() && c != '_') {
                    used.insert(w.to_string());
                }
            }
        }
    }
    for (k, n) in s.locals.iter().enumerate() {
        if used.contains(n) && !cur_all.contains(n) {
            if cur.len() == s.locals.len() {
                ren.insert(n.clone(), cur[k].clone());
            } else {
                problems.push(format!("local `{n}` used in a loop invariant is gone"));
            }
        }
    }
    let rename_line = |l: &str| -> String {
        if ren.is_empty() {
            return l.to_string();
        }
        let mut o = String::new();
        let mut w = String::new();
        let flushw = |w: &mut String, o: &mut String| {
            o.push_str(ren.get(w.as_str()).map(String::as_str).unwrap_or(w));
            w.clear();
        };
        for c in l.chars() {
            if c.is_alphanumeric() || c == '_' {
                w.push(c);
            } else {
                flushw(&mut w, &mut o);
                o.push(c);
            }
        }
        flushw(&mut w, &mut o);
        o
    };
    if rw.loops != s.loops.len() {
        problems.push(format!("{} loops in the body, {} loop contracts", rw.loops, s.loops.len()));
    }
    if !problems.is_empty() {
        lost.push(json!({"what": id, "why": problems.join("; "), "props": props}));
        external(out, fns, &problems.join("; "));
        return;
    }
    let st = out.lines.len() + 1;
    emit_sig(out, "#[verifier::exec_allows_no_decreases_clause]", true);
    if o.exit_false.as_deref() == Some(&id) {
        if !s.contract.iter().any(|(l, _)| l.trim_start().starts_with("ensures")) {
            out.push("    ensures", json!({"k":"sig","fn":id}));
        }
        out.push("        false,", json!({"k":"exitfalse","fn":id}));
    }
    let borg = |line: usize| json!({"k":"body","fn":id,"props":props,"file":sf.path,"line":line});
    out.push("{", borg(f.line));
    for (l, at) in &s.entry {
        out.push(rename_line(l), json!({"k":"entry","fn":id,"props":props,"at":at}));
    }
    if s.lits {
        let mut l = BTreeSet::new();
        string_lits(ts.clone(), &mut l);
        l.extend(s.morelits.iter().cloned());
        for x in l.into_iter().filter(|x| !x.contains('\\')) {
            let cs: Vec<char> = x[1..x.len() - 1].chars().collect();
            let mut facts = format!("assert({x}@.len() == {});", cs.len());
            for (i, c) in cs.iter().enumerate().take(32) {
                facts += &format!(" assert({x}@[{i}] == {c:?});");
            }
            out.push(format!("    proof {{ reveal_strlit({x}); {facts} }}"), json!({"k":"entry","fn":id,"props":props,"at":"literals of the body"}));
        }
    }
    if o.entry_false {
        out.push("    assert(false);", json!({"k":"entryfalse","fn":id}));
    }
    for p in &pre {
        out.push(format!("    {p}"), borg(f.line));
    }
    let loops = s.loops.clone();
    let lf = |k: usize| -> Option<String> {
        loops.get(&k).map(|v| v.iter().map(|(l, _)| rename_line(l)).collect::<Vec<_>>().join("\n"))
    };
    let mut pr = Printer::new(&lf);
    pr.stream(ts);
    pr.flush();
    let mut lorg: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
    for (k, a, b) in &pr.loop_spans {
        for x in *a..*b {
            lorg.insert(x, (*k, x - a));
        }
    }
    let mut lastl = f.line;
    for (k, (l, n)) in pr.lines.iter().enumerate() {
        if let Some((lk, off)) = lorg.get(&k) {
            let (src, at) = &s.loops[lk][*off];
            let (lp, nm) = labels(src);
            let lp = if lp.is_empty() { props.clone() } else { lp };
            out.push(l.clone(), json!({"k":"loopinv","fn":id,"props":lp,"name":nm,"at":at}));
        } else {
            if *n > 0 {
                lastl = *n;
            }
            out.push(l.clone(), borg(lastl));
        }
    }
    out.push("}", borg(f.end));
    fns.push(json!({
        "id": id, "name": name, "file": file, "props": props, "external": false,
        "start": st, "end": out.lines.len(), "src": [f.line, f.end],
        "inlined": rw.rep.inlined, "rewrites": rw.rep.dropped, "substs": hits, "shape": loop_kinds(&body),
    }));
}
