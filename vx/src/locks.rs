//! The models treat a lock guard as the protected value itself: nothing else changes it during the
//! operation. That is only right while one guard covers every access, so a function that goes on after
//! it released a lock (takes it again, or uses something reached through self) is reported.
use syn::visit::{self, Visit};
use syn::*;

#[derive(Default)]
pub struct Locks {
    guards: Vec<String>,
    released: bool,
    temp: bool,
    pub problem: Option<String>,
}
fn is_lock(e: &Expr) -> bool {
    matches!(e, Expr::MethodCall(m) if m.args.is_empty() && matches!(m.method.to_string().as_str(), "lock" | "read" | "write"))
}
fn through_self(e: &Expr) -> bool {
    match e {
        Expr::Field(f) => matches!(&*f.base, Expr::Path(p) if p.path.is_ident("self") || p.path.is_ident("vx_self")) || through_self(&f.base),
        Expr::Paren(p) => through_self(&p.expr),
        Expr::Reference(r) => through_self(&r.expr),
        Expr::MethodCall(m) => through_self(&m.receiver),
        _ => false,
    }
}
fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)),
        _ => false,
    }
}
impl Locks {
    fn branch(&mut self, f: impl FnOnce(&mut Self), ends: bool, start: &(Vec<String>, bool), out: &mut (Vec<String>, bool)) {
        self.guards = start.0.clone();
        self.released = start.1;
        f(self);
        if !ends {
            out.0.retain(|g| self.guards.contains(g));
            out.1 |= self.released;
        }
    }
}
impl<'a> Visit<'a> for Locks {
    fn visit_block(&mut self, b: &'a Block) {
        let n = self.guards.len();
        if let [Stmt::Local(l)] = &b.stmts[..] {
            if matches!(&l.pat, Pat::Ident(p) if p.ident == "vx_dropped") {
                if let Some(Expr::Path(p)) = l.init.as_ref().map(|i| &*i.expr) {
                    if let Some(i) = p.path.get_ident().and_then(|i| self.guards.iter().rposition(|g| i == g)) {
                        self.guards.remove(i);
                        self.released |= self.guards.is_empty();
                    }
                }
                return;
            }
        }
        visit::visit_block(self, b);
        if self.guards.len() > n {
            self.guards.truncate(n);
            self.released |= n == 0;
        }
    }
    fn visit_stmt(&mut self, s: &'a Stmt) {
        let outer = std::mem::take(&mut self.temp);
        if let Stmt::Local(Local { pat, init: Some(i), .. }) = s {
            let pat = match pat {
                Pat::Type(t) => &t.pat,
                p => p,
            };
            if let (Pat::Ident(p), true) = (pat, is_lock(&i.expr)) {
                visit::visit_stmt(self, s);
                self.guards.push(p.ident.to_string());
                self.released = false;
                self.temp = outer;
                return;
            }
        }
        visit::visit_stmt(self, s);
        if self.temp && self.guards.is_empty() {
            self.released = true;
        }
        self.temp = outer;
    }
    fn visit_expr_if(&mut self, i: &'a ExprIf) {
        self.visit_expr(&i.cond);
        let start = (self.guards.clone(), self.released);
        let mut out = (start.0.clone(), false);
        self.branch(|s| s.visit_block(&i.then_branch), diverges(&i.then_branch), &start, &mut out);
        match &i.else_branch {
            Some((_, e)) => {
                let ends = matches!(&**e, Expr::Block(b) if diverges(&b.block));
                self.branch(|s| s.visit_expr(e), ends, &start, &mut out)
            }
            None => out.1 |= start.1,
        }
        (self.guards, self.released) = out;
    }
    fn visit_expr_match(&mut self, m: &'a ExprMatch) {
        self.visit_expr(&m.expr);
        let start = (self.guards.clone(), self.released);
        let mut out = (start.0.clone(), false);
        for a in &m.arms {
            let ends = match &*a.body {
                Expr::Block(b) => diverges(&b.block),
                e => matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)),
            };
            self.branch(|s| s.visit_expr(&a.body), ends, &start, &mut out);
        }
        (self.guards, self.released) = out;
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        let lock = m.args.is_empty() && matches!(m.method.to_string().as_str(), "lock" | "read" | "write");
        if self.released && self.guards.is_empty() && through_self(&m.receiver) && self.problem.is_none() {
            self.problem = Some(format!("the lock is released before .{}(..): what others do in between is not modelled", m.method));
        }
        if lock {
            self.temp = true;
        }
    }
}
