//! Option `locks=A,B,..`: the guards of the named `static Mutex`es become explicit.
//! `X.lock().unwrap()` becomes `vp_lock_X(vp_t)`, and every point at which the language drops the guard (end of the block that binds it, end of the
//! statement or of the `if`/`match` condition for a temporary, `drop(g)`, and `return`/`break`/`continue` on the way out) becomes a call of
//! `vp_end_X(vp_t, &g)` (`vp_drop_X` for an explicit drop).  Edition 2021 drop scopes.
use proc_macro2::Span;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Ident, Stmt};

type Guard = (Ident, Ident); // variable, static

pub struct Locks {
    statics: Vec<String>,
    active: Vec<Guard>,
    marks: Vec<usize>,
    frame: Vec<Guard>,
    n: usize,
    pub err: Option<String>,
}

fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
fn lock_stmt((g, x): &Guard) -> Stmt { let f = id(&format!("vp_lock_{}", x)); parse_quote!(let mut #g = #f(vp_t);) }
fn end_stmt((g, x): &Guard) -> Stmt { let f = id(&format!("vp_end_{}", x)); parse_quote!(#f(vp_t, &#g);) }

impl Locks {
    pub fn new(statics: &[String]) -> Self { Locks { statics: statics.to_vec(), active: vec![], marks: vec![], frame: vec![], n: 0, err: None } }
    fn fail(&mut self, m: &str) { if self.err.is_none() { self.err = Some(m.to_string()); } }
    fn fresh(&mut self, p: &str) -> Ident { self.n += 1; id(&format!("{}{}", p, self.n)) }
    /// `X.lock().unwrap()` or `.expect(..)`
    fn lock_of(&self, e: &Expr) -> Option<Ident> {
        let Expr::MethodCall(u) = e else { return None };
        if u.method != "unwrap" && u.method != "expect" { return None; }
        let Expr::MethodCall(l) = &*u.receiver else { return None };
        if l.method != "lock" { return None; }
        let Expr::Path(p) = &*l.receiver else { return None };
        let x = p.path.get_ident()?;
        if self.statics.iter().any(|s| x == s) { Some(x.clone()) } else { None }
    }
    fn is_active(&self, x: &Ident) -> Option<Guard> { self.active.iter().rev().find(|(g, _)| g == x).cloned() }
    fn guard_var(&self, e: &Expr) -> Option<Guard> {
        let Expr::Path(p) = e else { return None };
        self.is_active(p.path.get_ident()?)
    }
    /// run f with a fresh set of temporaries; returns them
    fn scoped(&mut self, e: &mut Expr) -> Vec<Guard> {
        let saved = std::mem::take(&mut self.frame);
        self.visit_expr_mut(e);
        std::mem::replace(&mut self.frame, saved)
    }
    /// expression whose temporaries end with it
    fn closed(&mut self, e: &mut Expr) {
        let t = self.scoped(e);
        if t.is_empty() { return; }
        let r = self.fresh("vp_r");
        let pre: Vec<Stmt> = t.iter().map(lock_stmt).collect();
        let post: Vec<Stmt> = t.iter().rev().map(end_stmt).collect();
        let old = e.clone();
        *e = parse_quote!({ #(#pre)* let #r = #old; #(#post)* #r });
    }
    /// the exit statements for the guards from position `from`
    fn ends(&self, from: usize) -> Vec<Stmt> { self.active[from..].iter().rev().map(end_stmt).collect() }
    fn has_let(e: &Expr) -> bool {
        match e { Expr::Let(_) => true, Expr::Binary(b) => Self::has_let(&b.left) || Self::has_let(&b.right), Expr::Paren(p) => Self::has_let(&p.expr), _ => false }
    }
}

impl VisitMut for Locks {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let base = self.active.len();
        let saved = std::mem::take(&mut self.frame);
        let n = b.stmts.len();
        let mut out: Vec<Stmt> = vec![];
        let mut tailed = false;
        for (i, s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            match s {
                Stmt::Local(mut l) => {
                    let lock = match (&l.init, &l.pat) {
                        (Some(init), syn::Pat::Ident(p)) if init.diverge.is_none() => self.lock_of(&init.expr).map(|x| (p.ident.clone(), x)),
                        _ => None,
                    };
                    if let Some(g) = lock {
                        if self.is_active(&g.0).is_some() { self.fail("two guards of one name"); }
                        out.push(lock_stmt(&g));
                        self.active.push(g);
                        continue;
                    }
                    if let Some(init) = &mut l.init {
                        self.visit_expr_mut(&mut init.expr);
                        let t = std::mem::take(&mut self.frame);
                        out.extend(t.iter().map(lock_stmt));
                        let k = self.active.len();
                        self.active.extend(t.iter().cloned());
                        if let Some((_, d)) = &mut init.diverge { self.visit_expr_mut(d); }
                        self.active.truncate(k);
                        out.push(Stmt::Local(l));
                        out.extend(t.iter().rev().map(end_stmt));
                    } else {
                        out.push(Stmt::Local(l));
                    }
                }
                Stmt::Expr(mut e, semi) => {
                    self.visit_expr_mut(&mut e);
                    let t = std::mem::take(&mut self.frame);
                    out.extend(t.iter().map(lock_stmt));
                    let last = i + 1 == n && semi.is_none();
                    let diverges = matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_));
                    if last && !diverges && (!t.is_empty() || self.active.len() > base) {
                        let r = self.fresh("vp_r");
                        out.push(parse_quote!(let #r = #e;));
                        out.extend(t.iter().rev().map(end_stmt));
                        out.extend(self.ends(base));
                        out.push(Stmt::Expr(parse_quote!(#r), None));
                        tailed = true;
                    } else {
                        if last { tailed = true; }
                        let end = matches!(e, Expr::Return(_)) || is_exit(&e);
                        out.push(Stmt::Expr(e, semi));
                        if !end { out.extend(t.iter().rev().map(end_stmt)); }
                        if i + 1 == n && end { tailed = true; }
                    }
                }
                s => out.push(s),
            }
        }
        if !tailed { out.extend(self.ends(base)); }
        self.active.truncate(base);
        self.frame = saved;
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(x) = self.lock_of(e) {
            let g = self.fresh("vp_g");
            self.frame.push((g.clone(), x));
            *e = parse_quote!(#g);
            return;
        }
        match e {
            Expr::If(i) => {
                let is_let = Locks::has_let(&i.cond);
                let t = self.scoped(&mut i.cond);
                let k = self.active.len();
                if is_let { self.active.extend(t.iter().cloned()); }
                self.visit_block_mut(&mut i.then_branch);
                if let Some((_, b)) = &mut i.else_branch { self.closed(b); }
                self.active.truncate(k);
                if t.is_empty() { return; }
                let pre: Vec<Stmt> = t.iter().map(lock_stmt).collect();
                let post: Vec<Stmt> = t.iter().rev().map(end_stmt).collect();
                if is_let {
                    let old = e.clone();
                    let r = self.fresh("vp_r");
                    *e = parse_quote!({ #(#pre)* let #r = #old; #(#post)* #r });
                } else {
                    let c = self.fresh("vp_c");
                    let cond = i.cond.clone();
                    *i.cond = parse_quote!(#c);
                    let old = e.clone();
                    *e = parse_quote!({ #(#pre)* let #c = #cond; #(#post)* #old });
                }
            }
            Expr::Match(m) => {
                let t = self.scoped(&mut m.expr);
                let k = self.active.len();
                self.active.extend(t.iter().cloned());
                for a in &mut m.arms {
                    if let Some((_, g)) = &mut a.guard { self.closed(g); }
                    self.closed(&mut a.body);
                }
                self.active.truncate(k);
                if t.is_empty() { return; }
                let pre: Vec<Stmt> = t.iter().map(lock_stmt).collect();
                let post: Vec<Stmt> = t.iter().rev().map(end_stmt).collect();
                let old = e.clone();
                let r = self.fresh("vp_r");
                *e = parse_quote!({ #(#pre)* let #r = #old; #(#post)* #r });
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) => {
                self.visit_expr_mut(&mut b.left);
                self.closed(&mut b.right);
            }
            Expr::While(w) => {
                if !self.scoped(&mut w.cond).is_empty() { self.fail("lock in a while condition"); }
                self.marks.push(self.active.len());
                self.visit_block_mut(&mut w.body);
                self.marks.pop();
            }
            Expr::Loop(w) => {
                self.marks.push(self.active.len());
                self.visit_block_mut(&mut w.body);
                self.marks.pop();
            }
            Expr::ForLoop(w) => {
                if !self.scoped(&mut w.expr).is_empty() { self.fail("lock in a for expression"); }
                self.marks.push(self.active.len());
                self.visit_block_mut(&mut w.body);
                self.marks.pop();
            }
            Expr::Closure(c) => {
                struct Find<'a>(&'a Locks, bool);
                impl<'a, 'b> syn::visit::Visit<'b> for Find<'a> {
                    fn visit_expr(&mut self, e: &'b Expr) { if self.0.lock_of(e).is_some() { self.1 = true; } syn::visit::visit_expr(self, e); }
                }
                let mut f = Find(self, false);
                syn::visit::Visit::visit_expr(&mut f, &c.body);
                if f.1 { self.fail("lock in a closure"); }
            }
            Expr::Return(r) => {
                let t = match &mut r.expr { Some(x) => self.scoped(x), None => vec![] };
                if t.is_empty() && self.active.is_empty() { return; }
                let ends = self.ends(0);
                *e = match &r.expr {
                    Some(x) => {
                        let x = x.clone();
                        let v = self.fresh("vp_r");
                        let pre: Vec<Stmt> = t.iter().map(lock_stmt).collect();
                        let post: Vec<Stmt> = t.iter().rev().map(end_stmt).collect();
                        parse_quote!({ #(#pre)* let #v = #x; #(#post)* #(#ends)* return #v; })
                    }
                    None => parse_quote!({ #(#ends)* return; }),
                };
            }
            Expr::Break(syn::ExprBreak { label, expr, .. }) => {
                let m = *self.marks.last().unwrap_or(&0);
                if self.active.len() == m { return; }
                if label.is_some() || expr.is_some() { self.fail("labelled break out of a lock scope"); }
                let ends = self.ends(m);
                *e = parse_quote!({ #(#ends)* break; });
            }
            Expr::Continue(c) => {
                let m = *self.marks.last().unwrap_or(&0);
                if self.active.len() == m { return; }
                if c.label.is_some() { self.fail("labelled continue out of a lock scope"); }
                let ends = self.ends(m);
                *e = parse_quote!({ #(#ends)* continue; });
            }
            Expr::Try(t) => {
                if !self.active.is_empty() || !self.frame.is_empty() { self.fail("? in a lock scope"); }
                self.visit_expr_mut(&mut t.expr);
            }
            Expr::Call(c) => {
                let is_drop = matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "drop"));
                if is_drop && c.args.len() == 1 {
                    if let Some((g, x)) = self.guard_var(&c.args[0]) {
                        let f = id(&format!("vp_drop_{}", x));
                        *e = parse_quote!(#f(vp_t, &#g));
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && self.lock_of(&u.expr).is_some() => {
                self.visit_expr_mut(&mut u.expr);
                let g = u.expr.clone();
                *e = parse_quote!(#g.vp_val);
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && self.guard_var(&u.expr).is_some() => {
                let (g, _) = self.guard_var(&u.expr).unwrap();
                *e = parse_quote!(#g.vp_val);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if m.tokens.to_string().contains(". lock") { self.fail("lock in a macro"); }
    }
}

fn is_exit(e: &Expr) -> bool {
    match e {
        Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
        Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(x, _)) if is_exit(x)),
        _ => false,
    }
}
