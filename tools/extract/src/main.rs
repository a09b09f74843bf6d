//! vp-extract: mechanical extraction of functions/items from /repo into a Verus unit.
//!
//! usage: vp-extract REPO TEMPLATE OUT.rs REPORT.txt
//!
//! The template is a Verus file.  Lines of the form `//@ ...` are directives; everything else is
//! copied.  A directive block
//!
//!   //@extract <file> <path>        path = fn name, `Type::method`, or `struct:Name`, `const:Name`, `enum:Name`
//!   //@opts  ret=r locals=a,b,c name=newname drop_derive
//!   //@subst <old> ==> <new>        literal token substitution inside the extracted text (logged)
//!   //@spec
//!     requires/ensures text
//!   //@loop K                       text placed between the head of the K-th loop and its body
//!   //@loop-start K / //@loop-end K / //@loop-before K / //@loop-after K
//!   //@body-start / //@body-end     ghost text
//!   //@after-let NAME               ghost text after the statement that declares the local NAME
//!   //@end
//!
//! is replaced by the text of the item as it stands in the repository, with
//!   * attributes, doc comments and comments removed, visibility normalised to `pub`;
//!   * logging statements (log::*!, println!, eprintln!) removed;
//!   * `Error::ctor(...)` replaced by `vp_error()` (the message is dropped, the fact of failing kept), `Error::FileNotFound(...)` by `vp_not_found()` (that it is this error is kept too);
//!     `ok_or_else(|| Error::..)` becomes `ok_or(..)`;
//!   * iterator loops desugared to index loops (rules printed in the report);
//!   * the ghost text inserted.
//! Everything that is executed is copied verbatim otherwise.
use quote::ToTokens;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use syn::spanned::Spanned;
mod locks;
use syn::visit::{self, Visit};

type R = std::ops::Range<usize>;

struct Edit {
    range: R,
    text: String,
    seq: usize,
}

#[derive(Default)]
struct Block {
    file: String,
    path: String,
    ret: Option<String>,
    name: Option<String>,
    recv: Option<String>,
    locals: Vec<String>,
    subst: Vec<(String, String)>,
    spec: String,
    loops: BTreeMap<usize, String>,
    lstart: BTreeMap<usize, String>,
    lend: BTreeMap<usize, String>,
    lbefore: BTreeMap<usize, String>,
    lafter: BTreeMap<usize, String>,
    bstart: String,
    bend: String,
    btail: String,
    afterlet: BTreeMap<String, String>,
    nloops: Option<usize>,
    types: Vec<(String, String)>,
    keep_self: bool,
    anon_ok: bool,
    in_trait: bool,
    /// parameters put in front of the others: what the code takes from its environment (captured variables, globals)
    params: String,
    /// generics of a lifted closure
    generics: String,
    /// locals holding closures that are extracted on their own (`path@closure`)
    drop: Vec<String>,
    /// closure arguments replaced by the function they are extracted as
    hoist: Vec<(String, String)>,
    /// types of a lifted closure's parameters and result, where it does not write them
    ptypes: String,
    outty: String,
    /// raw pointers become addresses into an explicit memory
    ptrs: bool,
    /// statics whose mutex guards become explicit
    locks: Vec<String>,
    /// index loops written as `while` (their bodies use `continue`)
    whiles: Vec<usize>,
}

fn die(msg: &str) -> ! {
    println!("EXTRACT-FAIL {}", msg);
    std::process::exit(3)
}

fn range(s: proc_macro2::Span) -> R {
    s.byte_range()
}

struct Locals {
    names: Vec<String>,
}
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let n = p.ident.to_string();
        // upper-case identifiers in patterns are constants, `_x` are throw-aways
        if !n.starts_with('_') && n.chars().next().map_or(false, |c| c.is_lowercase()) {
            self.names.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
}

struct Ctx<'a> {
    src: &'a str,
    edits: Vec<Edit>,
    loop_no: usize,
    blk: &'a Block,
    rules: Vec<String>,
    ren: BTreeMap<String, String>,
    placed: Vec<String>,
    /// parameters that are raw pointers (option `ptrs`)
    ptr_names: Vec<String>,
}

impl<'a> Ctx<'a> {
    fn edit(&mut self, range: R, text: String) {
        let seq = self.edits.len();
        self.edits.push(Edit { range, text, seq });
    }
    fn txt(&self, r: R) -> &'a str {
        &self.src[r]
    }
    fn ghost(&self, t: &str) -> String {
        rename_idents(t, &self.ren)
    }
    fn is_ptr(&self, e: &syn::Expr) -> bool {
        if let syn::Expr::Path(p) = e {
            return p.path.get_ident().map_or(false, |i| self.ptr_names.contains(&i.to_string()));
        }
        if let syn::Expr::Paren(p) = e {
            return self.is_ptr(&p.expr);
        }
        false
    }
    fn ptr_deref(&self, e: &syn::Expr) -> Option<String> {
        if let syn::Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Deref(_)) && self.is_ptr(&u.expr) {
                return Some(self.txt(range(u.expr.span())).to_string());
            }
        }
        None
    }
    fn loop_ann(&self, k: usize) -> String {
        let s = self.blk.loops.get(&k).cloned().unwrap_or_default();
        self.ghost(&s)
    }
    fn wrap_loop(&mut self, k: usize, whole: R, body_open: usize, body_close: usize) {
        if let Some(t) = self.blk.lbefore.get(&k) {
            let t = self.ghost(t);
            self.edit(whole.start..whole.start, format!("\n{}\n", t));
        }
        if let Some(t) = self.blk.lstart.get(&k) {
            let t = self.ghost(t);
            self.edit(body_open + 1..body_open + 1, format!("\n{}\n", t));
        }
        if let Some(t) = self.blk.lend.get(&k) {
            let t = self.ghost(t);
            self.edit(body_close..body_close, format!("\n{}\n", t));
        }
        if let Some(t) = self.blk.lafter.get(&k) {
            let t = self.ghost(t);
            self.edit(whole.end..whole.end, format!("\n{}\n", t));
        }
    }
}

/// rename whole identifiers in ghost text (used when the source renamed a local)
fn rename_idents(t: &str, ren: &BTreeMap<String, String>) -> String {
    if ren.is_empty() {
        return t.to_string();
    }
    let b: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[s..i].iter().collect();
            let field = s > 0 && b[s - 1] == '.' && !(s > 1 && b[s - 2] == '.');
            if !field {
                if let Some(n) = ren.get(&w) {
                    out.push_str(n);
                    continue;
                }
            }
            out.push_str(&w);
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn is_log_macro(m: &syn::Macro) -> bool {
    let p = m.path.to_token_stream().to_string().replace(' ', "");
    p.starts_with("log::")
        || ["println", "eprintln", "debug", "trace", "warn", "info", "debug_assert"].contains(&p.as_str())
}

fn simple_path(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) => true,
        syn::Expr::Field(f) => simple_path(&f.base),
        syn::Expr::Reference(r) => simple_path(&r.expr),
        _ => false,
    }
}

/// method chain head: returns (receiver, method names with args from inner to outer)
fn chain<'b>(e: &'b syn::Expr) -> (&'b syn::Expr, Vec<&'b syn::ExprMethodCall>) {
    let mut v = vec![];
    let mut cur = e;
    while let syn::Expr::MethodCall(m) = cur {
        v.push(m);
        cur = &m.receiver;
    }
    v.reverse();
    (cur, v)
}

fn chain_of<'b>(m: &'b syn::ExprMethodCall) -> (&'b syn::Expr, Vec<&'b syn::ExprMethodCall>) {
    let (r, mut v) = chain(&m.receiver);
    v.push(m);
    (r, v)
}

struct DerefRepl<'c> {
    var: String,
    out: Vec<R>,
    other: usize,
    _p: std::marker::PhantomData<&'c ()>,
}
impl<'a, 'c> Visit<'a> for DerefRepl<'c> {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        if let syn::Expr::Unary(u) = e {
            if let syn::UnOp::Deref(_) = u.op {
                if let syn::Expr::Path(p) = &*u.expr {
                    if p.path.is_ident(&self.var) {
                        self.out.push(range(e.span()));
                        return;
                    }
                }
            }
        }
        if let syn::Expr::Path(p) = e {
            if p.path.is_ident(&self.var) {
                self.other += 1;
            }
        }
        visit::visit_expr(self, e);
    }
}

impl<'a, 'x> Visit<'a> for Ctx<'x> {
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        if let syn::Stmt::Local(l) = s {
            if let syn::Pat::Ident(p) = &l.pat {
                if self.blk.drop.contains(&p.ident.to_string()) && matches!(l.init.as_ref().map(|i| &*i.expr), Some(syn::Expr::Closure(_))) {
                    self.edit(range(s.span()), String::new());
                    self.rules.push(format!("closure {} -> function of its own, captured variables as parameters", p.ident));
                    return;
                }
            }
        }
        if let syn::Stmt::Macro(m) = s {
            if is_log_macro(&m.mac) {
                self.edit(range(s.span()), String::new());
                self.rules.push("drop-log".into());
                return;
            }
        }
        if let syn::Stmt::Expr(syn::Expr::Macro(m), _) = s {
            if is_log_macro(&m.mac) {
                self.edit(range(s.span()), String::new());
                self.rules.push("drop-log".into());
                return;
            }
        }
        visit::visit_stmt(self, s);
    }

    fn visit_local(&mut self, l: &'a syn::Local) {
        if let syn::Pat::Ident(p) = &l.pat {
            let n = p.ident.to_string();
            for (a, t) in &self.blk.types {
                if self.ren.get(a).unwrap_or(a) == &n {
                    let e = range(p.span()).end;
                    self.edit(e..e, format!(": {}", t));
                    self.rules.push(format!("type-annotation {}: {}", n, t));
                }
            }
        }
        if !self.blk.afterlet.is_empty() {
            let mut lo = Locals { names: vec![] };
            lo.visit_pat(&l.pat);
            for n in lo.names {
                for (a, t) in &self.blk.afterlet {
                    if self.ren.get(a).unwrap_or(a) == &n && !self.placed.contains(a) {
                        self.placed.push(a.clone());
                        let t = self.ghost(t);
                        let e = range(l.span()).end;
                        self.edit(e..e, format!("\n{}\n", t));
                    }
                }
            }
        }
        visit::visit_local(self, l);
    }

    fn visit_type_ptr(&mut self, t: &'a syn::TypePtr) {
        if self.blk.ptrs {
            let (w, e) = (range(t.span()), range(t.elem.span()));
            self.edit(w.start..e.start, "VpPtr<".into());
            self.edit(e.end..e.end, ">".into());
            self.rules.push("raw pointer type -> address into the explicit memory".into());
        }
        visit::visit_type_ptr(self, t);
    }

    fn visit_expr_unsafe(&mut self, u: &'a syn::ExprUnsafe) {
        if self.blk.ptrs {
            let r = range(u.unsafe_token.span());
            self.edit(r, String::new());
        }
        visit::visit_expr_unsafe(self, u);
    }

    fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
        if let Some(p) = self.ptr_deref(&a.left) {
            let (w, e) = (range(a.span()), range(a.right.span()));
            self.edit(w.start..e.start, format!("vp_store(vp_mem, {}, ", p));
            self.visit_expr(&a.right);
            self.edit(e.end..e.end, ")".into());
            self.rules.push(format!("*{} = .. -> store to the explicit memory", p));
            return;
        }
        visit::visit_expr_assign(self, a);
    }

    fn visit_expr_unary(&mut self, u: &'a syn::ExprUnary) {
        if matches!(u.op, syn::UnOp::Deref(_)) && self.is_ptr(&u.expr) {
            let (w, e) = (range(u.span()), range(u.expr.span()));
            self.edit(w.start..e.start, "vp_load(vp_mem, ".into());
            self.edit(e.end..e.end, ")".into());
            self.rules.push("*p -> load from the explicit memory".into());
            return;
        }
        visit::visit_expr_unary(self, u);
    }

    fn visit_expr_cast(&mut self, c: &'a syn::ExprCast) {
        if self.blk.ptrs {
            let (w, e) = (range(c.span()), range(c.expr.span()));
            if let syn::Type::Ptr(t) = &*c.ty {
                let ty = self.txt(range(t.elem.span())).to_string();
                self.edit(w.start..w.start, format!("vp_cast::<_, {}>(", ty));
                self.visit_expr(&c.expr);
                self.edit(e.end..w.end, ")".into());
                self.rules.push("pointer cast -> the same address".into());
                return;
            }
            if c.ty.to_token_stream().to_string() == "HANDLE" {
                self.edit(w.start..w.start, "vp_handle(".into());
                self.visit_expr(&c.expr);
                self.edit(e.end..w.end, ")".into());
                self.rules.push("id as HANDLE -> the handle with that address".into());
                return;
            }
            if self.is_ptr(&c.expr) {
                self.edit(w.start..w.start, "vp_addr(".into());
                self.edit(e.end..e.end, ")".into());
                self.rules.push("pointer as integer -> its address".into());
                return;
            }
        }
        visit::visit_expr_cast(self, c);
    }

    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if self.blk.ptrs && c.args.len() == 3 {
            if let (syn::Expr::Path(p), syn::Expr::MethodCall(m)) = (&*c.func, &c.args[0]) {
                if p.path.segments.last().map_or(false, |s| s.ident == "copy_nonoverlapping" || s.ident == "copy") && m.method == "as_ptr" {
                    let (w, a0, rc) = (range(c.span()), range(c.args[0].span()), range(m.receiver.span()));
                    self.edit(w.start..a0.start, "vp_copy(vp_mem, ".into());
                    self.visit_expr(&m.receiver);
                    self.edit(rc.end..a0.end, String::new());
                    self.visit_expr(&c.args[1]);
                    self.visit_expr(&c.args[2]);
                    self.rules.push("ptr::copy_nonoverlapping -> copy into the explicit memory".into());
                    return;
                }
            }
        }
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = segs.len();
            if n >= 2 && segs[n - 2] == "Error" {
                self.edit(range(c.span()), if segs[n - 1] == "FileNotFound" { "vp_not_found()" } else { "vp_error()" }.into());
                self.rules.push(format!("error-ctor {}", segs.join("::")));
                return;
            }
        }
        visit::visit_expr_call(self, c);
    }

    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 2 && segs[1] == "from_le_bytes" && p.qself.is_none() {
            self.edit(range(p.span()), format!("vp_{}_from_le_bytes", segs[0]));
            self.rules.push("from_le_bytes -> the same little-endian composition, written out".into());
            return;
        }
        visit::visit_expr_path(self, p);
    }

    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        if self.blk.ptrs && m.args.len() == 1 && (m.method == "write_unaligned" || m.method == "write") {
            let (w, rc, a) = (range(m.span()), range(m.receiver.span()), range(m.args[0].span()));
            self.edit(w.start..w.start, "vp_store(vp_mem, ".into());
            self.visit_expr(&m.receiver);
            self.edit(rc.end..a.start, ", ".into());
            self.visit_expr(&m.args[0]);
            self.edit(a.end..w.end, ")".into());
            self.rules.push("write_unaligned -> store to the explicit memory".into());
            return;
        }
        if m.method == "ok_or_else" && m.args.len() == 1 {
            if let syn::Expr::Closure(c) = &m.args[0] {
                if let syn::Expr::Call(k) = &*c.body {
                    if let syn::Expr::Path(p) = &*k.func {
                        let n = p.path.segments.len();
                        if c.inputs.is_empty() && n >= 2 && p.path.segments[n - 2].ident == "Error" {
                            let (mm, w, b) = (range(m.method.span()), range(c.span()), range(c.body.span()));
                            self.edit(mm, "ok_or".into());
                            self.edit(w.start..b.start, String::new());
                            self.visit_expr(&m.receiver);
                            self.visit_expr(&c.body);
                            self.rules.push("ok_or_else(|| error) -> ok_or(error)".into());
                            return;
                        }
                    }
                }
            }
        }
        if (m.method == "context" || m.method == "with_context") && m.args.len() == 1 {
            let (w, rc) = (range(m.span()), range(m.receiver.span()));
            self.visit_expr(&m.receiver);
            self.edit(rc.end..w.end, ".vp_context()".into());
            self.rules.push("error context dropped".into());
            return;
        }
        if let Some((_, n)) = self.blk.hoist.iter().find(|(a, _)| m.method == a) {
            if m.args.len() == 1 && matches!(m.args[0], syn::Expr::Closure(_)) {
                self.edit(range(m.args[0].span()), n.clone());
                self.rules.push(format!("closure argument of {} -> function of its own", m.method));
                self.visit_expr(&m.receiver);
                return;
            }
        }
        if m.method == "to_le_bytes" && m.args.is_empty() {
            self.edit(range(m.method.span()), "vp_to_le_bytes".into());
            self.rules.push("to_le_bytes -> the same little-endian split, written out".into());
        }
        // E.to_vec()
        if m.method == "to_vec" && m.args.is_empty() {
            let (r, w) = (range(m.receiver.span()), range(m.span()));
            self.edit(w.start..w.start, "vp_to_vec(&".into());
            self.edit(r.end..w.end, ")".into());
            self.rules.push("to_vec -> copying loop".into());
        }
        // E.iter().any(|&x| P)  /  E.iter().all(|&x| P)
        if (m.method == "any" || m.method == "all") && m.args.len() == 1 {
            let (recv, ms) = chain_of(m);
            if ms.len() == 2 && ms[0].method == "iter" {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    let k = self.loop_no;
                    self.loop_no += 1;
                    let rt = self.txt(range(recv.span())).to_string();
                    let any = m.method == "any";
                    let ann = self.loop_ann(k);
                    let ls = self.blk.lstart.get(&k).map(|t| self.ghost(t)).unwrap_or_default();
                    let le = self.blk.lend.get(&k).map(|t| self.ghost(t)).unwrap_or_default();
                    let lb = self.blk.lbefore.get(&k).map(|t| self.ghost(t)).unwrap_or_default();
                    let la = self.blk.lafter.get(&k).map(|t| self.ghost(t)).unwrap_or_default();
                    let (v, amp) = match &c.inputs[0] {
                        syn::Pat::Reference(r) => (self.txt(range(r.pat.span())).to_string(), ""),
                        p => (self.txt(range(p.span())).to_string(), "&"),
                    };
                    let br = range(c.body.span());
                    let whole = range(m.span());
                    self.edit(whole.start..br.start, format!("{{ let mut vp_b{k} = {};\n{lb}\nfor vp_i{k} in 0..{rt}.len()\n{ann}\n{{\n{ls}\nlet {v} = {amp}{rt}[vp_i{k}];\nif {}(", !any, if any { "" } else { "!" }));
                    self.edit(br.end..whole.end, format!(") {{ vp_b{k} = {}; }}\n{le}\n}}\n{la}\nvp_b{k} }}", any));
                    self.rules.push(format!("iter.{} -> index loop over {}", m.method, rt));
                    visit::visit_expr(self, &c.body);
                    return;
                }
            }
        }
        // E.chunks_exact(K).map(|x| X).collect()  /  E.iter().map(|x| X).collect()
        if m.method == "collect" && m.args.is_empty() {
            let (recv, ms) = chain_of(m);
            let names: Vec<String> = ms.iter().map(|m| m.method.to_string()).collect();
            let nr: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            if let (["iter", "rev", "copied" | "cloned", "collect"], true) = (nr.as_slice(), simple_path(recv)) {
                let rt = self.txt(range(recv.span())).to_string();
                self.edit(range(m.span()), format!("vp_rev_collect(&{})", rt));
                self.rules.push(format!("iter.rev.copied.collect -> index loop over {}", rt));
                return;
            }
            if let (["chunks_exact", "map", "collect"] | ["iter", "map", "collect"], true) = (nr.as_slice(), simple_path(recv)) {
                if let syn::Expr::Closure(c) = &ms[1].args[0] {
                    if c.inputs.len() == 1 {
                        let k = self.loop_no;
                        self.loop_no += 1;
                        let rt = self.txt(range(recv.span())).to_string();
                        let ann = self.loop_ann(k);
                        let ls = self.blk.lstart.get(&k).map(|t| self.ghost(t)).unwrap_or_default();
                        let le = self.blk.lend.get(&k).map(|t| self.ghost(t)).unwrap_or_default();
                        let lb = self.blk.lbefore.get(&k).map(|t| self.ghost(t)).unwrap_or_default();
                        let la = self.blk.lafter.get(&k).map(|t| self.ghost(t)).unwrap_or_default();
                        let (n, bind) = if nr[0] == "chunks_exact" {
                            let w = self.txt(range(ms[0].args[0].span())).to_string();
                            let v = self.txt(range(c.inputs[0].span())).to_string();
                            (format!("{}.len() / ({})", rt, w), format!("let {} = &{}[vp_i{} * ({})..vp_i{} * ({}) + ({})];", v, rt, k, w, k, w, w))
                        } else {
                            let (v, amp) = match &c.inputs[0] {
                                syn::Pat::Reference(r) => (self.txt(range(r.pat.span())).to_string(), ""),
                                p => (self.txt(range(p.span())).to_string(), "&"),
                            };
                            (format!("{}.len()", rt), format!("let {} = {}{}[vp_i{}];", v, amp, rt, k))
                        };
                        let br = range(c.body.span());
                        let whole = range(m.span());
                        self.edit(whole.start..br.start, format!("{{ let vp_n{k} = {n}; let mut vp_v{k} = Vec::new();\n{lb}\nfor vp_i{k} in 0..vp_n{k}\n{ann}\n{{\n{ls}\n{bind}\nvp_v{k}.push("));
                        self.edit(br.end..whole.end, format!(");\n{le}\n}}\n{la}\nvp_v{k} }}"));
                        self.rules.push(format!("{}.map.collect -> index loop over {}", nr[0], rt));
                        visit::visit_expr(self, &c.body);
                        return;
                    }
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }

    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        let ne = match b.op {
            syn::BinOp::Eq(_) => false,
            syn::BinOp::Ne(_) => true,
            _ => {
                visit::visit_expr_binary(self, b);
                return;
            }
        };
        fn slicey(e: &syn::Expr) -> Option<bool> {
            match e {
                syn::Expr::Index(i) if matches!(&*i.index, syn::Expr::Range(_)) => Some(false),
                syn::Expr::Reference(r) => slicey(&r.expr).map(|_| true),
                _ => None,
            }
        }
        if let Some(refd) = slicey(&b.left).or(slicey(&b.right)) {
            let amp = if refd { "" } else { "&" };
            let (l, r, w) = (range(b.left.span()), range(b.right.span()), range(b.span()));
            self.edit(w.start..w.start, format!("{}vp_slice_eq({}", if ne { "!" } else { "" }, amp));
            self.edit(l.end..r.start, format!(", {}", amp));
            self.edit(w.end..w.end, ")".into());
            self.rules.push("slice comparison -> elementwise comparison".into());
        }
        visit::visit_expr_binary(self, b);
    }

    fn visit_pat_tuple_struct(&mut self, p: &'a syn::PatTupleStruct) {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs == ["Error", "FileNotFound"] && p.elems.len() == 1 && matches!(&p.elems[0], syn::Pat::Wild(_)) {
            self.edit(range(p.span()), "Error { vp: 1 }".into());
            self.rules.push("Error::FileNotFound(_) pattern -> the not-found mark".into());
            return;
        }
        visit::visit_pat_tuple_struct(self, p);
    }

    fn visit_expr_struct(&mut self, c: &'a syn::ExprStruct) {
        let segs: Vec<String> = c.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.len();
        if n >= 2 && segs[n - 2] == "Error" {
            self.edit(range(c.span()), "vp_error()".into());
            self.rules.push(format!("error-ctor {}", segs.join("::")));
            return;
        }
        visit::visit_expr_struct(self, c);
    }

    fn visit_expr_while(&mut self, w: &'a syn::ExprWhile) {
        let k = self.loop_no;
        self.loop_no += 1;
        let bo = range(w.body.brace_token.span.open());
        let bc = range(w.body.brace_token.span.close());
        let ann = self.loop_ann(k);
        self.edit(bo.start..bo.start, format!("\n{}\n", ann));
        self.wrap_loop(k, range(w.span()), bo.start, bc.start);
        visit::visit_expr_while(self, w);
    }

    fn visit_expr_loop(&mut self, w: &'a syn::ExprLoop) {
        let k = self.loop_no;
        self.loop_no += 1;
        let bo = range(w.body.brace_token.span.open());
        let bc = range(w.body.brace_token.span.close());
        let ann = self.loop_ann(k);
        self.edit(bo.start..bo.start, format!("\n{}\n", ann));
        self.wrap_loop(k, range(w.span()), bo.start, bc.start);
        visit::visit_expr_loop(self, w);
    }

    fn visit_expr_for_loop(&mut self, w: &'a syn::ExprForLoop) {
        let k = self.loop_no;
        self.loop_no += 1;
        let bo = range(w.body.brace_token.span.open());
        let bc = range(w.body.brace_token.span.close());
        let ann = self.loop_ann(k);
        let whole = range(w.span());
        let head = whole.start..bo.start;
        self.wrap_loop(k, whole.clone(), bo.start, bc.start);

        // ranges are native
        let mut e: &syn::Expr = &w.expr;
        while let syn::Expr::Paren(p) = e {
            e = &p.expr;
        }
        if let syn::Expr::Range(rg) = e {
            if let (syn::RangeLimits::Closed(dots), Some(end)) = (&rg.limits, &rg.end) {
                let (d, en) = (range(dots.span()), range(end.span()));
                self.edit(d, "..(".into());
                self.edit(en.end..en.end, ") + 1".into());
                self.rules.push("a..=b loop -> a..b + 1 loop (checked addition)".into());
            }
            if let syn::Pat::Wild(_) = &*w.pat {
                self.edit(range(w.pat.span()), format!("vp_n{}", k));
            }
            self.edit(bo.start..bo.start, format!("\n{}\n", ann));
            visit::visit_block(self, &w.body);
            return;
        }
        let (recv, ms) = chain(e);
        let names: Vec<String> = ms.iter().map(|m| m.method.to_string()).collect();
        let namesr: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let rtxt = self.txt(range(recv.span())).to_string();
        let idx = format!("vp_i{}", k);
        match (&*w.pat, namesr.as_slice()) {
            // for v in E.iter_mut()
            (syn::Pat::Ident(v), ["iter_mut"]) if simple_path(recv) => {
                let var = v.ident.to_string();
                let mut d = DerefRepl { var: var.clone(), out: vec![], other: 0, _p: std::marker::PhantomData };
                d.visit_block(&w.body);
                if d.other > 0 {
                    die(&format!("iter_mut loop {} uses `{}` other than by deref", k, var));
                }
                self.edit(whole.start..whole.start, format!("let vp_n{} = {}.len();\n", k, rtxt));
                self.edit(head, format!("for {} in 0..vp_n{}\n{}\n", idx, k, ann));
                for r in d.out {
                    self.edit(r, format!("{}[{}]", rtxt, idx));
                }
                self.rules.push(format!("iter_mut loop -> index loop over {}", rtxt));
            }
            // for v in E[a..b].iter_mut()
            (syn::Pat::Ident(v), ["iter_mut"]) if matches!(recv, syn::Expr::Index(ix) if simple_path(&ix.expr) && matches!(&*ix.index, syn::Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, syn::RangeLimits::HalfOpen(_)))) => {
                let (base, a, b) = match recv {
                    syn::Expr::Index(ix) => match &*ix.index {
                        syn::Expr::Range(r) => (
                            self.txt(range(ix.expr.span())).to_string(),
                            self.txt(range(r.start.as_ref().unwrap().span())).to_string(),
                            self.txt(range(r.end.as_ref().unwrap().span())).to_string(),
                        ),
                        _ => unreachable!(),
                    },
                    _ => unreachable!(),
                };
                let var = v.ident.to_string();
                let mut d = DerefRepl { var: var.clone(), out: vec![], other: 0, _p: std::marker::PhantomData };
                d.visit_block(&w.body);
                if d.other > 0 {
                    die(&format!("iter_mut loop {} uses `{}` other than by deref", k, var));
                }
                self.edit(whole.start..whole.start, format!("let vp_a{k} = {a};\nlet vp_n{k} = {b};\nvp_in_range({base}.len(), vp_a{k}, vp_n{k});\n"));
                self.edit(head, format!("for {} in vp_a{}..vp_n{}\n{}\n", idx, k, k, ann));
                for r in d.out {
                    self.edit(r, format!("{}[{}]", base, idx));
                }
                self.rules.push(format!("range iter_mut loop -> index loop over {}", rtxt));
            }
            // for v in E.iter_mut().take(n)
            (syn::Pat::Ident(v), ["iter_mut", "take"]) if simple_path(recv) => {
                let var = v.ident.to_string();
                let n = self.txt(range(ms[1].args[0].span())).to_string();
                let mut d = DerefRepl { var: var.clone(), out: vec![], other: 0, _p: std::marker::PhantomData };
                d.visit_block(&w.body);
                if d.other > 0 {
                    die(&format!("iter_mut loop {} uses `{}` other than by deref", k, var));
                }
                self.edit(whole.start..whole.start, format!("let vp_n{} = vp_min({}.len(), {});\n", k, rtxt, n));
                self.edit(head, format!("for {} in 0..vp_n{}\n{}\n", idx, k, ann));
                for r in d.out {
                    self.edit(r, format!("{}[{}]", rtxt, idx));
                }
                self.rules.push(format!("iter_mut.take loop -> index loop over {}", rtxt));
            }
            // for (i, v) in E.iter_mut().enumerate().take(n)
            (syn::Pat::Tuple(t), ["iter_mut", "enumerate", "take"]) if simple_path(recv) && t.elems.len() == 2 => {
                let (i, v) = match (&t.elems[0], &t.elems[1]) {
                    (syn::Pat::Ident(i), syn::Pat::Ident(v)) => (i.ident.to_string(), v.ident.to_string()),
                    _ => die("unsupported tuple pattern in for"),
                };
                let n = self.txt(range(ms[2].args[0].span())).to_string();
                let mut d = DerefRepl { var: v.clone(), out: vec![], other: 0, _p: std::marker::PhantomData };
                d.visit_block(&w.body);
                if d.other > 0 {
                    die(&format!("iter_mut loop {} uses `{}` other than by deref", k, v));
                }
                self.edit(whole.start..whole.start, format!("let vp_n{} = vp_min({}.len(), {});\n", k, rtxt, n));
                self.edit(head, format!("for {} in 0..vp_n{}\n{}\n", i, k, ann));
                for r in d.out {
                    self.edit(r, format!("{}[{}]", rtxt, i));
                }
                self.rules.push(format!("iter_mut.enumerate.take loop -> index loop over {}", rtxt));
            }
            // for (i, &v) in E.iter().enumerate()   |  for (i, v) in E.iter().enumerate()
            (syn::Pat::Tuple(t), [.., "iter", "enumerate"]) if t.elems.len() == 2 => {
                let rtxt = self.txt(range(ms[ms.len() - 2].receiver.span())).to_string();
                let rtxt = if ms.len() > 2 { rtxt } else { format!("&{}", rtxt) };
                let i = match &t.elems[0] {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    _ => die("unsupported tuple pattern in for"),
                };
                let (v, byref) = match &t.elems[1] {
                    syn::Pat::Reference(r) => (self.txt(range(r.pat.span())).to_string(), false),
                    syn::Pat::Ident(v) => (v.ident.to_string(), true),
                    _ => die("unsupported tuple pattern in for"),
                };
                let s = format!("vp_s{}", k);
                self.edit(whole.start..whole.start, format!("let {} = {};\n", s, rtxt));
                self.edit(head, format!("for {} in 0..{}.len()\n{}\n", i, s, ann));
                self.edit(bo.end..bo.end, format!("let {} = {}{}[{}];\n", v, if byref { "&" } else { "" }, s, i));
                self.rules.push(format!("iter.enumerate loop -> index loop over {}", rtxt));
            }
            // for (i, &v) in E.iter().enumerate() followed by .take(n) / .skip(n)
            (syn::Pat::Tuple(t), ["iter", "enumerate", rest @ ..]) if t.elems.len() == 2 && rest.iter().all(|r| *r == "take" || *r == "skip") => {
                let i = match &t.elems[0] {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    _ => die("unsupported tuple pattern in for"),
                };
                let (v, byref) = match &t.elems[1] {
                    syn::Pat::Reference(r) => (self.txt(range(r.pat.span())).to_string(), false),
                    syn::Pat::Ident(v) => (v.ident.to_string(), true),
                    _ => die("unsupported tuple pattern in for"),
                };
                let s = format!("vp_s{}", k);
                let (mut lo, mut hi) = ("0".to_string(), format!("{}.len()", s));
                for m in &ms[2..] {
                    let a = self.txt(range(m.args[0].span())).to_string();
                    if m.method == "take" {
                        hi = if lo == "0" { format!("vp_min({}, {})", hi, a) } else { format!("vp_min({}, {} + {})", hi, lo, a) };
                    } else {
                        lo = if lo == "0" { a } else { format!("{} + {}", lo, a) };
                    }
                }
                self.edit(whole.start..whole.start, format!("let {s} = &{rtxt};\nlet mut vp_n{k}: usize = {lo};\nlet vp_h{k}: usize = {hi};\n"));
                self.edit(head, format!("while vp_n{k} < vp_h{k}\n{ann}\n"));
                self.edit(bo.end..bo.end, format!("let {i} = vp_n{k};\nvp_n{k} = vp_n{k} + 1;\nlet {v} = {}{s}[{i}];\n", if byref { "&" } else { "" }));
                self.rules.push(format!("iter.enumerate.take/skip loop -> index loop over {}", rtxt));
            }
            // for (i, w) in E.windows(K).enumerate()
            (syn::Pat::Tuple(t), ["windows", "enumerate"]) if simple_path(recv) && t.elems.len() == 2 => {
                let (i, v) = match (&t.elems[0], &t.elems[1]) {
                    (syn::Pat::Ident(i), syn::Pat::Ident(v)) => (i.ident.to_string(), v.ident.to_string()),
                    _ => die("unsupported tuple pattern in for"),
                };
                let w = self.txt(range(ms[0].args[0].span())).to_string();
                self.edit(whole.start..whole.start, format!("let vp_n{k} = vp_windows({rtxt}.len(), {w});\n"));
                self.edit(head, format!("for {i} in 0..vp_n{k}\n{ann}\n"));
                self.edit(bo.end..bo.end, format!("let {v} = &{rtxt}[{i}..{i} + ({w})];\n"));
                self.rules.push(format!("windows.enumerate loop -> index loop over {}", rtxt));
            }
            // for c in E.chunks_exact(K)
            (syn::Pat::Ident(v), ["chunks_exact"]) if simple_path(recv) => {
                let w = self.txt(range(ms[0].args[0].span())).to_string();
                self.edit(whole.start..whole.start, format!("let vp_n{} = {}.len() / ({});\n", k, rtxt, w));
                self.edit(head, format!("for {} in 0..vp_n{}\n{}\n", idx, k, ann));
                self.edit(bo.end..bo.end, format!("let {} = &{}[{} * ({})..{} * ({}) + ({})];\n", v.ident, rtxt, idx, w, idx, w, w));
                self.rules.push(format!("chunks_exact loop -> index loop over {}", rtxt));
            }
            // for (c, &x) in E.chunks_exact_mut(K).zip(&B)
            (syn::Pat::Tuple(t), ["chunks_exact_mut", "zip"]) if simple_path(recv) && t.elems.len() == 2 => {
                let c = match &t.elems[0] {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    _ => die("unsupported tuple pattern in for"),
                };
                let (v, byref) = match &t.elems[1] {
                    syn::Pat::Reference(r) => (self.txt(range(r.pat.span())).to_string(), false),
                    syn::Pat::Ident(v) => (v.ident.to_string(), true),
                    _ => die("unsupported tuple pattern in for"),
                };
                let b = self.txt(range(ms[1].args[0].span())).to_string();
                let b = b.trim_start_matches('&').trim_end_matches(".iter()").to_string();
                let w = self.txt(range(ms[0].args[0].span())).to_string();
                self.edit(whole.start..whole.start, format!("let vp_n{} = vp_min({}.len() / ({}), {}.len());\n", k, rtxt, w, b));
                self.edit(head, format!("for {} in 0..vp_n{}\n{}\n", idx, k, ann));
                self.edit(bo.end..bo.end, format!("let {} = {}{}[{}];\nlet {} = vp_sub_mut(&mut {}, {} * ({}), {} * ({}) + ({}));\n", v, if byref { "&" } else { "" }, b, idx, c, rtxt, idx, w, idx, w, w));
                self.rules.push(format!("chunks_exact_mut.zip loop -> index loop over {} and {}", rtxt, b));
            }
            // for &x in E / for &x in E.iter() / for x in E.iter() / for x in &E
            (pat, _) if matches!(namesr.last(), Some(&"iter") | None) || !matches!(pat, syn::Pat::Tuple(_)) => {
                if matches!(namesr.last(), Some(&"rev") | Some(&"chunks") | Some(&"zip") | Some(&"enumerate") | Some(&"take") | Some(&"skip") | Some(&"map") | Some(&"filter") | Some(&"iter_mut") | Some(&"lines") | Some(&"chars")| Some(&"bytes") | Some(&"step_by") | Some(&"chunks_exact") | Some(&"chunks_exact_mut") | Some(&"windows")) {
                    die(&format!("unsupported iterator in loop {}", k));
                }
                let et = if namesr.last() == Some(&"iter") {
                    self.txt(range(ms.last().unwrap().receiver.span())).to_string()
                } else {
                    self.txt(range(e.span())).to_string()
                };
                let et = et.trim_start_matches('&').to_string();
                let s = format!("vp_s{}", k);
                let (v, byref) = match pat {
                    syn::Pat::Reference(r) => (self.txt(range(r.pat.span())).to_string(), false),
                    syn::Pat::Ident(v) => (v.ident.to_string(), true),
                    _ => die("unsupported pattern in for"),
                };
                let amp = if simple_path(e) || namesr.last() == Some(&"iter") { "&" } else { "" };
                self.edit(whole.start..whole.start, format!("let {} = {}{};\n", s, amp, et));
                if self.blk.whiles.contains(&k) {
                    self.edit(whole.start..whole.start, format!("let mut {}: usize = 0;\n", idx));
                    self.edit(head, format!("while {} < {}.len()\n{}\n", idx, s, ann));
                    self.edit(bo.end..bo.end, format!("let {} = {}{}[{}];\n{} = {} + 1;\n", v, if byref { "&" } else { "" }, s, idx, idx, idx));
                } else {
                    self.edit(head, format!("for {} in 0..{}.len()\n{}\n", idx, s, ann));
                    self.edit(bo.end..bo.end, format!("let {} = {}{}[{}];\n", v, if byref { "&" } else { "" }, s, idx));
                }
                self.rules.push(format!("slice loop -> index loop over {}", et));
            }
            _ => die(&format!("unsupported for loop {}", k)),
        }
        visit::visit_block(self, &w.body);
    }
}

fn find_fn<'b>(items: &'b [syn::Item], path: &str) -> Vec<FnRef<'b>> {
    let mut out = vec![];
    let parts: Vec<&str> = path.split("::").collect();
    for it in items {
        match it {
            syn::Item::Fn(f) if parts.len() == 1 && f.sig.ident == parts[0] => {
                out.push(FnRef { attrs: &f.attrs, vis: &f.vis, sig: &f.sig, block: &f.block, whole: range(f.span()) })
            }
            syn::Item::Impl(im) if parts.len() == 2 => {
                let ty = im.self_ty.to_token_stream().to_string();
                let ty = ty.split('<').next().unwrap().trim().to_string();
                if ty == parts[0] {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == parts[1] {
                                out.push(FnRef { attrs: &f.attrs, vis: &f.vis, sig: &f.sig, block: &f.block, whole: range(f.span()) })
                            }
                        }
                    }
                }
            }
            syn::Item::Trait(tr) if parts.len() == 2 && tr.ident == parts[0] => {
                for ti in &tr.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if let (true, Some(b)) = (f.sig.ident == parts[1], &f.default) {
                            out.push(FnRef { attrs: &f.attrs, vis: &syn::Visibility::Inherited, sig: &f.sig, block: b, whole: range(f.span()) })
                        }
                    }
                }
            }
            syn::Item::Mod(m) => {
                let is_test = m.ident == "vp_hooks" || m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test"));
                if !is_test {
                    if let Some((_, its)) = &m.content {
                        out.extend(find_fn(its, path));
                    }
                }
            }
            _ => {}
        }
    }
    out
}

struct FnRef<'b> {
    attrs: &'b Vec<syn::Attribute>,
    vis: &'b syn::Visibility,
    sig: &'b syn::Signature,
    block: &'b syn::Block,
    whole: R,
}

fn strip_comments(s: &str) -> String {
    // remove // and /* */ comments outside string/char literals
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' {
            out.push(b[i]);
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' {
                    out.push(b[i]);
                    i += 1;
                }
                if i < b.len() {
                    out.push(b[i]);
                    i += 1;
                }
            }
            if i < b.len() {
                out.push(b[i]);
                i += 1;
            }
        } else if b[i] == b'\'' {
            // char literal or lifetime
            if i + 2 < b.len() && b[i + 1] == b'\\' {
                out.push(b[i]);
                out.push(b[i + 1]);
                out.push(b[i + 2]);
                i += 3;
                while i < b.len() && b[i] != b'\'' {
                    out.push(b[i]);
                    i += 1;
                }
                if i < b.len() {
                    out.push(b[i]);
                    i += 1;
                }
            } else if i + 2 < b.len() && b[i + 2] == b'\'' {
                out.extend_from_slice(&b[i..i + 3]);
                i += 3;
            } else {
                out.push(b[i]);
                i += 1;
            }
        } else if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            i += 2;
            let mut d = 1;
            while i + 1 < b.len() && d > 0 {
                if b[i] == b'*' && b[i + 1] == b'/' {
                    d -= 1;
                    i += 2;
                } else if b[i] == b'/' && b[i + 1] == b'*' {
                    d += 1;
                    i += 2;
                } else {
                    i += 1;
                }
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).unwrap()
}

fn blank_comments(s: &str) -> String {
    // replace comments by nothing while keeping code; done before parsing so spans are consistent
    strip_comments(s)
}

fn apply(src: &str, base: R, mut edits: Vec<Edit>) -> String {
    edits.sort_by(|a, b| (a.range.start, a.range.end, a.seq).cmp(&(b.range.start, b.range.end, b.seq)));
    let mut out = String::new();
    let mut pos = base.start;
    for e in edits {
        if e.range.start < pos {
            if e.range.end <= pos {
                continue; // inside an already replaced range
            }
            die("overlapping edits");
        }
        out.push_str(&src[pos..e.range.start]);
        out.push_str(&e.text);
        pos = e.range.end;
    }
    out.push_str(&src[pos..base.end]);
    out
}

fn extract_fn(src: &str, f: &FnRef, blk: &Block, report: &mut String) -> String {
    let mut loc = Locals { names: vec![] };
    for a in &f.sig.inputs {
        loc.visit_fn_arg(a);
    }
    loc.visit_block(f.block);
    let mut ren = BTreeMap::new();
    if !blk.locals.is_empty() {
        let want = &blk.locals;
        let missing: Vec<&String> = want.iter().filter(|n| !loc.names.contains(n)).collect();
        if !missing.is_empty() {
            // dedupe keeping order
            let mut have: Vec<String> = vec![];
            for n in &loc.names {
                if !have.contains(n) {
                    have.push(n.clone());
                }
            }
            if have.len() == want.len() {
                for (a, b) in want.iter().zip(&have) {
                    if a != b {
                        ren.insert(a.clone(), b.clone());
                    }
                }
                let _ = writeln!(report, "rename {} {:?}", blk.path, ren);
            } else {
                die(&format!("{}: locals {:?} of the contract not found and cannot be re-attached (now {:?})", blk.path, missing, have));
            }
        }
    }
    let mut ctx = Ctx { src, edits: vec![], loop_no: 0, blk, rules: vec![], ren, placed: vec![], ptr_names: vec![] };
    if blk.ptrs {
        for a in &f.sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                if let syn::Pat::Ident(p) = &*t.pat {
                    if matches!(*t.ty, syn::Type::Ptr(_)) || t.ty.to_token_stream().to_string() == "HANDLE" {
                        ctx.ptr_names.push(p.ident.to_string());
                    }
                }
                ctx.visit_type(&t.ty);
            }
        }
    }
    // header: drop attrs & vis & insert pub
    let sig_start = f
        .sig
        .constness
        .map(|c| range(c.span()).start)
        .or(f.sig.unsafety.filter(|_| f.sig.abi.is_none() && !blk.ptrs).map(|c| range(c.span()).start))
        .unwrap_or(range(f.sig.fn_token.span()).start);
    let _ = (f.attrs, f.vis);
    if let Some(n) = &blk.name {
        ctx.edit(range(f.sig.ident.span()), n.clone());
    }
    if !blk.params.is_empty() {
        match f.sig.inputs.first() {
            Some(syn::FnArg::Receiver(r)) => {
                let at = range(r.span()).end;
                ctx.edit(at..at, format!(", {}", blk.params));
            }
            _ => {
                let at = range(f.sig.paren_token.span.open()).end;
                ctx.edit(at..at, format!("{}{}", blk.params, if f.sig.inputs.is_empty() { "" } else { ", " }));
            }
        }
        ctx.rules.push(format!("environment as parameters: {}", blk.params));
    }
    if !blk.generics.is_empty() {
        let at = range(f.sig.ident.span()).end;
        ctx.edit(at..at, blk.generics.clone());
    }
    if let syn::ReturnType::Type(_, t) = &f.sig.output {
        if let Some(r) = &blk.ret {
            let tr = range(t.span());
            let tt = ctx.txt(tr.clone()).to_string();
            ctx.edit(tr, format!("({}: {})", r, tt));
        }
    }
    let bo = range(f.block.brace_token.span.open());
    let bc = range(f.block.brace_token.span.close());
    let spec = ctx.ghost(&blk.spec);
    ctx.edit(bo.start..bo.start, format!("\n{}\n", spec));
    if !blk.bstart.is_empty() {
        let t = ctx.ghost(&blk.bstart);
        ctx.edit(bo.end..bo.end, format!("\n{}\n", t));
    }
    if !blk.btail.is_empty() {
        match f.block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => {
                let t = ctx.ghost(&blk.btail);
                let st = range(e.span()).start;
                ctx.edit(st..st, format!("\n{}\n", t));
            }
            _ => die(&format!("{}: no tail expression", blk.path)),
        }
    }
    if !blk.bend.is_empty() {
        let t = ctx.ghost(&blk.bend);
        ctx.edit(bc.start..bc.start, format!("\n{}\n", t));
    }
    ctx.visit_block(f.block);
    if let Some(n) = blk.nloops {
        if n != ctx.loop_no {
            die(&format!("{}: {} loops, contract has {}", blk.path, ctx.loop_no, n));
        }
    }
    for a in blk.afterlet.keys() {
        if !ctx.placed.contains(a) {
            die(&format!("{}: no local `{}` to attach ghost text to", blk.path, a));
        }
    }
    for r in &ctx.rules {
        let _ = writeln!(report, "rule {} {}", blk.path, r);
    }
    let edits = std::mem::take(&mut ctx.edits);
    let body = apply(src, sig_start..f.whole.end, edits);
    if blk.in_trait {
        body
    } else {
        format!("pub {}", body)
    }
}

fn find_item<'b>(items: &'b [syn::Item], kind: &str, name: &str) -> Option<&'b syn::Item> {
    for it in items {
        match it {
            syn::Item::Struct(s) if kind == "struct" && s.ident == name => return Some(it),
            syn::Item::Enum(s) if kind == "enum" && s.ident == name => return Some(it),
            syn::Item::Const(s) if kind == "const" && s.ident == name => return Some(it),
            syn::Item::Mod(s) if kind == "mod" && s.ident == name => return Some(it),
            syn::Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    if let Some(x) = find_item(its, kind, name) {
                        return Some(x);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

struct AttrVis {
    edits: Vec<(R, String)>,
}
impl<'a> Visit<'a> for AttrVis {
    fn visit_attribute(&mut self, a: &'a syn::Attribute) {
        self.edits.push((range(a.span()), String::new()));
    }
    fn visit_visibility(&mut self, v: &'a syn::Visibility) {
        if let syn::Visibility::Restricted(_) = v {
            self.edits.push((range(v.span()), "pub".into()));
        }
    }
}

struct FindClosure<'b> {
    name: String,
    found: Vec<&'b syn::ExprClosure>,
}
impl<'b> Visit<'b> for FindClosure<'b> {
    fn visit_local(&mut self, l: &'b syn::Local) {
        if let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if p.ident == self.name {
                if let syn::Expr::Closure(c) = &*i.expr {
                    self.found.push(c);
                }
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_method_call(&mut self, m: &'b syn::ExprMethodCall) {
        if m.method == self.name && m.args.len() == 1 {
            if let syn::Expr::Closure(c) = &m.args[0] {
                self.found.push(c);
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}
/// the closure bound to the local `name`, or the argument of the only call of method `name`, as the text of a function
fn lift_closure(src: &str, f: &FnRef, name: &str, ptypes: &str, outty: &str) -> Option<String> {
    let mut v = FindClosure { name: name.to_string(), found: vec![] };
    v.visit_block(f.block);
    if v.found.len() != 1 {
        return None;
    }
    let c = v.found[0];
    let tys: Vec<&str> = ptypes.split(';').map(|t| t.trim()).collect();
    let params: Vec<String> = c.inputs.iter().enumerate().map(|(i, p)| { let t = if matches!(p, syn::Pat::Wild(_)) { format!("vp_w{}", i) } else { src[range(p.span())].to_string() }; if matches!(p, syn::Pat::Type(_)) { t } else { format!("{}: {}", t, tys.get(i).unwrap_or(&"")) } }).collect();
    let out = match &c.output {
        syn::ReturnType::Type(_, t) => format!("-> {}", &src[range(t.span())]),
        _ => if outty.is_empty() { String::new() } else { format!("-> {}", outty) },
    };
    let body = &src[range(c.body.span())];
    let body = if matches!(*c.body, syn::Expr::Block(_)) { body.to_string() } else { format!("{{ {} }}", body) };
    Some(format!("fn {}({}) {} {}", name, params.join(", "), out, body))
}

/// associated constant `Type::NAME`
fn find_assoc_const(items: &[syn::Item], ty: &str, name: &str) -> Option<R> {
    for it in items {
        if let syn::Item::Impl(im) = it {
            if im.self_ty.to_token_stream().to_string() == ty {
                for ii in &im.items {
                    if let syn::ImplItem::Const(c) = ii {
                        if c.ident == name {
                            let s = range(c.const_token.span()).start;
                            return Some(s..range(c.span()).end);
                        }
                    }
                }
            }
        }
    }
    None
}

fn do_block(repo: &str, blk: &Block, report: &mut String) -> String {
    let p = format!("{}/{}", repo, blk.file);
    let raw = match std::fs::read_to_string(&p) {
        Ok(s) => s,
        Err(_) => die(&format!("cannot read {}", blk.file)),
    };
    let src = blank_comments(&raw);
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => die(&format!("cannot parse {}: {}", blk.file, e)),
    };
    let mut out;
    if let Some((kind, name)) = blk.path.split_once(':').filter(|(k, n)| !n.starts_with(':') && !k.is_empty()) {
        if kind == "assoc" {
            let (ty, n) = name.split_once("::").unwrap_or_else(|| die("assoc needs Type::NAME"));
            let r = find_assoc_const(&file.items, ty, n).unwrap_or_else(|| die(&format!("lost anchor {} {}", blk.file, blk.path)));
            out = format!("pub {}", &src[r]);
        } else {
            let it = find_item(&file.items, kind, name).unwrap_or_else(|| die(&format!("lost anchor {} {}", blk.file, blk.path)));
            let mut v = AttrVis { edits: vec![] };
            v.visit_item(it);
            let r = range(it.span());
            let edits = v.edits.into_iter().enumerate().map(|(seq, (range, text))| Edit { range, text, seq }).collect();
            out = apply(&src, r, edits);
            let t = out.trim_start().to_string();
            out = if t.starts_with("pub") { t } else { format!("pub {}", t) };
            if kind == "struct" {
                // make all fields visible to the specifications (ghost access only)
                out = pub_fields(&out);
            }
        }
    } else {
        let (fpath, clo) = match blk.path.split_once('@') { Some((a, b)) => (a.to_string(), Some(b.to_string())), None => (blk.path.clone(), None) };
        let fs = find_fn(&file.items, &fpath);
        if fs.is_empty() {
            die(&format!("lost anchor {} {}", blk.file, blk.path));
        }
        if fs.len() > 1 {
            die(&format!("ambiguous anchor {} {}", blk.file, blk.path));
        }
        out = match clo {
            None if !blk.locks.is_empty() => {
                let mut b = fs[0].block.clone();
                let mut l = locks::Locks::new(&blk.locks);
                syn::visit_mut::VisitMut::visit_block_mut(&mut l, &mut b);
                if let Some(e) = l.err { die(&format!("{} {}: {}", blk.file, blk.path, e)); }
                let head = &src[range(fs[0].sig.span())];
                let text = format!("{} {}", head, b.to_token_stream());
                let f2 = syn::parse_file(&text).unwrap_or_else(|e| die(&format!("cannot parse {} with explicit guards: {}", blk.path, e)));
                let fs2 = find_fn(&f2.items, &fpath);
                let _ = writeln!(report, "locks {}", blk.path);
                extract_fn(&text, &fs2[0], blk, report)
            }
            None => extract_fn(&src, &fs[0], blk, report),
            Some(c) => {
                let text = lift_closure(&src, &fs[0], &c, &blk.ptypes, &blk.outty).unwrap_or_else(|| die(&format!("lost anchor {} {}", blk.file, blk.path)));
                let f2 = syn::parse_file(&text).unwrap_or_else(|e| die(&format!("cannot parse lifted closure {}: {}", blk.path, e)));
                let fs2 = find_fn(&f2.items, &c);
                extract_fn(&text, &fs2[0], blk, report)
            }
        };
    }
    for (a, b) in &blk.subst {
        let n = subst_ws(&mut out, a, b);
        let _ = writeln!(report, "subst {} x{}: {} ==> {}", blk.path, n, a, b);
        if n == 0 {
            let _ = writeln!(report, "subst-miss {}: {}", blk.path, a);
        }
    }
    out
}

/// whitespace-insensitive literal substitution
fn subst_ws(text: &mut String, pat: &str, rep: &str) -> usize {
    let pc: Vec<char> = pat.chars().filter(|c| !c.is_whitespace()).collect();
    let tc: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let mut n = 0;
    while i < tc.len() {
        let mut j = i;
        let mut k = 0;
        if !tc[i].is_whitespace() {
            while j < tc.len() && k < pc.len() {
                if tc[j].is_whitespace() {
                    j += 1;
                    continue;
                }
                if tc[j] == pc[k] {
                    j += 1;
                    k += 1;
                } else {
                    break;
                }
            }
        }
        if k == pc.len() && k > 0 {
            // identifier boundaries
            let idc = |c: char| c.is_alphanumeric() || c == '_';
            let lb = !(idc(pc[0]) && i > 0 && idc(tc[i - 1]));
            let rb = !(idc(*pc.last().unwrap()) && j < tc.len() && idc(tc[j]));
            if lb && rb {
                out.push_str(rep);
                i = j;
                n += 1;
                continue;
            }
        }
        out.push(tc[i]);
        i += 1;
    }
    *text = out;
    n
}

fn pub_fields(s: &str) -> String {
    match syn::parse_str::<syn::ItemStruct>(s) {
        Ok(mut st) => {
            for f in st.fields.iter_mut() {
                f.vis = syn::parse_quote!(pub);
            }
            st.to_token_stream().to_string()
        }
        Err(_) => s.to_string(),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 5 {
        eprintln!("usage: vp-extract REPO TEMPLATE OUT REPORT");
        std::process::exit(2);
    }
    let tmpl = std::fs::read_to_string(&a[2]).expect("template");
    let mut out = String::new();
    let mut report = String::new();
    let mut cur: Option<Block> = None;
    let mut sect: Option<(String, usize)> = None;
    let mut lname = String::new();
    let dir = std::path::Path::new(&a[2]).parent().unwrap().to_path_buf();
    let mut lines: Vec<String> = vec![];
    for l in tmpl.lines() {
        if let Some(inc) = l.trim().strip_prefix("//@include ") {
            let t = std::fs::read_to_string(dir.join(inc.trim())).expect("include");
            lines.extend(t.lines().map(|s| s.to_string()));
        } else {
            lines.push(l.to_string());
        }
    }
    for l in &lines {
        let t = l.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let d = d.trim();
            let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match cmd {
                "extract" => {
                    let (f, p) = rest.split_once(' ').expect("extract FILE PATH");
                    cur = Some(Block { file: f.trim().into(), path: p.trim().into(), ..Default::default() });
                    sect = None;
                }
                "end" => {
                    let b = cur.take().expect("end without extract");
                    let t = do_block(&a[1], &b, &mut report);
                    let _ = writeln!(report, "item {} {}", b.file, b.path);
                    out.push_str(&format!("// ---- extracted from {} : {}\n{}\n", b.file, b.path, t));
                    sect = None;
                }
                _ => {
                    let b = cur.as_mut().expect("directive outside extract");
                    let k = rest.parse::<usize>().unwrap_or(0);
                    if cmd == "after-let" {
                        b.afterlet.insert(rest.to_string(), String::new());
                        lname = rest.to_string();
                    }
                    match cmd {
                        "opts" => {
                            for o in rest.split_whitespace() {
                                let (n, v) = o.split_once('=').unwrap_or((o, ""));
                                match n {
                                    "ret" => b.ret = Some(v.into()),
                                    "name" => b.name = Some(v.into()),
                                    "recv" => b.recv = Some(v.into()),
                                    "locals" => b.locals = v.split(',').map(|s| s.to_string()).collect(),
                                    "types" => b.types = v.split(';').map(|s| { let (a, t) = s.split_once(':').unwrap(); (a.to_string(), t.to_string()) }).collect(),
                                    "loops" => b.nloops = Some(v.parse().unwrap()),
                                    "keep_self" => b.keep_self = true,
                                    "anon_ok" => b.anon_ok = true,
                                    "trait" => b.in_trait = true,
                                    "ptrs" => b.ptrs = true,
                                    "locks" => b.locks = v.split(',').map(|s| s.to_string()).collect(),
                                    "while" => b.whiles = v.split(',').map(|s| s.parse().unwrap()).collect(),
                                    "hoist" => b.hoist = v.split(';').map(|s| { let (a, t) = s.split_once(':').unwrap(); (a.to_string(), t.to_string()) }).collect(),
                                    "drop" => b.drop = v.split(',').map(|s| s.to_string()).collect(),
                                    _ => die(&format!("unknown opt {}", n)),
                                }
                            }
                        }
                        "params" => b.params = rest.to_string(),
                        "ptypes" => b.ptypes = rest.to_string(),
                        "out" => b.outty = rest.to_string(),
                        "generics" => b.generics = rest.to_string(),
                        "subst" => {
                            let (x, y) = rest.split_once("==>").expect("subst A ==> B");
                            b.subst.push((x.trim().into(), y.trim().into()));
                        }
                        "after-let" | "spec" | "body-start" | "body-end" | "before-tail" | "loop" | "loop-start" | "loop-end" | "loop-before" | "loop-after" => {
                            sect = Some((cmd.to_string(), k));
                        }
                        _ => die(&format!("unknown directive {}", cmd)),
                    }
                }
            }
            continue;
        }
        if let Some(b) = cur.as_mut() {
            if let Some((s, k)) = &sect {
                let dst = match s.as_str() {
                    "spec" => &mut b.spec,
                    "body-start" => &mut b.bstart,
                    "body-end" => &mut b.bend,
                    "before-tail" => &mut b.btail,
                    "after-let" => b.afterlet.get_mut(&lname).unwrap(),
                    "loop" => b.loops.entry(*k).or_default(),
                    "loop-start" => b.lstart.entry(*k).or_default(),
                    "loop-end" => b.lend.entry(*k).or_default(),
                    "loop-before" => b.lbefore.entry(*k).or_default(),
                    "loop-after" => b.lafter.entry(*k).or_default(),
                    _ => unreachable!(),
                };
                dst.push_str(l);
                dst.push('\n');
            }
            continue;
        }
        out.push_str(l);
        out.push('\n');
    }
    std::fs::write(&a[3], out).expect("write");
    std::fs::write(&a[4], report).expect("write report");
}
