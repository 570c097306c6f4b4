//! Helper functions the contracts do not know are put back where they are called, before the
//! extraction proper, so that a function under contract is judged with what it does and not with
//! how it is divided. The result is ordinary Rust that does the same; what cannot be inlined
//! faithfully stays as it is.
use crate::norm;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;

/// method names std types have as well: only inlined on `self`
const COMMON: &[&str] = &[
    "len", "push", "pop", "min", "max", "get", "first", "last", "is_empty", "next", "iter", "clear", "insert", "take", "replace",
    "swap", "clone", "into", "from", "contains", "extend", "map", "push_back", "pop_front", "hash", "eq", "cmp", "unwrap", "start", "end",
];

#[derive(Clone)]
struct Helper {
    key: String,
    name: String,
    /// type of the impl, without generics
    ty: Option<String>,
    span: (usize, usize),
    sig: syn::Signature,
    block: syn::Block,
}

fn rng(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

pub(crate) fn has_ident(t: impl ToTokens, name: &str) -> bool {
    let mut s = BTreeSet::new();
    idents(t.to_token_stream(), &mut s);
    s.contains(name)
}

#[derive(Default)]
struct Features {
    returns: usize,
    question: bool,
    other: bool,
    binds: BTreeSet<String>,
}

impl<'a> Visit<'a> for Features {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        self.returns += 1;
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, r: &'a syn::ExprTry) {
        self.question = true;
        syn::visit::visit_expr_try(self, r);
    }
    fn visit_expr_closure(&mut self, r: &'a syn::ExprClosure) {
        // a return inside belongs to the closure
        let n = self.returns;
        syn::visit::visit_expr_closure(self, r);
        self.returns = n;
    }
    fn visit_item(&mut self, _: &'a syn::Item) {
        self.other = true;
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        // `None` and constants are no names of their own
        if !p.ident.to_string().starts_with(char::is_uppercase) {
            self.binds.insert(p.ident.to_string());
        }
        syn::visit::visit_pat_ident(self, p);
    }
}

fn features(b: &syn::Block) -> Features {
    let mut f = Features::default();
    f.visit_block(b);
    f
}

/// what replaces an identifier of the helper's body
#[derive(Clone)]
pub(crate) enum Sub {
    /// a place; the flag says whether the parameter is a reference to it (and a mutable one)
    Place { text: String, by_ref: Option<bool>, is_ref_var: bool },
    Name(String),
}

pub(crate) struct Render<'a> {
    src: &'a str,
    subs: BTreeMap<String, Sub>,
    self_ty: Option<String>,
    failed: bool,
}

impl<'a> Render<'a> {
    pub(crate) fn new(src: &'a str, subs: BTreeMap<String, Sub>) -> Self {
        Render { src, subs, self_ty: None, failed: false }
    }

    /// text of a span with the substitutions done
    fn text(&mut self, ts: TokenStream, a: usize, b: usize) -> String {
        let mut ed: Vec<(usize, usize, String)> = vec![];
        self.walk(ts, &mut ed);
        ed.sort();
        let mut out = String::new();
        let mut pos = a;
        for (s, e, t) in ed {
            if s < a || e > b || s < pos {
                continue;
            }
            out.push_str(&self.src[pos..s]);
            out.push_str(&t);
            pos = e;
        }
        out.push_str(&self.src[pos..b]);
        // comments would swallow what follows on the line
        out
    }

    fn walk(&mut self, ts: TokenStream, ed: &mut Vec<(usize, usize, String)>) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let punct = |i: Option<usize>, c: char| i.and_then(|i| v.get(i)).map_or(false, |t| matches!(t, TokenTree::Punct(p) if p.as_char() == c));
        for (k, t) in v.iter().enumerate() {
            match t {
                TokenTree::Group(g) => self.walk(g.stream(), ed),
                TokenTree::Ident(id) => {
                    let name = id.to_string();
                    let prev = k.checked_sub(1);
                    let (s, e) = rng(id.span());
                    if name == "Self" {
                        if let Some(t) = &self.self_ty {
                            ed.push((s, e, t.clone()));
                        }
                        continue;
                    }
                    let Some(sub) = self.subs.get(&name).cloned() else { continue };
                    // a field or method of that name, a path, a field of a struct literal
                    let range = punct(prev, '.') && k.checked_sub(2).map_or(false, |p| punct(Some(p), '.'));
                    if punct(prev, '.') && !range {
                        continue;
                    }
                    if punct(prev, ':') && punct(k.checked_sub(2), ':') || punct(Some(k + 1), ':') && punct(Some(k + 2), ':') {
                        continue;
                    }
                    if punct(Some(k + 1), ':') {
                        // `x: ..` in a struct literal stays; a pattern or parameter cannot be here
                        continue;
                    }
                    match sub {
                        Sub::Name(t) => ed.push((s, e, t)),
                        Sub::Place { text, by_ref, is_ref_var } => {
                            let field = punct(Some(k + 1), '.') && !(punct(Some(k + 2), '.'));
                            let deref = punct(prev, '*') && !field;
                            if field {
                                let m = match v.get(k + 2) {
                                    Some(TokenTree::Ident(m)) => m.to_string(),
                                    _ => String::new(),
                                };
                                let call = matches!(v.get(k + 3), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis);
                                if call && ["into", "try_into", "clone", "to_owned", "borrow", "as_ref"].contains(&&m[..]) && by_ref.is_some() && !is_ref_var {
                                    ed.push((s, e, format!("(&{}{})", if by_ref == Some(true) { "mut " } else { "" }, text)));
                                } else {
                                    ed.push((s, e, text));
                                }
                            } else if deref {
                                let (ps, _) = rng(v[k - 1].span());
                                match (by_ref, is_ref_var) {
                                    (Some(_), false) => ed.push((ps, e, text)),
                                    _ => ed.push((s, e, text)),
                                }
                            } else {
                                match (by_ref, is_ref_var) {
                                    (Some(true), false) => ed.push((s, e, format!("(&mut {})", text))),
                                    (Some(false), false) => ed.push((s, e, format!("(&{})", text))),
                                    _ => ed.push((s, e, text)),
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    pub(crate) fn of(&mut self, t: impl ToTokens + Spanned) -> String {
        let (a, b) = rng(t.span());
        self.text(t.to_token_stream(), a, b)
    }

    /// the statements as the inside of a block whose value is what the function returns
    fn stmts(&mut self, st: &[syn::Stmt]) -> String {
        let mut out = String::new();
        for (n, s) in st.iter().enumerate() {
            let mut f = Features::default();
            f.visit_stmt(s);
            if f.returns == 0 {
                out.push_str(&self.of(s));
                out.push('\n');
                continue;
            }
            let rest = &st[n + 1..];
            match s {
                syn::Stmt::Expr(syn::Expr::Return(r), _) => {
                    if let Some(e) = &r.expr {
                        let mut f = Features::default();
                        f.visit_expr(e);
                        if f.returns > 0 {
                            self.failed = true;
                        }
                        out.push_str(&self.of(e));
                        out.push('\n');
                    }
                    return out;
                }
                syn::Stmt::Expr(syn::Expr::If(i), _) => {
                    let mut f = Features::default();
                    f.visit_expr(&i.cond);
                    if f.returns > 0 {
                        self.failed = true;
                        return out;
                    }
                    out.push_str(&self.iff(i, rest));
                    return out;
                }
                syn::Stmt::Expr(syn::Expr::Match(m), _) => {
                    let mut f = Features::default();
                    f.visit_expr(&m.expr);
                    if f.returns > 0 {
                        self.failed = true;
                        return out;
                    }
                    // every arm goes on with the rest, or has returned
                    let head = self.of(&*m.expr);
                    out.push_str(&format!("match {} {{\n", head));
                    for a in &m.arms {
                        if a.guard.is_some() {
                            self.failed = true;
                            return out;
                        }
                        let p = self.of(&a.pat);
                        let body: Vec<syn::Stmt> = match &*a.body {
                            syn::Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
                            e => vec![syn::Stmt::Expr(e.clone(), None)],
                        };
                        let t = self.seq(&body, rest);
                        out.push_str(&format!("{} => {{\n{}}}\n", p, t));
                    }
                    out.push_str("}\n");
                    return out;
                }
                _ => {
                    self.failed = true;
                    return out;
                }
            }
        }
        out
    }

    /// `body` and, if it does not return, `rest`
    fn seq(&mut self, body: &[syn::Stmt], rest: &[syn::Stmt]) -> String {
        let ends = |st: &[syn::Stmt]| matches!(st.last(), Some(syn::Stmt::Expr(syn::Expr::Return(_), _)));
        if ends(body) || rest.is_empty() {
            return self.stmts(body);
        }
        // names bound by the body must not be seen by the rest
        let mut f = Features::default();
        for s in body {
            f.visit_stmt(s);
        }
        if f.binds.iter().any(|b| rest.iter().any(|r| has_ident(r, b))) {
            self.failed = true;
        }
        let mut v = body.to_vec();
        if let Some(syn::Stmt::Expr(e, semi @ None)) = v.last_mut() {
            let _ = e;
            *semi = Some(Default::default());
            // the text of a statement without `;` needs one
            let last = v.pop().unwrap();
            let mut t = self.stmts(&v);
            if let syn::Stmt::Expr(e, _) = &last {
                let mut f = Features::default();
                f.visit_expr(e);
                if f.returns > 0 {
                    let mut w = vec![syn::Stmt::Expr(e.clone(), None)];
                    w.extend_from_slice(rest);
                    let mut f2 = Features::default();
                    for s in &v {
                        f2.visit_stmt(s);
                    }
                    if f2.returns > 0 {
                        self.failed = true;
                    }
                    t.push_str(&self.stmts(&w));
                    return t;
                }
                t.push_str(&self.of(e));
                t.push_str(";\n");
            }
            t.push_str(&self.stmts(rest));
            return t;
        }
        v.extend_from_slice(rest);
        self.stmts(&v)
    }

    fn iff(&mut self, i: &syn::ExprIf, rest: &[syn::Stmt]) -> String {
        let c = self.of(&*i.cond);
        let t = self.seq(&i.then_branch.stmts, rest);
        let e = match &i.else_branch {
            None => format!("{{\n{}}}", self.stmts(rest)),
            Some((_, e)) => match &**e {
                syn::Expr::If(i2) => self.iff(i2, rest),
                syn::Expr::Block(b) => format!("{{\n{}}}", self.seq(&b.block.stmts, rest)),
                _ => {
                    self.failed = true;
                    String::new()
                }
            },
        };
        format!("if {} {{\n{}}} else {}\n", c, t, e)
    }
}

fn strip_lifetimes(t: &syn::Type) -> String {
    let s = t.to_token_stream().to_string();
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().map_or(false, |d| d.is_alphanumeric() || *d == '_') {
                it.next();
            }
            continue;
        }
        out.push(c);
    }
    out
}

/// `a`, `a.b.c`
pub(crate) fn place(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Paren(p) => place(&p.expr),
        syn::Expr::Path(p) if p.path.get_ident().is_some() => Some(p.path.get_ident().unwrap().to_string()),
        syn::Expr::Field(f) => Some(format!("{}.{}", place(&f.base)?, f.member.to_token_stream())),
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => None,
        _ => None,
    }
}

struct Site {
    span: (usize, usize),
    helper: usize,
    recv: Option<syn::Expr>,
    args: Vec<syn::Expr>,
    /// the function's own result
    tail: bool,
    stmt: bool,
    /// the first thing a statement evaluates, at the level of the function's own result: the
    /// statement and all that follows, and the text of that before and after the call
    cont: Option<Cont>,
}

#[derive(Clone)]
struct Cont {
    span: (usize, usize),
    before: String,
    after: String,
    /// names of the caller it mentions
    free: BTreeSet<String>,
}

struct Sites<'a> {
    helpers: &'a [Helper],
    by_method: BTreeMap<String, Vec<usize>>,
    /// methods of that name with a contract or in a trait
    taken: &'a BTreeSet<String>,
    cur_ty: Option<String>,
    /// types of the parameters, `self` included
    vars: BTreeMap<String, String>,
    fields: &'a BTreeMap<String, BTreeMap<String, String>>,
    out: Vec<Site>,
    tail: BTreeSet<(usize, usize)>,
    stmts: BTreeSet<(usize, usize)>,
}

impl<'a> Sites<'a> {
    /// the name of the type of a parameter, or of a field of one
    fn type_of(&self, e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Path(p) => self.vars.get(&p.path.get_ident()?.to_string()).cloned(),
            syn::Expr::Paren(p) => self.type_of(&p.expr),
            syn::Expr::Reference(r) => self.type_of(&r.expr),
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.type_of(&u.expr),
            syn::Expr::Field(f) => {
                let t = self.type_of(&f.base)?;
                let syn::Member::Named(n) = &f.member else { return None };
                self.fields.get(&t)?.get(&n.to_string()).cloned()
            }
            _ => None,
        }
    }
    fn site(&mut self, span: (usize, usize), helper: usize, recv: Option<syn::Expr>, args: Vec<syn::Expr>) {
        let tail = self.tail.contains(&span);
        let stmt = self.stmts.contains(&span);
        self.out.push(Site { span, helper, recv, args, tail, stmt, cont: None });
    }
}

/// names used in statements which those do not bind themselves
#[derive(Default)]
struct Free {
    scopes: Vec<BTreeSet<String>>,
    out: BTreeSet<String>,
}

impl Free {
    fn bind(&mut self, p: &syn::Pat) {
        let mut f = Features::default();
        f.visit_pat(p);
        if self.scopes.is_empty() {
            self.scopes.push(BTreeSet::new());
        }
        self.scopes.last_mut().unwrap().extend(f.binds);
    }
    fn scoped(&mut self, f: impl FnOnce(&mut Self)) {
        self.scopes.push(BTreeSet::new());
        f(self);
        self.scopes.pop();
    }
}

impl<'a> Visit<'a> for Free {
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if let Some(i) = p.path.get_ident() {
            let n = i.to_string();
            if !self.scopes.iter().any(|s| s.contains(&n)) {
                self.out.insert(n);
            }
        }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        idents(m.tokens.clone(), &mut self.out);
    }
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
            if let Some((_, e)) = &i.diverge {
                self.visit_expr(e);
            }
        }
        self.bind(&l.pat);
    }
    fn visit_expr_let(&mut self, l: &'a syn::ExprLet) {
        self.visit_expr(&l.expr);
        self.bind(&l.pat);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        self.scoped(|s| {
            s.bind(&a.pat);
            if let Some((_, g)) = &a.guard {
                s.visit_expr(g);
            }
            s.visit_expr(&a.body);
        });
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        self.scoped(|s| syn::visit::visit_block(s, b));
    }
    fn visit_expr_if(&mut self, i: &'a syn::ExprIf) {
        self.scoped(|s| {
            s.visit_expr(&i.cond);
            s.visit_block(&i.then_branch);
        });
        if let Some((_, e)) = &i.else_branch {
            self.visit_expr(e);
        }
    }
    fn visit_expr_while(&mut self, w: &'a syn::ExprWhile) {
        self.scoped(|s| {
            s.visit_expr(&w.cond);
            s.visit_block(&w.body);
        });
    }
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        self.visit_expr(&f.expr);
        self.scoped(|s| {
            s.bind(&f.pat);
            s.visit_block(&f.body);
        });
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.scoped(|s| {
            for p in &c.inputs {
                s.bind(p);
            }
            s.visit_expr(&c.body);
        });
    }
}

/// what `e` evaluates first, from the outside in
fn first(e: &syn::Expr, out: &mut Vec<(usize, usize)>) {
    out.push(rng(e.span()));
    match e {
        syn::Expr::Match(m) => first(&m.expr, out),
        syn::Expr::If(i) => first(&i.cond, out),
        syn::Expr::Let(l) => first(&l.expr, out),
        syn::Expr::Unary(u) => first(&u.expr, out),
        syn::Expr::Binary(b) => first(&b.left, out),
        syn::Expr::Paren(p) => first(&p.expr, out),
        syn::Expr::MethodCall(m) => first(&m.receiver, out),
        syn::Expr::Try(t) => first(&t.expr, out),
        syn::Expr::Tuple(t) => {
            if let Some(e) = t.elems.first() {
                first(e, out);
            }
        }
        syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(_)) => {
            if let Some(e) = c.args.first() {
                first(e, out);
            }
        }
        _ => {}
    }
}

/// the expressions whose value is the value of `e`, which are not returns already
fn values(e: &syn::Expr, out: &mut Vec<(usize, usize)>) {
    let block = |b: &syn::Block, out: &mut Vec<(usize, usize)>| {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            values(e, out);
        }
    };
    match e {
        syn::Expr::If(i) if i.else_branch.is_some() => {
            block(&i.then_branch, out);
            values(&i.else_branch.as_ref().unwrap().1, out);
        }
        syn::Expr::Match(m) => m.arms.iter().for_each(|a| values(&a.body, out)),
        syn::Expr::Block(b) if b.label.is_none() => block(&b.block, out),
        syn::Expr::Return(_) => {}
        e => out.push(rng(e.span())),
    }
}

/// the continuations of the calls a block in tail position evaluates first in a statement
fn conts(src: &str, b: &syn::Block, unit: bool, out: &mut BTreeMap<(usize, usize), Cont>) {
    let Some(last) = b.stmts.last() else { return };
    let end = rng(last.span()).1;
    let mut vals = vec![];
    let mut open = unit; // whether the end of the block may be reached
    match last {
        syn::Stmt::Expr(e, None) if !unit => values(e, &mut vals),
        syn::Stmt::Expr(syn::Expr::Return(_), _) => open = false,
        _ => {}
    }
    for (k, s) in b.stmts.iter().enumerate() {
        let mut chain = vec![];
        match s {
            syn::Stmt::Local(l) => {
                if let Some(i) = &l.init {
                    first(&i.expr, &mut chain);
                }
            }
            syn::Stmt::Expr(e, _) => match e {
                syn::Expr::Assign(a) => first(&a.right, &mut chain),
                e => first(e, &mut chain),
            },
            _ => {}
        }
        let start = rng(s.span()).0;
        let mut f = Free::default();
        b.stmts[k..].iter().for_each(|s| f.visit_stmt(s));
        let wrapped = |a: usize, z: usize| {
            let mut t = String::new();
            let mut pos = a;
            for (x, y) in &vals {
                if *x >= a && *y <= z {
                    t.push_str(&src[pos..*x]);
                    t.push_str(&format!("return ({})", &src[*x..*y]));
                    pos = *y;
                }
            }
            t.push_str(&src[pos..z]);
            t
        };
        for c in chain {
            // part of the result itself: no place to put a return around it
            if vals.iter().any(|v| v.0 <= c.0 && c.1 <= v.1) {
                continue;
            }
            let mut after = wrapped(c.1, end);
            if open {
                after.push_str("\nreturn;");
            }
            out.insert(c, Cont { span: (start, end), before: src[start..c.0].to_string(), after, free: f.out.clone() });
        }
        if k + 1 == b.stmts.len() {
            if let syn::Stmt::Expr(e, None) = s {
                nested(src, e, unit, out);
            }
        }
    }
}

fn nested(src: &str, e: &syn::Expr, unit: bool, out: &mut BTreeMap<(usize, usize), Cont>) {
    match e {
        syn::Expr::If(i) => {
            conts(src, &i.then_branch, unit, out);
            if let Some((_, e)) = &i.else_branch {
                nested(src, e, unit, out);
            }
        }
        syn::Expr::Match(m) => m.arms.iter().for_each(|a| nested(src, &a.body, unit, out)),
        syn::Expr::Block(b) if b.label.is_none() => conts(src, &b.block, unit, out),
        _ => {}
    }
}

impl<'a> Visit<'a> for Sites<'_> {
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        if let syn::Stmt::Expr(e, Some(_)) = s {
            self.stmts.insert(rng(e.span()));
        }
        syn::visit::visit_stmt(self, s);
    }
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        if let Some(e) = &r.expr {
            tails(e, &mut self.tail);
            self.visit_expr(e);
        }
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let old = std::mem::take(&mut self.tail);
        syn::visit::visit_expr_closure(self, c);
        self.tail = old;
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        let name = m.method.to_string();
        let Some(c) = self.by_method.get(&name) else { return };
        let ty = self.type_of(&m.receiver);
        let pick = if ty.is_some() {
            c.iter().find(|h| self.helpers[**h].ty == ty).copied()
        } else if c.len() == 1 && !self.taken.contains(&name) && !COMMON.contains(&&name[..]) {
            Some(c[0])
        } else {
            None
        };
        if let Some(h) = pick {
            if matches!(self.helpers[h].sig.inputs.first(), Some(syn::FnArg::Receiver(_))) {
                self.site(rng(m.span()), h, Some((*m.receiver).clone()), m.args.iter().cloned().collect());
            }
        }
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        syn::visit::visit_expr_call(self, c);
        let syn::Expr::Path(p) = &*c.func else { return };
        let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let pick = match &seg[..] {
            [f] => self.helpers.iter().position(|h| h.ty.is_none() && h.name == *f),
            [s, f] if s == "self" => self.helpers.iter().position(|h| h.ty.is_none() && h.name == *f),
            [t, f] => {
                let t = if t == "Self" { self.cur_ty.clone() } else { Some(t.clone()) };
                self.helpers.iter().position(|h| h.ty.is_some() && h.ty == t && h.name == *f)
            }
            _ => None,
        };
        if let Some(h) = pick {
            let mut args: Vec<syn::Expr> = c.args.iter().cloned().collect();
            let mut recv = None;
            if let Some(syn::FnArg::Receiver(_)) = self.helpers[h].sig.inputs.first() {
                if args.is_empty() {
                    return;
                }
                recv = Some(match args.remove(0) {
                    syn::Expr::Reference(r) => *r.expr,
                    e => e,
                });
            }
            self.site(rng(c.span()), h, recv, args);
        }
    }
}

/// the expressions whose value is the value of `e`
fn tails(e: &syn::Expr, out: &mut BTreeSet<(usize, usize)>) {
    let block = |b: &syn::Block, out: &mut BTreeSet<(usize, usize)>| {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            tails(e, out);
        }
    };
    match e {
        syn::Expr::If(i) => {
            block(&i.then_branch, out);
            if let Some((_, e)) = &i.else_branch {
                tails(e, out);
            }
        }
        syn::Expr::Match(m) => m.arms.iter().for_each(|a| tails(&a.body, out)),
        syn::Expr::Block(b) if b.label.is_none() => block(&b.block, out),
        syn::Expr::Paren(p) => tails(&p.expr, out),
        syn::Expr::Return(r) => {
            if let Some(e) = &r.expr {
                tails(e, out);
            }
        }
        e => {
            out.insert(rng(e.span()));
        }
    }
}

/// parameters of the calling function which are references
fn ref_vars(sig: &syn::Signature) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => {
                if r.reference.is_some() {
                    s.insert("self".to_string());
                }
            }
            syn::FnArg::Typed(t) => {
                if let (syn::Pat::Ident(p), syn::Type::Reference(_)) = (&*t.pat, &*t.ty) {
                    s.insert(p.ident.to_string());
                }
            }
        }
    }
    s
}

/// Is the name used as a field of a struct literal as it is?
pub(crate) fn shorthand(st: &[syn::Stmt], name: &str) -> bool {
    struct Short<'x>(&'x str, bool);
    impl<'y> Visit<'y> for Short<'_> {
        fn visit_field_value(&mut self, f: &'y syn::FieldValue) {
            if f.colon_token.is_none() && f.member.to_token_stream().to_string() == self.0 {
                self.1 = true;
            }
            syn::visit::visit_field_value(self, f);
        }
    }
    let mut s = Short(name, false);
    st.iter().for_each(|x| s.visit_stmt(x));
    s.1
}

/// the names statements bind
pub(crate) fn features_of(st: &[syn::Stmt]) -> BTreeSet<String> {
    let mut f = Features::default();
    st.iter().for_each(|s| f.visit_stmt(s));
    f.binds
}

fn expand(src: &str, h: &Helper, site: &Site, caller_ty: &Option<String>, refs: &BTreeSet<String>) -> Option<((usize, usize), String)> {
    let f = features(&h.block);
    if f.question || f.other || (f.returns > 0 && !site.tail && h.block.stmts.is_empty()) {
        return None;
    }
    let generic = h.sig.generics.params.iter().any(|p| !matches!(p, syn::GenericParam::Lifetime(_)));
    let mut r = Render { src, subs: BTreeMap::new(), self_ty: None, failed: false };
    if h.ty != *caller_ty {
        r.self_ty = h.ty.clone();
    }
    let mut outer = BTreeSet::new(); // names of the caller the body will mention
    let mut pre = String::new();
    let mut lets = String::new();
    let mut let_names = BTreeSet::new();
    let mut args = site.args.iter();
    for a in &h.sig.inputs {
        match a {
            syn::FnArg::Receiver(rc) => {
                let e = site.recv.as_ref()?;
                let text = place(e)?;
                let root = text.split('.').next().unwrap().to_string();
                outer.insert(root);
                if rc.reference.is_none() && rc.mutability.is_some() {
                    return None;
                }
                if text == "self" {
                    continue; // stays as it is
                }
                let is_ref_var = refs.contains(&text);
                r.subs.insert("self".into(), Sub::Place { text, by_ref: rc.reference.as_ref().map(|_| rc.mutability.is_some()), is_ref_var });
            }
            syn::FnArg::Typed(t) => {
                let arg = args.next()?;
                let n = lets.len();
                let pat = t.pat.to_token_stream().to_string();
                let unwrapped = match arg {
                    syn::Expr::Paren(p) => &p.expr,
                    e => e,
                };
                if let syn::Pat::Ident(p) = &*t.pat {
                    let name = p.ident.to_string();
                    if p.mutability.is_none() && p.by_ref.is_none() {
                        match unwrapped {
                            syn::Expr::Path(x) if x.path.get_ident().is_some() => {
                                let to = x.path.get_ident().unwrap().to_string();
                                outer.insert(to.clone());
                                if to != name {
                                    r.subs.insert(name, Sub::Name(to));
                                }
                                continue;
                            }
                            syn::Expr::Reference(x) => {
                                if let (Some(pl), syn::Type::Reference(ty)) = (place(&x.expr), &*t.ty) {
                                    if x.mutability.is_some() || !matches!(&*ty.elem, syn::Type::Slice(_)) {
                                        outer.insert(pl.split('.').next().unwrap().to_string());
                                        let is_ref_var = false;
                                        r.subs.insert(name, Sub::Place { text: pl, by_ref: Some(x.mutability.is_some()), is_ref_var });
                                        continue;
                                    }
                                }
                                if x.mutability.is_some() {
                                    return None;
                                }
                            }
                            _ => {}
                        }
                    }
                    if let syn::Type::Reference(x) = &*t.ty {
                        if x.mutability.is_some() {
                            return None;
                        }
                    }
                }
                let (s, e) = rng(arg.span());
                let ty = strip_lifetimes(&t.ty);
                let typed = !generic && !ty.contains("impl ") && !(ty.contains("Self") && h.ty != *caller_ty);
                pre.push_str(&format!("let __h{n}{} = {};\n", if typed { format!(": {}", ty) } else { String::new() }, &src[s..e]));
                lets.push_str(&format!("let {} = __h{n};\n", pat));
                let mut f = Features::default();
                f.visit_pat(&t.pat);
                let_names.extend(f.binds);
            }
        }
    }
    if args.next().is_some() {
        return None;
    }
    // a name the body binds must not be one of the caller's it now mentions
    let mut bound = f.binds.clone();
    bound.extend(let_names);
    if outer.iter().any(|o| bound.contains(o)) || f.binds.iter().any(|b| r.subs.contains_key(b)) {
        return None;
    }
    // a shorthand field of a struct literal cannot be renamed
    if r.subs.keys().any(|k| shorthand(&h.block.stmts, k)) {
        return None;
    }
    let single = h.block.stmts.len() == 1 && matches!(&h.block.stmts[0], syn::Stmt::Expr(_, None)) && lets.is_empty() && f.returns == 0;
    if single {
        let t = r.of(&h.block.stmts[0]);
        let unit = matches!(h.sig.output, syn::ReturnType::Default);
        return Some((site.span, if unit { t } else if site.tail { format!("{{ {} }}", t) } else { format!("({})", t) }));
    }
    let inner = if f.returns > 0 && site.tail {
        let (a, b) = (rng(h.block.brace_token.span.open()).1, rng(h.block.brace_token.span.close()).0);
        let ts = h.block.stmts.iter().map(|s| s.to_token_stream()).collect();
        r.text(ts, a, b)
    } else {
        r.stmts(&h.block.stmts)
    };
    if r.failed {
        // what comes after the call goes to where the helper returns
        let c = site.cont.as_ref()?;
        if c.free.iter().any(|x| bound.contains(x)) {
            return None;
        }
        let mut rets = Returns::default();
        rets.visit_block(&h.block);
        let mut vals = vec![];
        match h.block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => values(e, &mut vals),
            Some(syn::Stmt::Expr(syn::Expr::Return(_), _)) => {}
            _ => return None, // a unit helper
        }
        let (a, b) = (rng(h.block.brace_token.span.open()).1, rng(h.block.brace_token.span.close()).0);
        let ts: TokenStream = h.block.stmts.iter().map(|s| s.to_token_stream()).collect();
        r.failed = false;
        let mut ed: Vec<(usize, usize, String)> = vec![];
        r.walk(ts, &mut ed);
        let mut cuts: Vec<(usize, usize, usize, usize)> = vec![];
        for e in &rets.0 {
            let x = rng(e.expr.as_ref()?.span());
            let w = rng(e.span());
            cuts.push((w.0, x.0, x.1, w.1));
        }
        cuts.extend(vals.iter().map(|v| (v.0, v.0, v.1, v.1)));
        for (w, x, y, z) in cuts {
            // a block after a loop is not what Verus expects
            let stmt = src[a..w].lines().rev().map(|l| l.split("//").next().unwrap().trim()).find(|l| !l.is_empty()).map_or(true, |l| l.ends_with(['{', '}', ';']));
            let (open, close) = if stmt { ("", "") } else { ("{ ", " }") };
            ed.push((w, x, format!("{open}{}(", c.before)));
            ed.push((y, z, format!("){}{close}", c.after)));
        }
        ed.sort_by_key(|e| (e.0, e.1));
        let mut inner = String::new();
        let mut pos = a;
        for (s, e, t) in ed {
            if s < pos {
                return None;
            }
            inner.push_str(&src[pos..s]);
            inner.push_str(&t);
            pos = e;
        }
        inner.push_str(&src[pos..b]);
        return Some((c.span, format!("{}{}{}", pre, lets, inner)));
    }
    let inner = format!("{{\n{}{}{}\n}}", pre, lets, inner);
    Some((site.span, if site.stmt || site.tail { inner } else { format!("({})", inner) }))
}

#[derive(Default)]
struct Returns(Vec<syn::ExprReturn>);

impl<'a> Visit<'a> for Returns {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        self.0.push(r.clone());
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

fn spans_in(f: &syn::File) -> Vec<(String, Option<String>, bool, bool, syn::Visibility, syn::Signature, Option<syn::Block>, (usize, usize))> {
    // key, type, inherent or free, test, ..
    let mut out = vec![];
    for it in &f.items {
        match it {
            syn::Item::Fn(x) => out.push((x.sig.ident.to_string(), None, true, crate::is_cfg_test(&x.attrs), x.vis.clone(), x.sig.clone(), Some((*x.block).clone()), rng(x.span()))),
            syn::Item::Impl(i) => {
                let ty = crate::base_name(&i.self_ty);
                let tr = i.trait_.as_ref().map(|(_, p, _)| norm(p.segments.last().unwrap()));
                for m in &i.items {
                    if let syn::ImplItem::Fn(m) = m {
                        let key = match &tr {
                            Some(t) => format!("{}.{}.{}", ty, t, m.sig.ident),
                            None => format!("{}.{}", ty, m.sig.ident),
                        };
                        out.push((key, Some(ty.clone()), tr.is_none(), crate::is_cfg_test(&i.attrs) || crate::is_cfg_test(&m.attrs), m.vis.clone(), m.sig.clone(), Some(m.block.clone()), rng(m.span())));
                    }
                }
            }
            syn::Item::Trait(t) => {
                for m in &t.items {
                    if let syn::TraitItem::Fn(m) = m {
                        out.push((format!("{}.{}", t.ident, m.sig.ident), Some(t.ident.to_string()), false, false, syn::Visibility::Inherited, m.sig.clone(), m.default.clone(), rng(m.span())));
                    }
                }
            }
            _ => {}
        }
    }
    out
}

struct Closures<'a> {
    src: &'a str,
    out: Vec<(usize, usize, String, String)>,
    /// parameters that are a `Bound`
    bounds: std::collections::BTreeSet<String>,
}

impl Closures<'_> {
    fn signature(&mut self, s: &syn::Signature) {
        self.bounds.clear();
        for a in &s.inputs {
            if let syn::FnArg::Typed(a) = a {
                let syn::Type::Path(ty) = &*a.ty else { continue };
                if ty.path.segments.last().is_some_and(|s| s.ident == "Bound") {
                    self.bounds.insert(a.pat.to_token_stream().to_string());
                }
            }
        }
    }
}

impl<'a> Visit<'a> for Closures<'_> {
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
        self.signature(&f.sig);
        syn::visit::visit_item_fn(self, f);
    }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        self.signature(&f.sig);
        syn::visit::visit_impl_item_fn(self, f);
    }
    fn visit_trait_item_fn(&mut self, f: &'a syn::TraitItemFn) {
        self.signature(&f.sig);
        syn::visit::visit_trait_item_fn(self, f);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        let n = self.out.len();
        syn::visit::visit_expr_method_call(self, m);
        if self.out.len() > n {
            return; // innermost first
        }
        let name = m.method.to_string();
        let t = |e: &dyn Fn() -> proc_macro2::Span| {
            let (a, b) = rng(e());
            self.src[a..b].to_string()
        };
        let recv = t(&|| m.receiver.span());
        for s in [".iter(", ".into_iter(", ".windows(", ".chunks(", "..", ".enumerate(", ".rev("] {
            if recv.contains(s) {
                return;
            }
        }
        let closure = |e: &syn::Expr, params: usize| -> Option<(String, String)> {
            if let (syn::Expr::Path(p), 1) = (e, params) {
                let (a, b) = rng(p.span());
                return Some(("__v".to_string(), format!("{}(__v)", &self.src[a..b])));
            }
            let syn::Expr::Closure(c) = e else { return None };
            if c.inputs.len() != params || c.capture.is_some() && false {
                return None;
            }
            let mut f = Features::default();
            f.visit_expr(&c.body);
            let (a, b) = rng(c.body.span());
            let mut r = 0;
            struct R<'x>(&'x mut usize);
            impl<'y> Visit<'y> for R<'_> {
                fn visit_expr_return(&mut self, _: &'y syn::ExprReturn) {
                    *self.0 += 1;
                }
            }
            R(&mut r).visit_expr(&c.body);
            if r > 0 || f.question {
                return None;
            }
            let p = match c.inputs.first() {
                Some(syn::Pat::Type(t)) => t.pat.to_token_stream().to_string(),
                Some(p) => {
                    let (a, b) = rng(p.span());
                    self.src[a..b].to_string()
                }
                None => String::new(),
            };
            Some((p, self.src[a..b].to_string()))
        };
        let a: Vec<&syn::Expr> = m.args.iter().collect();
        let simple = |e: &syn::Expr| matches!(e, syn::Expr::Lit(_) | syn::Expr::Path(_)) || place(e).is_some();
        let bound = self.bounds.contains(&recv) || recv.ends_with("start_bound()") || recv.ends_with("end_bound()");
        let arms = |p: &str, b: &str| format!("(match {recv} {{ std::ops::Bound::Included({p}) => std::ops::Bound::Included({b}), std::ops::Bound::Excluded({p}) => std::ops::Bound::Excluded({b}), std::ops::Bound::Unbounded => std::ops::Bound::Unbounded }})");
        let new = match (&name[..], &a[..]) {
            ("map", [c]) if bound => closure(c, 1).map(|(p, b)| arms(&p, &b)),
            ("cloned", []) if bound => Some(arms("__v", "__v.clone()")),
            ("map", [c]) => closure(c, 1).map(|(p, b)| format!("(match {recv} {{ Some({p}) => Some({b}), None => None }})")),
            ("and_then", [c]) => closure(c, 1).map(|(p, b)| format!("(match {recv} {{ Some({p}) => {b}, None => None }})")),
            ("map_or", [d, c]) if simple(d) || matches!(d, syn::Expr::Tuple(_)) => closure(c, 1).map(|(p, b)| format!("(match {recv} {{ Some({p}) => {b}, None => {} }})", t(&|| d.span()))),
            ("map_or_else", [d, c]) => closure(d, 0).and_then(|(_, d)| closure(c, 1).map(|(p, b)| format!("(match {recv} {{ Some({p}) => {b}, None => {d} }})"))),
            ("unwrap_or_else", [d]) => closure(d, 0).map(|(_, d)| format!("(match {recv} {{ Some(__v) => __v, None => {d} }})")),
            ("or_else", [d]) => closure(d, 0).map(|(_, d)| format!("(match {recv} {{ Some(__v) => Some(__v), None => {d} }})")),
            ("is_some_and", [c]) => closure(c, 1).map(|(p, b)| format!("(match {recv} {{ Some({p}) => {b}, None => false }})")),
            ("is_none_or", [c]) => closure(c, 1).map(|(p, b)| format!("(match {recv} {{ Some({p}) => {b}, None => true }})")),
            ("then", [c]) => closure(c, 0).map(|(_, b)| format!("(if {recv} {{ Some({b}) }} else {{ None }})")),
            ("then_some", [c]) if simple(c) => Some(format!("(if {recv} {{ Some({}) }} else {{ None }})", t(&|| c.span()))),
            ("filter", [c]) => closure(c, 1).map(|(p, b)| format!("(match {recv} {{ Some(__v) => if {{ let {p} = &__v; {b} }} {{ Some(__v) }} else {{ None }}, None => None }})")),
            ("unwrap_or", [d]) if simple(d) || matches!(d, syn::Expr::MethodCall(_)) && place(&d).is_none() && t(&|| d.span()).ends_with(".len()") => {
                Some(format!("(match {recv} {{ Some(__v) => __v, None => {} }})", t(&|| d.span())))
            }
            _ => None,
        };
        if let Some(new) = new {
            let (s, e) = rng(m.span());
            self.out.push((s, e, new, format!("closure of {} becomes a match", name)));
        }
    }
}

/// Option's combinators with a closure, as the `match` they stand for
fn closures(src: &mut String, notes: &mut Vec<String>) {
    for _ in 0..8 {
        let Ok(file) = syn::parse_file(src) else { return };
        let mut c = Closures { src: &src[..], out: vec![], bounds: Default::default() };
        for it in &file.items {
            if !matches!(it, syn::Item::Mod(_)) {
                c.visit_item(it);
            }
        }
        let mut ed = c.out;
        if ed.is_empty() {
            return;
        }
        ed.sort();
        let ranges: Vec<(usize, usize)> = ed.iter().map(|e| (e.0, e.1)).collect();
        ed.retain(|e| !ranges.iter().any(|r| (r.0, r.1) != (e.0, e.1) && r.0 >= e.0 && r.1 <= e.1));
        for (a, b, t, n) in ed.into_iter().rev() {
            src.replace_range(a..b, &t);
            notes.push(n);
        }
    }
}

/// The source with helpers inlined, and what was done.
pub fn inline(src: &str, known: &dyn Fn(&str) -> bool) -> (String, Vec<String>) {
    let mut src = src.to_string();
    let mut notes = vec![];
    for t in ["u8", "u16", "u32", "u64", "usize"] {
        for (c, k) in [("std", "MAX"), ("std", "MIN"), ("core", "MAX"), ("core", "MIN")] {
            src = src.replace(&format!("{c}::{t}::{k}"), &format!("{t}::{k}"));
        }
    }
    closures(&mut src, &mut notes);
    let mut gone: BTreeSet<String> = BTreeSet::new();
    for _round in 0..8 {
        let Ok(file) = syn::parse_file(&src) else { return (src, notes) };
        let all = spans_in(&file);
        let fields = field_types(&file);
        let assoc = assoc_types(&file);
        let mut helpers = vec![];
        let mut taken = BTreeSet::new();
        for (key, ty, inherent, test, _vis, sig, block, span) in &all {
            let name = sig.ident.to_string();
            let ok = *inherent && !*test && !known(key) && sig.asyncness.is_none() && sig.unsafety.is_none() && block.is_some();
            let ok = ok && !block.as_ref().map_or(true, |b| has_ident(b, &name) && !b.stmts.is_empty() && recursive(b, &name));
            let impls = sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Typed(t) if norm(&t.ty).starts_with("impl")));
            if ok && !impls {
                helpers.push(Helper { key: key.clone(), name, ty: ty.clone(), span: *span, sig: sig.clone(), block: block.clone().unwrap() });
            } else {
                taken.insert(name);
            }
        }
        if helpers.is_empty() {
            break;
        }
        let mut by_method: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for (n, h) in helpers.iter().enumerate() {
            if h.ty.is_some() {
                by_method.entry(h.name.clone()).or_default().push(n);
            }
        }
        let mut edits: Vec<(usize, usize, String, String)> = vec![];
        let mut left: BTreeSet<String> = BTreeSet::new();
        for (key, ty, _inh, test, _vis, sig, block, _span) in &all {
            let Some(b) = block else { continue };
            if *test {
                continue;
            }
            let mut s = Sites { helpers: &helpers, by_method: by_method.clone(), taken: &taken, cur_ty: ty.clone(), vars: param_types(key, ty, sig, b, &assoc), fields: &fields, out: vec![], tail: BTreeSet::new(), stmts: BTreeSet::new() };
            if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
                tails(e, &mut s.tail);
            }
            s.visit_block(b);
            let refs = ref_vars(sig);
            let mut after = BTreeMap::new();
            conts(&src, b, matches!(sig.output, syn::ReturnType::Default), &mut after);
            for site in &mut s.out {
                site.cont = after.get(&site.span).cloned();
            }
            for site in &s.out {
                let h = &helpers[site.helper];
                if h.key == *key {
                    continue;
                }
                match expand(&src, h, site, ty, &refs) {
                    Some((at, t)) => edits.push((at.0, at.1, t, format!("{}: inlined {}", key, h.key))),
                    None => {
                        left.insert(h.key.clone());
                    }
                }
            }
        }
        // innermost first: an edit which contains another one waits
        let ranges: Vec<(usize, usize)> = edits.iter().map(|e| (e.0, e.1)).collect();
        edits.retain(|e| !ranges.iter().any(|r| (r.0, r.1) != (e.0, e.1) && r.0 >= e.0 && r.1 <= e.1));
        edits.sort();
        edits.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1);
        if edits.is_empty() {
            // helpers nobody calls any more go
            let mut drop: Vec<(usize, usize)> = helpers.iter().filter(|h| gone.contains(&h.key) && !left.contains(&h.key)).map(|h| h.span).collect();
            drop.sort();
            for (a, b) in drop.iter().rev() {
                src.replace_range(*a..*b, "");
            }
            break;
        }
        let mut out = String::new();
        let mut pos = 0;
        for (a, b, t, n) in edits {
            out.push_str(&src[pos..a]);
            out.push_str(&t);
            pos = b;
            gone.insert(n.split("inlined ").nth(1).unwrap().to_string());
            notes.push(n);
        }
        out.push_str(&src[pos..]);
        src = out;
    }
    (src, notes)
}

/// struct -> field -> name of its type
fn field_types(f: &syn::File) -> BTreeMap<String, BTreeMap<String, String>> {
    let mut out = BTreeMap::new();
    for it in &f.items {
        if let syn::Item::Struct(s) = it {
            let fs = s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| (i.to_string(), plain_type(&f.ty)))).collect();
            out.insert(s.ident.to_string(), fs);
        }
    }
    out
}

fn plain_type(t: &syn::Type) -> String {
    crate::base_name(t).trim_start_matches('&').to_string()
}

/// "Type.Trait" -> associated type -> its name
fn assoc_types(f: &syn::File) -> BTreeMap<String, BTreeMap<String, String>> {
    let mut out: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    for it in &f.items {
        if let syn::Item::Impl(i) = it {
            if let Some((_, p, _)) = &i.trait_ {
                let key = format!("{}.{}", crate::base_name(&i.self_ty), norm(p.segments.last().unwrap()));
                for m in &i.items {
                    if let syn::ImplItem::Type(t) = m {
                        out.entry(key.clone()).or_default().insert(t.ident.to_string(), plain_type(&t.ty));
                    }
                }
            }
        }
    }
    out
}

fn param_types(key: &str, ty: &Option<String>, sig: &syn::Signature, b: &syn::Block, assoc: &BTreeMap<String, BTreeMap<String, String>>) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    if let Some(t) = ty {
        out.insert("self".to_string(), t.trim_start_matches('&').to_string());
    }
    let generics: BTreeSet<String> = sig.generics.params.iter().filter_map(|p| if let syn::GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
    for a in &sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            if let syn::Pat::Ident(p) = &*t.pat {
                let mut ty_now: &syn::Type = &t.ty;
                while let syn::Type::Reference(r) = ty_now {
                    ty_now = &r.elem;
                }
                let n = norm(ty_now);
                let name = match n.strip_prefix("Self::") {
                    Some(x) => key.rsplit_once('.').and_then(|(k, _)| assoc.get(k)).and_then(|m| m.get(x)).cloned(),
                    None if n == "Self" => ty.clone(),
                    None => Some(plain_type(ty_now)),
                };
                if let (Some(x), false) = (name, generics.contains(&n)) {
                    out.insert(p.ident.to_string(), x);
                }
            }
        }
    }
    // a variable that hides a parameter
    struct Lets(BTreeSet<String>);
    impl<'y> Visit<'y> for Lets {
        fn visit_pat_ident(&mut self, p: &'y syn::PatIdent) {
            self.0.insert(p.ident.to_string());
        }
    }
    let mut l = Lets(BTreeSet::new());
    l.visit_block(b);
    out.retain(|k, _| !l.0.contains(k));
    out
}

fn recursive(b: &syn::Block, name: &str) -> bool {
    struct F<'x>(&'x str, bool);
    impl<'y> Visit<'y> for F<'_> {
        fn visit_expr_call(&mut self, c: &'y syn::ExprCall) {
            if let syn::Expr::Path(p) = &*c.func {
                if p.path.segments.last().map_or(false, |s| s.ident == self.0) {
                    self.1 = true;
                }
            }
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, m: &'y syn::ExprMethodCall) {
            if m.method == self.0 && matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident("self")) {
                self.1 = true;
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut f = F(name, false);
    f.visit_block(b);
    f.1
}

/// every function body, by key
pub fn bodies(f: &syn::File) -> Vec<(String, syn::Block)> {
    spans_in(f).into_iter().filter(|x| !x.3).filter_map(|x| x.6.map(|b| (x.0, b))).collect()
}

/// a function's signature, as text
pub fn signature(f: &syn::File, key: &str) -> String {
    spans_in(f).into_iter().find(|x| x.0 == key).map_or(String::new(), |x| norm(&x.5))
}
