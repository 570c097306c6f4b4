//! Iterator methods that consume a slice iterator or a range with a closure (`position`, `find`, `any`,
//! `fold`, ...), as the loop they stand for, put in front of the statement they are evaluated first in.
use crate::norm;
use syn::spanned::Spanned;
use syn::visit::Visit;

fn rng(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

struct Find<'a> {
    src: &'a str,
    n: usize,
    out: Vec<(usize, usize, String, String)>,
}

/// `x.iter()..`, `(a..b)`; whether items come with their number, whether it is a range
fn source(e: &syn::Expr) -> Option<(bool, bool)> {
    match e {
        syn::Expr::Paren(p) if matches!(&*p.expr, syn::Expr::Range(r) if r.start.is_some() && r.end.is_some()) => Some((false, true)),
        syn::Expr::MethodCall(m) => match (&m.method.to_string()[..], m.args.len()) {
            ("iter", 0) => Some((false, false)),
            ("enumerate", 0) => source(&m.receiver).filter(|s| !s.0 && !s.1).map(|_| (true, false)),
            ("cloned" | "copied", 0) => source(&m.receiver).filter(|s| !s.1),
            ("skip", 1) => source(&m.receiver).filter(|s| !s.1),
            _ => None,
        },
        _ => None,
    }
}

struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

fn closure<'e>(e: &'e syn::Expr, n: usize) -> Option<(Vec<&'e syn::Pat>, &'e syn::Expr)> {
    let syn::Expr::Closure(c) = e else { return None };
    let mut l = Leaves(false);
    l.visit_expr(&c.body);
    if l.0 && flat(&c.body, "").is_none() || c.inputs.len() != n || c.asyncness.is_some() {
        return None;
    }
    let pats = c.inputs.iter().map(|p| match p {
        syn::Pat::Type(t) => &*t.pat,
        p => p,
    });
    Some((pats.collect(), &c.body))
}

/// `{ if c { return x; } y }` as `{ if c { x } else { y } }`
fn flat(e: &syn::Expr, src: &str) -> Option<String> {
    let leaves = |e: &syn::Stmt| {
        let mut l = Leaves(false);
        l.visit_stmt(e);
        l.0
    };
    fn seq(st: &[syn::Stmt], src: &str, leaves: &dyn Fn(&syn::Stmt) -> bool) -> Option<String> {
        let t = |x: proc_macro2::Span| {
            let (a, b) = rng(x);
            src.get(a..b).unwrap_or("").to_string()
        };
        let (s, rest) = st.split_first()?;
        match s {
            syn::Stmt::Expr(syn::Expr::Return(r), _) => {
                let e = r.expr.as_ref()?;
                let mut l = Leaves(false);
                l.visit_expr(e);
                (!l.0).then(|| t(e.span()))
            }
            syn::Stmt::Expr(syn::Expr::If(i), _) if i.else_branch.is_none() && leaves(s) => {
                let mut l = Leaves(false);
                l.visit_expr(&i.cond);
                if l.0 || rest.is_empty() {
                    return None;
                }
                // the branch has to leave
                matches!(i.then_branch.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Return(_), _))).then_some(())?;
                let a = seq(&i.then_branch.stmts, src, leaves)?;
                let b = seq(rest, src, leaves)?;
                Some(format!("if {} {{ {} }} else {{ {} }}", t(i.cond.span()), a, b))
            }
            _ if leaves(s) => None,
            _ if rest.is_empty() => matches!(s, syn::Stmt::Expr(_, None)).then(|| t(s.span())),
            _ => Some(format!("{} {}", t(s.span()), seq(rest, src, leaves)?)),
        }
    }
    let syn::Expr::Block(b) = e else { return None };
    if b.label.is_some() {
        return None;
    }
    seq(&b.block.stmts, src, &leaves).map(|s| format!("{{ {} }}", s))
}

const NAMES: [&str; 7] = ["position", "find", "find_map", "any", "all", "fold", "for_each"];

/// the consuming call that is evaluated before anything else in the expression
fn first(e: &syn::Expr) -> Option<&syn::ExprMethodCall> {
    match e {
        syn::Expr::MethodCall(m) if NAMES.contains(&&m.method.to_string()[..]) && source(&m.receiver).is_some() => Some(m),
        syn::Expr::MethodCall(m) => first(&m.receiver),
        syn::Expr::Match(m) => first(&m.expr),
        syn::Expr::If(i) => first(&i.cond),
        syn::Expr::Let(l) => first(&l.expr),
        syn::Expr::Return(r) => r.expr.as_ref().and_then(|e| first(e)),
        syn::Expr::Paren(p) => first(&p.expr),
        syn::Expr::Unary(p) => first(&p.expr),
        syn::Expr::Try(p) => first(&p.expr),
        syn::Expr::Field(p) => first(&p.base),
        syn::Expr::Cast(p) => first(&p.expr),
        syn::Expr::Binary(b) => first(&b.left),
        syn::Expr::Assign(b) => first(&b.right),
        syn::Expr::Tuple(t) => t.elems.first().and_then(first),
        syn::Expr::Call(c) => c.args.first().and_then(first),
        _ => None,
    }
}

impl<'a> Find<'a> {
    fn t(&self, x: impl Spanned) -> &'a str {
        let (s, e) = rng(x.span());
        &self.src[s..e]
    }

    /// the body of a closure, without early returns
    fn b(&self, e: &syn::Expr) -> String {
        let mut l = Leaves(false);
        l.visit_expr(e);
        match l.0 {
            true => flat(e, self.src).unwrap_or_default(),
            false => self.t(e).to_string(),
        }
    }

    fn code(&mut self, m: &syn::ExprMethodCall) -> Option<(String, String)> {
        let name = m.method.to_string();
        let (numbered, range) = source(&m.receiver)?;
        let recv = self.t(&m.receiver).to_string();
        let args: Vec<&syn::Expr> = m.args.iter().collect();
        let n = self.n;
        let v = format!("__it{n}");
        let simple = |p: &syn::Pat| match p {
            syn::Pat::Ident(i) => i.subpat.is_none(),
            syn::Pat::Wild(_) => true,
            _ => false,
        };
        // what the `for` loop may bind: x, &x, (i, x), (i, &x)
        let value = |p: &syn::Pat| simple(p) || matches!(p, syn::Pat::Reference(r) if simple(&r.pat));
        let item = |p: &syn::Pat| if numbered { matches!(p, syn::Pat::Tuple(t) if t.elems.len() == 2 && simple(&t.elems[0]) && value(&t.elems[1])) } else { value(p) };
        let r = match (&name[..], &args[..]) {
            ("position", [c]) if !range => {
                let (p, b) = closure(c, 1)?;
                if numbered || !value(p[0]) {
                    return None;
                }
                let (p, b) = (self.t(p[0]), self.b(b));
                (format!("let mut {v}: Option<usize> = None; for (__n{n}, {p}) in {recv}.enumerate() {{ if {b} {{ {v} = Some(__n{n}); break; }} }} "), v)
            }
            ("find", [c]) => {
                let (p, b) = closure(c, 1)?;
                let b = self.b(b);
                // of bytes, or of positions
                let elem = if range { "usize" } else if recv.contains("cloned()") || recv.contains("copied()") { "u8" } else { "&u8" };
                let ty = if numbered { format!("Option<(usize, {elem})>") } else { format!("Option<{elem}>") };
                let inner = match p[0] {
                    syn::Pat::Reference(r) => &*r.pat,
                    syn::Pat::Ident(_) if !numbered => {
                        let x = self.t(p[0]);
                        return Some((format!("let mut {v}: {ty} = None; for __e{n} in {recv} {{ let {x} = &__e{n}; if {b} {{ {v} = Some(__e{n}); break; }} }} "), v));
                    }
                    _ => return None,
                };
                let bind = |p: &syn::Pat, e: &str| -> Option<String> {
                    match p {
                        syn::Pat::Wild(_) => Some(String::new()),
                        p if simple(p) => Some(format!("let {} = {e}; ", norm(p))),
                        syn::Pat::Reference(r) if simple(&r.pat) => Some(format!("let {} = *{e}; ", norm(&r.pat))),
                        _ => None,
                    }
                };
                let (head, lets, hit) = match inner {
                    syn::Pat::Tuple(t) if numbered && t.elems.len() == 2 => {
                        let lets = bind(&t.elems[0], &format!("__n{n}"))? + &bind(&t.elems[1], &format!("__e{n}"))?;
                        (format!("(__n{n}, __e{n})"), lets, format!("(__n{n}, __e{n})"))
                    }
                    p if !numbered => (format!("__e{n}"), bind(p, &format!("__e{n}"))?, format!("__e{n}")),
                    _ => return None,
                };
                (format!("let mut {v}: {ty} = None; for {head} in {recv} {{ {lets}if {b} {{ {v} = Some({hit}); break; }} }} "), v)
            }
            ("find_map", [c]) => {
                let (p, b) = closure(c, 1)?;
                if !item(p[0]) {
                    return None;
                }
                let p = self.t(p[0]);
                let mut l = Leaves(false);
                l.visit_expr(b);
                if l.0 {
                    let b = self.b(b);
                    return Some((format!("let mut {v} = None; for {p} in {recv} {{ let __r{n} = {b}; if __r{n}.is_some() {{ {v} = __r{n}; break; }} }} "), v));
                }
                let mut b = b;
                let mut lets = String::new();
                while let syn::Expr::Block(x) = b {
                    let Some(syn::Stmt::Expr(e, None)) = x.block.stmts.last() else { return None };
                    for s in &x.block.stmts[..x.block.stmts.len() - 1] {
                        lets += self.t(s);
                        lets += " ";
                    }
                    b = e;
                }
                let then = |e: &syn::Expr| -> Option<(String, String)> {
                    match e {
                        syn::Expr::If(i) => {
                            let [syn::Stmt::Expr(syn::Expr::Call(c), None)] = &i.then_branch.stmts[..] else { return None };
                            let none = match &i.else_branch {
                                Some((_, e)) => norm(e).replace([' ', '{', '}'], "") == "None",
                                None => false,
                            };
                            if norm(&c.func) != "Some" || c.args.len() != 1 || !none || matches!(&*i.cond, syn::Expr::Let(_)) {
                                return None;
                            }
                            Some((self.t(&i.cond).to_string(), self.t(&c.args[0]).to_string()))
                        }
                        syn::Expr::MethodCall(c) if c.method == "then" && c.args.len() == 1 => {
                            let (_, b) = closure(&c.args[0], 0)?;
                            Some((self.t(&c.receiver).to_string(), self.t(b).to_string()))
                        }
                        syn::Expr::MethodCall(c) if c.method == "then_some" && c.args.len() == 1 => Some((self.t(&c.receiver).to_string(), self.t(&c.args[0]).to_string())),
                        _ => None,
                    }
                };
                match then(b) {
                    Some((c, x)) => (format!("let mut {v} = None; for {p} in {recv} {{ {lets}if {c} {{ {v} = Some({x}); break; }} }} "), v),
                    None => {
                        let b = self.t(b);
                        (format!("let mut {v} = None; for {p} in {recv} {{ {lets}let __r{n} = {b}; if __r{n}.is_some() {{ {v} = __r{n}; break; }} }} "), v)
                    }
                }
            }
            ("any" | "all", [c]) => {
                let (p, b) = closure(c, 1)?;
                if !item(p[0]) {
                    return None;
                }
                let (p, b) = (self.t(p[0]), self.b(b));
                if name == "any" {
                    (format!("let mut {v} = false; for {p} in {recv} {{ if {b} {{ {v} = true; break; }} }} "), v)
                } else {
                    (format!("let mut {v} = true; for {p} in {recv} {{ if !({b}) {{ {v} = false; break; }} }} "), v)
                }
            }
            ("fold", [init, c]) => {
                let (p, b) = closure(c, 2)?;
                if !item(p[1]) {
                    return None;
                }
                let syn::Pat::Ident(a) = p[0] else { return None };
                let (a, p, b, init) = (a.ident.to_string(), self.t(p[1]), self.b(b), self.t(init));
                (format!("let {v} = {{ let mut {a} = {init}; for {p} in {recv} {{ {a} = {b}; }} {a} }}; "), v)
            }
            ("for_each", [c]) => {
                let (p, b) = closure(c, 1)?;
                if !item(p[0]) {
                    return None;
                }
                let (p, b) = (self.t(p[0]), self.b(b));
                (format!("for {p} in {recv} {{ {b}; }} "), "()".into())
            }
            _ => return None,
        };
        Some(r)
    }
}

impl<'a, 'e> Visit<'e> for Find<'a> {
    fn visit_block(&mut self, b: &'e syn::Block) {
        for s in &b.stmts {
            let m = match s {
                syn::Stmt::Local(l) => match &l.init {
                    Some(i) => first(&i.expr),
                    None => None,
                },
                syn::Stmt::Expr(e, _) => first(e),
                _ => None,
            };
            let code = match m {
                Some(m) if self.out.is_empty() => self.code(m).map(|c| (m, c)),
                _ => None,
            };
            if let Some((m, (before, value))) = code {
                let at = rng(s.span()).0;
                let (a, z) = rng(m.span());
                let name = m.method.to_string();
                // a statement of its own
                if matches!(s, syn::Stmt::Expr(e, Some(_)) if rng(e.span()) == (a, z)) && name == "for_each" {
                    self.out.push((at, rng(s.span()).1, before, name));
                } else {
                    self.out.push((at, z, format!("{before}{}{value}", &self.src[at..a]), name));
                }
            }
        }
        syn::visit::visit_block(self, b);
    }
    fn visit_expr_closure(&mut self, _: &'e syn::ExprClosure) {}
}

pub fn loops(src: &str) -> (String, Vec<String>) {
    let (mut src, mut notes) = (src.to_string(), vec![]);
    for n in 0..20 {
        let Ok(file) = syn::parse_file(&src) else { break };
        let mut f = Find { src: &src, n, out: vec![] };
        for it in &file.items {
            if !matches!(it, syn::Item::Mod(_)) {
                f.visit_item(it);
            }
        }
        let Some((s, e, t, name)) = f.out.pop() else { break };
        src.replace_range(s..e, &t);
        notes.push(format!("iterator method {} becomes a loop", name));
    }
    (src, notes)
}
