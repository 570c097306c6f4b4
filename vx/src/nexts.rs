//! Plain rewrites of what a source may say otherwise:
//! * an iterator variable that is only advanced at the head of one loop (`let mut it = x.iter(); while let
//!   Some(p) = it.next() { .. }`, or `loop` with `let .. else` or `match`) is the `for` loop over it;
//! * `for b in x.iter_mut() { *b = 0; }` is `x.fill(0)`; another loop over `x.iter_mut()`
//!   is one over the positions of `x`;
//! * a loop over `r`, after `let r = &x[a..];` or `let (_, r) = x.split_at(a);`, is one over `x[a..]`;
//! * `match x[i]` with guards matches the value of `x[i]`;
//! * `&v` inside of a pattern that may fail binds a reference, and `v` is what it points to.
use crate::norm;
use syn::spanned::Spanned;
use syn::visit::Visit;

fn rng(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

fn count(t: &str, name: &str) -> usize {
    t.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| *w == name).count()
}

/// `x.iter()`, with `enumerate`, `copied`, `cloned`
fn chain(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::MethodCall(m) if m.args.is_empty() => match &m.method.to_string()[..] {
            "iter" => true,
            "enumerate" | "copied" | "cloned" => chain(&m.receiver),
            _ => false,
        },
        _ => false,
    }
}

fn next_of(e: &syn::Expr, it: &str) -> bool {
    matches!(e, syn::Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() && norm(&m.receiver) == it)
}

/// the pattern inside of `Some(..)`
fn some(p: &syn::Pat) -> Option<&syn::Pat> {
    match p {
        syn::Pat::TupleStruct(t) if norm(&t.path) == "Some" && t.elems.len() == 1 => Some(&t.elems[0]),
        _ => None,
    }
}

fn none(p: &syn::Pat) -> bool {
    matches!(p, syn::Pat::Wild(_)) || norm(p) == "None"
}

/// what follows the loop when it ends this way: nothing after `break`, the `return` itself
fn way_out(e: &syn::Expr, src: &str) -> Option<String> {
    let text = |x: proc_macro2::Span| src[rng(x).0..rng(x).1].to_string();
    match e {
        syn::Expr::Break(b) if b.label.is_none() && b.expr.is_none() => Some(String::new()),
        syn::Expr::Return(r) => Some(format!("{};", text(r.span()))),
        syn::Expr::Block(b) if b.label.is_none() => {
            let (last, rest) = b.block.stmts.split_last()?;
            let syn::Stmt::Expr(l, _) = last else { return None };
            let l = way_out(l, src)?;
            let mut t = String::new();
            for s in rest {
                t += &text(s.span());
                t += " ";
            }
            Some(t + &l)
        }
        _ => None,
    }
}

struct Find<'a> {
    src: &'a str,
    out: Option<Vec<(usize, usize, String)>>,
}

impl<'a> Find<'a> {
    fn t(&self, x: impl Spanned) -> &'a str {
        let (s, e) = rng(x.span());
        &self.src[s..e]
    }

    fn rest(&self, stmts: &[syn::Stmt]) -> String {
        match (stmts.first(), stmts.last()) {
            (Some(a), Some(b)) => self.src[rng(a.span()).0..rng(b.span()).1].to_string(),
            _ => String::new(),
        }
    }

    /// the loop over `it` as a `for` loop, and what follows it
    fn head(&self, e: &syn::Expr, it: &str, source: &str) -> Option<(String, bool)> {
        match e {
            syn::Expr::While(w) if w.label.is_none() => {
                let syn::Expr::Let(l) = &*w.cond else { return None };
                let p = some(&l.pat).filter(|_| next_of(&l.expr, it))?;
                Some((format!("for {} in {} {}", self.t(p), source, self.t(&w.body)), false))
            }
            syn::Expr::Loop(w) if w.label.is_none() => match w.body.stmts.split_first()? {
                (syn::Stmt::Local(l), rest) => {
                    let i = l.init.as_ref()?;
                    let b = self.rest(rest);
                    if let (Some(p), Some((_, d))) = (some(&l.pat), &i.diverge) {
                        if !next_of(&i.expr, it) {
                            return None;
                        }
                        let out = way_out(d, self.src)?;
                        return Some((format!("for {} in {} {{ {} }} {}", self.t(p), source, b, out), !out.is_empty()));
                    }
                    let syn::Expr::Match(m) = &*i.expr else { return None };
                    let (p, x, d) = self.arms(m, it)?;
                    let out = way_out(d, self.src)?;
                    Some((format!("for {} in {} {{ let {} = {}; {} }} {}", self.t(p), source, self.t(&l.pat), self.t(x), b, out), !out.is_empty()))
                }
                (syn::Stmt::Expr(syn::Expr::Match(m), _), []) => {
                    let (p, x, d) = self.arms(m, it)?;
                    let out = way_out(d, self.src)?;
                    Some((format!("for {} in {} {{ {}; }} {}", self.t(p), source, self.t(x), out), !out.is_empty()))
                }
                _ => None,
            },
            _ => None,
        }
    }

    fn arms<'m>(&self, m: &'m syn::ExprMatch, it: &str) -> Option<(&'m syn::Pat, &'m syn::Expr, &'m syn::Expr)> {
        if !next_of(&m.expr, it) || m.arms.len() != 2 || m.arms.iter().any(|a| a.guard.is_some()) {
            return None;
        }
        let (a, b) = match (some(&m.arms[0].pat), some(&m.arms[1].pat)) {
            (Some(_), None) => (&m.arms[0], &m.arms[1]),
            (None, Some(_)) => (&m.arms[1], &m.arms[0]),
            _ => return None,
        };
        (none(&b.pat)).then(|| (some(&a.pat).unwrap(), &*a.body, &*b.body))
    }
}

/// `for b in x.iter_mut() { *b = literal; }`
fn filled(e: &syn::ExprForLoop) -> Option<(&syn::Expr, &syn::Expr)> {
    let syn::Expr::MethodCall(m) = &*e.expr else { return None };
    let (syn::Pat::Ident(b), [syn::Stmt::Expr(syn::Expr::Assign(a), _)]) = (&*e.pat, &e.body.stmts[..]) else { return None };
    let lit = matches!(&*a.right, syn::Expr::Lit(_));
    (lit && e.label.is_none() && m.method == "iter_mut" && m.args.is_empty() && norm(&a.left).replace(' ', "") == format!("*{}", b.ident)).then(|| (&*m.receiver, &*a.right))
}

/// where the name is used as `*name`
struct Derefs<'n>(&'n str, Vec<(usize, usize)>);
impl<'n, 'e> Visit<'e> for Derefs<'n> {
    fn visit_expr_unary(&mut self, u: &'e syn::ExprUnary) {
        if matches!(u.op, syn::UnOp::Deref(_)) && norm(&u.expr) == self.0 {
            self.1.push(rng(u.span()));
        }
        syn::visit::visit_expr_unary(self, u);
    }
}

impl<'a> Find<'a> {
    /// `for x in v.iter_mut() { .. *x .. }`, or with `enumerate`, is `for i in 0..v.len() { .. v[i] .. }`
    fn through(&self, e: &syn::ExprForLoop) -> Option<Vec<(usize, usize, String)>> {
        let syn::Expr::MethodCall(m) = &*e.expr else { return None };
        let (m, en) = match &*m.receiver {
            syn::Expr::MethodCall(i) if m.method == "enumerate" && m.args.is_empty() => (i, true),
            _ => (m, false),
        };
        if m.method != "iter_mut" || !m.args.is_empty() || !matches!(&*m.receiver, syn::Expr::Path(p) if p.path.get_ident().is_some()) {
            return None;
        }
        let (i, x) = match (&*e.pat, en) {
            (syn::Pat::Ident(x), false) => ("__m".to_string(), x.ident.to_string()),
            (syn::Pat::Tuple(t), true) if t.elems.len() == 2 => match (&t.elems[0], &t.elems[1]) {
                (syn::Pat::Ident(i), syn::Pat::Ident(x)) if i.mutability.is_none() => (i.ident.to_string(), x.ident.to_string()),
                _ => return None,
            },
            _ => return None,
        };
        let v = norm(&m.receiver);
        let body = self.t(&e.body);
        let mut d = Derefs(&x, vec![]);
        d.visit_block(&e.body);
        if count(body, &x) != d.1.len() || count(body, &v) != 0 || count(body, "__m") != 0 {
            return None;
        }
        let (p0, _) = rng(e.pat.span());
        let (_, e1) = rng(e.expr.span());
        let mut out: Vec<_> = d.1.iter().map(|r| (r.0, r.1, format!("{}[{}]", v, i))).collect();
        out.push((p0, e1, format!("{} in 0..{}.len()", i, v)));
        out.sort();
        out.reverse();
        Some(out)
    }
}

impl<'a, 'e> Visit<'e> for Find<'a> {
    fn visit_expr_for_loop(&mut self, f: &'e syn::ExprForLoop) {
        match filled(f) {
            Some((x, v)) if self.out.is_none() => {
                let (s, e) = rng(f.span());
                self.out = Some(vec![(s, e, format!("{}.fill({});", self.t(x), self.t(v)))]);
            }
            _ => {
                if self.out.is_none() {
                    self.out = self.through(f);
                }
                syn::visit::visit_expr_for_loop(self, f)
            }
        }
    }
    fn visit_block(&mut self, b: &'e syn::Block) {
        for (n, s) in b.stmts.iter().enumerate() {
            let syn::Stmt::Local(l) = s else { continue };
            let (syn::Pat::Ident(name), Some(init)) = (&l.pat, &l.init) else { continue };
            let it = name.ident.to_string();
            if self.out.is_some() || !chain(&init.expr) || count(self.t(b), &it) != 2 {
                continue;
            }
            // the next statement but `let`s
            let Some(k) = (n + 1..b.stmts.len()).find(|k| !matches!(b.stmts[*k], syn::Stmt::Local(_))) else { continue };
            let syn::Stmt::Expr(e, _) = &b.stmts[k] else { continue };
            let Some((text, leaves)) = self.head(e, &it, self.t(&init.expr)) else { continue };
            let (s0, s1) = rng(s.span());
            let (e0, e1) = rng(b.stmts[k].span());
            // after a `return` nothing follows
            let e1 = if leaves { b.stmts.last().map_or(e1, |s| rng(s.span()).1) } else { e1 };
            self.out = Some(vec![(e0, e1, text), (s0, s1, String::new())]);
        }
        syn::visit::visit_block(self, b);
    }
}

/// `let r = &x[a..b];`, `let (h, r) = x.split_at(a);`: a later loop over `r` is one over `x[a..b]`
struct Slices<'a> {
    src: &'a str,
    out: Vec<(usize, usize, String)>,
}

impl<'a> Slices<'a> {
    fn t(&self, x: impl Spanned) -> &'a str {
        let (s, e) = rng(x.span());
        &self.src[s..e]
    }

    fn names(&self, l: &syn::Local) -> Option<Vec<(String, String)>> {
        let init = l.init.as_ref().filter(|i| i.diverge.is_none())?;
        let name = |p: &syn::Pat| match p {
            syn::Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident.to_string()),
            _ => None,
        };
        let pat = match &l.pat {
            syn::Pat::Type(t) => &*t.pat,
            p => p,
        };
        match &*init.expr {
            syn::Expr::Reference(r) if r.mutability.is_none() => {
                let syn::Expr::Index(ix) = &*r.expr else { return None };
                let (syn::Expr::Path(x), syn::Expr::Range(g)) = (&*ix.expr, &*ix.index) else { return None };
                let a = g.start.as_ref().map_or("0", |a| self.t(a));
                let z = g.end.as_ref().map_or("", |b| self.t(b));
                (!matches!(g.limits, syn::RangeLimits::Closed(_))).then_some(())?;
                Some(vec![(name(pat)?, format!("{}[{}..{}]", self.t(x), a, z))])
            }
            syn::Expr::MethodCall(m) if m.method == "split_at" && m.args.len() == 1 && matches!(&*m.receiver, syn::Expr::Path(_)) => {
                let syn::Pat::Tuple(t) = pat else { return None };
                if t.elems.len() != 2 {
                    return None;
                }
                let (x, n) = (self.t(&m.receiver), self.t(&m.args[0]));
                let mut out = vec![];
                for (p, text) in t.elems.iter().zip([format!("{}[0..{}]", x, n), format!("{}[{}..]", x, n)]) {
                    if let Some(p) = name(p) {
                        out.push((p, text));
                    }
                }
                Some(out)
            }
            _ => None,
        }
    }
}

/// `for` loops over a variable
struct Over<'n> {
    name: &'n str,
    out: Vec<(usize, usize, bool)>,
}
impl<'e> Visit<'e> for Over<'_> {
    fn visit_expr_for_loop(&mut self, f: &'e syn::ExprForLoop) {
        let mut e = &*f.expr;
        let mut bare = true;
        while let syn::Expr::MethodCall(m) = e {
            e = &m.receiver;
            bare = false;
        }
        if let syn::Expr::Path(p) = e {
            if norm(p) == self.name {
                let (s, z) = rng(p.span());
                self.out.push((s, z, bare));
            }
        }
        syn::visit::visit_expr_for_loop(self, f);
    }
}

impl<'a, 'e> Visit<'e> for Slices<'a> {
    fn visit_item_mod(&mut self, _: &'e syn::ItemMod) {}
    fn visit_block(&mut self, b: &'e syn::Block) {
        for (n, s) in b.stmts.iter().enumerate() {
            let syn::Stmt::Local(l) = s else { continue };
            let Some(names) = self.names(l) else { continue };
            // nothing the bounds are made of changes, or is hidden by another variable
            let mut w = crate::Assigned::default();
            let mut hidden = crate::inline::features_of(&b.stmts[n + 1..]);
            b.stmts[n + 1..].iter().for_each(|s| w.visit_stmt(s));
            hidden.extend(w.0.iter().cloned());
            for (name, text) in names {
                let plain = text.replace(".len()", "").replace("..", "");
                if text.chars().any(|c| !c.is_alphanumeric() && !"_[].()".contains(c)) || plain.contains('(') || hidden.contains(&name) {
                    continue;
                }
                let whole: Vec<String> = text.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '.').flat_map(|w| w.split("..")).map(|w| w.to_string()).collect();
                let changed = |h: &String| count(&text, h) > 0 || whole.iter().any(|w| w == h);
                let mut o = Over { name: &name, out: vec![] };
                if plain.contains('.') {
                    // a field: the loop comes at once
                    let pure = |s: &&syn::Stmt| matches!(s, syn::Stmt::Local(l) if matches!(&l.init, Some(i) if crate::inline::place(&i.expr).is_some()));
                    let k = n + 1 + b.stmts[n + 1..].iter().take_while(pure).count();
                    match b.stmts.get(k) {
                        Some(syn::Stmt::Expr(syn::Expr::ForLoop(f), _)) if !crate::inline::features_of(&b.stmts[n + 1..k + 1]).iter().any(|h| count(&text, h) > 0) => {
                            o.visit_expr_for_loop(f);
                            o.out.truncate(1);
                        }
                        _ => continue,
                    }
                } else {
                    if hidden.iter().any(changed) {
                        continue;
                    }
                    b.stmts[n + 1..].iter().for_each(|s| o.visit_stmt(s));
                }
                for (s, e, bare) in o.out {
                    self.out.push((s, e, if bare { format!("&{}", text) } else { text.clone() }));
                }
            }
        }
        syn::visit::visit_block(self, b);
    }
}

/// `&v` in a pattern
struct Refs {
    out: Vec<(usize, usize, String)>,
}
impl<'e> Visit<'e> for Refs {
    fn visit_pat_reference(&mut self, p: &'e syn::PatReference) {
        if let (syn::Pat::Ident(i), None) = (&*p.pat, p.mutability) {
            if i.by_ref.is_none() && i.subpat.is_none() {
                let (s, e) = rng(p.span());
                self.out.push((s, e, format!("{}{}", if i.mutability.is_some() { "mut " } else { "" }, i.ident)));
            }
        }
    }
}

struct Bind<'a> {
    src: &'a str,
    n: usize,
    out: Vec<(usize, usize, String)>,
}

impl<'a> Bind<'a> {
    fn pat(&mut self, p: &syn::Pat) -> String {
        let mut r = Refs { out: vec![] };
        r.visit_pat(p);
        let mut lets = String::new();
        for (s, e, v) in r.out {
            let x = format!("__ref{}", self.n);
            self.n += 1;
            lets += &format!(" let {v} = *{x};");
            self.out.push((s, e, x));
        }
        lets
    }
}

impl<'a, 'e> Visit<'e> for Bind<'a> {
    fn visit_expr_if(&mut self, i: &'e syn::ExprIf) {
        if let syn::Expr::Let(l) = &*i.cond {
            let t = self.pat(&l.pat);
            if !t.is_empty() {
                let at = rng(i.then_branch.brace_token.span.open()).1;
                self.out.push((at, at, t));
            }
        }
        syn::visit::visit_expr_if(self, i);
    }
    fn visit_expr_match(&mut self, m: &'e syn::ExprMatch) {
        // the verifier stumbles over `match x[i] { p if .. => .. }`
        if m.arms.iter().any(|a| a.guard.is_some()) && matches!(&*m.expr, syn::Expr::Index(_)) {
            let (s, e) = rng(m.expr.span());
            let x = format!("__of{}", self.n);
            self.n += 1;
            self.out.push((s, s, format!("({{ let {x} = ")));
            self.out.push((e, e, format!("; {x} }})")));
        }
        for a in &m.arms {
            if a.guard.is_some() {
                continue;
            }
            let t = self.pat(&a.pat);
            if !t.is_empty() {
                let (s, e) = rng(a.body.span());
                let comma = a.comma.is_none() && !matches!(&*a.body, syn::Expr::Block(_));
                self.out.push((s, s, format!("{{{t} ")));
                self.out.push((e, e, if comma { " },".into() } else { " }".into() }));
            }
        }
        syn::visit::visit_expr_match(self, m);
    }
    fn visit_local(&mut self, l: &'e syn::Local) {
        if let Some(i) = &l.init {
            if i.diverge.is_some() {
                let t = self.pat(&l.pat);
                if !t.is_empty() {
                    let at = rng(l.span()).1;
                    self.out.push((at, at, t));
                }
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_item_mod(&mut self, _: &'e syn::ItemMod) {}
    fn visit_expr_macro(&mut self, _: &'e syn::ExprMacro) {
        let _ = self.src;
    }
}

fn apply(src: &mut String, mut edits: Vec<(usize, usize, String)>) {
    edits.sort_by_key(|e| (e.0, e.1));
    for (s, e, t) in edits.into_iter().rev() {
        src.replace_range(s..e, &t);
    }
}

pub fn rewrite(src: &str) -> (String, Vec<String>) {
    let (mut src, mut notes) = (src.to_string(), vec![]);
    for _ in 0..20 {
        let Ok(file) = syn::parse_file(&src) else { break };
        let mut f = Find { src: &src, out: None };
        for it in &file.items {
            if !matches!(it, syn::Item::Mod(_)) {
                f.visit_item(it);
            }
        }
        let Some(edits) = f.out else { break };
        apply(&mut src, edits);
        notes.push("loop over an iterator variable -> for, loop that fills -> fill".into());
    }
    if let Ok(file) = syn::parse_file(&src) {
        let mut f = Slices { src: &src, out: vec![] };
        f.visit_file(&file);
        let edits = f.out;
        if !edits.is_empty() {
            notes.push("loop over a variable that holds a part of a slice -> over the part".into());
            apply(&mut src, edits);
        }
    }
    if let Ok(file) = syn::parse_file(&src) {
        let mut b = Bind { src: &src, n: 0, out: vec![] };
        b.visit_file(&file);
        if !b.out.is_empty() {
            let edits = b.out;
            notes.push("& in a pattern -> dereferenced; place matched with guards -> its value".into());
            apply(&mut src, edits);
        }
    }
    (src, notes)
}
