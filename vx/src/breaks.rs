//! `break` out of a loop that had none when the contracts were written: what follows the loop is
//! copied to the place of the `break`, with a `return`. The meaning stays the same (the loop is a
//! statement of the function body itself); the loop invariant then need not hold at the `break`.
//! `let x = loop { .. break E .. };` is treated alike (`{ let x = E; what follows; return }`), and so is a
//! `loop` that ends the body (`return E`).
use crate::norm;
use serde_json::Value;
use std::collections::BTreeSet;
use syn::spanned::Spanned;
use syn::visit::Visit;

fn rng(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

#[derive(Default)]
struct Inside<'a> {
    depth: usize,
    /// a `break` of this very loop, and the statements before it in its block
    breaks: Vec<(&'a syn::ExprBreak, Option<&'a syn::Stmt>)>,
    names: BTreeSet<String>,
    assigned: Vec<String>,
    odd: bool,
    /// the loop has a value
    valued: bool,
}

impl<'a> Visit<'a> for Inside<'a> {
    fn visit_block(&mut self, b: &'a syn::Block) {
        for (n, s) in b.stmts.iter().enumerate() {
            if let syn::Stmt::Expr(syn::Expr::Break(x), _) = s {
                if self.depth == 0 && x.label.is_none() && (x.expr.is_none() || self.valued) {
                    syn::visit::visit_expr_break(self, x);
                    self.breaks.push((x, n.checked_sub(1).map(|n| &b.stmts[n])));
                    continue;
                }
            }
            self.visit_stmt(s);
        }
    }
    fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) {
        let valued = self.valued && self.depth == 0;
        if b.label.is_some() || (b.expr.is_some() && !valued) {
            self.odd = true;
        } else if self.depth == 0 {
            self.breaks.push((b, None));
            syn::visit::visit_expr_break(self, b);
        }
    }
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        self.depth += 1;
        syn::visit::visit_expr_for_loop(self, f);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, f: &'a syn::ExprWhile) {
        self.depth += 1;
        syn::visit::visit_expr_while(self, f);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, f: &'a syn::ExprLoop) {
        self.depth += 1;
        syn::visit::visit_expr_loop(self, f);
        self.depth -= 1;
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.odd = true;
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.names.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
        self.assigned.push(norm(&a.left));
        syn::visit::visit_expr_assign(self, a);
    }
    fn visit_expr_reference(&mut self, r: &'a syn::ExprReference) {
        if r.mutability.is_some() {
            self.assigned.push(norm(&r.expr));
        }
        syn::visit::visit_expr_reference(self, r);
    }
}

/// identifiers in a text
fn words(t: &str) -> BTreeSet<String> {
    t.split(|c: char| !c.is_alphanumeric() && c != '_').map(|s| s.to_string()).collect()
}

pub fn early_returns(src: &str, base: &Value) -> (String, Vec<String>) {
    let (mut src, mut notes) = (src.to_string(), vec![]);
    let Ok(file) = syn::parse_file(&src) else { return (src, notes) };
    let mut edits: Vec<(usize, usize, String)> = vec![];
    for (key, block) in crate::inline::bodies(&file) {
        let b = &base["functions"][&key];
        if b["breaks"] != 0 || b["loops"].as_array().map_or(true, |l| l.is_empty()) {
            continue;
        }
        let mut done = 0;
        for (n, st) in block.stmts.iter().enumerate() {
            let last = n + 1 == block.stmts.len();
            let (e, bound) = match st {
                syn::Stmt::Expr(e, None) if last && matches!(e, syn::Expr::Loop(_)) => (e, Some(None)),
                syn::Stmt::Expr(e, _) => (e, None),
                syn::Stmt::Local(l) => match &l.init {
                    Some(i) if i.diverge.is_none() && matches!(&*i.expr, syn::Expr::Loop(_)) => (&*i.expr, Some(Some(&l.pat))),
                    _ => continue,
                },
                _ => continue,
            };
            let body = match e {
                syn::Expr::ForLoop(f) if f.label.is_none() => &f.body,
                syn::Expr::While(f) if f.label.is_none() => &f.body,
                syn::Expr::Loop(f) if f.label.is_none() => &f.body,
                _ => continue,
            };
            let mut v = Inside { valued: bound.is_some(), ..Inside::default() };
            if let syn::Expr::ForLoop(f) = e {
                v.visit_pat(&f.pat);
            }
            v.visit_block(body);
            if v.breaks.is_empty() || v.odd || (last && bound.is_none()) || (bound == Some(None) && v.breaks.iter().any(|b| b.0.expr.is_none())) {
                continue;
            }
            // what follows the loop
            let mut tail = String::new();
            for (k, t) in block.stmts[n + 1..].iter().enumerate() {
                let (s, e) = rng(t.span());
                let text = &src[s..e];
                let last = n + 1 + k + 1 == block.stmts.len();
                match t {
                    syn::Stmt::Expr(_, None) if last => tail += &format!("return {};", text),
                    _ => tail += &format!("{} ", text),
                }
            }
            if !matches!(block.stmts.last(), Some(syn::Stmt::Expr(_, None))) {
                tail += "return;";
            }
            if bound == Some(None) {
                tail.clear();
            }
            let w = words(&tail);
            // a name bound in the loop means something else after it, unless what follows binds it itself
            let mut around = Inside::default();
            for t in &block.stmts[..n] {
                around.visit_stmt(t);
            }
            let mut later = Inside::default();
            if let Some(Some(p)) = bound {
                later.visit_pat(p);
            }
            for t in &block.stmts[n + 1..] {
                later.visit_stmt(t);
            }
            let head = crate::inline::signature(&file, &key);
            let clash = |x: &String| w.contains(x) && (!later.names.contains(x) || around.names.contains(x) || words(&head).contains(x));
            if v.names.iter().any(clash) || w.contains("break") || w.contains("continue") {
                continue;
            }
            for (b, before) in &v.breaks {
                let (s, e) = rng(b.span());
                let value = b.expr.as_ref().map_or("()".to_string(), |x| {
                    let (s, e) = rng(x.span());
                    src[s..e].to_string()
                });
                match bound {
                    None => edits.push((s, e, format!("{{ {} }}", tail))),
                    Some(None) => edits.push((s, e, format!("return {}", value))),
                    Some(Some(p)) => {
                        let (ps, pe) = rng(p.span());
                        edits.push((s, e, format!("{{ let {} = {}; {} }}", &src[ps..pe], value, tail)));
                    }
                }
                // `x = ..; break;` and no other change of `x` in the loop: `x` keeps its value in the loop
                if let Some(syn::Stmt::Expr(syn::Expr::Assign(a), Some(_))) = before {
                    let name = norm(&a.left);
                    let simple = name.chars().all(|c| c.is_alphanumeric() || c == '_');
                    let others = v.breaks.iter().filter(|o| matches!(o.1, Some(syn::Stmt::Expr(syn::Expr::Assign(x), Some(_))) if norm(&x.left) == name)).count();
                    if simple && v.assigned.iter().filter(|x| **x == name).count() == others {
                        let at = rng(a.span()).0;
                        edits.push((at, at, "let mut ".into()));
                    }
                }
                done += 1;
            }
            if let Some(Some(_)) = bound {
                // nothing reaches what follows the loop
                let ((s, e), (ls, le)) = (rng(st.span()), rng(e.span()));
                edits.push((s, ls, String::new()));
                let end = block.stmts.last().map_or(e, |t| rng(t.span()).1);
                edits.push((le, end, String::new()));
            }
        }
        if done > 0 {
            notes.push(format!("{}: {} breaks become returns with what follows the loop", key, done));
        }
    }
    edits.sort();
    for (s, e, t) in edits.into_iter().rev() {
        src.replace_range(s..e, &t);
    }
    (src, notes)
}
