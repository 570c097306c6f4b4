//! A local reference to a field (`let s = &mut self.state;`, `let Self { state, .. } = self;`) that
//! a loop uses is replaced by the field: invariants cannot speak of what is borrowed.
use crate::inline::{features_of, place, Render, Sub};
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit::Visit;

fn rng(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

#[derive(Default)]
struct LoopUses<'n> {
    name: &'n str,
    found: bool,
}

impl<'a> Visit<'a> for LoopUses<'_> {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        if matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_)) && crate::inline::has_ident(e, self.name) {
            self.found = true;
        }
        syn::visit::visit_expr(self, e);
    }
}

/// the names a statement declares, and the places they stand for
fn declared(l: &syn::Local, refs: &BTreeMap<String, bool>) -> Option<Vec<(String, String, bool)>> {
    let init = l.init.as_ref()?;
    if init.diverge.is_some() {
        return None;
    }
    let pat = match &l.pat {
        syn::Pat::Type(t) => &*t.pat,
        p => p,
    };
    match (pat, &*init.expr) {
        (syn::Pat::Ident(p), syn::Expr::Reference(r)) if p.mutability.is_none() && p.by_ref.is_none() => {
            let pl = place(&r.expr)?;
            pl.contains('.').then(|| vec![(p.ident.to_string(), pl, r.mutability.is_some())])
        }
        (syn::Pat::Struct(s), e) if s.qself.is_none() => {
            let (base, m) = match e {
                syn::Expr::Reference(r) => (place(&r.expr)?, r.mutability.is_some()),
                e => {
                    let b = place(e)?;
                    let m = *refs.get(&b)?;
                    (b, m)
                }
            };
            let mut out = vec![];
            for f in &s.fields {
                let syn::Pat::Ident(p) = &*f.pat else { return None };
                if p.by_ref.is_some() || p.mutability.is_some() || p.subpat.is_some() {
                    return None;
                }
                let syn::Member::Named(n) = &f.member else { return None };
                out.push((p.ident.to_string(), format!("{}.{}", base, n), m));
            }
            Some(out)
        }
        _ => None,
    }
}

struct Find<'s> {
    src: &'s str,
    /// parameters that are references, and whether they are mutable
    refs: BTreeMap<String, bool>,
    edit: Option<(usize, usize, String, String)>,
}

impl<'a> Visit<'a> for Find<'_> {
    fn visit_item_mod(&mut self, _: &'a syn::ItemMod) {}
    fn visit_signature(&mut self, s: &'a syn::Signature) {
        self.refs.clear();
        for a in &s.inputs {
            match a {
                syn::FnArg::Receiver(r) if r.reference.is_some() => {
                    self.refs.insert("self".into(), r.mutability.is_some());
                }
                syn::FnArg::Typed(t) => {
                    if let (syn::Pat::Ident(p), syn::Type::Reference(r)) = (&*t.pat, &*t.ty) {
                        self.refs.insert(p.ident.to_string(), r.mutability.is_some());
                    }
                }
                _ => {}
            }
        }
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        for (k, s) in b.stmts.iter().enumerate() {
            if self.edit.is_some() {
                return;
            }
            let syn::Stmt::Local(l) = s else { continue };
            let Some(names) = declared(l, &self.refs) else { continue };
            let rest = &b.stmts[k + 1..];
            let looped = names.iter().any(|n| {
                let mut u = LoopUses { name: &n.0, found: false };
                rest.iter().for_each(|s| u.visit_stmt(s));
                u.found
            });
            if !looped {
                continue;
            }
            let f = features_of(rest);
            if f.iter().any(|x| names.iter().any(|n| *x == n.0 || n.1.split('.').next() == Some(x))) {
                continue;
            }
            if names.iter().any(|n| crate::inline::shorthand(rest, &n.0)) {
                continue;
            }
            let subs = names.iter().map(|n| (n.0.clone(), Sub::Place { text: n.1.clone(), by_ref: Some(n.2), is_ref_var: false })).collect();
            let mut r = Render::new(self.src, subs);
            let (start, _) = rng(s.span());
            let end = rng(b.stmts.last().unwrap().span()).1;
            let mut t = String::new();
            let mut pos = rng(s.span()).1;
            for s in rest {
                let (a, z) = rng(s.span());
                t.push_str(&self.src[pos..a]);
                t.push_str(&r.of(s));
                pos = z;
            }
            let what = names.iter().map(|n| format!("{} is {}", n.0, n.1)).collect::<Vec<_>>().join(", ");
            self.edit = Some((start, end, t, what));
            return;
        }
        syn::visit::visit_block(self, b);
    }
}

/// The source without such references, and what was done.
pub fn places(src: &str) -> (String, Vec<String>) {
    let mut out = src.to_string();
    let mut notes = vec![];
    for _ in 0..16 {
        let Ok(file) = syn::parse_file(&out) else { return (src.to_string(), vec![]) };
        let mut f = Find { src: &out, refs: BTreeMap::new(), edit: None };
        for it in &file.items {
            if f.edit.is_none() {
                f.visit_item(it);
            }
        }
        let Some((a, b, t, what)) = f.edit else { break };
        out.replace_range(a..b, &t);
        notes.push(what);
    }
    if syn::parse_file(&out).is_err() {
        return (src.to_string(), vec![]);
    }
    (out, notes)
}
