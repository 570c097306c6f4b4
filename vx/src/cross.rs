//! Free functions of other modules of the crate which have no contract there, called here: they
//! are copied to the end of the module, so that they are inlined like its own.
use crate::norm;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;

type Module = Vec<String>;

struct Loaded {
    text: String,
    items: Vec<syn::Item>,
}

struct Crate {
    dir: PathBuf,
    /// where the overlays lie
    overlays: PathBuf,
    loaded: BTreeMap<Module, Option<Loaded>>,
}

impl Crate {
    fn load(&mut self, m: &[String]) -> Option<&Loaded> {
        if !self.loaded.contains_key(m) {
            let l = self.read(m);
            self.loaded.insert(m.to_vec(), l);
        }
        self.loaded[m].as_ref()
    }

    fn read(&mut self, m: &[String]) -> Option<Loaded> {
        let mut files = vec![];
        if m.is_empty() {
            files.push(self.dir.join("lib.rs"));
        } else {
            let p = self.dir.join(m.join("/"));
            files.push(p.with_extension("rs"));
            files.push(p.join("mod.rs"));
        }
        for f in files {
            if let Ok(text) = std::fs::read_to_string(f) {
                let items = syn::parse_file(&text).ok()?.items;
                return Some(Loaded { text, items });
            }
        }
        // written inside its parent
        let (name, parent) = m.split_last()?;
        let l = self.load(parent)?;
        for it in &l.items {
            if let syn::Item::Mod(x) = it {
                if let (true, Some((_, items)), false) = (x.ident == name, &x.content, crate::is_cfg_test(&x.attrs)) {
                    return Some(Loaded { text: l.text.clone(), items: items.clone() });
                }
            }
        }
        None
    }

    fn contract(&self, m: &[String], name: &str) -> bool {
        let f = self.overlays.join(m.last().map_or("lib", |s| &s[..])).with_extension("vrs");
        let Ok(t) = std::fs::read_to_string(f) else { return false };
        let ov = crate::parse_overlay(&t);
        ov.header.contains_key(name) || ov.skip.contains(name) || ov.external.contains(name)
    }
}

fn imports(items: &[syn::Item], cur: &[String]) -> BTreeMap<String, Module> {
    fn tree(t: &syn::UseTree, at: &mut Vec<String>, out: &mut Vec<(String, Vec<String>)>) {
        match t {
            syn::UseTree::Path(p) => {
                at.push(p.ident.to_string());
                tree(&p.tree, at, out);
                at.pop();
            }
            syn::UseTree::Name(n) => {
                let n = n.ident.to_string();
                if n == "self" {
                    if let Some(l) = at.last() {
                        out.push((l.clone(), at.clone()));
                    }
                } else {
                    let mut p = at.clone();
                    p.push(n.clone());
                    out.push((n, p));
                }
            }
            syn::UseTree::Rename(r) => {
                let mut p = at.clone();
                p.push(r.ident.to_string());
                out.push((r.rename.to_string(), p));
            }
            syn::UseTree::Group(g) => g.items.iter().for_each(|t| tree(t, at, out)),
            syn::UseTree::Glob(_) => {}
        }
    }
    let mut all = vec![];
    for it in items {
        if let syn::Item::Use(u) = it {
            tree(&u.tree, &mut vec![], &mut all);
        }
    }
    let none = BTreeMap::new();
    all.into_iter().filter_map(|(n, p)| if p.len() > 1 { Some((n, resolve(&p, cur, &none)?)) } else { None }).collect()
}

fn resolve(p: &[String], cur: &[String], imports: &BTreeMap<String, Module>) -> Option<Module> {
    let (h, rest) = p.split_first()?;
    let mut base = match &h[..] {
        "crate" => vec![],
        "self" => cur.to_vec(),
        "super" => cur[..cur.len().checked_sub(1)?].to_vec(),
        _ => match imports.get(h) {
            Some(m) => m.clone(),
            None if rest.is_empty() => {
                let mut m = cur.to_vec();
                m.push(h.clone());
                m
            }
            None if cur.is_empty() => vec![h.clone()],
            None => return None,
        },
    };
    base.extend_from_slice(rest);
    Some(base)
}

struct Calls(Vec<((usize, usize), Vec<String>)>);

impl<'a> Visit<'a> for Calls {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if p.qself.is_none() && p.path.segments.iter().all(|s| s.arguments.is_none()) {
                let r = p.path.span().byte_range();
                self.0.push(((r.start, r.end), p.path.segments.iter().map(|s| s.ident.to_string()).collect()));
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_item_mod(&mut self, _: &'a syn::ItemMod) {}
}

/// The source with the functions it needs, and what was done.
pub fn gather(src: &str, file: &Path, overlays: &Path) -> (String, Vec<String>) {
    let unchanged = (src.to_string(), vec![]);
    let Some(dir) = file.ancestors().skip(1).find(|d| d.join("lib.rs").exists()) else { return unchanged };
    let Ok(rel) = file.strip_prefix(dir) else { return unchanged };
    let mut cur: Module = rel.with_extension("").components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect();
    if cur == ["lib"] {
        cur.clear();
    }
    let Ok(parsed) = syn::parse_file(src) else { return unchanged };
    let mut krate = Crate { dir: dir.to_path_buf(), overlays: overlays.to_path_buf(), loaded: BTreeMap::new() };
    let own: BTreeSet<String> = parsed.items.iter().filter_map(|i| if let syn::Item::Fn(f) = i { Some(f.sig.ident.to_string()) } else { None }).collect();
    let mut from: BTreeMap<String, Module> = BTreeMap::new(); // name -> module it was copied from
    let mut todo: Vec<(Module, String)> = vec![];
    let mut notes = vec![];

    // the edits of one text: paths of calls become names
    let mut rewrite = |krate: &mut Crate, items: &[&syn::Item], m: &[String], imp: &BTreeMap<String, Module>, text: &str, a: usize, b: usize, todo: &mut Vec<(Module, String)>| {
        let mut c = Calls(vec![]);
        items.iter().for_each(|i| c.visit_item(i));
        let mut ed = vec![];
        for (span, path) in c.0 {
            let Some(abs) = resolve(&path, m, imp) else { continue };
            let Some((name, at)) = abs.split_last() else { continue };
            if at == &cur[..] {
                // a function of this very module, called from a copied one
                if m != &cur[..] && own.contains(name) {
                    ed.push((span, name.clone()));
                }
                continue;
            }
            if krate.contract(at, name) {
                continue;
            }
            let found = krate.load(at).map_or(false, |l| l.items.iter().any(|i| matches!(i, syn::Item::Fn(f) if f.sig.ident == name && !crate::is_cfg_test(&f.attrs))));
            if !found || own.contains(name) || from.get(name).map_or(false, |x| x != at) {
                continue;
            }
            if from.insert(name.clone(), at.to_vec()).is_none() {
                todo.push((at.to_vec(), name.clone()));
            }
            ed.push((span, name.clone()));
        }
        ed.sort();
        let mut out = String::new();
        let mut pos = a;
        for ((s, e), t) in ed {
            if s >= pos && e <= b {
                out.push_str(&text[pos..s]);
                out.push_str(&t);
                pos = e;
            }
        }
        out.push_str(&text[pos..b]);
        out
    };
    let items: Vec<&syn::Item> = parsed.items.iter().filter(|i| !matches!(i, syn::Item::Mod(_))).collect();
    let imp = imports(&parsed.items, &cur);
    let mut out = rewrite(&mut krate, &items, &cur, &imp, src, 0, src.len(), &mut todo);
    let mut n = 0;
    while n < todo.len() {
        let (m, name) = todo[n].clone();
        n += 1;
        let Some(l) = krate.load(&m) else { return unchanged };
        let (text, all) = (l.text.clone(), l.items.clone());
        let imp = imports(&all, &m);
        for i in &all {
            if let syn::Item::Fn(f) = i {
                if f.sig.ident == name {
                    let a = f.sig.span().byte_range().start;
                    let b = f.block.span().byte_range().end;
                    let t = rewrite(&mut krate, &[i], &m, &imp, &text, a, b, &mut todo);
                    out.push('\n');
                    out.push_str(&t);
                    out.push('\n');
                    notes.push(format!("{} of {}: copied here", norm(&f.sig.ident), if m.is_empty() { "lib".to_string() } else { m.join("::") }));
                }
            }
        }
    }
    if syn::parse_file(&out).is_err() {
        return unchanged;
    }
    (out, notes)
}
