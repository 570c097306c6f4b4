//! vx: mechanical extraction of /repo modules into Verus source.
//!
//! usage: vx <source.rs> <overlay.vrs> <out.rs> <report.json>
//!
//! The executable text of every extracted function is the text of the repository, byte for byte,
//! except for the edits listed in the report (see DESIGN.md, "What the extraction changes").
mod consts;
mod cross;
mod aliases;
mod builds;
mod breaks;
mod inline;
mod iters;
mod nexts;
use consts::Consts;

use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Default)]
struct Overlay {
    module: String,
    uses: String,
    header: BTreeMap<String, String>,
    body: BTreeMap<String, String>,
    tail: BTreeMap<String, String>,
    loops: BTreeMap<(String, usize), String>,
    loopbody: BTreeMap<(String, usize), String>,
    loopafter: BTreeMap<(String, usize), String>,
    imp: BTreeMap<String, String>,
    skip: BTreeSet<String>,
    external: BTreeSet<String>,
    derive: BTreeMap<String, String>,
    attr: BTreeMap<String, String>,
    aftercopy: BTreeMap<String, String>,
    tags: BTreeMap<String, Vec<String>>,
    /// what a field stands for where a struct does without it (`%` is the struct)
    gone: BTreeMap<String, String>,
}

impl Overlay {
    /// every piece of a contract, and what it is about
    fn texts(&mut self) -> Vec<(String, &mut String)> {
        let mut out = vec![(String::new(), &mut self.module)];
        for m in [&mut self.header, &mut self.body, &mut self.tail, &mut self.imp, &mut self.derive, &mut self.aftercopy] {
            out.extend(m.iter_mut().map(|(k, t)| (k.to_string(), t)));
        }
        for m in [&mut self.loops, &mut self.loopbody, &mut self.loopafter] {
            out.extend(m.iter_mut().map(|(k, t)| (k.0.clone(), t)));
        }
        out
    }
}

fn parse_overlay(s: &str) -> Overlay {
    let mut o = Overlay::default();
    let mut cur: Option<Vec<String>> = None;
    let mut buf = String::new();
    fn flush(o: &mut Overlay, cur: &Option<Vec<String>>, buf: &mut String) {
        if let Some(d) = cur {
            let t = std::mem::take(buf);
            let k = || d.get(1).cloned().unwrap_or_default();
            let n = || d[2].parse::<usize>().expect("loop ordinal");
            match d[0].as_str() {
                "module" => o.module.push_str(&t),
                "uses" => o.uses.push_str(&t),
                "fn" => {
                    o.tags.entry(k()).or_default().extend(d.iter().skip(2).cloned());
                    o.header.entry(k()).or_default().push_str(&t);
                }
                "body" => o.body.entry(k()).or_default().push_str(&t),
                "tail" => o.tail.entry(k()).or_default().push_str(&t),
                "loop" => o.loops.entry((k(), n())).or_default().push_str(&t),
                "loopbody" => o.loopbody.entry((k(), n())).or_default().push_str(&t),
                "loopafter" => o.loopafter.entry((k(), n())).or_default().push_str(&t),
                "impl" | "trait" => o.imp.entry(k()).or_default().push_str(&t),
                "skip" => {
                    o.skip.insert(k());
                }
                "external" => {
                    o.external.insert(k());
                    o.header.entry(k()).or_default().push_str(&t);
                }
                "derive" => {
                    o.tags.entry(k()).or_default().extend(d.iter().skip(2).cloned());
                    o.derive.entry(k()).or_default().push_str(&t);
                }
                "aftercopy" => o.aftercopy.entry(k()).or_default().push_str(&t),
                "attr" => o.attr.entry(k()).or_default().push_str(&t),
                "gone" => {
                    o.gone.insert(k(), t.trim().to_string());
                }
                "note" => {}
                x => panic!("unknown overlay directive {}", x),
            }
        }
        buf.clear();
    }
    for line in s.lines() {
        if let Some(r) = line.trim_start().strip_prefix("//@@ ") {
            flush(&mut o, &cur, &mut buf);
            cur = Some(r.split_whitespace().map(|x| x.to_string()).collect());
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    flush(&mut o, &cur, &mut buf);
    o
}

struct Edit {
    start: usize,
    end: usize,
    text: String,
    seq: usize,
}

/// A hand-written `Clone`/`Default` where the contracts were written for a derived one (or the other way
/// round) gets the contract all the same.
fn derives_and_impls(ov: &mut Overlay, file: &syn::File, base: Option<&Value>) {
    let mut written = BTreeSet::new();
    for it in &file.items {
        if let syn::Item::Impl(i) = it {
            if let Some((_, p, _)) = &i.trait_ {
                let tr = p.segments.last().unwrap().ident.to_string();
                if tr == "Clone" || tr == "Default" {
                    written.insert((base_name(&i.self_ty), tr));
                }
            }
        }
    }
    for it in &file.items {
        let s = match it {
            syn::Item::Struct(s) => s,
            _ => continue,
        };
        let name = s.ident.to_string();
        let mut derived = BTreeSet::new();
        for a in s.attrs.iter().filter(|a| a.path().is_ident("derive")) {
            let _ = a.parse_nested_meta(|m| {
                derived.insert(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
        for tr in ["Clone", "Default"] {
            let k = format!("{name}.{tr}");
            let key = format!("{k}.{}", tr.to_lowercase());
            if written.contains(&(name.clone(), tr.to_string())) && !ov.header.contains_key(&key) {
                let known = ov.derive.contains_key(&k);
                if !known && !base.map_or(false, |b| b["functions"].get(&key).is_some()) {
                    continue;
                }
                let own = ov.derive.remove(&k).unwrap_or_default();
                let own = own.trim().strip_prefix("ensures").map(|x| x.trim().to_string());
                let mut e = String::new();
                if tr == "Clone" {
                    e.push_str(&own.unwrap_or("r == *self".into()));
                } else {
                    for (n, f) in s.fields.iter().enumerate() {
                        let i = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(n.to_string());
                        let t = norm(&f.ty);
                        let n = ["u8", "u16", "u32", "u64", "u128", "usize"];
                        if n.contains(&t.as_str()) {
                            writeln!(e, "    r.{i} == 0,").unwrap();
                        } else if t.starts_with("Wrapping<") {
                            writeln!(e, "    r.{i}.0 == 0,").unwrap();
                        } else if t == "bool" {
                            writeln!(e, "    !r.{i},").unwrap();
                        } else {
                            writeln!(e, "    call_ensures(<{} as Default>::default, (), r.{}),", f.ty.to_token_stream(), i).unwrap();
                        }
                    }
                    e.push_str(&own.unwrap_or_default());
                }
                let t = ov.tags.remove(&k).unwrap_or_default();
                ov.tags.insert(key.clone(), t);
                ov.header.insert(key, format!("    ensures {}\n", e));
            } else if derived.contains(tr) && ov.header.contains_key(&key) && !ov.derive.contains_key(&k) {
                let h = ov.header.remove(&key).unwrap();
                let h = h.trim().to_string();
                if h.starts_with("ensures") {
                    ov.derive.insert(k.clone(), h);
                    let t = ov.tags.remove(&key).unwrap_or_default();
                    ov.tags.insert(k, t);
                } else {
                    ov.header.insert(key, h);
                }
            }
        }
    }
}

struct Cx<'a> {
    src: &'a str,
    ov: &'a Overlay,
    edits: Vec<Edit>,
    fns: Vec<Value>,
    notes: Vec<String>,
    lost: Vec<String>,
    used: BTreeSet<String>,
    synth: String,
    consts: Consts,
    checks: String,
    file: &'a syn::File,
    log: BTreeMap<String, usize>,
}

fn structs(file: &syn::File) -> BTreeMap<String, Vec<(String, String)>> {
    let mut out = BTreeMap::new();
    for it in &file.items {
        if let syn::Item::Struct(s) = it {
            out.insert(s.ident.to_string(), s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| (i.to_string(), norm(&f.ty)))).collect());
        }
    }
    out
}

/// `old` as a whole word, replaced; fields only where `field` says so
fn rename(text: &str, old: &str, new: &str, field: bool) -> String {
    let mut out = String::new();
    let b = text.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'$';
    let mut i = 0;
    while i < b.len() {
        if text[i..].starts_with(old) && (i == 0 || !word(b[i - 1])) && !(i + old.len() < b.len() && word(b[i + old.len()])) {
            let before = text[..i].trim_end();
            let dotted = before.ends_with('.') && !before.ends_with("..");
            let after = text[i + old.len()..].trim_start();
            if dotted == field && !(field && after.starts_with('(')) {
                out.push_str(new);
                i += old.len();
                continue;
            }
        }
        let c = text[i..].chars().next().unwrap();
        out.push(c);
        i += c.len_utf8();
    }
    out
}

/// pairs of names that replace each other in two lists which agree otherwise
fn renamed(old: &[String], new: &[String]) -> Vec<(String, String)> {
    // longest common subsequence
    let (n, m) = (old.len(), new.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if old[i] == new[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let mut out: Vec<(String, String)> = vec![];
    let (mut i, mut j) = (0, 0);
    while i < n || j < m {
        // a run of differences
        let (i0, j0) = (i, j);
        while i < n && j < m && old[i] != new[j] || (i < n) != (j < m) {
            if j >= m || i < n && l[i + 1][j] >= l[i][j + 1] {
                i += 1;
            } else {
                j += 1;
            }
        }
        if i - i0 == j - j0 {
            for k in 0..i - i0 {
                let p = (old[i0 + k].clone(), new[j0 + k].clone());
                if !out.contains(&p) {
                    out.push(p);
                }
            }
        }
        i += 1;
        j += 1;
    }
    out.retain(|(a, b)| !new.contains(a) && !old.contains(b));
    let v = out.clone();
    out.retain(|(a, _)| v.iter().filter(|p| p.0 == *a).count() == 1);
    out
}

/// The contracts name fields and a few local variables. Where one has got another name since the
/// contracts were written, they follow. (A wrong guess costs the proof, never its soundness: the
/// contracts' promises are about results and states, and the fields in them are found by position
/// and type.)
/// `b.field` (not a call), replaced by what it stands for
fn without(text: &str, field: &str, stands: &str) -> String {
    let mut out = String::new();
    let dot = format!(".{field}");
    let mut rest = text;
    while let Some(p) = rest.find(&dot) {
        let after = &rest[p + dot.len()..];
        let base = rest[..p].len() - rest[..p].chars().rev().take_while(|c| c.is_alphanumeric() || matches!(c, '_' | '.' | '$')).map(|c| c.len_utf8()).sum::<usize>();
        if base == p || after.starts_with(|c: char| c.is_alphanumeric() || matches!(c, '_' | '(')) {
            out.push_str(&rest[..p + dot.len()]);
        } else {
            out.push_str(&rest[..base]);
            out.push_str(&stands.replace('%', &rest[base..p]));
        }
        rest = after;
    }
    out + rest
}

fn follow_renames(ov: &mut Overlay, file: &syn::File, base: &Value, module: &str) -> Vec<String> {
    let mut notes = vec![];
    let now = structs(file);
    let was = &base["structs"][module];
    let fields_now: Vec<&str> = now.values().flatten().map(|f| &f.0[..]).collect();
    for (k, stands) in ov.gone.clone() {
        let Some((s, f)) = k.split_once('.') else { continue };
        let (Some(fs), Some(old)) = (now.get(s), was[s].as_array()) else { continue };
        // not merely renamed
        if fs.len() < old.len() && !fs.iter().any(|x| x.0 == f) {
            notes.push(format!("{k} is gone, it was {stands}"));
            for (_, t) in ov.texts() {
                *t = without(t, f, &stands);
            }
        }
    }
    for (name, fs) in &now {
        let Some(old) = was[name].as_array() else { continue };
        if old.len() != fs.len() {
            continue;
        }
        for (o, f) in old.iter().zip(fs) {
            let (on, ot) = (o[0].as_str().unwrap_or(""), o[1].as_str().unwrap_or(""));
            // `Wrapping<T>` for `T`, or the other way round
            let plain = |t: &str| t.replace(' ', "");
            let (a, b) = (plain(ot), plain(&f.1));
            let change = if a == format!("Wrapping<{b}>") {
                Some((format!("{on}.0"), on.to_string()))
            } else if b == format!("Wrapping<{a}>") {
                Some((on.to_string(), format!("{on}.0")))
            } else {
                None
            };
            if let (true, Some((from, to))) = (on == f.0, change) {
                // where the same name in another struct keeps its type, only in what is about this one
                let all = now.iter().all(|(_, fs)| fs.iter().all(|x| x.0 != on || plain(&x.1) == b));
                notes.push(format!("{}.{} is a {} now", name, on, b));
                for (key, t) in ov.texts() {
                    let here = all || key.starts_with(&format!("{}.", name));
                    if here && (!t.contains(&to) || to.len() < from.len()) {
                        *t = rename(t, &from, &to, true);
                    }
                }
                continue;
            }
            if on == f.0 || ot != f.1 || fs.iter().any(|x| x.0 == on) || fields_now.contains(&on) {
                continue;
            }
            notes.push(format!("{}.{} is {} now", name, on, f.0));
            for (_, t) in ov.texts() {
                *t = rename(t, on, &f.0, true);
            }
        }
    }
    for (key, block) in inline::bodies(file) {
        let Some(old) = base["functions"][&key]["lets"].as_array() else { continue };
        let old: Vec<String> = old.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
        let mut v = BodyVisitor::default();
        v.visit_block(&block);
        for (a, b) in renamed(&old, &v.lets) {
            let mut hit = false;
            let mut go = |t: &mut String| {
                let n = rename(t, &a, &b, false);
                hit |= n != *t;
                *t = n;
            };
            for m in [&mut ov.body, &mut ov.tail, &mut ov.aftercopy] {
                if let Some(t) = m.get_mut(&key) {
                    go(t);
                }
            }
            for m in [&mut ov.loops, &mut ov.loopbody, &mut ov.loopafter] {
                for (k, t) in m.iter_mut() {
                    if k.0 == key {
                        go(t);
                    }
                }
            }
            if hit {
                notes.push(format!("{}: {} is {} now", key, a, b));
            }
        }
    }
    notes
}

fn norm(t: impl ToTokens) -> String {
    // token text without spaces and lifetimes
    let s = t.to_token_stream().to_string();
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while let Some(&d) = it.peek() {
                if d.is_alphanumeric() || d == '_' {
                    it.next();
                } else {
                    break;
                }
            }
            continue;
        }
        if c.is_whitespace() {
            continue;
        }
        out.push(c);
    }
    out.replace("<,", "<").replace("<>", "").replace(",>", ">")
}

fn base_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => format!("&{}", base_name(&r.elem)),
        t => norm(t),
    }
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && norm(&a.meta).contains("test"))
}

impl<'a> Cx<'a> {
    fn rng(&self, s: Span) -> (usize, usize) {
        let r = s.byte_range();
        (r.start, r.end)
    }
    fn edit_late(&mut self, at: usize, text: &str) {
        let seq = self.edits.len() + 1_000_000;
        self.edits.push(Edit { start: at, end: at, text: text.into(), seq });
    }
    fn edit(&mut self, start: usize, end: usize, text: impl Into<String>) {
        let seq = self.edits.len() + 1;
        self.edits.push(Edit { start, end, text: text.into(), seq });
    }
    fn edit_early(&mut self, at: usize, text: String) {
        self.edits.push(Edit { start: at, end: at, text, seq: 0 });
    }
    fn note(&mut self, what: &str) {
        *self.log.entry(what.to_string()).or_default() += 1;
    }
    fn text(&self, s: Span) -> &'a str {
        let (a, b) = self.rng(s);
        &self.src[a..b]
    }
    fn drop_item(&mut self, s: Span, why: &str) {
        let (a, b) = self.rng(s);
        self.edit(a, b, "");
        self.note(&format!("dropped: {}", why));
    }
    fn attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            let (s, e) = self.rng(a.span());
            self.edit(s, e, "");
            if !a.path().is_ident("doc") {
                self.note(&format!("dropped attribute: {}", a.path().to_token_stream()));
            }
        }
    }
    fn make_pub(&mut self, vis: &syn::Visibility, at: Span) {
        match vis {
            syn::Visibility::Public(_) => {}
            syn::Visibility::Restricted(r) => {
                let (s, e) = self.rng(r.span());
                self.edit(s, e, "pub");
            }
            syn::Visibility::Inherited => {
                let (s, _) = self.rng(at);
                self.edit(s, s, "pub ");
            }
        }
    }

    fn item(&mut self, it: &syn::Item) {
        match it {
            syn::Item::Use(u) => {
                let t = norm(&u.tree);
                if t.starts_with("crate::") || t.starts_with("self::") || t == "std::fmt" || t == "std::num::Wrapping" || t == "core::fmt" || t == "core::num::Wrapping" || t.starts_with("range::") {
                    self.drop_item(u.span(), "use of crate items, fmt, Wrapping");
                } else {
                    self.attrs(&u.attrs);
                }
            }
            syn::Item::Mod(m) => {
                self.drop_item(m.span(), if is_cfg_test(&m.attrs) { "test module" } else { "mod declaration" })
            }
            syn::Item::Struct(s) => self.item_struct(s),
            syn::Item::Const(c) => {
                self.attrs(&c.attrs);
                self.make_pub(&c.vis, c.const_token.span());
                self.number(None, &c.ident.to_string(), &c.expr, true);
                self.table(&c.ident.to_string(), c.const_token.span(), "exec const", c.eq_token.span(), c.semi_token.span(), c.expr.span());
            }
            syn::Item::Static(c) => {
                self.attrs(&c.attrs);
                self.make_pub(&c.vis, c.static_token.span());
                self.table(&c.ident.to_string(), c.static_token.span(), "exec static", c.eq_token.span(), c.semi_token.span(), c.expr.span());
            }
            syn::Item::Fn(f) => {
                if is_cfg_test(&f.attrs) {
                    return self.drop_item(f.span(), "test fn");
                }
                let key = f.sig.ident.to_string();
                if self.ov.skip.contains(&key) {
                    self.used.insert(key);
                    return self.drop_item(f.span(), "fn outside of the verifier's reach (skip)");
                }
                self.attrs(&f.attrs);
                let at = f.sig.span();
                self.make_pub(&f.vis, at);
                self.function(&key, &f.vis, &f.sig, Some(&f.block));
            }
            syn::Item::Impl(i) => self.item_impl(i),
            syn::Item::Trait(t) => {
                let key = t.ident.to_string();
                if self.ov.skip.contains(&key) {
                    self.used.insert(key);
                    return self.drop_item(t.span(), "trait outside of the verifier's reach (skip)");
                }
                self.attrs(&t.attrs);
                self.make_pub(&t.vis, t.trait_token.span());
                if let Some(x) = self.ov.imp.get(&key).cloned() {
                    self.used.insert(key.clone());
                    let (_, e) = self.rng(t.brace_token.span.open());
                    self.edit(e, e, format!("\n{}", x));
                }
                for ti in &t.items {
                    match ti {
                        syn::TraitItem::Fn(f) => {
                            let k = format!("{}.{}", key, f.sig.ident);
                            if self.ov.skip.contains(&k) {
                                self.used.insert(k);
                                self.drop_item(f.span(), "trait fn outside of the verifier's reach (skip)");
                                continue;
                            }
                            self.attrs(&f.attrs);
                            self.function(&k, &syn::Visibility::Inherited, &f.sig, f.default.as_ref());
                            if f.default.is_none() {
                                // contract sits before the `;`
                            }
                        }
                        syn::TraitItem::Type(t) => self.attrs(&t.attrs),
                        _ => {}
                    }
                }
            }
            other => {
                self.lost.push(format!("unhandled item: {}", &norm(other).chars().take(60).collect::<String>()));
            }
        }
    }

    /// `static T: X = e;` with a contract becomes `exec static T: X ensures .. { e }`
    /// the initializer of an integer constant becomes its value
    fn number(&mut self, owner: Option<&str>, name: &str, e: &syn::Expr, check: bool) {
        if matches!(e, syn::Expr::Lit(_)) || !check || owner.is_none() && self.ov.header.contains_key(name) {
            return;
        }
        if let Some(c) = self.consts.get(owner, name).cloned() {
            let (s, t) = self.rng(e.span());
            let orig = self.text(e.span()).to_string();
            let orig = owner.map_or(orig.clone(), |o| orig.replace("Self::", &format!("{}::", o)));
            self.edit(s, t, format!("{}", c.val));
            writeln!(self.checks, "const _: () = {{ let x: {} = {}; assert!(x == {}); }};", c.ty, orig, c.val).unwrap();
            self.note("constant initializer -> its value (confirmed by rustc)");
        }
    }

    /// constants inside of a function become `let`s
    fn local_consts(&mut self, b: &syn::Block, fnotes: &mut Vec<String>) {
        let mut v = LocalConsts::default();
        v.visit_block(b);
        let mut cs = std::mem::take(&mut self.consts);
        for k in &v.consts {
            let name = k.ident.to_string();
            if v.pats.contains(&name) {
                self.lost.push(format!("constant {} in a pattern", name));
                continue;
            }
            if let Some(x) = cs.get(None, &name) {
                // shadows another one
                let _ = x;
                cs.remove(&name);
            }
            cs.add(None, &name, &k.ty, &k.expr);
            self.attrs(&k.attrs);
            let (s, e) = self.rng(k.const_token.span);
            self.edit(s, e, "let");
            if let (Some(c), false) = (cs.get(None, &name), matches!(&*k.expr, syn::Expr::Lit(_))) {
                let (s, e) = self.rng(k.expr.span());
                let orig = self.text(k.expr.span()).to_string();
                self.edit(s, e, format!("{}", c.val));
                if !v.consts.iter().any(|o| has_word(&orig, &o.ident.to_string())) && !has_word(&orig, "Self") {
                    writeln!(self.checks, "const _: () = {{ let x: {} = {}; assert!(x == {}); }};", c.ty, orig, c.val).unwrap();
                }
            }
            self.note("constant in a function -> let of its value");
            fnotes.push(format!("const {} -> let", name));
        }
        for k in &v.consts {
            cs.remove(&k.ident.to_string());
        }
        cs.absorb(Consts::of(self.file));
        self.consts = cs;
    }

    fn table(&mut self, name: &str, kw: Span, newkw: &str, eq: Span, semi: Span, expr: Span) {
        if let Some(h) = self.ov.header.get(name).cloned() {
            self.used.insert(name.to_string());
            let (s, e) = self.rng(kw);
            self.edit(s, e, newkw);
            let (s, e) = self.rng(eq);
            self.edit(s, e, format!("\n/*VXFN {}*/\n{} {{", name, h));
            let (s, e) = self.rng(semi);
            self.edit(s, e, format!("}}\n/*VXEND {}*/\n", name));
            self.note("const/static initializer under contract");
            let line = |o: usize| self.src[..o].matches('\n').count() + 1;
            let (a, b) = self.rng(expr);
            let v = json!({"key": name, "contract": true, "external": false, "line": line(a), "end": line(b), "loops": [], "tags": self.ov.tags.get(name).cloned().unwrap_or_default(), "edits": ["initializer as body"], "calls": [], "has_body": true});
            self.fns.push(v);
        }
    }

    fn item_struct(&mut self, s: &syn::ItemStruct) {
        let mut derives = BTreeSet::new();
        for a in &s.attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    derives.insert(m.path.segments.last().unwrap().ident.to_string());
                    Ok(())
                });
            }
        }
        self.attrs(&s.attrs);
        let at = s.struct_token.span();
        self.make_pub(&s.vis, at);
        for f in s.fields.iter() {
            self.attrs(&f.attrs);
            let at = f.ident.as_ref().map(|i| i.span()).unwrap_or(f.ty.span());
            self.make_pub(&f.vis, at);
        }
        let (ig, tg, wc) = s.generics.split_for_impl();
        let mut g2 = s.generics.clone();
        for p in g2.type_params_mut() {
            p.bounds.push(syn::parse_quote!(Clone));
        }
        let (igc, _, _) = g2.split_for_impl();
        let name = &s.ident;
        let (ig, igc, tg, wc) = (
            ig.to_token_stream().to_string(),
            igc.to_token_stream().to_string(),
            tg.to_token_stream().to_string(),
            wc.to_token_stream().to_string(),
        );
        let fields: Vec<(String, String)> = s
            .fields
            .iter()
            .enumerate()
            .map(|(i, f)| {
                (
                    f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()),
                    f.ty.to_token_stream().to_string(),
                )
            })
            .collect();
        for d in &derives {
            let k = format!("{}.{}", name, d);
            let mut clone_ens = "ensures r == *self".to_string();
            if let Some(t) = self.ov.derive.get(&k).cloned() {
                self.used.insert(k.clone());
                if !t.trim_start().starts_with("ensures") {
                    writeln!(self.synth, "/*VXFN {k}.{}*/\n{t}\n/*VXEND {k}.{}*/", d.to_lowercase(), d.to_lowercase()).unwrap();
                    self.derived(&k, d, &s.span());
                    continue;
                }
                clone_ens = t.trim_end().to_string() + "\n";
            }
            match d.as_str() {
                "Clone" => {
                    let mut b = String::new();
                    for (f, t) in &fields {
                        if derives.contains("Copy") || t.trim_start().starts_with('&') {
                            write!(b, "{}: self.{}, ", f, f).unwrap();
                        } else {
                            write!(b, "{}: self.{}.clone(), ", f, f).unwrap();
                        }
                    }
                    writeln!(
                        self.synth,
                        "/*VXFN {k}.clone*/\nimpl {} Clone for {} {} {} {{\n fn clone(&self) -> (r: Self) {} {{ {} {{ {} }} }}\n}}\n/*VXEND {k}.clone*/",
                        igc, name, tg, wc, clone_ens, name, b
                    )
                    .unwrap();
                    self.derived(&k, d, &s.span());
                }
                "Copy" => {
                    writeln!(self.synth, "impl {} Copy for {} {} {} {{}}", ig, name, tg, wc).unwrap();
                }
                "Default" => {
                    let mut b = String::new();
                    let mut e = String::new();
                    for (f, t) in &fields {
                        write!(b, "{}: Default::default(), ", f).unwrap();
                        writeln!(e, "    call_ensures(<{} as Default>::default, (), r.{}),", t, f).unwrap();
                    }
                    if clone_ens.trim_start() != "ensures r == *self" {
                        e.push_str(clone_ens.trim_start().strip_prefix("ensures").unwrap());
                    }
                    writeln!(
                        self.synth,
                        "/*VXFN {k}.default*/\nimpl {} Default for {} {} {} {{\n fn default() -> (r: Self) ensures\n{} {{ {} {} {{ {} }} }}\n}}\n/*VXEND {k}.default*/",
                        ig, name, tg, wc, e, self.ov.body.get(&format!("{k}.default")).cloned().unwrap_or_default(), name, b
                    )
                    .unwrap();
                    self.derived(&k, d, &s.span());
                }
                _ => {}
            }
            self.note(&format!("derive {} expanded or dropped", d));
        }
    }

    fn derived(&mut self, k: &str, d: &str, at: &Span) {
        let (a, _) = self.rng(*at);
        let line = self.src[..a].matches('\n').count() + 1;
        let tags = self.ov.tags.get(k).cloned().unwrap_or_default();
        self.fns.push(json!({"key": format!("{}.{}", k, d.to_lowercase()), "contract": true, "external": false, "line": line, "end": line, "tags": tags,
            "loops": [], "edits": ["expanded derive"], "calls": [], "has_body": true, "derived": true}));
    }

    fn item_impl(&mut self, i: &syn::ItemImpl) {
        let ty = base_name(&i.self_ty);
        let tr = i.trait_.as_ref().map(|(_, p, _)| {
            let last = p.segments.last().unwrap();
            (last.ident.to_string(), norm(last))
        });
        if is_cfg_test(&i.attrs) {
            return self.drop_item(i.span(), "test impl");
        }
        if let Some((id, _)) = &tr {
            if id == "Debug" || id == "Display" || id == "PartialEq" || id == "Eq" {
                return self.drop_item(i.span(), &format!("impl {}", id));
            }
        }
        let prefix = match &tr {
            Some((_, full)) => format!("{}.{}", ty, full),
            None => ty.clone(),
        };
        if self.ov.skip.contains(&prefix) {
            self.used.insert(prefix.clone());
            return self.drop_item(i.span(), "impl outside of the verifier's reach (skip)");
        }
        self.attrs(&i.attrs);
        if let Some(x) = self.ov.imp.get(&prefix).cloned() {
            if !(tr.is_none() && self.used.contains(&prefix)) {
                self.used.insert(prefix.clone());
                let (_, e) = self.rng(i.brace_token.span.open());
                self.edit(e, e, format!("\n{}", x));
            }
        }
        if let Some((id, _)) = &tr {
            if id == "From" {
                // From needs a spec-side companion; it promises nothing, the contract of `from` does
                let seg = i.trait_.as_ref().unwrap().1.segments.last().unwrap();
                if let syn::PathArguments::AngleBracketed(ab) = &seg.arguments {
                    if let Some(syn::GenericArgument::Type(src)) = ab.args.first() {
                        let (ig, _, wc) = i.generics.split_for_impl();
                        writeln!(
                            self.synth,
                            "impl {} vstd::std_specs::convert::FromSpecImpl<{}> for {} {} {{ open spec fn obeys_from_spec() -> bool {{ false }} open spec fn from_spec(v: {}) -> Self {{ arbitrary() }} }}",
                            ig.to_token_stream(),
                            src.to_token_stream(),
                            i.self_ty.to_token_stream(),
                            wc.to_token_stream(),
                            src.to_token_stream()
                        )
                        .unwrap();
                    }
                }
            }
        }
        for it in &i.items {
            match it {
                syn::ImplItem::Fn(f) => {
                    let key = format!("{}.{}", prefix, f.sig.ident);
                    if is_cfg_test(&f.attrs) {
                        self.drop_item(f.span(), "test fn");
                        continue;
                    }
                    if self.ov.skip.contains(&key) {
                        self.used.insert(key);
                        self.drop_item(f.span(), "fn outside of the verifier's reach (skip)");
                        continue;
                    }
                    self.attrs(&f.attrs);
                    if tr.is_none() {
                        let at = f.sig.span();
                        self.make_pub(&f.vis, at);
                    }
                    self.function(&key, &f.vis, &f.sig, Some(&f.block));
                }
                syn::ImplItem::Const(c) => {
                    self.attrs(&c.attrs);
                    if tr.is_none() {
                        self.make_pub(&c.vis, c.const_token.span());
                    }
                    self.number(Some(&base_name(&i.self_ty)), &c.ident.to_string(), &c.expr, tr.is_none());
                }
                _ => {}
            }
        }
    }

    fn function(&mut self, key: &str, vis: &syn::Visibility, sig: &syn::Signature, block: Option<&syn::Block>) {
        let params: Vec<String> = sig
            .inputs
            .iter()
            .enumerate()
            .filter_map(|(n, a)| match a {
                syn::FnArg::Receiver(_) => None,
                syn::FnArg::Typed(t) => Some(match &*t.pat {
                    syn::Pat::Ident(p) => p.ident.to_string(),
                    _ => format!("__p{}", n),
                }),
            })
            .collect();
        let shared: Vec<String> = sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                syn::FnArg::Receiver(r) if r.mutability.is_none() && r.reference.is_some() => Some("self".to_string()),
                syn::FnArg::Typed(t) if matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_none()) => Some(norm(&t.pat)),
                _ => None,
            })
            .collect();
        let key_of_trait = key.matches('.').count() > 1;
        let subst = |t: &str, lp: Option<&LoopVars>| -> String {
            let mut t = t.to_string();
            if let Some(l) = lp {
                t = t.replace("$k", &l.k).replace("$i", &l.i).replace("$s", &l.s).replace("$e", &l.e).replace("$o", &l.o);
            }
            for (n, p) in params.iter().enumerate() {
                t = t.replace(&format!("${}", n + 1), p);
            }
            // what cannot be changed (any more) has one state only
            for p in &shared {
                t = t.replace(&format!("old({p})"), p).replace(&format!("final({p})"), p);
            }
            t
        };
        let mut header = self.ov.header.get(key).cloned();
        // `&mut self` where the contract was written for `&self`: nothing is changed all the same
        let may_change = sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Receiver(r) if r.mutability.is_some() && r.reference.is_some()));
        if let Some(h) = header.as_mut() {
            if may_change && !key_of_trait && !h.contains("old(self)") && !h.contains("final(self)") && rename(h, "self", "", false) != *h && h.contains("ensures") {
                *h = rename(h, "self", "old(self)", false).replacen("ensures", "ensures *final(self) == *old(self),", 1);
            }
        }
        let contracted = header.is_some();
        if contracted {
            self.used.insert(key.to_string());
        }
        let given_up = std::env::var("VX_GIVE_UP").map_or(false, |l| l.split(';').any(|k| k == key));
        let external = self.ov.external.contains(key) || given_up;
        // attributes
        let at = match vis {
            syn::Visibility::Inherited => self.rng(sig.span()).0,
            v => self.rng(v.span()).0,
        };
        if external {
            self.edit_early(at, "#[verifier::external_body] ".into());
        }
        if let Some(a) = self.ov.attr.get(key).cloned() {
            self.edit_early(at, format!("{} ", a.trim()));
        }
        // a parameter pattern becomes a name and a `let`
        let mut unpack = String::new();
        for (n, a) in sig.inputs.iter().enumerate() {
            if let syn::FnArg::Typed(t) = a {
                if !matches!(&*t.pat, syn::Pat::Ident(_)) {
                    let (s, e) = self.rng(t.pat.span());
                    let text = self.text(t.pat.span()).to_string();
                    self.edit(s, e, format!("__p{}", n));
                    if !matches!(&*t.pat, syn::Pat::Wild(_)) {
                        unpack.push_str(&format!("let {} = __p{};\n", text, n));
                        self.note("parameter pattern becomes a let");
                    }
                }
            }
        }
        // name the result
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let (s, e) = self.rng(t.span());
            self.edit(s, s, "(r: ");
            self.edit(e, e, ")");
        }
        let mut loops = vec![];
        let mut fnotes = vec![];
        let calls;
        let (mut lets, mut breaks, mut carried) = (vec![], 0, vec![]);
        let mut accums: Vec<String> = vec![];
        if let Some(b) = block {
            let (open, close) = (self.rng(b.brace_token.span.open()), self.rng(b.brace_token.span.close()));
            if let Some(h) = &header {
                let t = subst(h, None);
                self.edit(open.0, open.0, format!("\n/*VXFN {}*/\n{}\n", key, t));
            } else {
                self.edit(open.0, open.0, format!("\n/*VXFN {}*/\n", key));
            }
            if !unpack.is_empty() {
                self.edit(open.1, open.1, format!("\n{}", unpack));
            }
            if given_up {
                // the contract stays, as an assumption; nothing is said about the body
                let mut v = BodyVisitor::default();
                v.visit_block(b);
                self.edit(close.1, close.1, format!("\n/*VXEND {}*/\n", key));
                self.fns.push(json!({"key": key, "contract": contracted, "external": true, "line": 0, "end": 0, "tags": self.ov.tags.get(key).cloned().unwrap_or_default(),
                    "loops": [], "edits": ["given up"], "calls": v.calls, "has_body": true, "lets": [], "breaks": 0}));
                return;
            }
            let probe = contracted && !external && std::env::var("VX_PROBE").is_ok();
            if probe {
                self.edit(open.1, open.1, format!("\nproof {{ if vx_probe(100) {{ assert(false); /*VXPROBE {} entry*/ }} }}\n", key));
            }
            if let Some(t) = self.ov.body.get(key) {
                let t = subst(t, None);
                self.edit(open.1, open.1, format!("\n{}\n", t));
            }
            if let Some(t) = self.ov.tail.get(key) {
                let t = subst(t, None);
                self.edit(close.0, close.0, format!("\n{}\n", t));
            }
            self.edit(close.1, close.1, format!("\n/*VXEND {}*/\n", key));
            self.local_consts(b, &mut fnotes);
            let mut v = BodyVisitor::default();
            v.visit_block(b);
            let mut locals = Locals::default();
            locals.visit_block(b);
            carried = locals.carried();
            accums = locals.accums.iter().cloned().collect();
            // a name of the prelude or the module that a local variable hides
            let names: BTreeSet<String> = v.lets.iter().chain(params.iter()).cloned().collect();
            let unhide = |ov: &Overlay, t: &str| -> String {
                let mut t = t.to_string();
                for n in &names {
                    let call = format!("{}(", n);
                    if has_call(&t, n) {
                        let own = ov.module.contains(&format!("fn {}(", n)) || ov.module.contains(&format!("fn {}<", n));
                        t = replace_path(&t, &call, &format!("{}::{}", if own { "self" } else { "crate" }, call));
                    }
                }
                t
            };
            let muts: Vec<String> = sig
                .inputs
                .iter()
                .filter_map(|a| match a {
                    syn::FnArg::Receiver(r) if r.mutability.is_some() && r.reference.is_some() => Some("self".to_string()),
                    syn::FnArg::Typed(t) if matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()) => Some(norm(&t.pat)),
                    _ => None,
                })
                .collect();
            for (n, l) in v.loops.iter().enumerate() {
                let mut vars = self.do_loop(key, n, l, &mut fnotes);
                // a local slice may start anywhere: positions in it mean something else
                let own = vars.kind == "for:slice" && v.lets.contains(&vars.s);
                loops.push(if own { "for:local".to_string() } else { vars.kind.clone() });
                let span = match l {
                    LoopRef::For(f) => f.span(),
                    LoopRef::While(f) => f.span(),
                    LoopRef::Loop(f) => f.span(),
                };
                if self.ov.loops.get(&(key.to_string(), n)).map_or(false, |t| t.contains("decreases")) && (vars.kind == "while" || vars.kind == "loop") {
                    vars.post_inv.clear();
                }
                let uses_start = self.ov.loops.get(&(key.to_string(), n)).map_or(false, |t| t.contains("$o") || t.contains("$k"));
                if uses_start && !vars.kind.starts_with("for") && !vars.i.contains("__lost") {
                    let at = self.rng(span).0;
                    self.edit(at, at, format!("let ghost __o{} = {}; ", n, vars.i));
                }
                let (counters, copies) = locals.of(span.byte_range().into_tuple());
                let here = self.ov.loops.get(&(key.to_string(), n)).cloned().unwrap_or_default();
                for (name, init) in counters {
                    let simple = norm(init);
                    if vars.kind.starts_with("for") && !counted(&here, &name) && simple.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') {
                        let i = match muts.iter().find(|m| simple.starts_with(&format!("{}.", m))) {
                            Some(m) => format!("old({}){}", m, &simple[m.len()..]),
                            None => simple,
                        };
                        vars.auto.push(format!("{} == {} + {}", name, i, vars.k));
                        fnotes.push(format!("loop {}: {} counts iterations", n, name));
                    }
                }
                // a field the contract takes to be the same all the time, and that counts iterations
                let range = span.byte_range().into_tuple();
                let same: Vec<String> = subst(&here, None).split(|c| c == ',' || c == '\n').map(|c| c.trim().to_string()).collect();
                let stepped: Vec<String> = locals
                    .field_steps
                    .iter()
                    .filter(|f| f.1 == range && !locals.continues.contains(&range) && muts.iter().any(|m| f.0.starts_with(&format!("{}.", m))))
                    .map(|f| f.0.clone())
                    .filter(|f| same.iter().any(|c| c.strip_prefix(&format!("{} == ", f)).map_or(false, |x| !x.contains('$') && !x.contains(' '))))
                    .collect();
                if !stepped.is_empty() && !uses_start && !vars.kind.starts_with("for") && !vars.i.contains("__lost") {
                    let at = self.rng(span).0;
                    self.edit(at, at, format!("let ghost __o{} = {}; ", n, vars.i));
                }
                if stepped.contains(&vars.i) {
                    vars.auto.push(format!("{} <= {}", vars.o, vars.i));
                }
                for f in &stepped {
                    fnotes.push(format!("loop {}: {} counts iterations", n, f));
                }
                let copies: Vec<(String, String)> = copies.into_iter().filter(|(n, _)| !bare_word(&here, n)).collect();
                let subst = |t: &str, lp: Option<&LoopVars>| -> String {
                    let mut t = subst(t, None);
                    for f in &stepped {
                        t = replace_path(&t, f, &format!("({} - $k)", f));
                    }
                    let mut t = subst(&t, lp);
                    for (name, path) in &copies {
                        let unchanged = muts.iter().any(|m| path.starts_with(&format!("{}.", m)) && t.contains(&format!("{} == old({}){}", path, m, &path[m.len()..])));
                        if !unchanged {
                            t = replace_path(&t, path, name);
                        }
                    }
                    unhide(self.ov, &t)
                };
                if let Some(t) = self.ov.loops.get(&(key.to_string(), n)) {
                    let t = subst(t, Some(&vars));
                    let inv = format!("\n/*VXLOOP {} {}*/\n{}\n", key, n, if vars.auto.is_empty() { t.clone() } else { merge_inv(&t, &vars.auto) });
                    self.edit(vars.inv_at, vars.inv_at, inv + &vars.post_inv);
                } else if !vars.auto.is_empty() {
                    let a = merge_inv("", &vars.auto);
                    self.edit(vars.inv_at, vars.inv_at, a + &vars.post_inv);
                }
                if vars.i.contains("__lost") && self.ov.loops.get(&(key.to_string(), n)).map_or(false, |t| t.contains("$i")) {
                    self.lost.push(format!("{}: loop {} has no recognizable position variable", key, n));
                }
                if probe {
                    self.edit(vars.body_at, vars.body_at, format!("\nproof {{ if vx_probe({}) {{ assert(false); /*VXPROBE {} loop{}*/ }} }}\n", n, key, n));
                }
                if let Some(t) = self.ov.loopbody.get(&(key.to_string(), n)) {
                    // the hints are written for a position that has been advanced already
                    let ahead = if vars.kind.starts_with("for") { t.clone() } else { t.replace("$i", "($i + 1)").replace("$k", "($k + 1)") };
                    let t = subst(&ahead, Some(&vars));
                    self.edit(vars.body_at, vars.body_at, format!("\n{}\n", t));
                }
                if let Some(t) = self.ov.loopafter.get(&(key.to_string(), n)) {
                    let t = subst(t, Some(&vars));
                    self.edit(vars.after_at, vars.after_at, format!("\n{}\n", t));
                }
            }
            let expected = self.ov.loops.keys().filter(|k| k.0 == key).count();
            if contracted && expected != loops.len() {
                self.lost.push(format!("{}: {} loops under contract, {} in the source", key, expected, loops.len()));
            }
            let ac = self.ov.aftercopy.get(key).map(|t| subst(t, None)).unwrap_or_default();
            for (s, e, t, why) in v.rewrites(self, &ac) {
                self.edit(s, e, t);
                fnotes.push(why.clone());
                self.note(&why);
            }
            for u in &v.closures {
                self.notes.push(format!("{}: closure at {}", key, u));
            }
            calls = v.calls;
            lets = v.lets;
            breaks = v.breaks;
        } else {
            calls = vec![];
            if let Some(h) = header {
                let (_, e) = self.rng(sig.span());
                let t = subst(&h, None);
                self.edit(e, e, format!("\n/*VXFN {}*/\n{}\n/*VXEND {}*/\n", key, t, key));
            }
        }
        let (a, b) = self.rng(sig.span());
        let line = |o: usize| self.src[..o].matches('\n').count() + 1;
        let endl = block.map(|b| self.rng(b.span()).1).unwrap_or(b);
        self.fns.push(json!({
            "key": key, "contract": contracted, "external": external, "line": line(a), "end": line(endl),
            "tags": self.ov.tags.get(key).cloned().unwrap_or_default(), "loops": loops, "edits": fnotes, "calls": calls, "has_body": block.is_some(), "lets": lets, "breaks": breaks, "carried": carried, "accums": accums,
        }));
    }

    fn do_loop(&mut self, key: &str, n: usize, l: &LoopRef<'_>, fnotes: &mut Vec<String>) -> LoopVars {
        let iv = format!("__i{}", n);
        match l {
            LoopRef::For(f) => {
                let for_at = self.rng(f.for_token.span()).0;
                let (open_s, open_e) = self.rng(f.body.brace_token.span.open());
                let (_, close_e) = self.rng(f.body.brace_token.span.close());
                let whole = (for_at, close_e);
                let label_at = f.label.as_ref().map(|l| self.rng(l.span()).0);
                let label = f.label.as_ref().map(|l| format!("{} ", norm_keep(l))).unwrap_or_default();
                let start_at = label_at.unwrap_or(for_at);
                let mut v = LoopVars {
                    kind: "for".into(),
                    i: iv.clone(),
                    k: iv.clone(),
                    s: String::new(),
                    e: String::new(),
                    o: "0".into(),
                    auto: vec![],
                    inv_at: open_s,
                    post_inv: String::new(),
                    body_at: open_e,
                    after_at: whole.1,
                };
                match analyse_for(self, f) {
                    Some(ForKind::Range { a, b, incl, pat }) => {
                        let ev = format!("__e{}", n);
                        let av = format!("__a{}", n);
                        let (pre, cond) = if incl {
                            (format!("let {av} = {a}; let {ev} = {b}; let mut {iv} = {av};"), format!("{iv} <= {ev}"))
                        } else {
                            (format!("let {av} = {a}; let {ev} = {b}; let mut {iv} = {av};"), format!("{iv} < {ev}"))
                        };
                        self.edit(start_at, open_s, format!("{{ {pre} {label}while {cond} "));
                        self.edit(open_e, open_e, format!(" let {pat} = {iv}; {iv} = {iv} + 1; "));
                        self.edit_late(close_e, " }");
                        v.e = ev.clone();
                        v.k = format!("({iv} - {av})");
                        v.o = av.clone();
                        v.s = "data".into();
                        v.auto = vec![
                            format!("{av} <= {iv}"),
                            format!("{av} <= {ev} ==> {iv} <= {ev}{}", if incl { " + 1" } else { "" }),
                        ];
                        if let Some(x) = element_updated(f, &pat) {
                            // what the loop has not come to yet is as it was
                            let sv = format!("__u{}", n);
                            self.edit(start_at, start_at, format!("let ghost {sv} = {x}@; "));
                            v.auto.push(format!("{x}@.len() == {sv}.len()"));
                            v.auto.push(format!("forall|j: int| {iv} <= j < {sv}.len() ==> #[trigger] {x}@[j] == {sv}[j]"));
                        }
                        v.post_inv = format!(" decreases {ev} - {iv}{} ", if incl { " + 1" } else { "" });
                        v.kind = "for:range".into();
                        self.note("for over a range -> while");
                        fnotes.push(format!("loop {n}: for over a range -> while"));
                    }
                    Some(ForKind::From { base, from, to, checked, relative, pat_i, pat_v, by_ref }) => {
                        let name = from.chars().all(|c| c.is_alphanumeric() || c == '_');
                        let av = if name { from.clone() } else { format!("__a{}", n) };
                        let mut pre = if name { String::new() } else { format!("let {av}: usize = {from};") };
                        let ev = match &to {
                            Some(t) => {
                                write!(pre, " let __e{n}: usize = {t}; let __s{n} = &{base}[{av}..__e{n}];").unwrap();
                                format!("__e{n}")
                            }
                            None => {
                                if checked {
                                    write!(pre, " let __s{n} = &{base}[{av}..];").unwrap();
                                }
                                format!("{base}.len()")
                            }
                        };
                        self.edit(start_at, open_s, format!("{{ {pre} let mut {iv}: usize = {av}; {label}while {iv} < {ev} "));
                        let mut b = String::new();
                        if let Some(p) = pat_i {
                            if relative {
                                write!(b, " let {p} = {iv} - {av};").unwrap();
                            } else {
                                write!(b, " let {p} = {iv};").unwrap();
                            }
                        }
                        b += &element(&base, &iv, &pat_v, by_ref);
                        write!(b, " {iv} = {iv} + 1; ").unwrap();
                        self.edit(open_e, open_e, b);
                        self.edit_late(close_e, " }");
                        v.s = base.clone();
                        v.k = format!("({iv} - {av})");
                        v.o = av.clone();
                        v.auto = if checked {
                            vec![format!("{av} <= {iv} <= {ev}"), format!("{ev} <= {base}.len()")]
                        } else {
                            vec![format!("{av} <= {iv}"), format!("{av} <= {ev} ==> {iv} <= {ev}")]
                        };
                        v.post_inv = format!(" decreases {ev} - {iv} ");
                        v.e = ev;
                        v.kind = if checked { "for:slice".into() } else { "for:range".into() };
                        self.note("for over a slice from an offset on -> while");
                        fnotes.push(format!("loop {n}: for over a slice from an offset on -> while"));
                    }
                    Some(ForKind::Slice { base, simple, pat_i, pat_v, by_ref }) => {
                        let sv = if simple { base.clone() } else { format!("__s{}", n) };
                        let pre = if simple { String::new() } else { format!("let {sv} = {base};") };
                        self.edit(start_at, open_s, format!("{{ {pre} let mut {iv}: usize = 0; {label}while {iv} < {sv}.len() "));
                        let mut b = String::new();
                        if let Some(p) = pat_i {
                            write!(b, " let {p} = {iv};").unwrap();
                        }
                        b += &element(&sv, &iv, &pat_v, by_ref);
                        write!(b, " {iv} = {iv} + 1; ").unwrap();
                        self.edit(open_e, open_e, b);
                        self.edit_late(close_e, " }");
                        v.s = sv.clone();
                        v.e = format!("{sv}.len()");
                        v.auto = vec![format!("0 <= {iv} <= {sv}.len()")];
                        v.post_inv = format!(" decreases {sv}.len() - {iv} ");
                        v.kind = "for:slice".into();
                        self.note("for over a slice -> while");
                        fnotes.push(format!("loop {n}: for over a slice -> while"));
                    }
                    None => {
                        self.lost.push(format!("{}: loop {} iterates over an unsupported expression: {}", key, n, norm(&f.expr)));
                    }
                }
                v
            }
            LoopRef::While(w) => {
                let (open_s, open_e) = self.rng(w.body.brace_token.span.open());
                let (_, close_e) = self.rng(w.body.brace_token.span.close());
                // the position variable is the left side of a `<` in the condition
                let mut i = "__lost".to_string();
                let mut e = "__lost".to_string();
                fn find(ex: &syn::Expr, i: &mut String, e: &mut String, cx: &Cx<'_>) {
                    // `while let Some(v) = x.get(i)`
                    if let syn::Expr::Let(l) = ex {
                        let mut g = &*l.expr;
                        if let syn::Expr::MethodCall(m) = g {
                            if (m.method == "copied" || m.method == "cloned") && m.args.is_empty() {
                                g = &m.receiver;
                            }
                        }
                        if let syn::Expr::MethodCall(m) = g {
                            if m.method == "get" && m.args.len() == 1 && matches!(&m.args[0], syn::Expr::Path(_)) {
                                *i = norm(&m.args[0]);
                                *e = format!("{}.len()", cx.text(m.receiver.span()));
                            }
                        }
                    }
                    if let syn::Expr::Binary(b) = ex {
                        match b.op {
                            syn::BinOp::Lt(_) | syn::BinOp::Ne(_) => {
                                if matches!(&*b.left, syn::Expr::Path(_) | syn::Expr::Field(_)) {
                                    *i = norm(&b.left);
                                    *e = cx.text(b.right.span()).to_string();
                                }
                            }
                            syn::BinOp::Gt(_) => {
                                if matches!(&*b.right, syn::Expr::Path(_) | syn::Expr::Field(_)) {
                                    *i = norm(&b.right);
                                    *e = cx.text(b.left.span()).to_string();
                                }
                            }
                            syn::BinOp::And(_) => {
                                find(&b.left, i, e, cx);
                                if i == "__lost" {
                                    find(&b.right, i, e, cx);
                                }
                            }
                            _ => {}
                        }
                    }
                }
                find(&w.cond, &mut i, &mut e, self);
                if let (syn::Expr::Let(l), true) = (&*w.cond, i != "__lost") {
                    if let syn::Pat::TupleStruct(t) = &*l.pat {
                        if t.elems.len() == 1 {
                            let by_ref = !norm(&l.expr).ends_with("()");
                            let at = self.rng(w.cond.span());
                            let base = e.trim_end_matches(".len()").to_string();
                            let el = element(&base, &i, self.text(t.elems[0].span()), by_ref);
                            self.edit(at.0, at.1, format!("{i} < {e}"));
                            self.edit(open_e, open_e, el);
                            self.note("while let Some(v) = x.get(i) -> while i < x.len()");
                            fnotes.push(format!("loop {n}: while let over get -> while"));
                        }
                    }
                }
                let s = e.strip_suffix(".len()").unwrap_or("data").to_string();
                let mut auto = vec![];
                let mut post_inv = String::new();
                if i != "__lost" {
                    auto.push(format!("{i} <= {e}"));
                    post_inv = format!(" decreases {e} - {i} ");
                }
                LoopVars { kind: "while".into(), k: format!("({i} - __o{n})"), o: format!("__o{n}"), i, s, e, auto, inv_at: open_s, post_inv, body_at: open_e, after_at: close_e }
            }
            LoopRef::Loop(w) => {
                let (open_s, open_e) = self.rng(w.body.brace_token.span.open());
                let (_, close_e) = self.rng(w.body.brace_token.span.close());
                // `loop { if i >= X { break; } .. }`
                let mut i = "__lost".to_string();
                let mut e = "__lost".to_string();
                let (mut after_at, mut body_at) = (close_e, open_e);
                for (nth, st) in w.body.stmts.iter().enumerate() {
                    match st {
                        syn::Stmt::Expr(syn::Expr::If(f), _) => {
                            let syn::Expr::Binary(b) = &*f.cond else { continue };
                            let (x, y) = match b.op {
                                syn::BinOp::Ge(_) | syn::BinOp::Eq(_) => (&b.left, &b.right),
                                syn::BinOp::Le(_) => (&b.right, &b.left),
                                _ => continue,
                            };
                            let leaves = |f: &syn::ExprIf| f.else_branch.is_none() && matches!(f.then_branch.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Break(_) | syn::Expr::Return(_) | syn::Expr::Block(_), _)));
                            let (x, y) = if norm(x).ends_with(".len()") && matches!(b.op, syn::BinOp::Eq(_)) { (y, x) } else { (x, y) };
                            if !matches!(&**x, syn::Expr::Path(_) | syn::Expr::Field(_)) {
                                continue;
                            }
                            let first = nth == 0 && leaves(f) && matches!(&**y, syn::Expr::Path(_));
                            if norm(y).ends_with(".len()") || (first && !matches!(b.op, syn::BinOp::Eq(_))) {
                                i = norm(x);
                                e = self.text(y.span()).to_string();
                                body_at = self.rng(st.span()).1;
                                // what holds after the loop holds there, when it is left by a `return`
                                if !matches!(f.then_branch.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Break(_), _))) {
                                    after_at = self.rng(f.then_branch.brace_token.span.open()).1;
                                }
                                break;
                            }
                        }
                        // `let Some(v) = x.get(i) else { break };`, `match x.get(i) { .. }`
                        _ => {
                            let g = match st {
                                syn::Stmt::Local(l) => match &l.init {
                                    Some(n) => match &*n.expr {
                                        syn::Expr::Match(m) => &*m.expr,
                                        x => x,
                                    },
                                    None => continue,
                                },
                                syn::Stmt::Expr(syn::Expr::Match(m), _) => &*m.expr,
                                _ => continue,
                            };
                            let mut g = g;
                            if let syn::Expr::MethodCall(m) = g {
                                if (m.method == "copied" || m.method == "cloned") && m.args.is_empty() {
                                    g = &m.receiver;
                                }
                            }
                            if let syn::Expr::MethodCall(m) = g {
                                if m.method == "get" && m.args.len() == 1 && matches!(&m.args[0], syn::Expr::Path(_)) {
                                    i = norm(&m.args[0]);
                                    e = format!("{}.len()", self.text(m.receiver.span()));
                                    if let syn::Stmt::Local(_) = st {
                                        body_at = self.rng(st.span()).1;
                                    }
                                    break;
                                }
                            }
                        }
                    }
                }
                let (mut auto, mut post_inv) = (vec![], String::new());
                if i != "__lost" {
                    auto.push(format!("{i} <= {e}"));
                    post_inv = format!(" decreases {e} - {i} ");
                }
                let s = e.strip_suffix(".len()").unwrap_or("data").to_string();
                LoopVars { kind: "loop".into(), k: format!("({i} - __o{n})"), o: format!("__o{n}"), i, s, e, auto, inv_at: open_s, post_inv, body_at, after_at }
            }
        }
    }
}

fn norm_keep(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(" :", ":")
}

fn merge_inv(t: &str, auto: &[String]) -> String {
    let mut a = String::new();
    for x in auto {
        writeln!(a, "    {},", x).unwrap();
    }
    if t.trim().is_empty() {
        return format!("\n invariant\n{}", a);
    }
    match t.find("invariant") {
        Some(p) => {
            let q = p + "invariant".len();
            format!("{}\n{}{}", &t[..q], a, &t[q..])
        }
        None => format!(" invariant\n{}{}", a, t),
    }
}

struct LoopVars {
    kind: String,
    i: String,
    /// the position counted from the start of the loop
    k: String,
    s: String,
    e: String,
    /// the position at the start of the loop
    o: String,
    auto: Vec<String>,
    inv_at: usize,
    post_inv: String,
    body_at: usize,
    after_at: usize,
}

enum LoopRef<'a> {
    For(&'a syn::ExprForLoop),
    While(&'a syn::ExprWhile),
    Loop(&'a syn::ExprLoop),
}

enum ForKind {
    Range { a: String, b: String, incl: bool, pat: String },
    Slice { base: String, simple: bool, pat_i: Option<String>, pat_v: String, by_ref: bool },
    /// elements of `base` from position `from` on; `checked`: `from` and `to` are in bounds or the code panics
    From { base: String, from: String, to: Option<String>, checked: bool, relative: bool, pat_i: Option<String>, pat_v: String, by_ref: bool },
}

fn element(base: &str, at: &str, pat: &str, by_ref: bool) -> String {
    match (by_ref, pat) {
        (_, "_") => String::new(),
        (true, p) if p.starts_with('&') => format!(" let {} = {base}[{at}];", p[1..].trim()),
        (true, p) => format!(" let {p} = &{base}[{at}];"),
        (false, p) => format!(" let {p} = {base}[{at}];"),
    }
}

/// the `x` of a loop that only does `x[i] op= ..`, or `x[i] = .. x[..] ..`
fn element_updated(f: &syn::ExprForLoop, i: &str) -> Option<String> {
    let [syn::Stmt::Expr(e, _)] = &f.body.stmts[..] else { return None };
    let (l, r, op) = match e {
        syn::Expr::Assign(a) => (&a.left, &a.right, false),
        syn::Expr::Binary(b) if norm(&b.op).ends_with('=') && !["==", "<=", ">=", "!="].contains(&norm(&b.op).as_str()) => (&b.left, &b.right, true),
        _ => return None,
    };
    let syn::Expr::Index(x) = &**l else { return None };
    if norm(&x.index) != i || !matches!(&*x.expr, syn::Expr::Path(p) if p.path.get_ident().is_some()) {
        return None;
    }
    let x = norm(&x.expr);
    let used = norm(r).split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == x);
    (op || used).then_some(x)
}

fn analyse_for(cx: &Cx<'_>, f: &syn::ExprForLoop) -> Option<ForKind> {
    let mut e = &*f.expr;
    while let syn::Expr::Paren(p) = e {
        e = &p.expr;
    }
    if let syn::Expr::Range(r) = e {
        let a = r.start.as_ref()?;
        let b = r.end.as_ref()?;
        let pat = match &*f.pat {
            syn::Pat::Ident(p) => p.ident.to_string(),
            syn::Pat::Wild(_) => "_".into(),
            _ => return None,
        };
        return Some(ForKind::Range {
            a: cx.text(a.span()).into(),
            b: cx.text(b.span()).into(),
            incl: matches!(r.limits, syn::RangeLimits::Closed(_)),
            pat,
        });
    }
    let mut enumerate = false;
    let mut by_ref = true;
    let mut saw_iter = false;
    // `.skip(n)`, and whether it comes before `.enumerate()`
    let mut skip: Option<(String, bool)> = None;
    loop {
        match e {
            syn::Expr::MethodCall(m) if m.method == "skip" && m.args.len() == 1 && skip.is_none() => {
                skip = Some((cx.text(m.args[0].span()).to_string(), enumerate));
                e = &m.receiver;
            }
            syn::Expr::MethodCall(m) if m.args.is_empty() => {
                match m.method.to_string().as_str() {
                    "enumerate" if !enumerate => enumerate = true,
                    "cloned" | "copied" if by_ref => by_ref = false,
                    "iter" => {
                        saw_iter = true;
                        e = &m.receiver;
                        break;
                    }
                    "into_iter" => {
                        saw_iter = true;
                        e = &m.receiver;
                        break;
                    }
                    _ => return None,
                }
                e = &m.receiver;
            }
            _ => break,
        }
    }
    let _ = saw_iter;
    while let syn::Expr::Paren(p) = e {
        e = &p.expr;
    }
    let (base, simple) = match e {
        syn::Expr::Path(_) => (cx.text(e.span()).to_string(), true),
        syn::Expr::Field(_) => (cx.text(e.span()).to_string(), true),
        syn::Expr::Index(_) => (format!("&{}", cx.text(e.span())), false),
        syn::Expr::Reference(r) => match &*r.expr {
            syn::Expr::Path(_) | syn::Expr::Field(_) => (cx.text(r.expr.span()).to_string(), true),
            _ => (cx.text(e.span()).to_string(), false),
        },
        _ => return None,
    };
    let (pat_i, pv) = if enumerate {
        match &*f.pat {
            syn::Pat::Tuple(t) if t.elems.len() == 2 => {
                let i = match &t.elems[0] {
                    syn::Pat::Ident(p) => Some(p.ident.to_string()),
                    syn::Pat::Wild(_) => None,
                    _ => return None,
                };
                (i, &t.elems[1])
            }
            _ => return None,
        }
    } else {
        (None, &*f.pat)
    };
    let pat_v = match pv {
        syn::Pat::Ident(_) | syn::Pat::Wild(_) => cx.text(pv.span()).to_string(),
        syn::Pat::Reference(r) if matches!(&*r.pat, syn::Pat::Ident(_)) => cx.text(pv.span()).to_string(),
        _ => return None,
    };
    // the slice is borrowed; the variable that holds it may still be given another one
    let mut w = Assigned::default();
    w.visit_block(&f.body);
    if simple && w.0.contains(&base) {
        return None;
    }
    if let Some((from, relative)) = skip {
        if !simple {
            return None;
        }
        return Some(ForKind::From { base, from, to: None, checked: false, relative, pat_i, pat_v, by_ref });
    }
    let mut x = e;
    if let syn::Expr::Reference(r) = x {
        x = &r.expr;
    }
    if let syn::Expr::Index(ix) = x {
        if let (syn::Expr::Path(p), syn::Expr::Range(r)) = (&*ix.expr, &*ix.index) {
            let name = norm(p);
            if let (true, false, false) = (r.start.is_some() || r.end.is_some(), matches!(r.limits, syn::RangeLimits::Closed(_)), w.0.contains(&name)) {
                let from = r.start.as_ref().map_or("0".to_string(), |a| cx.text(a.span()).to_string());
                if !w.0.contains(&from) {
                    let to = r.end.as_ref().map(|e| cx.text(e.span()).to_string());
                    return Some(ForKind::From { base: name, from, to, checked: true, relative: true, pat_i, pat_v, by_ref });
                }
            }
        }
    }
    Some(ForKind::Slice { base, simple, pat_i, pat_v, by_ref })
}

/// variables that are assigned or mutably borrowed
#[derive(Default)]
struct Assigned(BTreeSet<String>);
impl<'a> Visit<'a> for Assigned {
    fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
        self.0.insert(norm(&a.left));
        syn::visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
            self.0.insert(norm(&b.left));
        }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'a syn::ExprReference) {
        if r.mutability.is_some() {
            self.0.insert(norm(&r.expr));
        }
        syn::visit::visit_expr_reference(self, r);
    }
}

fn has_call(t: &str, w: &str) -> bool {
    replace_path(t, &format!("{}(", w), "").len() != t.len()
}

/// Does the text name the variable itself (not a field or a function of that name)?
fn bare_word(t: &str, w: &str) -> bool {
    let b = t.as_bytes();
    let part = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut at = 0;
    while let Some(p) = t[at..].find(w) {
        let (s, e) = (at + p, at + p + w.len());
        let alone = (s == 0 || !(part(b[s - 1]) || b[s - 1] == b'$')) && (e == b.len() || !part(b[e]));
        let field = s > 0 && b[s - 1] == b'.' && !(s > 1 && b[s - 2] == b'.');
        let called = e < b.len() && (b[e] == b'(' || t[e..].starts_with("::"));
        if alone && !field && !called && !t[..s].ends_with("::") {
            return true;
        }
        at = e;
    }
    false
}

/// Does the text name the variable outside the quantifiers that bind the name?
fn counted(t: &str, w: &str) -> bool {
    bare_word(t, w) && !t.contains(&format!("|{}: int|", w)) && !t.contains(&format!("|{}: nat|", w))
}

fn has_word(t: &str, w: &str) -> bool {
    t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| x == w)
}

/// Local variables that are changed in a loop they were declared before.
#[derive(Default)]
struct Locals<'a> {
    /// spans of the loops around the current place
    at: Vec<(usize, usize)>,
    /// name, loops around the declaration, initializer; None after a second declaration
    decl: BTreeMap<String, Option<(usize, &'a syn::Expr)>>,
    /// name -> number of changes, and the innermost loop of the last one with its depth
    changes: BTreeMap<String, Vec<(usize, (usize, usize))>>,
    /// `name += 1` as a statement of the body of a loop: name -> loop
    steps: BTreeMap<String, (usize, usize)>,
    /// the same for a field
    field_steps: Vec<(String, (usize, usize))>,
    /// loops with a `continue`
    continues: BTreeSet<(usize, usize)>,
    /// fields that accumulate in a loop
    accums: BTreeSet<String>,
}

impl<'a> Locals<'a> {
    fn declare(&mut self, i: &syn::PatIdent, init: Option<&'a syn::Expr>) {
        let n = i.ident.to_string();
        let old = self.decl.contains_key(&n);
        if i.mutability.is_some() {
            self.decl.insert(n, if old { None } else { init.map(|e| (self.at.len(), e)) });
        }
    }
    fn accumulates(&mut self, e: &syn::Expr) {
        if let (false, syn::Expr::Field(_)) = (self.at.is_empty(), e) {
            self.accums.insert(norm(e));
        }
    }
    fn changed(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let here = (self.at.len(), self.at.last().cloned().unwrap_or((0, 0)));
                    self.changes.entry(i.to_string()).or_default().push(here);
                }
            }
            syn::Expr::Field(f) => self.changed(&f.base),
            syn::Expr::Index(f) => self.changed(&f.expr),
            syn::Expr::Paren(f) => self.changed(&f.expr),
            syn::Expr::MethodCall(m) => self.changed(&m.receiver),
            _ => {}
        }
    }
    fn body(&mut self, b: &'a syn::Block, span: (usize, usize)) {
        for st in &b.stmts {
            if let syn::Stmt::Expr(syn::Expr::Binary(x), Some(_)) = st {
                match (&x.op, &*x.left, &norm(&x.right)[..]) {
                    (syn::BinOp::AddAssign(_), syn::Expr::Path(p), "1") => {
                        if let Some(i) = p.path.get_ident() {
                            self.steps.insert(i.to_string(), span);
                        }
                    }
                    (syn::BinOp::AddAssign(_), f @ syn::Expr::Field(_), "1") => {
                        self.field_steps.push((norm(f), span));
                    }
                    _ => {}
                }
            }
        }
        self.at.push(span);
        self.visit_block(b);
        self.at.pop();
    }
    /// changed in a loop, declared outside of it
    fn carried(&self) -> Vec<String> {
        self.decl
            .iter()
            .filter(|(n, d)| d.map_or(true, |d| self.changes.get(*n).map_or(false, |c| c.iter().any(|c| c.0 > d.0))))
            .map(|(n, _)| n.clone())
            .collect()
    }
    /// for a loop: counters (name, initial value), and copies of fields (name, field)
    fn of(&self, span: (usize, usize)) -> (Vec<(String, &'a syn::Expr)>, Vec<(String, String)>) {
        let (mut counters, mut copies) = (vec![], vec![]);
        for n in self.carried() {
            let Some(Some((d, init))) = self.decl.get(&n) else { continue };
            let c = &self.changes[&n];
            if c.len() == 1 && c[0].0 == d + 1 && self.steps.get(&n) == Some(&span) && !self.continues.contains(&span) {
                counters.push((n.clone(), *init));
            }
            let mut e = unparen(init);
            if let syn::Expr::MethodCall(m) = e {
                if m.method == "clone" && m.args.is_empty() {
                    e = unparen(&m.receiver);
                }
            }
            if let syn::Expr::Field(_) = e {
                let t = norm(e);
                if t.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') {
                    copies.push((n, t));
                }
            }
        }
        (counters, copies)
    }
}

impl<'a> Visit<'a> for Locals<'a> {
    fn visit_local(&mut self, l: &'a syn::Local) {
        let mut p = &l.pat;
        if let syn::Pat::Type(t) = p {
            p = &t.pat;
        }
        match (p, l.init.as_ref().map(|i| &*i.expr)) {
            (syn::Pat::Ident(i), Some(init)) => self.declare(i, Some(init)),
            (syn::Pat::Tuple(ps), Some(syn::Expr::Tuple(es))) if ps.elems.len() == es.elems.len() => {
                for (p, e) in ps.elems.iter().zip(&es.elems) {
                    if let syn::Pat::Ident(i) = p {
                        self.declare(i, Some(e));
                    }
                }
            }
            (p, _) => {
                struct P<'x>(Vec<&'x syn::PatIdent>);
                impl<'x> Visit<'x> for P<'x> {
                    fn visit_pat_ident(&mut self, p: &'x syn::PatIdent) {
                        self.0.push(p);
                    }
                }
                let mut f = P(vec![]);
                f.visit_pat(p);
                for i in f.0 {
                    self.declare(i, None);
                }
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
        self.changed(&a.left);
        if replace_path(&norm(&a.right), &norm(&a.left), "") != norm(&a.right) {
            self.accumulates(&a.left);
        }
        syn::visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
            self.changed(&b.left);
            self.accumulates(&b.left);
        }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'a syn::ExprReference) {
        if r.mutability.is_some() {
            self.changed(&r.expr);
        }
        syn::visit::visit_expr_reference(self, r);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        if !["len", "iter", "clone", "cloned", "is_empty", "is_some", "is_none"].contains(&&m.method.to_string()[..]) {
            self.changed(&m.receiver);
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) {
        if let Some(s) = self.at.last() {
            self.continues.insert(*s);
        }
    }
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        self.visit_expr(&f.expr);
        self.body(&f.body, f.span().byte_range().into_tuple());
    }
    fn visit_expr_while(&mut self, f: &'a syn::ExprWhile) {
        let s = f.span().byte_range().into_tuple();
        self.at.push(s);
        self.visit_expr(&f.cond);
        self.at.pop();
        self.body(&f.body, s);
    }
    fn visit_expr_loop(&mut self, f: &'a syn::ExprLoop) {
        self.body(&f.body, f.span().byte_range().into_tuple());
    }
}

trait IntoTuple {
    fn into_tuple(self) -> (usize, usize);
}
impl IntoTuple for std::ops::Range<usize> {
    fn into_tuple(self) -> (usize, usize) {
        (self.start, self.end)
    }
}

/// replaces a field path where it stands for the current value (not in `old(self).path`)
fn replace_path(t: &str, path: &str, by: &str) -> String {
    let b = t.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut out = String::new();
    let mut p = 0;
    while let Some(q) = t[p..].find(path) {
        let (s, e) = (p + q, p + q + path.len());
        let before = s == 0 || !(word(b[s - 1]) || b[s - 1] == b'.' || b[s - 1] == b')');
        let after = e == b.len() || !word(b[e]) || path.ends_with('(');
        out.push_str(&t[p..s]);
        out.push_str(if before && after { by } else { path });
        p = e;
    }
    out.push_str(&t[p..]);
    out
}

#[derive(Default)]
struct LocalConsts<'a> {
    consts: Vec<&'a syn::ItemConst>,
    pats: BTreeSet<String>,
}

impl<'a> Visit<'a> for LocalConsts<'a> {
    fn visit_item_const(&mut self, c: &'a syn::ItemConst) {
        self.consts.push(c);
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.pats.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}

#[derive(Default)]
struct BodyVisitor<'a> {
    loops: Vec<LoopRef<'a>>,
    macros: Vec<&'a syn::Macro>,
    copies: Vec<&'a syn::ExprMethodCall>,
    closures: Vec<String>,
    mems: Vec<&'a syn::Expr>,
    calls: Vec<String>,
    lets: Vec<String>,
    breaks: usize,
}

impl<'a> Visit<'a> for BodyVisitor<'a> {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.lets.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) {
        self.breaks += 1;
        syn::visit::visit_expr_break(self, b);
    }
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        self.loops.push(LoopRef::For(f));
        syn::visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_while(&mut self, f: &'a syn::ExprWhile) {
        self.loops.push(LoopRef::While(f));
        syn::visit::visit_expr_while(self, f);
    }
    fn visit_expr_loop(&mut self, f: &'a syn::ExprLoop) {
        self.loops.push(LoopRef::Loop(f));
        syn::visit::visit_expr_loop(self, f);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        self.macros.push(m);
        if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
            let mut c = Calls(vec![]);
            args.iter().for_each(|a| c.visit_expr(a));
            self.calls.extend(c.0);
        }
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.closures.push(norm(c));
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        self.calls.push(format!(".{}", m.method));
        if m.method == "copy_from_slice" || m.method == "clone_from_slice" {
            self.copies.push(m);
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        let f = norm(&c.func);
        if f == "vx_debug" {
            return;
        }
        if ["mem::replace", "std::mem::replace", "core::mem::replace", "mem::take", "std::mem::take", "core::mem::take"].contains(&&f[..]) {
            self.mems.push(&c.func);
        }
        self.calls.push(f);
        syn::visit::visit_expr_call(self, c);
    }
}

struct Calls(Vec<String>);

impl<'a> Visit<'a> for Calls {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        self.0.push(format!(".{}", m.method));
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        self.0.push(norm(&c.func));
        syn::visit::visit_expr_call(self, c);
    }
}

impl<'a> BodyVisitor<'a> {
    fn rewrites(&self, cx: &Cx<'_>, aftercopy: &str) -> Vec<(usize, usize, String, String)> {
        let mut out = vec![];
        for m in &self.macros {
            let name = m.path.segments.last().unwrap().ident.to_string();
            let r = m.span().byte_range();
            let args = || {
                m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok()
            };
            match name.as_str() {
                "assert" | "debug_assert" => {
                    if let Some(a) = args() {
                        if let Some(c) = a.first() {
                            out.push((r.start, r.end, format!("vx_assert({})", cx.text(c.span())), format!("{name}! -> obligation vx_assert")));
                        }
                    }
                }
                "assert_ne" | "debug_assert_ne" | "assert_eq" | "debug_assert_eq" => {
                    if let Some(a) = args() {
                        if a.len() >= 2 {
                            let op = if name.ends_with("ne") { "!=" } else { "==" };
                            out.push((
                                r.start,
                                r.end,
                                format!("vx_assert({} {} {})", cx.text(a[0].span()), op, cx.text(a[1].span())),
                                format!("{name}! -> obligation vx_assert"),
                            ));
                        }
                    }
                }
                _ => {}
            }
        }
        for m in &self.mems {
            let r = m.span().byte_range();
            let t = if norm(m).ends_with("take") { "vx_take" } else { "vx_replace" };
            out.push((r.start, r.end, t.into(), format!("mem::{} -> its definition by swap", &t[3..])));
        }
        for m in &self.copies {
            // X[a..b].copy_from_slice(Y) -> vx_copy(&mut X, a, b, Y)
            if let syn::Expr::Index(ix) = &*m.receiver {
                if let syn::Expr::Range(rg) = unparen(&ix.index) {
                    let x = cx.text(ix.expr.span());
                    let a = rg.start.as_ref().map(|e| cx.text(e.span()).to_string()).unwrap_or("0".into());
                    let b = match (&rg.end, &rg.limits) {
                        (Some(e), syn::RangeLimits::HalfOpen(_)) => cx.text(e.span()).to_string(),
                        (Some(e), _) => format!("({}) + 1", cx.text(e.span())),
                        (None, _) => format!("{}.len()", x),
                    };
                    let r = m.span().byte_range();
                    let y = cx.text(m.args[0].span());
                    out.push((r.start, r.end, format!("{{ vx_copy(&mut {x}, {a}, {b}, {y}); {aftercopy} }}"), "slice[a..b].copy_from_slice -> vx_copy".into()));
                }
            }
        }
        out
    }
}

fn unparen(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => unparen(&p.expr),
        e => e,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&args[1]).expect("source");
    let ovs = std::fs::read_to_string(&args[2]).expect("overlay");
    let modname = args.get(5).cloned();
    let mut ov = parse_overlay(&ovs);
    let known = |k: &str| ov.header.contains_key(k) || ov.skip.contains(k) || ov.external.contains(k);
    let plain = src;
    let baseline = std::env::var("VX_BASE").ok().and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str::<Value>(&s).ok());
    let overlays = std::path::Path::new(&args[2]).parent().unwrap();
    let (gathered, crossed) = cross::gather(&plain, std::path::Path::new(&args[1]), overlays);
    let early = |t: &str| baseline.as_ref().map_or((t.to_string(), vec![]), |b| breaks::early_returns(t, b));
    let (opened, builds) = builds::open(&gathered);
    let (left, mut more) = early(&opened);
    more.extend(builds);
    let (nexted, nexts) = nexts::rewrite(&left);
    let (direct, aliased) = aliases::places(&nexted);
    let (looped, its) = iters::loops(&direct);
    let (returns, again) = early(&looped);
    more.extend(again);
    more.extend(nexts);
    let (mut src, mut inlined) = inline::inline(&returns, &known);
    inlined.extend(crossed);
    inlined.extend(aliased);
    inlined.extend(its);
    inlined.extend(more);
    if syn::parse_file(&src).is_err() {
        (src, inlined) = (plain, vec![]);
    }
    // the Rust source that is taken for the module's, to be compiled and compared with it
    if let Ok(p) = std::env::var("VX_DUMP") {
        std::fs::write(p, &src).unwrap();
    }
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            std::fs::write(&args[4], json!({"parse_error": e.to_string()}).to_string()).unwrap();
            std::process::exit(3);
        }
    };
    let mut followed = vec![];
    if let Some(b) = baseline {
        derives_and_impls(&mut ov, &file, Some(&b));
        followed = follow_renames(&mut ov, &file, &b, modname.as_deref().unwrap_or("lib"));
    }
    let mut cx = Cx {
        src: &src,
        ov: &ov,
        edits: vec![],
        fns: vec![],
        notes: vec![],
        lost: vec![],
        used: BTreeSet::new(),
        synth: String::new(),
        consts: Consts::of(&file),
        checks: String::new(),
        file: &file,
        log: BTreeMap::new(),
    };
    cx.attrs(&file.attrs);
    for it in &file.items {
        cx.item(it);
    }
    // every contract must have found its function
    for k in ov.header.keys().chain(ov.skip.iter()).chain(ov.imp.keys()).chain(ov.derive.keys()) {
        if !cx.used.contains(k) {
            cx.lost.push(format!("contract without a target: {}", k));
        }
    }
    let mut edits = std::mem::take(&mut cx.edits);
    edits.sort_by_key(|e| (e.start, if e.start == e.end { 0 } else { 1 }, e.seq));
    let mut out = String::new();
    let mut pos = 0;
    for e in &edits {
        if e.start < pos {
            // inside of something already replaced (nested edit of a dropped item)
            if e.end > pos {
                eprintln!("overlapping edit at {}", e.start);
            }
            continue;
        }
        out.push_str(&src[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&src[pos..]);
    let mut full = String::new();
    if let Some(m) = &modname {
        writeln!(full, "pub mod {} {{\nuse super::*;\n{}", m, ov.uses).unwrap();
    }
    writeln!(full, "verus! {{\n// ---- contracts: ghost definitions, lemmas\n{}\n// ---- expanded derives\n{}\n// ---- extracted source\n{}\n}} // verus!", ov.module, cx.synth, out).unwrap();
    if !cx.checks.is_empty() {
        full.push_str(&format!("// ---- constants, as rustc computes them\n{}", cx.checks));
    }
    if modname.is_some() {
        full.push_str("}\n");
    }
    std::fs::write(&args[3], full).unwrap();
    let rep = json!({
        "functions": cx.fns, "lost": cx.lost, "notes": cx.notes, "edits": cx.log, "inlined": inlined, "followed": followed,
        "structs": structs(&file),
        "source": args[1],
    });
    std::fs::write(&args[4], serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}
