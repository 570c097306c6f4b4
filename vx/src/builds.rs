//! What a build with debug assertions does and one without them does not. Which of the two it is stays
//! open (`vx_debug()` in the prelude), so that both are verified:
//! * `#[cfg(debug_assertions)] statement` is `if vx_debug() { statement }`, `cfg!(debug_assertions)` is `vx_debug()`;
//! * `debug_assert!(c)` where `c` may have an effect is `if vx_debug() { debug_assert!(c); }`.
use crate::norm;
use syn::spanned::Spanned;
use syn::visit::Visit;

const PURE: [&str; 30] = [
    "len", "is_empty", "is_some", "is_none", "get", "first", "last", "wrapping_add", "wrapping_sub", "wrapping_mul", "saturating_sub", "saturating_add",
    "count_ones", "leading_zeros", "trailing_zeros", "is_power_of_two", "min", "max", "abs_diff", "contains", "iter", "all", "any", "start_bound",
    "end_bound", "checked_add", "checked_sub", "unwrap_or", "clone", "copied",
];

struct Effect(bool);

impl<'a> Visit<'a> for Effect {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        self.0 |= !PURE.contains(&&m.method.to_string()[..]);
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        let f = norm(&c.func);
        self.0 |= !["Some", "Wrapping", "u8::from", "u16::from", "u32::from", "u64::from", "usize::from", "std::cmp::min", "std::cmp::max"].contains(&&f[..]);
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_assign(&mut self, _: &'a syn::ExprAssign) {
        self.0 = true;
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        use syn::BinOp::*;
        self.0 |= matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_));
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_macro(&mut self, _: &'a syn::Macro) {
        self.0 = true;
    }
}

struct Find<'a> {
    src: &'a str,
    out: Vec<(usize, usize, String, String)>,
}

impl<'a> Visit<'a> for Find<'a> {
    fn visit_item(&mut self, i: &'a syn::Item) {
        let tests = match i {
            syn::Item::Mod(m) => crate::is_cfg_test(&m.attrs),
            syn::Item::Fn(f) => crate::is_cfg_test(&f.attrs),
            _ => false,
        };
        if !tests {
            syn::visit::visit_item(self, i);
        }
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        let r = s.span().byte_range();
        let text = &self.src[r.clone()];
        if !matches!(s, syn::Stmt::Local(_) | syn::Stmt::Item(_)) {
            for (attr, cond) in [("#[cfg(debug_assertions)]", "vx_debug()"), ("#[cfg(not(debug_assertions))]", "!vx_debug()")] {
                if let Some(rest) = text.strip_prefix(attr) {
                    self.out.push((r.start, r.end, format!("if {cond} {{{rest}}}"), format!("{attr} becomes an if")));
                    return;
                }
            }
        }
        if let syn::Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if name.starts_with("debug_assert") {
                let args = m.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
                let mut e = Effect(false);
                for a in args.iter().flatten().take(if name == "debug_assert" { 1 } else { 2 }) {
                    e.visit_expr(a);
                }
                if e.0 {
                    self.out.push((r.start, r.end, format!("if vx_debug() {{ {text} }}"), format!("{name}! may not be compiled in")));
                    return;
                }
            }
        }
        syn::visit::visit_stmt(self, s);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if m.path.is_ident("cfg") && norm(&m.tokens) == "debug_assertions" {
            let r = m.span().byte_range();
            self.out.push((r.start, r.end, "vx_debug()".into(), "cfg!(debug_assertions) is left open".into()));
        }
    }
}

pub fn open(src: &str) -> (String, Vec<String>) {
    let mut text = src.to_string();
    let mut notes = vec![];
    for _ in 0..8 {
        let Ok(file) = syn::parse_file(&text) else { return (src.to_string(), vec![]) };
        let mut f = Find { src: &text, out: vec![] };
        f.visit_file(&file);
        let mut ed = f.out;
        ed.retain(|e| !text[..e.0].ends_with("if vx_debug() { "));
        if ed.is_empty() {
            break;
        }
        ed.sort();
        let mut new = text.clone();
        for (a, b, t, n) in ed.into_iter().rev() {
            new.replace_range(a..b, &t);
            notes.push(n);
        }
        text = new;
    }
    (text, notes)
}
