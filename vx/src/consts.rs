//! Values of integer constants: a constant's initializer becomes the number rustc computes for it,
//! so that a proof sees the number and not shifts and masks. rustc itself is made to confirm it: an
//! assertion `original initializer == number` is written beside it.
use quote::ToTokens;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Const {
    pub ty: String,
    pub val: i128,
}

#[derive(Default, Debug)]
pub struct Consts {
    map: BTreeMap<String, Const>,
}

pub fn range(ty: &str) -> Option<(i128, i128)> {
    Some(match ty {
        "u8" => (0, u8::MAX as i128),
        "u16" => (0, u16::MAX as i128),
        "u32" => (0, u32::MAX as i128),
        "u64" => (0, u64::MAX as i128),
        "usize" => (0, u64::MAX as i128),
        "i8" => (i8::MIN as i128, i8::MAX as i128),
        "i16" => (i16::MIN as i128, i16::MAX as i128),
        "i32" => (i32::MIN as i128, i32::MAX as i128),
        "i64" => (i64::MIN as i128, i64::MAX as i128),
        "isize" => (i64::MIN as i128, i64::MAX as i128),
        _ => return None,
    })
}

fn fit(v: i128, ty: Option<&str>) -> Option<i128> {
    match ty {
        Some(t) => {
            let (lo, hi) = range(t)?;
            (lo <= v && v <= hi).then_some(v)
        }
        None => Some(v),
    }
}

fn truncate(v: i128, ty: &str) -> Option<i128> {
    let (lo, hi) = range(ty)?;
    let m = hi - lo + 1;
    let mut r = v.rem_euclid(m);
    if r > hi {
        r -= m;
    }
    Some(r)
}

pub fn text(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

impl Consts {
    /// the constants of a module, those of its impls as `Type::NAME`
    pub fn of(file: &syn::File) -> Consts {
        let mut c = Consts::default();
        // as often as they may depend on each other
        for _ in 0..4 {
            for it in &file.items {
                match it {
                    syn::Item::Const(k) => c.add(None, &k.ident.to_string(), &k.ty, &k.expr),
                    syn::Item::Impl(i) => {
                        let ty = super::base_name(&i.self_ty);
                        for x in &i.items {
                            if let syn::ImplItem::Const(k) = x {
                                c.add(Some(&ty), &k.ident.to_string(), &k.ty, &k.expr);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        c
    }
    pub fn add(&mut self, owner: Option<&str>, name: &str, ty: &syn::Type, e: &syn::Expr) {
        let t = text(ty);
        if range(&t).is_none() {
            return;
        }
        if let Some(v) = self.eval(e, Some(&t), owner) {
            let key = owner.map_or(name.to_string(), |o| format!("{}::{}", o, name));
            self.map.insert(key, Const { ty: t, val: v });
        }
    }
    pub fn get(&self, owner: Option<&str>, name: &str) -> Option<&Const> {
        self.map.get(&owner.map_or(name.to_string(), |o| format!("{}::{}", o, name)))
    }
    pub fn remove(&mut self, name: &str) {
        self.map.remove(name);
    }
    pub fn absorb(&mut self, o: Consts) {
        self.map.extend(o.map);
    }
    fn path(&self, p: &syn::ExprPath, owner: Option<&str>) -> Option<Const> {
        let t = text(p);
        if let Some((ty, n)) = t.rsplit_once("::") {
            let ty = ty.rsplit("::").next().unwrap_or(ty);
            if let Some((lo, hi)) = range(ty) {
                let v = match n {
                    "MAX" => hi,
                    "MIN" => lo,
                    "BITS" => return Some(Const { ty: "u32".into(), val: 128 - ((hi - lo) as u128).leading_zeros() as i128 }),
                    _ => return None,
                };
                return Some(Const { ty: ty.into(), val: v });
            }
            let ty = if ty == "Self" { owner? } else { ty };
            return self.map.get(&format!("{}::{}", ty, n)).cloned();
        }
        self.map.get(&t).cloned()
    }
    /// the type an expression has whatever is around it
    fn typed(&self, e: &syn::Expr, owner: Option<&str>) -> Option<String> {
        Some(match e {
            syn::Expr::Paren(p) => self.typed(&p.expr, owner)?,
            syn::Expr::Cast(c) => text(&c.ty),
            syn::Expr::Path(p) => self.path(p, owner)?.ty,
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) if !i.suffix().is_empty() => i.suffix().to_string(),
                _ => return None,
            },
            syn::Expr::Unary(u) => self.typed(&u.expr, owner)?,
            syn::Expr::Binary(b) => match b.op {
                syn::BinOp::Shl(_) | syn::BinOp::Shr(_) => self.typed(&b.left, owner)?,
                _ => self.typed(&b.left, owner).or_else(|| self.typed(&b.right, owner))?,
            },
            _ => return None,
        })
    }
    pub fn eval(&self, e: &syn::Expr, want: Option<&str>, owner: Option<&str>) -> Option<i128> {
        let v = match e {
            syn::Expr::Paren(p) => self.eval(&p.expr, want, owner)?,
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) => i.base10_parse().ok()?,
                _ => return None,
            },
            syn::Expr::Path(p) => self.path(p, owner)?.val,
            syn::Expr::Cast(c) => {
                let inner = self.typed(&c.expr, owner).unwrap_or_else(|| "i32".into());
                truncate(self.eval(&c.expr, Some(&inner), owner)?, &text(&c.ty))?
            }
            syn::Expr::Unary(u) => {
                let t = want?;
                let v = self.eval(&u.expr, want, owner)?;
                match u.op {
                    syn::UnOp::Neg(_) => -v,
                    syn::UnOp::Not(_) => truncate(-1 - v, t)?,
                    _ => return None,
                }
            }
            syn::Expr::Binary(b) => {
                let t = want?;
                let l = self.eval(&b.left, want, owner)?;
                if let syn::BinOp::Shl(_) | syn::BinOp::Shr(_) = b.op {
                    let rt = self.typed(&b.right, owner).unwrap_or_else(|| "i32".into());
                    let r = self.eval(&b.right, Some(&rt), owner)?;
                    let (lo, hi) = range(t)?;
                    let bits = 128 - ((hi - lo) as u128).leading_zeros() as i128;
                    if !(0 <= r && r < bits) {
                        return None;
                    }
                    if let syn::BinOp::Shl(_) = b.op {
                        truncate(l << r, t)?
                    } else {
                        l >> r
                    }
                } else {
                    let r = self.eval(&b.right, want, owner)?;
                    match b.op {
                        syn::BinOp::Add(_) => l + r,
                        syn::BinOp::Sub(_) => l - r,
                        syn::BinOp::Mul(_) => l.checked_mul(r)?,
                        syn::BinOp::Div(_) => l.checked_div(r)?,
                        syn::BinOp::Rem(_) => l.checked_rem(r)?,
                        syn::BinOp::BitAnd(_) => l & r,
                        syn::BinOp::BitOr(_) => l | r,
                        syn::BinOp::BitXor(_) => l ^ r,
                        _ => return None,
                    }
                }
            }
            _ => return None,
        };
        fit(v, want)
    }
}
