#!/usr/bin/env python3
"""Writes prelude_ops.rs: the verified stand-in for std::num::Wrapping (every operator has a body
and a contract; nothing is assumed)."""
out=[]
W=[("u32","0x1_0000_0000"),("u64","0x1_0000_0000_0000_0000"),("usize","0x1_0000_0000_0000_0000")]
out.append("pub struct Wrapping<T>(pub T);")
for t,m in W:
    bits={"u8":8,"u16":16,"u32":32,"u64":64,"usize":64}[t]
    T=f"Wrapping<{t}>"
    out.append(f"impl Copy for {T} {{}}\nimpl Clone for {T} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ *self }} }}")
    out.append(f"impl Default for {T} {{ fn default() -> (r: Self) ensures r == Wrapping(0{t}) {{ Wrapping(0) }} }}")
    for tr,fn,spec,ex,req in [
        ("Add","add",f"((self.0 + rhs.0) % {m}) as {t}","self.0.wrapping_add(rhs.0)","true"),
        ("Sub","sub",f"((self.0 - rhs.0) % {m}) as {t}","self.0.wrapping_sub(rhs.0)","true"),
        ("Mul","mul",f"((self.0 * rhs.0) % {m}) as {t}","self.0.wrapping_mul(rhs.0)","true"),
        ("Div","div",f"self.0 / rhs.0","self.0 / rhs.0","rhs.0 != 0"),
        ("Rem","rem",f"self.0 % rhs.0","self.0 % rhs.0","rhs.0 != 0"),
        ("BitAnd","bitand",f"self.0 & rhs.0","self.0 & rhs.0","true"),
        ("BitOr","bitor",f"self.0 | rhs.0","self.0 | rhs.0","true"),
        ("BitXor","bitxor",f"self.0 ^ rhs.0","self.0 ^ rhs.0","true"),
    ]:
        out.append(f"""impl vstd::std_specs::ops::{tr}SpecImpl<{T}> for {T} {{
  open spec fn obeys_{fn}_spec() -> bool {{ true }}
  open spec fn {fn}_req(self, rhs: Self) -> bool {{ {req} }}
  open spec fn {fn}_spec(self, rhs: Self) -> Self {{ Wrapping({spec}) }}
}}
impl core::ops::{tr} for {T} {{ type Output = Self; fn {fn}(self, rhs: Self) -> (r: Self) {{ Wrapping({ex}) }} }}""")
        if True:
            out.append(f"""impl vstd::std_specs::ops::{tr}AssignSpecImpl<{T}> for {T} {{
  open spec fn obeys_{fn}_assign_spec() -> bool {{ true }}
  open spec fn {fn}_assign_req(&self, rhs: Self) -> bool {{ {req} }}
  open spec fn {fn}_assign_spec(&self, rhs: Self) -> &Self {{ &Wrapping({spec}) }}
}}
impl core::ops::{tr}Assign for {T} {{ fn {fn}_assign(&mut self, rhs: Self) {{ *self = Wrapping({ex}); }} }}""")
    for tr,fn,op in [("Shl","shl","<<"),("Shr","shr",">>")]:
        out.append(f"""impl vstd::std_specs::ops::{tr}SpecImpl<usize> for {T} {{
  open spec fn obeys_{fn}_spec() -> bool {{ true }}
  open spec fn {fn}_req(self, rhs: usize) -> bool {{ true }}
  open spec fn {fn}_spec(self, rhs: usize) -> Self {{ Wrapping(self.0 {op} (rhs % {bits})) }}
}}
impl core::ops::{tr}<usize> for {T} {{ type Output = Self; fn {fn}(self, rhs: usize) -> (r: Self) {{ Wrapping(self.0 {op} (rhs % {bits})) }} }}
impl vstd::std_specs::ops::{tr}AssignSpecImpl<usize> for {T} {{
  open spec fn obeys_{fn}_assign_spec() -> bool {{ true }}
  open spec fn {fn}_assign_req(&self, rhs: usize) -> bool {{ true }}
  open spec fn {fn}_assign_spec(&self, rhs: usize) -> &Self {{ &Wrapping(self.0 {op} (rhs % {bits})) }}
}}
impl core::ops::{tr}Assign<usize> for {T} {{ fn {fn}_assign(&mut self, rhs: usize) {{ *self = *self {op} rhs; }} }}""")
    out.append(f"""impl vstd::std_specs::cmp::PartialEqSpecImpl for {T} {{
  open spec fn obeys_eq_spec() -> bool {{ true }}
  open spec fn eq_spec(&self, other: &Self) -> bool {{ *self == *other }}
}}
impl PartialEq for {T} {{ fn eq(&self, other: &Self) -> (r: bool) {{ self.0 == other.0 }} }}""")
open(__file__.rsplit('/',1)[0]+"/prelude_ops.rs" if '/' in __file__ else "prelude_ops.rs","w").write("verus! {\n"+"\n".join(out)+"\n} // verus!\n")
