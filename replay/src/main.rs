//! Concrete inputs for failed obligations: runs the real library (all algorithms, both interfaces)
//! against the properties and an independent reference, and prints the smallest failing inputs.
mod algs;
mod fixed;
mod large;
mod gold;
mod rng;
use algs::*;
use rng::Rng;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

/// One way to call the library with a stream.
#[derive(Clone, Debug)]
pub struct Input {
    data: Vec<u8>,
    plan_a: Vec<usize>,
    plan_b: Vec<usize>,
    extra: Vec<u8>,
    /// picks among cuts and bytes
    pick: usize,
}

/// What a run of one interface over a stream did.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
struct Run {
    cuts: Vec<usize>,
    err: Option<String>,
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panicked: {}", m)
    })
}

/// the ends of the pieces of a plan over `len` bytes; the last piece takes what is left
fn ends(plan: &[usize], len: usize) -> Vec<usize> {
    let mut p = 0;
    let mut out = vec![];
    for &x in plan {
        p = (p + x).min(len);
        out.push(p);
    }
    if p < len || out.is_empty() {
        out.push(len);
    }
    out
}

type Fail = (&'static str, String);

fn run_fce(c: &Case, d: &[u8], plan: &[usize], fails: &mut Vec<Fail>) -> Run {
    let mut run = Run::default();
    let es = ends(plan, d.len());
    let mut f = c.algo.fce();
    let mut start = 0;
    let mut calls = 0;
    for &avail in &es {
        loop {
            calls += 1;
            if calls > 2 * d.len() + es.len() + 8 {
                run.err = Some("no progress".into());
                fails.push(("C01", "find_chunk_edge makes no progress".into()));
                return run;
            }
            let buf = &d[start..avail];
            let (cut, disc) = match guarded(|| f.find(buf)) {
                Ok(x) => x,
                Err(e) => {
                    fails.push(("C01", format!("find_chunk_edge {} on a slice of {} bytes at {}", e, buf.len(), start)));
                    run.err = Some(e);
                    return run;
                }
            };
            if disc > buf.len() || cut.map_or(false, |n| n == 0 || n > buf.len() || disc > n) {
                let m = format!("find_chunk_edge returned ({:?}, {}) for a slice of {} bytes at {}", cut, disc, buf.len(), start);
                fails.push(("C01", m.clone()));
                if disc > buf.len() || cut == Some(0) && disc == 0 {
                    run.err = Some(m);
                    return run;
                }
            }
            let kept = buf.len() - disc;
            let fits = match (cut, c.alg) {
                (None, "bup") | (None, "buzhash") | (None, "gzip") => kept == buf.len().min(c.window),
                (None, "zstd") => kept <= 32,
                (None, _) => kept == 0,
                (Some(n), "zstd") => n <= disc + 32,
                (Some(n), _) => disc == n,
            };
            if !fits {
                fails.push(("C09", format!("find_chunk_edge returned ({:?}, {}) for a slice of {} bytes at {}, window {}", cut, disc, buf.len(), start, c.window)));
            }
            if let Some(n) = cut {
                run.cuts.push(start + n);
            }
            start += disc;
            if cut.is_none() {
                break;
            }
        }
    }
    run
}

fn run_incr(c: &Case, d: &[u8], plan: &[usize], empty: bool, fails: &mut Vec<Fail>) -> Run {
    let mut run = Run::default();
    let es = ends(plan, d.len());
    let mut f = c.algo.incr();
    let mut pos = 0;
    let mut calls = 0;
    for &e in &es {
        loop {
            calls += 1;
            if calls > 4 * d.len() + 2 * es.len() + 8 {
                run.err = Some("no progress".into());
                fails.push(("C01", "push makes no progress".into()));
                return run;
            }
            let s = &d[pos..e];
            let r = match guarded(|| f.push(s)) {
                Ok(x) => x,
                Err(e) => {
                    fails.push(("C01", format!("push {} on a slice of {} bytes at {}", e, s.len(), pos)));
                    run.err = Some(e);
                    return run;
                }
            };
            match r {
                None => {
                    pos = e;
                    break;
                }
                Some(n) => {
                    if n > s.len() || n == 0 && !(c.late && !s.is_empty()) {
                        let m = format!("push returned {:?} for a slice of {} bytes at {}", r, s.len(), pos);
                        fails.push(("C01", m.clone()));
                        run.err = Some(m);
                        return run;
                    }
                    pos += n;
                    run.cuts.push(pos);
                    if pos == e && !empty {
                        break;
                    }
                }
            }
        }
    }
    run
}

fn short(v: &[usize]) -> String {
    if v.len() <= 12 {
        format!("{:?}", v)
    } else {
        format!("{:?}... ({} cuts)", &v[..12], v.len())
    }
}
fn diff(a: &Run, b: &Run) -> String {
    let f = |r: &Run, i: usize| match r.cuts.get(i) {
        Some(x) => x.to_string(),
        None => r.err.clone().unwrap_or("no further cut".into()),
    };
    let i = (0..).find(|&i| a.cuts.get(i) != b.cuts.get(i) || i >= a.cuts.len()).unwrap();
    format!("cut #{}: {} / {} (all: {} / {})", i, f(a, i), f(b, i), short(&a.cuts), short(&b.cuts))
}

fn checks(c: &Case, i: &Input) -> Vec<Fail> {
    let mut fails: Vec<Fail> = vec![];
    let d = &i.data[..];
    let n = d.len();
    let all = [n];
    let fce = run_fce(c, d, &all, &mut fails);
    let fce_b = run_fce(c, d, &i.plan_b, &mut fails);
    let incr_ok = !c.no_incr;
    let (inc, inc_b) = if incr_ok {
        (run_incr(c, d, &all, true, &mut fails), run_incr(c, d, &i.plan_a, i.pick % 2 == 0, &mut fails))
    } else {
        Default::default()
    };
    if fce != fce_b {
        fails.push(("C02", format!("all at once / in pieces: {}", diff(&fce, &fce_b))));
    }
    if inc != inc_b {
        fails.push(("C03", format!("one slice / in pieces: {}", diff(&inc, &inc_b))));
    }
    // the rule
    let want = c.reference(d);
    let ends: Vec<usize> = want.iter().map(|c| c.end).collect();
    let want_fce = Run { cuts: ends.clone(), err: None };
    let want_inc = Run { cuts: if incr_ok { c.reference_incr(d) } else { vec![] }, err: None };
    for (name, r, w) in [("find_chunk_edge, all at once", &fce, &want_fce), ("find_chunk_edge, in pieces", &fce_b, &want_fce), ("push, one slice", &inc, &want_inc), ("push, in pieces", &inc_b, &want_inc)] {
        if r != w {
            fails.push((c.prop, format!("{}: found / expected: {}", name, diff(r, w))));
        }
    }
    // the interfaces against each other
    if incr_ok {
        if !c.late {
            for (a, b) in [(&fce, &inc), (&fce_b, &inc_b), (&fce_b, &inc), (&fce, &inc_b)] {
                if a != b {
                    fails.push(("C04", format!("find_chunk_edge / push: {}", diff(a, b))));
                    break;
                }
            }
        } else {
            // push reports the matching byte (known finding); anything else must agree
            for r in [&inc, &inc_b] {
                let mut s = 0;
                let mut k = 0;
                loop {
                    let got = r.cuts.get(k).copied();
                    let mut sink = vec![];
                    let e = c.algo.fce();
                    drop(e);
                    let f = first_fce(c, &d[s..], &mut sink);
                    let m = (c.first)(&d[s..]);
                    let expect = match (f, m) {
                        (Ok(Some(e)), Some(m)) if m.matched && m.end == e => Some(s + e - 1),
                        (Ok(Some(e)), _) => Some(s + e),
                        _ => None,
                    };
                    if got != expect || f.is_err() != (r.err.is_some() && got.is_none()) {
                        fails.push(("C04", format!("chunk at {}: push reports {:?}, find_chunk_edge {:?} from there", s, got, f)));
                        break;
                    }
                    match got {
                        Some(g) if g > s || k == 0 => s = g,
                        Some(g) if g == s => {}
                        _ => break,
                    }
                    k += 1;
                    if k > 40 {
                        break;
                    }
                }
            }
        }
    }
    // iterators
    if incr_ok {
        iterators(c, i, &mut fails);
    }
    // fresh start after a cut
    if c.zstd_mask.is_none() {
        if fce.err.is_none() && !fce.cuts.is_empty() {
            let k = i.pick % fce.cuts.len();
            let p = fce.cuts[k];
            let r = run_fce(c, &d[p..], &[n - p], &mut vec![]);
            let got = Run { cuts: r.cuts.iter().map(|x| x + p).collect(), err: r.err };
            let was = Run { cuts: fce.cuts[k + 1..].to_vec(), err: None };
            if got != was {
                fails.push(("C06", format!("find_chunk_edge after the cut at {}: continuing / starting afresh: {}", p, diff(&was, &got))));
            }
        }
        for r in [&inc, &inc_b] {
            if r.err.is_none() && !r.cuts.is_empty() {
                let k = i.pick % r.cuts.len();
                let p = r.cuts[k];
                let q = run_incr(c, &d[p..], &[n - p], true, &mut vec![]);
                let got = Run { cuts: q.cuts.iter().map(|x| x + p).collect(), err: q.err };
                let was = Run { cuts: r.cuts[k + 1..].to_vec(), err: None };
                if got != was {
                    fails.push(("C06", format!("push after the cut at {}: continuing / starting afresh: {}", p, diff(&was, &got))));
                    break;
                }
            }
        }
    }
    // window locality
    if c.window > 0 && n > c.window {
        locality(c, i, &fce, &inc, &mut fails);
    }
    // limits
    if c.has_limits {
        for (name, r) in [("find_chunk_edge", &fce), ("find_chunk_edge", &fce_b), ("push", &inc), ("push", &inc_b)] {
            let mut s = 0;
            for &e in &r.cuts {
                if e < s || !(c.cut_ok)(e - s) {
                    fails.push(("C08", format!("{}: chunk {}..{} of {} bytes", name, s, e, e as i64 - s as i64)));
                    break;
                }
                s = e;
            }
            if r.err.is_none() && !(name == "push" && !incr_ok) && !(c.rest_ok)(n - s) {
                fails.push(("C08", format!("{}: no cut in the {} bytes from {}", name, n - s, s)));
            }
        }
    }
    fails
}

fn first_fce(c: &Case, d: &[u8], _: &mut Vec<Fail>) -> Result<Option<usize>, ()> {
    let mut f = c.algo.fce();
    guarded(|| f.find(d).0).map_err(|_| ())
}

fn iterators(c: &Case, i: &Input, fails: &mut Vec<Fail>) {
    let d = &i.data[..];
    for strict in [false, true] {
        // what push says
        let mut f = c.algo.incr();
        let mut slices: Vec<Vec<u8>> = vec![];
        let mut s = 0;
        let model = guarded(|| {
            let mut calls = 0;
            while strict || s < d.len() {
                calls += 1;
                if calls > 2 * d.len() + 4 {
                    return None;
                }
                match f.push(&d[s..]) {
                    Some(l) => {
                        slices.push(d[s..s + l].to_vec());
                        s += l;
                    }
                    None => {
                        if !strict {
                            slices.push(d[s..].to_vec());
                            s = d.len();
                        }
                        break;
                    }
                }
            }
            Some(f.push(&i.extra))
        });
        let take = i.pick % 3 == 0;
        let got = guarded(|| if strict { c.algo.slices_strict(d, &i.extra, take) } else { c.algo.slices(d, &i.extra) });
        let name = if strict { "iter_slices_strict" } else { "iter_slices" };
        let o = match got {
            Err(e) => {
                fails.push(("C05", format!("{} {}", name, e)));
                continue;
            }
            Ok(o) => o,
        };
        let mut bad = vec![];
        if !o.ended {
            bad.push("does not end".to_string());
        }
        let mut cat = o.slices.concat();
        if strict {
            cat.extend_from_slice(&o.rem);
        }
        if o.ended && cat != d {
            bad.push(format!("slices of {:?} bytes{} do not make up the {} bytes of data", o.slices.iter().map(|s| s.len()).take(20).collect::<Vec<_>>(), if strict { format!(" and a rest of {}", o.rem.len()) } else { String::new() }, d.len()));
        }
        if !strict && o.ended && !o.rem.is_empty() {
            bad.push(format!("leaves {} bytes", o.rem.len()));
        }
        if strict && take && !o.rem2.is_empty() {
            bad.push(format!("take_rem leaves {} bytes", o.rem2.len()));
        }
        if let (Ok(Some(after)), true) = (&model, o.ended) {
            if o.slices != slices {
                bad.push(format!("slice lengths {:?}, push reports {:?}", o.slices.iter().map(|s| s.len()).take(20).collect::<Vec<_>>(), slices.iter().map(|s| s.len()).take(20).collect::<Vec<_>>()));
            } else if o.after != *after {
                bad.push(format!("the chunker handed back then reports {:?} instead of {:?}", o.after, after));
            }
        }
        for b in bad {
            fails.push(("C05", format!("{} {}", name, b)));
        }
    }
}

fn locality(c: &Case, i: &Input, fce: &Run, inc: &Run, fails: &mut Vec<Fail>) {
    let d = &i.data[..];
    let n = d.len();
    let flip = 1u8.max(i.extra.first().copied().unwrap_or(0x5a));
    if c.zstd_mask.is_some() {
        let p = i.pick % n;
        let mut v = d.to_vec();
        v[p] ^= flip;
        let a = run_fce(c, &v, &i.plan_b, &mut vec![]);
        let b = run_incr(c, &v, &i.plan_a, true, &mut vec![]);
        for (name, o, r) in [("find_chunk_edge", fce, &a), ("push", inc, &b)] {
            let far = |r: &Run| -> Vec<usize> { r.cuts.iter().copied().filter(|&e| e <= p || e > p + 32).collect() };
            if o.err.is_none() && r.err.is_none() && far(o) != far(r) {
                fails.push(("C07", format!("{}: changing byte {} (xor {:#x}) changes cuts away from it: {} / {}", name, p, flip, short(&far(o)), short(&far(r)))));
            }
        }
        return;
    }
    // a chunk (or the rest) longer than the window
    for (name, r) in [("find_chunk_edge", fce), ("push", inc)] {
        if r.err.is_some() {
            continue;
        }
        let mut s = 0;
        let mut chunks = vec![];
        for e in r.cuts.iter().copied().chain(Some(n)) {
            if e > s + c.window {
                chunks.push(s);
            }
            s = e;
        }
        if chunks.is_empty() {
            continue;
        }
        let s = chunks[i.pick % chunks.len()];
        let first = |x: &[u8]| {
            if name == "push" {
                let mut f = c.algo.incr();
                guarded(|| f.push(x))
            } else {
                let mut f = c.algo.fce();
                guarded(|| f.find(x).0)
            }
        };
        let o = first(&d[s..]);
        let len = o.clone().ok().flatten().unwrap_or(n - s);
        if len <= c.window {
            continue;
        }
        let p = (i.pick / 7) % (len - c.window);
        let mut v = d[s..].to_vec();
        v[p] ^= flip;
        let q = first(&v);
        if let (Ok(a), Ok(b)) = (o, q) {
            let local = |x: Option<usize>| x.map_or(true, |x| x > p + c.window);
            if local(a) && local(b) && a != b {
                fails.push(("C07", format!("{}: chunk at {}: changing byte {} (xor {:#x}) moves its end from {:?} to {:?}, window {}", name, s, s + p, flip, a, b, c.window)));
            }
        }
    }
}

// generation

fn gen_data(c: &Case, r: &mut Rng, big: bool) -> Vec<u8> {
    let mut d = vec![];
    let target = if big {
        (1usize << (c.rare + r.below(3) as u32).min(18)) + r.below(100) as usize
    } else {
        match r.below(6) {
            0 => r.below(6) as usize,
            1 => r.below(40) as usize,
            2 if !c.lens.is_empty() => {
                let x = *r.pick(&c.lens);
                (if x > 3000 && r.below(if dict().is_empty() { 8 } else { 3 }) != 0 { r.below(500) as usize } else { x.min(1 << 20) }) + r.below(3) as usize
            }
            3 => (8usize << c.rare.min(8)) + r.below(64) as usize,
            _ => r.below(600) as usize,
        }
    };
    let mut palette: Vec<u8> = vec![r.byte()];
    for _ in 0..2 + r.below(4) {
        palette.push(*r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, 0x61, 17, 31, 224]));
    }
    for x in dict() {
        if *x < 256 && r.below(2) == 0 {
            palette.push(*x as u8);
        }
    }
    if r.below(if c.alg == "buzhash" { 60 } else { 300 }) == 0 {
        // long, with as few cuts as possible, then anything
        let b = *r.pick(&palette);
        let n = *r.pick(&[65530u64, 70000, 131072]) + r.below(20);
        d.push(0xff);
        for _ in 0..n {
            d.push(b);
        }
        if r.below(2) == 0 {
            for _ in 0..r.below(3000) {
                d.push(r.byte());
            }
        }
        return d;
    }
    let style = r.below(8);
    while d.len() < target {
        let left = target - d.len();
        let long = if target > 5000 { 1 + r.below(target as u64 / 8) } else { 1 };
        let k = long as usize - 1 + (match r.below(4) { 0 => 1, 1 => r.below(8), 2 => r.below(70), _ => r.below(300) } as usize + 1);
        let k = k.min(left);
        let kind = if style < 3 { style * 3 } else { r.below(10) };
        match kind {
            0 | 1 | 2 => (0..k).for_each(|_| d.push(r.byte())),
            3 | 4 => (0..k).for_each(|_| d.push(*r.pick(&palette))),
            5 => { let b = *r.pick(&palette); (0..k).for_each(|_| d.push(b)) }
            6 if !c.hints.is_empty() => d.extend_from_slice(r.pick(&c.hints)),
            6 => { let b = r.byte(); (0..k.min(12)).for_each(|j| d.push(b.wrapping_add(j as u8))) }
            7 => { let mut b = r.byte(); (0..k.min(256)).for_each(|_| { b = b.saturating_add(1 + r.below(3) as u8); d.push(b) }) }
            8 if !d.is_empty() => { let p = r.below(d.len() as u64) as usize; let e = (p + k).min(d.len()); let x = d[p..e].to_vec(); d.extend_from_slice(&x) }
            _ if !c.hints.is_empty() => { let h = r.pick(&c.hints); let p = r.below(h.len() as u64) as usize; d.extend_from_slice(&h[p..]) }
            _ => (0..k).for_each(|_| d.push(r.byte())),
        }
    }
    d
}

fn gen_plan(c: &Case, r: &mut Rng, n: usize, cuts: &[usize]) -> Vec<usize> {
    let mut out = vec![];
    match r.below(7) {
        0 if n <= 3000 => out = vec![1; n],
        1 => {
            // borders at cuts and limits
            let mut b: Vec<usize> = vec![];
            let mut s = 0;
            for &e in cuts.iter().chain(Some(&n)).take(60) {
                for &o in [0usize, 1, 2].iter().chain(c.lens.iter()) {
                    if r.below(3) == 0 {
                        b.push((s + o).min(n));
                    }
                    if r.below(6) == 0 {
                        b.push(e.saturating_sub(o).min(n));
                    }
                }
                s = e;
            }
            b.sort();
            let mut p = 0;
            for x in b {
                if x > p || r.below(3) == 0 {
                    out.push(x - p);
                    p = x;
                }
            }
        }
        2 => {
            let p = r.below(n as u64 + 1) as usize;
            out = vec![p];
        }
        3 => {
            let k = 1 + r.below(40) as usize;
            out = vec![k; n / k + 1];
        }
        4 => {
            // few large pieces, some empty
            let mut p = 0;
            while p < n && out.len() < 400 {
                let k = if r.below(4) == 0 { 0 } else { r.below(n as u64 / 3 + 2) as usize };
                out.push(k);
                p += k;
            }
        }
        _ => {
            let mut p = 0;
            let m = *r.pick(&[2u64, 5, 20, 80, 500]);
            while p < n && out.len() < 3000 {
                let k = r.below(m) as usize;
                out.push(k);
                p += k;
            }
        }
    }
    out
}

fn gen(c: &Case, r: &mut Rng) -> Input {
    let big = r.below(if c.hints.is_empty() || c.rare <= 8 { 6 } else { 40 }) == 0;
    let data = gen_data(c, r, big);
    let cuts: Vec<usize> = c.reference(&data).iter().map(|c| c.end).collect();
    let plan_a = gen_plan(c, r, data.len(), &cuts);
    let plan_b = gen_plan(c, r, data.len(), &cuts);
    let k = r.below(40) as usize;
    let extra = (0..k).map(|_| r.byte()).collect();
    Input { data, plan_a, plan_b, extra, pick: r.below(1 << 30) as usize }
}

// shrinking

fn shrink(c: &Case, prop: &str, mut i: Input, until: Instant) -> Input {
    let fails = |i: &Input| checks(c, i).iter().any(|f| f.0 == prop);
    for plan in [vec![], vec![1; i.data.len().min(4000)]] {
        for which in 0..3 {
            let mut j = i.clone();
            if which != 1 { j.plan_a = plan.clone(); }
            if which != 0 { j.plan_b = plan.clone(); }
            if j.plan_a.len() + j.plan_b.len() < i.plan_a.len() + i.plan_b.len() && fails(&j) {
                i = j;
            }
        }
    }
    {
        let j = Input { extra: vec![], ..i.clone() };
        if fails(&j) { i = j; }
    }
    let mut step = i.data.len();
    while step > 0 && Instant::now() < until {
        let mut p = 0;
        let mut any = false;
        while p < i.data.len() && Instant::now() < until {
            let mut j = i.clone();
            j.data.drain(p..(p + step).min(i.data.len()));
            let mut picks = vec![j.pick];
            if prop == "C06" || prop == "C07" { picks = vec![0, j.pick, j.pick / 2, 7, 14]; }
            let mut ok = false;
            for k in picks {
                j.pick = k;
                if fails(&j) {
                    ok = true;
                    break;
                }
            }
            if ok {
                i = j;
                any = true;
            } else {
                p += step;
            }
        }
        if !any || step > i.data.len() {
            step /= 2;
        }
    }
    for p in 0..i.data.len() {
        if Instant::now() > until { break; }
        if i.data[p] != 0 {
            let mut j = i.clone();
            j.data[p] = 0;
            if fails(&j) { i = j; }
        }
    }
    for b in 0..2 {
        let mut p = 0;
        while p < (if b == 0 { i.plan_a.len() } else { i.plan_b.len() }) && Instant::now() < until {
            let mut j = i.clone();
            let v = if b == 0 { &mut j.plan_a } else { &mut j.plan_b };
            let x = v.remove(p);
            if p < v.len() { v[p] += x; }
            if fails(&j) { i = j; } else { p += 1; }
        }
    }
    // drop what lies past the data
    for v in [&mut i.plan_a, &mut i.plan_b] {
        let mut s = 0;
        let mut k = 0;
        while k < v.len() && s < i.data.len() { s += v[k]; k += 1; }
        let tail_empty = v[k..].iter().all(|x| *x == 0);
        if !tail_empty || v.len() > k + 3 { v.truncate(k); }
    }
    i
}

// output

fn hex(d: &[u8]) -> String { d.iter().map(|b| format!("{:02x}", b)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect() }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn list(v: &[usize]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
fn unlist(s: &str) -> Vec<usize> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("number")).collect() }

#[derive(Clone)]
struct Found { prop: String, alg: String, cfg: u64, desc: String, input: Option<Input>, msg: String }
fn show(f: &Found) -> String {
    let mut s = format!("{{\"prop\":{},\"alg\":{},\"cfg\":{},\"desc\":{},\"msg\":{}", js(&f.prop), js(&f.alg), f.cfg, js(&f.desc), js(&f.msg));
    if let Some(i) = &f.input {
        s += &format!(",\"data\":\"{}\",\"plan_a\":\"{}\",\"plan_b\":\"{}\",\"extra\":\"{}\",\"pick\":{}", hex(&i.data), list(&i.plan_a), list(&i.plan_b), hex(&i.extra), i.pick);
    }
    s + "}"
}

struct Shared {
    found: Mutex<BTreeMap<(String, String), Found>>,
    jobs: Mutex<BTreeMap<String, u64>>,
    runs: AtomicU64,
    cutting: AtomicU64,
    bytes: AtomicU64,
    samples: Mutex<Vec<String>>,
    stop: AtomicBool,
}

fn write_out(out: &str, sh: &Shared, note: &str) {
    let found = sh.found.lock().unwrap();
    let jobs = sh.jobs.lock().unwrap();
    let s = format!(
        "{{\"inputs\":{},\"cutting\":{},\"bytes\":{},\"note\":{},\"jobs\":{{{}}},\"samples\":[{}],\"failures\":[\n{}\n]}}\n",
        sh.runs.load(Ordering::Relaxed), sh.cutting.load(Ordering::Relaxed), sh.bytes.load(Ordering::Relaxed), js(note),
        jobs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        sh.samples.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        found.values().map(show).collect::<Vec<_>>().join(",\n")
    );
    std::fs::write(format!("{}.tmp", out), s).expect("write");
    std::fs::rename(format!("{}.tmp", out), out).expect("rename");
}

type Current = Arc<Mutex<Option<(Instant, String, u64, String, Input)>>>;
/// what an abort (memory exhausted, stack overflow) needs to say which input did it
static ABORT: OnceLock<(Arc<Shared>, Vec<Current>, String)> = OnceLock::new();
thread_local!(static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) });
extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn _exit(rc: i32) -> !;
}
extern "C" fn on_abort(_: i32) {
    if let Some((sh, current, out)) = ABORT.get() {
        let g = current.get(ME.with(|m| m.get())).and_then(|c| c.try_lock().ok().and_then(|g| g.clone()));
        if let (Some((_, alg, cfg, desc, i)), Ok(mut found)) = (g, sh.found.try_lock()) {
            found.entry(("C01".into(), alg.clone())).or_insert(Found { prop: "C01".into(), alg, cfg, desc, input: Some(i), msg: "a call aborts the process (out of memory or stack)".into() });
            drop(found);
            write_out(out, sh, "abort");
            unsafe { _exit(0) }
        }
        if let Ok(mut found) = sh.found.try_lock() {
            found.entry(("C01".into(), "fixed".into())).or_insert(Found { prop: "C01".into(), alg: "fixed".into(), cfg: 0, desc: "fixed calls".into(), input: None, msg: "a call aborts the process (out of memory or stack)".into() });
            drop(found);
            write_out(out, sh, "abort in fixed calls");
            unsafe { _exit(0) }
        }
    }
    unsafe { _exit(134) }
}

fn arg(args: &[String], k: &str) -> Option<String> { args.iter().position(|a| a == k).and_then(|p| args.get(p + 1).cloned()) }

/// long streams: large --algs a,b --secs N --out F
fn large(args: &[String]) {
    let algs: Vec<String> = arg(args, "--algs").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let until = Instant::now() + Duration::from_secs(arg(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(60));
    let hs: Vec<_> = large::cases(&algs)
        .into_iter()
        .map(|c| std::thread::spawn(move || (c.alg, c.desc.clone(), c.run(until))))
        .collect();
    let n = hs.len();
    let mut out = vec![];
    for h in hs {
        if let Ok((alg, desc, fails)) = h.join() {
            for (p, msg) in fails {
                out.push(show(&Found { prop: p.into(), alg: alg.into(), cfg: 0, desc: desc.clone(), input: None, msg }));
            }
        }
    }
    std::fs::write(arg(args, "--out").expect("--out"), format!("{{\"cases\":{},\"failures\":[\n{}\n]}}\n", n, out.join(",\n"))).expect("write");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    DICT.set(unlist(&arg(&args, "--dict").unwrap_or_default()).iter().map(|x| *x as u64).collect()).unwrap();
    match args.get(1).map(|s| &s[..]) {
        Some("run") => run(&args),
        Some("one") => one(&args),
        Some("large") => large(&args),
        Some("fixed") => {
            let mut bad = 0;
            for (p, m) in fixed::all(&hash_roll_rounds(&args)) {
                println!("{{\"prop\":{},\"msg\":{}}}", js(p), js(&m));
                bad = 1;
            }
            std::process::exit(bad)
        }
        Some("known") => {
            for (id, ok, m) in fixed::known() {
                println!("{} {} {}", id, if ok { "reproduced" } else { "absent" }, m);
            }
        }
        _ => {
            eprintln!("replay run|one|fixed|known");
            std::process::exit(2)
        }
    }
}

fn hash_roll_rounds(args: &[String]) -> u64 { arg(args, "--rounds").map_or(2000, |s| s.parse().unwrap()) }

fn one(args: &[String]) {
    let cfg: u64 = arg(args, "--cfg").expect("--cfg").parse().unwrap();
    let c = make(&arg(args, "--alg").expect("--alg"), cfg);
    let g = |k: &str| arg(args, k).unwrap_or_default();
    let i = Input { data: unhex(&g("--data")), plan_a: unlist(&g("--plan-a")), plan_b: unlist(&g("--plan-b")), extra: unhex(&g("--extra")), pick: g("--pick").parse().unwrap_or(0) };
    println!("{}: {} bytes, expected cuts {}", c.desc, i.data.len(), short(&c.reference(&i.data).iter().map(|c| c.end).collect::<Vec<_>>()));
    let want = arg(args, "--prop");
    let mut bad = false;
    for (p, m) in checks(&c, &i) {
        if want.as_ref().map_or(true, |w| w == p) {
            println!("{} {}", p, m);
            bad = true;
        }
    }
    std::process::exit(bad as i32)
}

fn run(args: &[String]) {
    let secs: f64 = arg(args, "--secs").map_or(10.0, |s| s.parse().unwrap());
    let seed: u64 = arg(args, "--seed").map_or(1, |s| s.parse().unwrap());
    let out = arg(args, "--out").expect("--out");
    let threads: usize = arg(args, "--threads").map_or(8, |s| s.parse().unwrap());
    let hang: u64 = arg(args, "--hang").map_or(20, |s| s.parse().unwrap());
    let algs: Vec<&'static str> = match arg(args, "--algs") {
        Some(s) => ALGS.iter().copied().filter(|a| s.split(',').any(|x| x == *a)).collect(),
        None => ALGS.to_vec(),
    };
    let start = Instant::now();
    let until = start + Duration::from_secs_f64(secs);
    let sh = Arc::new(Shared { found: Default::default(), jobs: Default::default(), runs: 0.into(), cutting: 0.into(), bytes: 0.into(), samples: Default::default(), stop: false.into() });
    let next = Arc::new(AtomicU64::new(0));
    let current: Vec<Current> = (0..threads).map(|_| Arc::new(Mutex::new(None))).collect();
    let _ = ABORT.set((sh.clone(), current.clone(), out.clone()));
    unsafe { signal(6, on_abort as extern "C" fn(i32) as usize) };
    if !args.iter().any(|a| a == "--no-fixed") {
        for (p, m) in fixed::all(&500) {
            sh.found.lock().unwrap().entry((p.to_string(), "fixed".into())).or_insert(Found { prop: p.into(), alg: "fixed".into(), cfg: 0, desc: "fixed calls".into(), input: None, msg: m });
        }
    }
    let mut hs = vec![];
    for t in 0..threads {
        let (sh, next, algs, cur) = (sh.clone(), next.clone(), algs.clone(), current[t].clone());
        hs.push(std::thread::spawn(move || {
            ME.with(|m| m.set(t));
            while Instant::now() < until && !sh.stop.load(Ordering::Relaxed) {
                let k = next.fetch_add(1, Ordering::Relaxed);
                let alg = algs[(k % algs.len() as u64) as usize];
                let round = k / algs.len() as u64;
                let cfg = seed.wrapping_mul(1_000_003).wrapping_add(round);
                let job = Instant::now();
                let c = match guarded(|| make(alg, cfg)) {
                    Ok(c) => c,
                    Err(e) => {
                        for p in ["C01", "C21"] {
                            sh.found.lock().unwrap().entry((p.into(), alg.into())).or_insert(Found { prop: p.into(), alg: alg.into(), cfg, desc: "constructor".into(), input: None, msg: format!("constructor {}", e) });
                        }
                        continue;
                    }
                };
                let mut r = Rng::new(cfg ^ 0xabcdef);
                for n in 0..60 {
                    let i = gen(&c, &mut r);
                    *cur.lock().unwrap() = Some((Instant::now(), alg.into(), cfg, c.desc.clone(), i.clone()));
                    let fs = checks(&c, &i);
                    sh.runs.fetch_add(1, Ordering::Relaxed);
                    sh.bytes.fetch_add(i.data.len() as u64, Ordering::Relaxed);
                    if !c.reference(&i.data).is_empty() {
                        sh.cutting.fetch_add(1, Ordering::Relaxed);
                        let mut s = sh.samples.lock().unwrap();
                        if round == 0 && n > 3 && i.data.len() < 60 && !i.data.is_empty() && s.len() < 6 {
                            s.push(format!("{}: data {}, pieces {:?} / {:?}", c.desc, hex(&i.data), i.plan_a, i.plan_b));
                        }
                    }
                    for (p, m) in fs {
                        let mut found = sh.found.lock().unwrap();
                        let e = found.entry((p.to_string(), alg.to_string()));
                        let new = Found { prop: p.into(), alg: alg.into(), cfg, desc: c.desc.clone(), input: Some(i.clone()), msg: m };
                        e.and_modify(|o| if o.input.as_ref().map_or(false, |x| x.data.len() > i.data.len()) { *o = new.clone() }).or_insert(new);
                    }
                    *cur.lock().unwrap() = None;
                    if job.elapsed() > Duration::from_millis(1500) || Instant::now() > until {
                        break;
                    }
                }
                *sh.jobs.lock().unwrap().entry(alg.into()).or_insert(0) += 1;
            }
        }));
    }
    // a call that never returns
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        for c in &current {
            let g = c.lock().unwrap().clone();
            if let Some((at, alg, cfg, desc, i)) = g {
                if at.elapsed() > Duration::from_secs(hang) {
                    let prop = make(&alg, cfg).prop;
                    for p in ["C01", "C05", prop] {
                        sh.found.lock().unwrap().entry((p.into(), alg.clone())).or_insert(Found { prop: p.into(), alg: alg.clone(), cfg, desc: desc.clone(), input: Some(i.clone()), msg: format!("a call does not return within {} s", hang) });
                    }
                    write_out(&out, &sh, "hang");
                    std::process::exit(0);
                }
            }
        }
    }
    // smaller inputs
    let list: Vec<((String, String), Found)> = sh.found.lock().unwrap().clone().into_iter().collect();
    let cap = Instant::now() + Duration::from_secs(8);
    let hs: Vec<_> = list.into_iter().filter(|(_, f)| f.input.is_some()).map(|(k, f)| {
        let sh = sh.clone();
        std::thread::spawn(move || {
            let c = make(&f.alg, f.cfg);
            let i = shrink(&c, &f.prop, f.input.clone().unwrap(), cap.min(Instant::now() + Duration::from_secs(3)));
            if let Some((_, m)) = checks(&c, &i).into_iter().find(|x| x.0 == f.prop) {
                sh.found.lock().unwrap().insert(k, Found { input: Some(i), msg: m, ..f });
            }
        })
    }).collect();
    for h in hs { let _ = h.join(); }
    write_out(&out, &sh, "");
}
