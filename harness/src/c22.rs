//! C22: an inline vector behaves like a growable vector. Shared with the harness of the build without std.
use crate::fw::*;
use basic_dsp_vector::inline_vector::InlineVector;
use std::panic::{catch_unwind, AssertUnwindSafe};
type I = InlineVector<f64>;
fn same(v: &I, w: &Vec<f64>) -> R {
    eq("len", v.len(), w.len())?;
    eq("is_empty", v.is_empty(), w.is_empty())?;
    ensure(v.capacity() >= v.len(), "capacity below length")?;
    eq("[..]", &v[..], &w[..])?;
    eq("iter", v.iter().cloned().collect::<Vec<_>>(), w.clone())?;
    for i in 0..w.len() {
        eq("[i]", v[i], w[i])?;
        eq("[i..]", &v[i..], &w[i..])?;
        eq("[..i]", &v[..i], &w[..i])?;
    }
    eq("clone", &v.clone()[..], &w[..])
}
fn gone<A, F: FnOnce() -> A>(f: F) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
fn create(kind: usize, n: usize) -> (I, Vec<f64>) {
    let cap = I::max_capacity();
    match kind {
        0 => (I::empty(), vec![]),
        1 => (I::with_elem(5.0), vec![5.0]),
        2 => { let n = n.min(cap); (I::of_size(7.0, n), vec![7.0; n]) }
        3 => (I::with_capacity(n), vec![]),
        4 => (I::with_default_capcacity(), vec![]),
        _ => { let n = n.min(cap); ((0..n).map(|i| i as f64).collect(), (0..n).map(|i| i as f64).collect()) }
    }
}
pub fn run(ctx: &Ctx) {
    let cap = I::max_capacity();
    let sizes: Vec<usize> = (0..6).chain(30..34).chain(60..70).chain([100, 127, 128, 129, 300]).collect();
    for kind in 0..6 { for &n in &sizes {
        ctx.case(format!("create/{} n={}", kind, n), true, || { let (v, w) = create(kind, n); same(&v, &w) });
        for &l in &sizes {
            ctx.case(format!("resize kind={} n={} to={}", kind, n, l), true, || {
                let (mut v, mut w) = create(kind, n);
                let c = v.capacity();
                let r = v.try_resize(l);
                if l <= c { eq("result", r.is_ok(), true)?; w.resize(l, 0.0); } else { eq("result", r.is_ok(), false)?; }
                same(&v, &w)
            });
        }
        // pushing up to and beyond the inline capacity
        for &m in &sizes {
            ctx.case(format!("push kind={} n={} more={}", kind, n, m), true, || {
                let (mut v, mut w) = create(kind, n);
                for i in 0..m { let i = i as f64;
                    if v.len() >= cap { ensure(gone(|| v.push(i)), "pushed beyond the capacity")?; same(&v, &w)?; break; }
                    v.push(i); w.push(i);
                }
                same(&v, &w)?;
                for _ in 0..m / 2 + 1 { eq("pop", v.pop(), w.pop())?; }
                same(&v, &w)
            });
        }
    }}
    for &n in &sizes { for &m in &sizes {
        if n + m > cap { continue; }
        ctx.case(format!("append n={} m={}", n, m), true, || {
            let (mut v, mut w) = create(5, n);
            let (mut v2, mut w2) = create(5, m);
            v.append(&mut v2); w.append(&mut w2);
            same(&v2, &w2)?;
            same(&v, &w)
        });
    }}
    let count = if ctx.thorough { 20000 } else { 3000 };
    for k in 0..count {
        let seed = ctx.seed * 1_000_000 + k;
        ctx.case(format!("history seed={}", seed), true, || {
            let mut r = Rng::new(seed);
            let n0 = [0, 1, 3, 62, 63, 64, 65, 70][r.below(8)];
            let (mut v, mut w) = create(r.below(6), n0);
            let mut ops = vec![];
            for i in 0..30 { let i = i as f64;
                let op = r.below(10);
                ops.push(op);
                let len = w.len();
                match op {
                    0 | 1 => if len < cap { v.push(i); w.push(i) } else { ensure(gone(|| v.push(i)), "pushed beyond the capacity")? },
                    2 => eq("pop", v.pop(), w.pop())?,
                    3 => if len > 0 { let p = r.below(len); eq("remove", v.remove(p), w.remove(p))? } else { ensure(gone(|| v.remove(0)), "removed from nothing")? },
                    4 => { let p = r.below(len + 1); if len < cap { v.insert(p, -i); w.insert(p, -i) } }
                    5 => { let l = r.below(70); let c = v.capacity(); let ok = v.try_resize(l).is_ok(); eq("resize", ok, l <= c)?; if ok { w.resize(l, 0.0) } }
                    6 => { let (mut a, mut b) = create(5, r.below(4)); if len + b.len() <= cap { v.append(&mut a); w.append(&mut b); eq("appended", a.len(), 0)? } }
                    7 => { for x in v.iter_mut() { *x += 1.0 } for x in w.iter_mut() { *x += 1.0 } }
                    8 => if len > 0 { let p = r.below(len); v[p] = 100.0 + i; w[p] = 100.0 + i; v[p..][0] += 1.0; w[p..][0] += 1.0; let a = v[..p + 1].len(); eq("len", a, p + 1)?; v[..p + 1][p] += 1.0; w[..p + 1][p] += 1.0; v[..][p] += 1.0; w[..][p] += 1.0; } else { ensure(gone(|| v[0] = 1.0), "[0] of an empty vector")? },
                    _ => { v = v.clone() }
                }
                same(&v, &w).map_err(|e| format!("{} after {:?}", e, ops))?;
            }
            Ok(())
        });
    }
    // elements with a destructor are dropped exactly once
    for &n in &sizes { if n <= cap {
        ctx.case(format!("drop n={}", n), true, || {
            let rc = std::rc::Rc::new(());
            {
                let mut v: InlineVector<std::rc::Rc<()>> = InlineVector::empty();
                for _ in 0..n { v.push(rc.clone()); }
                eq("alive", std::rc::Rc::strong_count(&rc), n + 1)?;
                let w = v.clone();
                eq("alive", std::rc::Rc::strong_count(&rc), 2 * n + 1)?;
                drop(w);
                if n > 0 { drop(v.remove(0)); drop(v.pop()); }
                eq("alive", std::rc::Rc::strong_count(&rc), n.saturating_sub(2) + 1)?;
            }
            eq("alive", std::rc::Rc::strong_count(&rc), 1)
        });
    }}
}
