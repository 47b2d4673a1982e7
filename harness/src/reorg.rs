//! C05 - C10: reorganisation of points.
use crate::fw::*;
use crate::mk::*;
use crate::{inv, over_storage, vec_storage, box_storage};
use basic_dsp_vector::*;

fn lens(ctx: &Ctx) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if ctx.thorough { 130 } else { 41 }).collect();
    v.extend([63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001]);
    if ctx.thorough { v.extend([2047, 2048, 2049, 4999, 5000]); }
    v.sort(); v.dedup(); v
}
fn perm<F: Fn(usize, usize) -> usize>(x: &[f64], cplx: bool, f: F) -> Vec<f64> {
    let p = pts(x, cplx); let n = p.len();
    let mut o = p.clone();
    for i in 0..n { o[f(i, n)] = p[i].clone(); }
    flat(&o)
}
macro_rules! each { ($ctx:expr, $f:ident) => { $f::<f32>($ctx); $f::<f64>($ctx); } }

// ---------------------------------------------------------------- C05
fn swap_t<T: Tt>(ctx: &Ctx) {
    macro_rules! go { ($n:expr, $conv:ident, $cplx:expr, $op:ident, $fwd:expr, [$($more:ident)*]) => {
        for &n in &lens(ctx) { for kind in 0..3 { for slack in [0usize, 1, 2, 5] {
            ctx.case(format!("{}/{} {} points={} kind={} slack={}", stringify!($op), $n, T::NAME, n, kind, slack), n > 0, || {
                let x = iota(n * if $cplx { 2 } else { 1 });
                over_storage!(T, kind, &x, slack, $conv, |v| {
                    v.$op();
                    let want = perm(&x, $cplx, |i, n| (i + if $fwd { n / 2 } else { (n + 1) / 2 }) % n);
                    cmp("result", &f64s(v.data(..)), &want, 0.0)?;
                    $( v.$more(); cmp(concat!("after ", stringify!($more)), &f64s(v.data(..)), &x, 0.0)?; )*
                    let l = v.len();
                    let all = f64s(&v.data[..]);
                    for i in l..all.len() { if all[i] != 1000.0 + (i - l) as f64 { return Err(format!("storage behind the valid length changed at {}", i)); } }
                    inv!(v); Ok(())
                })
            });
        }}}
    }}
    go!("real", to_real_time_vec, false, swap_halves, true, []);
    go!("realf", to_real_freq_vec, false, swap_halves, true, []);
    go!("complex", to_complex_time_vec, true, swap_halves, true, []);
    go!("complexf", to_complex_freq_vec, true, swap_halves, true, [ifft_shift]);
    go!("complexf", to_complex_freq_vec, true, fft_shift, true, [ifft_shift]);
    go!("complexf", to_complex_freq_vec, true, ifft_shift, false, [fft_shift]);
}
fn swap_mat<T: Tt>(ctx: &Ctx) {
    use basic_dsp_matrix::*;
    for n in 0..12usize { for rows in 0..4usize { for op in 0..3 {
        ctx.case(format!("matrix/{} {} points={} rows={}", op, T::NAME, n, rows), n > 0 && rows > 0, || {
            let xs: Vec<Vec<f64>> = (0..rows).map(|r| iota(2 * n).iter().map(|v| v + 100.0 * r as f64).collect()).collect();
            let mut m = xs.iter().map(|x| ts::<T>(x).to_complex_freq_vec()).collect::<Vec<_>>().to_mat();
            match op { 0 => m.fft_shift(), 1 => m.ifft_shift(), _ => m.swap_halves() }
            for (r, row) in m.rows().iter().enumerate() {
                let want = perm(&xs[r], true, |i, n| (i + if op != 1 { n / 2 } else { (n + 1) / 2 }) % n);
                cmp("row", &f64s(row.data(..)), &want, 0.0)?;
            }
            Ok(())
        });
    }}}
}
pub fn c05(ctx: &Ctx) { each!(ctx, swap_t); each!(ctx, swap_mat); }

// ---------------------------------------------------------------- C06
fn rev_t<T: Tt>(ctx: &Ctx) {
    macro_rules! go { ($n:expr, $conv:ident, $cplx:expr) => {
        for &n in &lens(ctx) { for kind in 0..3 { for slack in [0usize, 1, 2, 5] {
            ctx.case(format!("reverse/{} {} points={} kind={} slack={}", $n, T::NAME, n, kind, slack), n > 0, || {
                let x = iota(n * if $cplx { 2 } else { 1 });
                over_storage!(T, kind, &x, slack, $conv, |v| {
                    v.reverse();
                    cmp("result", &f64s(v.data(..)), &perm(&x, $cplx, |i, n| n - 1 - i), 0.0)?;
                    v.reverse();
                    cmp("twice", &f64s(v.data(..)), &x, 0.0)?;
                    let l = v.len();
                    let all = f64s(&v.data[..]);
                    for i in l..all.len() { if all[i] != 1000.0 + (i - l) as f64 { return Err(format!("storage behind the valid length changed at {}", i)); } }
                    inv!(v); Ok(())
                })
            });
        }}}
        for n in (0..26usize).chain([60, 64, 120]) { for k in 0..=(if n > 26 { 12 } else { n + 2 }) { for slack in [0usize, 1, 2, 5] { for tl in [0usize, 1, 2, 3] {
            ctx.case(format!("split/{} {} points={} k={} slack={} targets={}", $n, T::NAME, n, k, slack, tl), n > 0 && k > 0, || {
                let st = if $cplx { 2 } else { 1 };
                let x = iota(n * st);
                let mut src = { let mut s = ts::<T>(&x); s.extend((0..slack).map(|i| T::of(1000.0 + i as f64))); s.$conv() };
                src.resize(n * st).map_err(|e| format!("{:?}", e))?;
                // targets hold stale data: tl=0 empty, 1 longer with stale data, 2 longer storage but short valid length, 3 alternating
                let per = if k > 0 { n / k * st } else { 0 };
                let mut tv: Vec<_> = (0..k).map(|i| { let z = match tl { 0 => 0, 1 => per + 4, 2 => per + 4, _ => if i % 2 == 0 { 0 } else { per + 6 } };
                    let mut t = vec![T::of(-5.0); z].$conv(); if tl == 2 { t.resize(0).unwrap(); } t }).collect();
                let lens_before: Vec<usize> = tv.iter().map(|t| t.len()).collect();
                let r = { let mut refs: Vec<&mut _> = tv.iter_mut().collect(); src.split_into(&mut refs[..]) };
                if k == 0 || n % k != 0 {
                    ensure(r == Err(ErrorReason::InvalidArgumentLength), &format!("expected InvalidArgumentLength, got {:?}", r))?;
                    for (i, t) in tv.iter().enumerate() { eq("target length after refusal", t.len(), lens_before[i])?; }
                    return Ok(());
                }
                r.map_err(|e| format!("refused: {:?}", e))?;
                let p = pts(&x, $cplx);
                for (j, t) in tv.iter().enumerate() {
                    let want: Vec<Vec<f64>> = (0..n / k).map(|i| p[i * k + j].clone()).collect();
                    cmp(&format!("target {}", j), &f64s(t.data(..)), &flat(&want), 0.0)?;
                    inv!(t);
                }
                // merge into a vector with history
                let mut m = vec![T::of(-9.0); tl * 2].$conv();
                let refs: Vec<&_> = tv.iter().collect();
                m.merge(&refs[..]).map_err(|e| format!("merge: {:?}", e))?;
                cmp("merged", &f64s(m.data(..)), &x, 0.0)?;
                let mut m2 = vec![T::of(-9.0); n * st + 3 * st].$conv();
                m2.merge(&refs[..]).map_err(|e| format!("merge: {:?}", e))?;
                cmp("merged into longer storage", &f64s(m2.data(..)), &x, 0.0)?;
                inv!(m2);
                // fixed storage of the target
                let mut mem = vec![T::of(-9.0); n * st];
                {
                    let mut srcs: Vec<Vec<T>> = tv.iter().map(|t| t.data(..).to_vec()).collect();
                    let sv: Vec<_> = srcs.iter_mut().map(|s| (&mut s[..]).$conv()).collect();
                    let refs: Vec<&_> = sv.iter().collect();
                    let mut m3 = (&mut mem[..]).$conv();
                    m3.merge(&refs[..]).map_err(|e| format!("merge slice: {:?}", e))?;
                    cmp("merged slice", &f64s(m3.data(..)), &x, 0.0)?;
                }
                Ok(())
            });
        }}}}
        for a in 0..6usize { for b in 0..6usize {
            ctx.case(format!("mergelen/{} {} a={} b={}", $n, T::NAME, a, b), a != b, || {
                let st = if $cplx { 2 } else { 1 };
                let p = ts::<T>(&iota(a * st)).$conv(); let q = ts::<T>(&iota(b * st)).$conv();
                let mut m = ts::<T>(&iota(4)).$conv();
                let r = m.merge(&[&p, &q]);
                if a != b { ensure(r == Err(ErrorReason::InvalidArgumentLength), &format!("{:?}", r))?; cmp("unchanged", &f64s(m.data(..)), &iota(4), 0.0)?; }
                else { r.map_err(|e| format!("{:?}", e))?; }
                let r = m.merge(&[]);
                ensure(r == Err(ErrorReason::InvalidArgumentLength), &format!("{:?}", r))
            });
        }}
    }}
    go!("real", to_real_time_vec, false);
    go!("complex", to_complex_time_vec, true);
    go!("complexf", to_complex_freq_vec, true);
}
pub fn c06(ctx: &Ctx) { each!(ctx, rev_t); }

// ---------------------------------------------------------------- C07
fn pad_ref(x: &[f64], cplx: bool, p: usize, o: PaddingOption) -> Vec<f64> {
    let st = if cplx { 2 } else { 1 };
    let q = pts(x, cplx); let n = q.len();
    let mut r = vec![vec![0.0; st]; p];
    for i in 0..n {
        let t = match o {
            PaddingOption::End => i,
            PaddingOption::Surround => i + (p - n + 1) / 2,
            PaddingOption::Center => if i < (n + 1) / 2 { i } else { i + p - n },
        };
        r[t] = q[i].clone();
    }
    flat(&r)
}
fn pad_t<T: Tt>(ctx: &Ctx) {
    macro_rules! go { ($n:expr, $conv:ident, $cplx:expr) => {
        for n in (0..if ctx.thorough { 40usize } else { 14 }).chain([31, 32, 33]) { for p in (0..2 * n + 6).chain([4 * n + 1, 100, 101]) { for o in [PaddingOption::End, PaddingOption::Surround, PaddingOption::Center] {
            let st = if $cplx { 2 } else { 1 };
            for kind in 0..3usize { for extra in [0usize, 1, 2, 5] {
                if kind == 0 && extra == 5 { continue; }
                ctx.case(format!("zero_pad/{} {} n={} p={} {:?} kind={} extra={}", $n, T::NAME, n, p, o, kind, extra), n > 0, || {
                    let x = iota(n * st);
                    // fixed storages get exactly the room they need plus `extra`; Vec gets `extra` spare elements
                    let slack = if kind == 0 { extra } else { (p.max(n) - n) * st + extra };
                    over_storage!(T, kind, &x, slack, $conv, |v| {
                        v.set_delta(T::of(0.5));
                        let r = v.zero_pad(p, o);
                        if p <= n {
                            ensure(r == Err(ErrorReason::InvalidArgumentLength), &format!("expected refusal, got {:?}", r))?;
                            cmp("unchanged", &f64s(v.data(..)), &x, 0.0)?;
                        } else {
                            r.map_err(|e| format!("{:?}", e))?;
                            cmp("result", &f64s(v.data(..)), &pad_ref(&x, $cplx, p, o), 0.0)?;
                            let l = v.len();
                            let all = f64s(&v.data[..]);
                            if kind > 0 { for i in l..all.len() { if all[i] != 1000.0 + (i - x.len()) as f64 { return Err(format!("storage behind the valid length changed at {}", i)); } } }
                        }
                        eq("delta", v.delta().f(), 0.5)?;
                        inv!(v); Ok(())
                    })
                });
                if kind > 0 && extra == 0 && p > n { ctx.case(format!("zero_pad_fixed/{} {} n={} p={} {:?} kind={}", $n, T::NAME, n, p, o, kind), n > 0, || {
                    let x = iota(n * st);
                    over_storage!(T, kind, &x, (p - n) * st - 1, $conv, |v| {
                        let r = v.zero_pad(p, o);
                        ensure(r == Err(ErrorReason::TypeCanNotResize), &format!("{:?}", r))?;
                        cmp("unchanged", &f64s(v.data(..)), &x, 0.0)?;
                        inv!(v); Ok(())
                    })
                }); }
            }}
            for hist in 0..5usize { for slack in [0usize, 1, 3] {
                ctx.case(format!("zero_pad_b/{} {} n={} p={} {:?} hist={} slack={}", $n, T::NAME, n, p, o, hist, slack), n > 0, || {
                    let x = iota(n * st);
                    vec_storage!(T, &x, slack, $conv, |v| {
                        let r = match hist {
                            0 => v.zero_pad_b(&mut SingleBuffer::new(), p, o),
                            1 | 2 => { let mut b = SingleBuffer::new(); let mut w = vec![T::of(7.0); (if hist == 1 { 2 * p + 7 } else { n + 1 }) * 2].$conv(); w.zero_pad_b(&mut b, 9 * p + 9 * n + 39, PaddingOption::End).unwrap(); let mut w2 = vec![T::of(-7.0); (p + 5) * st].$conv(); w2.zero_pad_b(&mut b, p + 6, PaddingOption::Center).unwrap(); v.zero_pad_b(&mut b, p, o) }
                            3 => v.zero_pad_b(&mut NoBuffer, p, o),
                            _ => v.zero_pad_b(&mut FixedLenBuffer::new(vec![T::of(-3.0); p * st + slack]), p, o),
                        };
                        if p <= n {
                            ensure(r == Err(ErrorReason::InvalidArgumentLength), &format!("expected refusal, got {:?}", r))?;
                            cmp("unchanged", &f64s(v.data(..)), &x, 0.0)?;
                        } else {
                            r.map_err(|e| format!("{:?}", e))?;
                            if v.len() > v.data.len() { return Err(format!("valid length {} exceeds storage {}", v.len(), v.data.len())); }
                            cmp("result", &f64s(v.data(..)), &pad_ref(&x, $cplx, p, o), 0.0)?;
                        }
                        inv!(v); Ok(())
                    })
                });
            }}
            ctx.case(format!("zero_pad_bfix/{} {} n={} p={} {:?}", $n, T::NAME, n, p, o), n > 0, || {
                if p <= n { return Ok(()); }
                let x = iota(n * st);
                box_storage!(T, &x, (p - n) * st + 1, $conv, |v| {
                    v.zero_pad_b(&mut FixedLenBuffer::new(vec![T::of(-3.0); p * st + 3].into_boxed_slice()), p, o).map_err(|e| format!("{:?}", e))?;
                    cmp("result", &f64s(v.data(..)), &pad_ref(&x, $cplx, p, o), 0.0)?;
                    inv!(v); Ok(())
                })
            });
        }}}
    }}
    go!("real", to_real_time_vec, false);
    go!("complex", to_complex_time_vec, true);
}
pub fn c07(ctx: &Ctx) { each!(ctx, pad_t); }

// ---------------------------------------------------------------- C08
fn il_ref(x: &[f64], cplx: bool, k: usize) -> Vec<f64> {
    let st = if cplx { 2 } else { 1 };
    let q = pts(x, cplx);
    let mut r = vec![vec![0.0; st]; q.len() * k];
    for i in 0..q.len() { r[i * k] = q[i].clone(); }
    flat(&r)
}
fn il_t<T: Tt>(ctx: &Ctx) {
    macro_rules! go { ($n:expr, $conv:ident, $cplx:expr) => {
        for n in (0..if ctx.thorough { 60usize } else { 20 }).chain([31, 32, 33, 64, 65]) { for k in 0..9usize {
            let st = if $cplx { 2 } else { 1 };
            for kind in 0..3usize { for extra in [0usize, 1, 2, 5] {
                ctx.case(format!("zero_interleave/{} {} n={} k={} kind={} extra={}", $n, T::NAME, n, k, kind, extra), n > 0, || {
                    let x = iota(n * st);
                    let slack = if kind == 0 { extra } else { (k.max(1) - 1) * n * st + extra };
                    over_storage!(T, kind, &x, slack, $conv, |v| {
                        v.zero_interleave(k as u32).map_err(|e| format!("{:?}", e))?;
                        let want = if k == 0 { x.clone() } else { il_ref(&x, $cplx, k) };
                        cmp("result", &f64s(v.data(..)), &want, 0.0)?;
                        let l = v.len();
                        let all = f64s(&v.data[..]);
                        if kind > 0 { for i in l..all.len() { if all[i] != 1000.0 + (i - x.len()) as f64 { return Err(format!("storage behind the valid length changed at {}", i)); } } }
                        inv!(v);
                        if k > 0 { v.decimatei(k as u32, 0); cmp("decimated", &f64s(v.data(..)), &x, 0.0)?; }
                        Ok(())
                    })
                });
                if kind > 0 && extra == 0 && n > 0 && k > 1 { ctx.case(format!("zero_interleave_fixed/{} {} n={} k={} kind={}", $n, T::NAME, n, k, kind), n > 0, || {
                    let x = iota(n * st);
                    over_storage!(T, kind, &x, (k - 1) * n * st - 1, $conv, |v| {
                        let r = v.zero_interleave(k as u32);
                        ensure(r == Err(ErrorReason::TypeCanNotResize), &format!("{:?}", r))?;
                        cmp("unchanged", &f64s(v.data(..)), &x, 0.0)?;
                        inv!(v); Ok(())
                    })
                }); }
            }}
            for hist in 0..4usize { for slack in [0usize, 1, 3] {
                ctx.case(format!("zero_interleave_b/{} {} n={} k={} hist={} slack={}", $n, T::NAME, n, k, hist, slack), n > 0, || {
                    let x = iota(n * st);
                    vec_storage!(T, &x, slack, $conv, |v| {
                        match hist {
                            0 => v.zero_interleave_b(&mut SingleBuffer::new(), k as u32),
                            1 | 2 => { let mut b = SingleBuffer::with_capacity(if hist == 1 { 1000 } else { 1 }); let mut w = vec![T::of(7.0); 4 * n + 4].$conv(); w.zero_interleave_b(&mut b, 2); let mut w = vec![T::of(7.5); 2 * n * k + 4].$conv(); w.zero_interleave_b(&mut b, 2); v.zero_interleave_b(&mut b, k as u32) }
                            _ => v.zero_interleave_b(&mut NoBuffer, k as u32),
                        };
                        let want = if k == 0 { x.clone() } else { il_ref(&x, $cplx, k) };
                        cmp("result", &f64s(v.data(..)), &want, 0.0)?;
                        inv!(v); Ok(())
                    })
                });
            }}
        }}
    }}
    go!("real", to_real_time_vec, false);
    go!("complex", to_complex_time_vec, true);
}
pub fn c08(ctx: &Ctx) { each!(ctx, il_t); }

// ---------------------------------------------------------------- C10
fn dec_t<T: Tt>(ctx: &Ctx) {
    macro_rules! go { ($n:expr, $conv:ident, $cplx:expr) => {
        for n in (0..if ctx.thorough { 60usize } else { 26 }).chain([64, 65, 100]) { for k in 1..9usize { for d in (0..k + 3).chain([n, n + 1]) {
            let st = if $cplx { 2 } else { 1 };
            for kind in 0..3usize { for extra in [0usize, 1, 2] {
                ctx.case(format!("decimatei/{} {} n={} k={} d={} kind={} extra={}", $n, T::NAME, n, k, d, kind, extra), n > 0, || {
                    let x = iota(n * st);
                    over_storage!(T, kind, &x, extra, $conv, |v| {
                        v.decimatei(k as u32, d as u32);
                        let p = pts(&x, $cplx);
                        let want: Vec<Vec<f64>> = (d..n).step_by(k).map(|i| p[i].clone()).collect();
                        cmp("result", &f64s(v.data(..)), &flat(&want), 0.0)?;
                        inv!(v); Ok(())
                    })
                });
            }}
        }}}
    }}
    go!("real", to_real_time_vec, false);
    go!("complex", to_complex_time_vec, true);
    go!("complexf", to_complex_freq_vec, true);
}
pub fn c10(ctx: &Ctx) { each!(ctx, dec_t); }

// ---------------------------------------------------------------- C09
fn diff_t<T: Tt>(ctx: &Ctx) {
    macro_rules! go { ($n:expr, $conv:ident, $cplx:expr) => {
        for &n in &lens(ctx) { if n > 300 { continue; } for kind in 0..3 { for slack in [0usize, 1, 2, 5] { for op in 0..4 {
            ctx.case(format!("{}/{} {} points={} kind={} slack={} seed={}", ["diff", "diff_with_start", "cum_sum", "roundtrip"][op], $n, T::NAME, n, kind, slack, ctx.seed), n > 0, || {
                let st = if $cplx { 2 } else { 1 };
                let mut rng = Rng::new(ctx.seed * 77 + n as u64);
                let x: Vec<f64> = (0..n * st).map(|_| rng.int()).collect();
                let p = pts(&x, $cplx);
                over_storage!(T, kind, &x, slack, $conv, |v| {
                    let want: Vec<Vec<f64>> = match op {
                        0 => { v.diff(); (1..n).map(|i| (0..st).map(|j| p[i][j] - p[i - 1][j]).collect()).collect() }
                        1 => { v.diff_with_start(); (0..n).map(|i| (0..st).map(|j| p[i][j] - if i > 0 { p[i - 1][j] } else { 0.0 }).collect()).collect() }
                        2 => { v.cum_sum(); (0..n).map(|i| (0..st).map(|j| (0..=i).map(|k| p[k][j]).sum()).collect()).collect() }
                        _ => { v.diff_with_start(); v.cum_sum(); p.clone() }
                    };
                    cmp("result", &f64s(v.data(..)), &flat(&want), 0.0)?;
                    let all = f64s(&v.data[..]);
                    for i in n * st..all.len() { if all[i] != 1000.0 + (i - n * st) as f64 { return Err(format!("storage behind the valid length changed at {}", i)); } }
                    inv!(v); Ok(())
                })
            });
        }}}}
    }}
    go!("real", to_real_time_vec, false);
    go!("complex", to_complex_time_vec, true);
}
pub fn c09(ctx: &Ctx) { each!(ctx, diff_t); }
