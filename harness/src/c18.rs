//! C18: symmetric spectra.
use crate::fw::*;
use crate::inv;
use crate::ops::{c, C};
use crate::tf::*;
use basic_dsp_vector::*;

fn mirror_ref(x: &[f64]) -> Vec<f64> {
    let n = x.len() / 2;
    if n == 0 { return vec![]; }
    let mut r = x.to_vec();
    for i in (1..n).rev() { r.push(x[2 * i]); r.push(-x[2 * i + 1]); }
    r
}
/// plain discrete Fourier sum, bins 0..m
fn dft(x: &[f64], m: usize) -> Vec<C> {
    let n = x.len();
    (0..m).map(|k| (0..n).map(|i| { let a = -2.0 * std::f64::consts::PI * ((i * k) % n) as f64 / n as f64; c(a.cos(), a.sin()) * x[i] }).sum()).collect()
}
fn t<T: Tt>(ctx: &Ctx) {
    let mut ns: Vec<usize> = (0..34).collect(); ns.extend([63, 64, 65, 100, 257, 500]); if ctx.thorough { ns.extend(34..200) }
    for &n in &ns { for slack in [0usize, 1, 2, 5] { for b in 0..4 { for gen in [false, true] {
        ctx.case(format!("mirror {} n={} slack={} buffer={} gen={}", T::NAME, n, slack, b, gen), n > 0, || {
            let x: Vec<f64> = (0..2 * n).map(|i| i as f64 + 1.0).collect();
            let mut m = ts::<T>(&x); m.extend((0..slack).map(|i| T::of(1000.0 + i as f64)));
            macro_rules! go { ($v:expr) => {{ let mut v = $v; v.resize(2 * n).unwrap(); v.set_delta(T::of(0.25));
                match b {
                    0 => v.mirror(&mut SingleBuffer::new()),
                    1 => { let mut bu = SingleBuffer::with_capacity(7); let mut w = vec![T::of(9.0); 8 * n + 10].to_complex_freq_vec().mc(); w.mirror(&mut bu); w.mirror(&mut bu); v.mirror(&mut bu) }
                    2 => v.mirror(&mut FixedLenBuffer::new(vec![T::of(-3.0); 4 * n])),
                    _ => v.mirror(&mut NoBuffer),
                }
                inv!(v); eq("delta", v.delta().f(), 0.25)?; eq("complex", v.is_complex(), true)?;
                cmp("result", &f64s(v.data(..)), &mirror_ref(&x), 0.0) }} }
            if gen { go!(m.to_gen_dsp_vec(true, DataDomain::Frequency).mc()) } else { go!(m.to_complex_freq_vec().mc()) }
        });
    }}}}
    let mut ns: Vec<usize> = (0..=70).collect(); ns.extend([101, 127, 128, 129, 211, 257, 333]); if ctx.thorough { ns.extend((71..420).chain([509, 641, 1001, 1009, 2003])) }
    let tol = T::EPS * 300.0;
    let err = |r: ErrorReason, w: ErrorReason| eq("error", r, w);
    for &n in &ns { for win in 0..6 { for gen in [false, true] { for slack in [0usize, 1, 3] { for kind in 0..3 {
        if slack > 1 && n > 20 { continue; }
        let ops = ["plain_sfft", "sfft", "windowed_sfft"];
        let op = match win { 0 => 0, 1 => 1, _ => 2 };
        let w = Win { sym: win >= 4, declare: win == 5 };
        if win == 3 { continue; }
        ctx.case(format!("{} {} n={} window={} gen={} slack={} data={}", ops[op], T::NAME, n, win, gen, slack, kind), n > 0, || {
            let mut r = Rng::new(n as u64 * 5 + kind);
            let x: Vec<f64> = (0..n).map(|i| match kind { 0 => r.int(), 1 => r.unit() * 2.0 - 1.0, _ => if i == n / 2 { 1.0 } else { 0.0 } }).collect();
            let x = f64s(&ts::<T>(&x));
            let mut buf = SingleBuffer::new();
            let mut m = ts::<T>(&x); m.extend((0..slack).map(|i| T::of(1000.0 + i as f64)));
            macro_rules! go { ($v:expr) => {{ let mut v = $v; v.resize(n).unwrap(); v.set_delta(T::of(0.5));
                let s = match op { 0 => v.plain_sfft(&mut buf), 1 => v.sfft(&mut buf), _ => v.windowed_sfft(&mut buf, &w) };
                let s = match s {
                    Ok(s) => { ensure(n % 2 == 1, "an even length is accepted")?; s }
                    Err((e, s)) => { ensure(n % 2 == 0, "an odd length is refused")?; inv!(s); eq("points after refusal", s.len(), 0)?; return err(e, ErrorReason::InputMustHaveAnOddLength); }
                };
                inv!(s); eq("complex", s.is_complex(), true)?; eq("domain", s.domain(), DataDomain::Frequency)?;
                let y: Vec<f64> = x.iter().enumerate().map(|(i, v)| if op == 2 { v * T::of(win_ref(w.sym, i, n)).f() } else { *v }).collect();
                let scale: f64 = y.iter().map(|v| v.abs()).sum::<f64>() + 1e-30;
                let want = dft(&y, (n + 1) / 2);
                eq("points of the half spectrum", s.points(), want.len())?;
                for (i, p) in s.data(..).chunks(2).enumerate() { let d = (c(p[0].f(), p[1].f()) - want[i]).norm(); if d > tol * scale { return Err(format!("bin {}: got {}+{}i want {}", i, p[0].f(), p[1].f(), want[i])); } }
                let t = match op { 0 => s.plain_sifft(&mut buf), 1 => s.sifft(&mut buf), _ => s.windowed_sifft(&mut buf, &w) };
                let t = t.map_err(|e| format!("inverse refused: {:?}", e.0))?;
                inv!(t); eq("complex", t.is_complex(), false)?; eq("domain", t.domain(), DataDomain::Time)?;
                eq("points", t.points(), n)?;
                for i in 0..n { let g = t.data(..)[i].f() / if op == 0 { n as f64 } else { 1.0 }; let q = if op == 2 { win_ref(w.sym, i, n).recip().max(1.0) } else { 1.0 };
                    if (g - x[i]).abs() > tol * scale * q { return Err(format!("restored point {}: got {} want {}", i, g, x[i])); } }
                Ok(()) }} }
            if gen { go!(m.to_gen_dsp_vec(false, DataDomain::Time).mc()) } else { go!(m.to_real_time_vec().mc()) }
        });
    }}}}}
    // the inverses on arbitrary half spectra, and the refusal of a first bin that is not real
    for n in (0..40usize).chain([100]) { for op in 0..3 { for gen in [false, true] { for im in [0.0, 1e-3, -2.0] {
        ctx.case(format!("{} {} n={} gen={} im={}", ["plain_sifft", "sifft", "windowed_sifft"][op], T::NAME, n, gen, im), n > 0, || {
            let mut r = Rng::new(n as u64 + 3);
            let mut x: Vec<f64> = (0..2 * n).map(|_| r.int()).collect();
            if n > 0 { x[1] = im; }
            let mut buf = SingleBuffer::new();
            let w = Win { sym: false, declare: false };
            macro_rules! go { ($v:expr) => {{ let v = $v;
                let s = match op { 0 => v.plain_sifft(&mut buf), 1 => v.sifft(&mut buf), _ => v.windowed_sifft(&mut buf, &w) };
                let s = match s {
                    Ok(s) => { ensure(n == 0 || im == 0.0, "a first bin that is not real is accepted")?; s }
                    Err((e, s)) => { inv!(s); ensure(im != 0.0, "refused")?; eq("points after refusal", s.len(), 0)?; return err(e, ErrorReason::InputMustBeConjSymmetric); }
                };
                inv!(s); eq("complex", s.is_complex(), false)?; eq("domain", s.domain(), DataDomain::Time)?;
                let m = if n == 0 { 0 } else { 2 * n - 1 };
                eq("points", s.points(), m)?;
                for i in 0..m {
                    let mut g = x[0];
                    for k in 1..n { let a = 2.0 * std::f64::consts::PI * ((i * k) % m) as f64 / m as f64; g += 2.0 * (x[2 * k] * a.cos() - x[2 * k + 1] * a.sin()); }
                    if op > 0 { g /= m as f64; }
                    if op == 2 { g /= win_ref(false, i, m); }
                    if (s.data(..)[i].f() - g).abs() > tol * 20.0 * (n as f64 + 1.0) { return Err(format!("point {}: got {} want {}", i, s.data(..)[i].f(), g)); }
                }
                Ok(()) }} }
            if gen { go!(ts::<T>(&x).to_gen_dsp_vec(true, DataDomain::Frequency).mc()) } else { go!(ts::<T>(&x).to_complex_freq_vec().mc()) }
        });
    }}}}
}
pub fn run(ctx: &Ctx) { t::<f32>(ctx); t::<f64>(ctx); }
