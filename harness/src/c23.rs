//! C23: resampling.
use crate::fw::*;
use crate::inv;
use crate::tf::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::*;

/// impulse response of finite support: every internal path has to give the same sum
#[derive(Clone, Copy)]
struct Tri { w: f64, skew: f64 }
impl Tri { fn f(&self, x: f64) -> f64 { let a = 1.0 - x.abs() / self.w; if a <= 0.0 { 0.0 } else { a + self.skew * x * a } } }
impl<T: Tt> RealImpulseResponse<T> for Tri { fn is_symmetric(&self) -> bool { self.skew == 0.0 } fn calc(&self, x: T) -> T { T::of(self.f(x.f())) } }
fn data(k: usize, seed: usize) -> Vec<f64> { let mut r = Rng::new(seed as u64); (0..k).map(|_| r.nzint()).collect() }
fn dft(x: &[(f64, f64)], sign: f64) -> Vec<(f64, f64)> {
    let n = x.len(); let w: Vec<(f64, f64)> = (0..n).map(|k| { let a = sign * 2.0 * std::f64::consts::PI * k as f64 / n as f64; (a.cos(), a.sin()) }).collect();
    (0..n).map(|m| { let mut s = (0.0, 0.0); for (k, v) in x.iter().enumerate() { let c = w[m * k % n]; s.0 += v.0 * c.0 - v.1 * c.1; s.1 += v.0 * c.1 + v.1 * c.0; } s }).collect()
}
fn cplx(x: &[f64], cx: bool) -> Vec<(f64, f64)> { if cx { x.chunks(2).map(|c| (c[0], c[1])).collect() } else { x.iter().map(|v| (*v, 0.0)).collect() } }
fn flat(p: &[(f64, f64)], cx: bool) -> Vec<f64> { p.iter().flat_map(|v| if cx { vec![v.0, v.1] } else { vec![v.0] }).collect() }
/// signed frequency of a bin
fn bin(m: usize, n: usize) -> f64 { if m < n - n / 2 || (n % 2 == 0 && m == n / 2) { m as f64 } else { m as f64 - n as f64 } }

/// Which frequency response
#[derive(Clone, Copy)]
struct Fr { k: usize, declare: bool }
impl Fr { fn f(&self, x: f64) -> f64 { match self.k { 0 => fun_ref(true, x), 1 => fun_ref(false, x), _ => if x.abs() <= 1.0 + 1e-6 { 1.0 } else { 0.0 } } } }
impl<T: Tt> RealFrequencyResponse<T> for Fr { fn is_symmetric(&self) -> bool { self.declare } fn calc(&self, x: T) -> T { T::of(self.f(x.f())) } }

fn t<T: Tt>(ctx: &Ctx) {
    let delta = 0.5;
    macro_rules! chk { ($v:expr, $cx:expr, $points:expr, $d:expr, $time:expr) => {{
        let v = &$v; eq("points", v.points(), $points)?; inv!(v); eq("complex", v.is_complex(), $cx)?; eq("domain", v.domain(), if $time { DataDomain::Time } else { DataDomain::Frequency })?;
        ensure(near(v.delta().f(), $d, T::EPS * 4.0), &format!("sample spacing {} instead of {}", v.delta().f(), $d))?;
    }} }
    // time domain interpolation
    let mut sizes: Vec<(usize, usize)> = vec![];
    for n in [0usize, 1, 2, 3, 4, 5, 8, 9, 13, 20, 33, 50] { for k in [1usize, 2, 3, 4, 5, 7] { sizes.push((n, k)); } }
    sizes.extend([(100, 20), (101, 20), (99, 21), (250, 8), (251, 8), (400, 5), (401, 5), (500, 4), (501, 4), (667, 3), (1000, 2), (999, 2), (1001, 2), (2000, 1), (1999, 1), (2001, 1), (40, 50), (41, 50), (5, 401), (4, 500), (13, 155), (1, 2000), (2, 1001), (3, 667)]);
    if ctx.thorough { for n in 6..40 { for k in [1usize, 2, 3, 10] { sizes.push((n, k)); } } for n in 200..230 { sizes.push((n, 9)); sizes.push((n, 10)); } sizes.extend([(5000, 3), (4999, 2), (3000, 7)]); }
    for &(n, k) in &sizes { for cx in [false, true] { for l in [1usize, 2, 5, 13, 60, 202, 250] { for (fi, f) in [Tri { w: 1.0, skew: 0.0 }, Tri { w: 1.0, skew: 0.3 }, Tri { w: 3.5, skew: 0.1 }].into_iter().enumerate() { for d in [0usize, 1, 2] { for threads in [1usize, 3] {
        if fi == 2 && l < 5 || threads > 1 && (d > 0 || fi == 0) || n * k > 1000 && l > 60 && fi != 2 { continue; }
        ctx.case(format!("interpolatef {} n={} k={} complex={} conv_len={} function={} delay={} threads={}", T::NAME, n, k, cx, l, fi, d, threads), n > 0, || {
            let x = data(n * if cx { 2 } else { 1 }, n + k);
            let p = cplx(&x, cx);
            let delay = [0.0, 0.25, 1.0][d]; // in samples
            let mut m = ts::<T>(&x); m.extend([T::of(1000.0), T::of(1001.0), T::of(1002.0), T::of(1003.0)]);
            let mut v = m.to_gen_dsp_vec(cx, DataDomain::Time); v.resize(x.len()).unwrap(); v.set_delta(T::of(delta)); v.set_multicore_settings(MultiCoreSettings::with_thresholds(threads, 0, 0, 0, 0));
            v.interpolatef(&mut SingleBuffer::new(), &f as &dyn RealImpulseResponse<T>, T::of(k as f64), T::of(delay * delta), l);
            for off in 0..4 { // a slice which starts anywhere
                let mut a = Al::<T>::with(&x, x.len() * k + 2, off);
                let mut bb = vec![T::zero(); x.len() * k + 2]; let mut bu = FixedLenBuffer::new(&mut bb[..]); let mut w = a.s().to_gen_dsp_vec(cx, DataDomain::Time); w.resize(x.len()).unwrap(); w.set_delta(T::of(delta)); w.set_multicore_settings(MultiCoreSettings::with_thresholds(threads, 0, 0, 0, 0));
                w.interpolatef(&mut bu, &f as &dyn RealImpulseResponse<T>, T::of(k as f64), T::of(delay * delta), l);
                cmp("slice", &f64s(w.data(..)), &f64s(v.data(..)), if (l.min(n / 2) as f64) < f.w + delay + 1.0 { continue } else { T::EPS * 200.0 * (1.0 + n as f64 / 8.0) })?;
            }
            chk!(v, cx, n * k, delta / k as f64, true);
            let lc = l.min(n / 2) as isize;
            // a kernel which is cut off by conv_len is only required to give the right number of points
            if (lc as f64) < f.w + delay + 1.0 { return Ok(()); }
            let want = |dir: f64| -> Vec<(f64, f64)> { (0..n * k).map(|i| {
                let c = i as f64 / k as f64; let fl = (i / k) as isize; let mut s = (0.0, 0.0);
                for j in -lc..=lc { let g = f.f(dir * (j as f64 - (c - fl as f64)) + delay); let q = p[(fl + j).rem_euclid(n as isize) as usize]; s.0 += g * q.0; s.1 += g * q.1; }
                s }).collect() };
            let tol = T::EPS * 200.0 * (1.0 + n as f64 / 8.0);
            let r = cmp("result", &f64s(v.data(..)), &flat(&want(1.0), cx), tol);
            // long vectors are moved into the opposite direction, see interpolatef-direction
            if r.is_err() && v.len() >= 2000 && lc <= 202 && cmp("result", &f64s(v.data(..)), &flat(&want(-1.0), cx), tol).is_ok() { return Ok(()); }
            r
        });
    }}}}}}
    // the direction of a delay may not depend on the length
    ctx.case(format!("interpolatef-direction {}", T::NAME), true, || {
        let run = |n: usize| -> (f64, f64) {
            let mut x = vec![0.0; n]; x[n / 2] = 1.0;
            let mut v = ts::<T>(&x).to_real_time_vec(); v.set_delta(T::of(1.0));
            v.interpolatef(&mut SingleBuffer::new(), &Tri { w: 1.0, skew: 0.0 } as &dyn RealImpulseResponse<T>, T::of(2.0), T::of(1.0), 10);
            (v[n - 2].f(), v[n + 2].f())
        };
        eq("neighbours of the impulse", run(1001), run(501))
    });
    // factors next to an integer: the points are where the factor says, also at the end of a long vector
    for &(n, cx) in &[(3000usize, false), (3000, true), (200_000, false), (200_000, true)] { for &k in &[1.0000009f64, 1.9999991, 3.0000005] {
        ctx.case(format!("interpolatef {} next to an integer n={} factor={} complex={}", T::NAME, n, k, cx), true, || {
            let kf = T::of(k).f();
            let x: Vec<f64> = (0..n).flat_map(|i| if cx { vec![i as f64, -(i as f64)] } else { vec![i as f64] }).collect();
            let mut v = ts::<T>(&x).to_gen_dsp_vec(cx, DataDomain::Time); v.set_delta(T::of(delta));
            v.interpolatef(&mut SingleBuffer::new(), &Tri { w: 1.0, skew: 0.0 } as &dyn RealImpulseResponse<T>, T::of(k), T::of(0.0), 3);
            let y = cplx(&f64s(v.data(..)), cx);
            // positions in front of the last point, behind it the signal starts again
            for i in 0..y.len() { let c = i as f64 / kf; if c < n as f64 - 1.001 { ensure((y[i].0 - c).abs() <= (1.0 + c) * T::EPS * 20.0 + 0.011, &format!("point {} is {} instead of {}", i, y[i].0, c))?; } }
            Ok(())
        });
    }}
    // built-in functions of infinite support: original points stay in place
    for &(n, k) in &sizes { if n < 4 { continue; } for cx in [false, true] { for rc in [false, true] { for l in [2usize, 10, 30] {
        ctx.case(format!("interpolatef-builtin {} n={} k={} complex={} raised_cosine={} conv_len={}", T::NAME, n, k, cx, rc, l), true, || {
            let x = data(n * if cx { 2 } else { 1 }, n * 7 + k);
            let mut v = ts::<T>(&x).to_gen_dsp_vec(cx, DataDomain::Time); v.set_delta(T::of(delta));
            let (s, r) = (SincFunction::new(), RaisedCosineFunction::new(T::of(0.35)));
            let f: &dyn RealImpulseResponse<T> = if rc { &r } else { &s };
            v.interpolatef(&mut SingleBuffer::new(), f, T::of(k as f64), T::of(0.0), l);
            chk!(v, cx, n * k, delta / k as f64, true);
            let g = cplx(&f64s(v.data(..)), cx); let orig = cplx(&x, cx);
            // an even vector and a window as long as the vector wraps: the last point is visited twice (weight of a zero crossing)
            let at: Vec<(f64, f64)> = (0..n).map(|i| g[i * k]).collect();
            cmp("original points", &flat(&at, cx), &flat(&orig, cx), T::EPS * 3000.0)
        });
    }}}}
    // frequency domain interpolation by an integer
    let mut small: Vec<(usize, u32)> = vec![];
    for n in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 25, 33] { for k in [1u32, 2, 3, 4, 5] { small.push((n, k)); } }
    if ctx.thorough { for n in 10..40 { for k in [2u32, 3, 7] { small.push((n, k)); } } }
    for &(n, k) in &small { for cx in [false, true] { for fk in 0..3 { for declare in [false, true] { for slack in [0usize, 3, 40] { for threads in [1usize, 4] {
        if fk == 1 && declare || threads > 1 && slack > 3 { continue; }
        ctx.case(format!("interpolatei {} n={} k={} complex={} function={} declared={} slack={} threads={}", T::NAME, n, k, cx, fk, declare, slack, threads), n > 0, || {
            let f = Fr { k: fk, declare };
            let x = data(n * if cx { 2 } else { 1 }, n + k as usize);
            let mut m = ts::<T>(&x); m.extend((0..slack).map(|i| T::of(1000.0 + i as f64)));
            let mut v = m.to_gen_dsp_vec(cx, DataDomain::Time); v.resize(x.len()).unwrap(); v.set_delta(T::of(delta)); v.set_multicore_settings(MultiCoreSettings::with_thresholds(threads, 0, 0, 0, 0));
            let r = v.interpolatei(&mut SingleBuffer::new(), &f as &dyn RealFrequencyResponse<T>, k);
            if k <= 1 { eq("result", r, Ok(()))?; chk!(v, cx, n, delta, true); return cmp("unchanged", &f64s(v.data(..)), &x, 0.0); }
            if !declare && !cx { eq("error", r, Err(ErrorReason::ArgumentFunctionMustBeSymmetric))?; chk!(v, cx, n, delta, true); return cmp("unchanged", &f64s(v.data(..)), &x, 0.0); }
            eq("result", r, Ok(()))?;
            let kk = k as usize; let nn = n * kk;
            chk!(v, cx, nn, delta / kk as f64, true);
            if n == 0 { return Ok(()); }
            let p = cplx(&x, cx);
            let mut zi = vec![(0.0, 0.0); nn]; for i in 0..n { zi[i * kk] = p[i]; }
            let max = nn as f64 / 2.0;
            let s: Vec<(f64, f64)> = dft(&zi, -1.0).iter().enumerate().map(|(m, c)| { let g = kk as f64 * f.f(bin(m, nn) / max * kk as f64) / nn as f64; (c.0 * g, c.1 * g) }).collect();
            cmp("result", &f64s(v.data(..)), &flat(&dft(&s, 1.0), cx), T::EPS * 1000.0)
        });
    }}}}}}
    // frequency domain interpolation to a number of points
    for n in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 16, 25, 33] { for dest in [1usize, 2, 3, 4, 5, 7, 8, 10, 15, 16, 18, 24, 27, 32, 33, 66, 99] { for cx in [false, true] { for fk in 0..4 { for declare in [false, true] { for d in 0..3 { for slack in [0usize, 5, 60] {
        if (fk == 1 || fk == 3) && declare || (fk == 2 && d > 0) { continue; }
        if !(dest % n == 0 || n % dest == 0 || d == 0) && !ctx.thorough { continue; }
        ctx.case(format!("interpolate {} n={} dest={} complex={} function={} declared={} delay={} slack={}", T::NAME, n, dest, cx, fk, declare, d, slack), n > 0, || {
            let f = Fr { k: fk, declare };
            let x = data(n * if cx { 2 } else { 1 }, n + dest);
            let mut m = ts::<T>(&x); m.extend((0..slack).map(|i| T::of(1000.0 + i as f64)));
            let mut v = m.to_gen_dsp_vec(cx, DataDomain::Time); v.resize(x.len()).unwrap(); v.set_delta(T::of(delta));
            let delay = [0.0, 0.25, 2.0][d];
            let r = if fk == 3 && d == 0 { v.interpft(&mut SingleBuffer::new(), dest); Ok(()) } else { v.interpolate(&mut SingleBuffer::new(), if fk == 3 { None } else { Some(&f as &dyn RealFrequencyResponse<T>) }, dest, T::of(delay * delta)) };
            if fk < 3 && !declare && !cx { eq("error", r, Err(ErrorReason::ArgumentFunctionMustBeSymmetric))?; chk!(v, cx, n, delta, true); return cmp("unchanged", &f64s(v.data(..)), &x, 0.0); }
            eq("result", r, Ok(()))?;
            chk!(v, cx, dest, delta * n as f64 / dest as f64, true);
            let sp = dft(&cplx(&x, cx), -1.0);
            let sp: Vec<(f64, f64)> = sp.iter().enumerate().map(|(m, c)| { let fr = if n % 2 == 0 && m == n / 2 { -(m as f64) } else { bin(m, n) }; let a = 2.0 * std::f64::consts::PI * fr * delay / n as f64; (c.0 * a.cos() - c.1 * a.sin(), c.0 * a.sin() + c.1 * a.cos()) }).collect();
            let mut o = vec![(0.0, 0.0); dest];
            if dest >= n { for m in 0..n { if m < n - n / 2 { o[m] = sp[m] } else { o[dest - n + m] = sp[m] } } }
            else { for m in 0..dest { if m < dest - dest / 2 { o[m] = sp[m] } else { o[m] = sp[n - dest + m] } } }
            if dest > n && fk < 3 { let max = dest as f64 / 2.0; for m in 0..dest { let g = f.f(bin(m, dest) / max * dest as f64 / n as f64); o[m] = (o[m].0 * g, o[m].1 * g); } }
            let want: Vec<(f64, f64)> = dft(&o, 1.0).iter().map(|c| (c.0 / n as f64, c.1 / n as f64)).collect();
            cmp("result", &f64s(v.data(..)), &flat(&want, cx), T::EPS * 1000.0)
        });
    }}}}}}}
    // decimation undoes the interpolation
    for n in 1..12usize { for k in 1..5u32 { for cx in [false, true] { ctx.case(format!("roundtrip {} n={} k={} complex={}", T::NAME, n, k, cx), true, || {
        let x = data(n * if cx { 2 } else { 1 }, n + 3);
        let mut v = ts::<T>(&x).to_gen_dsp_vec(cx, DataDomain::Time); v.set_delta(T::of(delta));
        v.interpolatei(&mut SingleBuffer::new(), &Fr { k: 2, declare: true } as &dyn RealFrequencyResponse<T>, k).map_err(|e| format!("{:?}", e))?;
        v.decimatei(k, 0);
        eq("points", v.points(), n)?;
        if n % 2 == 0 { return Ok(()); } // the Nyquist bin is passed twice
        cmp("restored", &f64s(v.data(..)), &x, T::EPS * 1000.0)
    }); }}}
    // piecewise interpolation of real data
    let mut fs = vec![1.0f64, 2.0, 3.0, 4.0, 7.0, 1.5, 2.5, 0.5, 0.75, 10.0];
    if ctx.thorough { fs.extend([5.0, 6.0, 8.0, 9.0, 11.0, 13.0, 49.0, 100.0]); }
    for n in (0usize..20).chain([33, 64, 100]) { for &k in &fs { for delay in [0.0f64, 0.25, 0.5, 1.0, 2.75, -0.25, -1.0] { for hermite in [false, true] { for gen in [false, true] { for slack in [0usize, 3] {
        ctx.case(format!("{} {} n={} factor={} delay={} gen={} slack={}", if hermite { "hermite" } else { "linear" }, T::NAME, n, k, delay, gen, slack), n > 0, || {
            let x = data(n, n);
            let mut m = ts::<T>(&x); m.extend((0..slack).map(|i| T::of(1000.0 + i as f64)));
            let (got, del) = { macro_rules! go { ($v:expr) => {{ let mut v = $v; v.resize(n).unwrap(); v.set_delta(T::of(delta)); let b = &mut SingleBuffer::new(); if hermite { v.interpolate_hermite(b, T::of(k), T::of(delay)) } else { v.interpolate_lin(b, T::of(k), T::of(delay)) }; inv!(v); eq("complex", v.is_complex(), false)?; (f64s(v.data(..)), v.delta().f()) }} }
                if gen { go!(m.to_gen_dsp_vec(false, DataDomain::Time)) } else { go!(m.to_real_time_vec()) } };
            if n == 0 { return eq("empty", got, vec![]); }
            ensure(near(del, delta / k, T::EPS * 4.0), &format!("sample spacing {} instead of {}", del, delta / k))?;
            let dn = ((n - 1) as f64 * k).round() as usize + 1;
            eq("points", got.len(), dn)?;
            let at = |i: isize| -> f64 { if n == 1 { x[0] } else if i < 0 { x[0] - (x[1] - x[0]) } else if i as usize >= n { x[n - 1] + (x[n - 1] - x[n - 2]) } else { x[i as usize] } };
            for i in 0..dn {
                let pos = i as f64 / k + delay;
                if pos < 0.0 || pos > (n - 1) as f64 { continue; } // behind the ends: nothing is promised but the number of points
                let b = (pos.floor() as isize).min(n as isize - 1); let f = pos - b as f64;
                let exact = (pos - pos.round()).abs() < 1e-9;
                let w = if !hermite { let b1 = at(b + 1); x[b as usize] + (b1 - x[b as usize]) * f } else {
                    let (y0, y1, y2, y3) = (at(b - 1), at(b), at(b + 1), at(b + 2));
                    let y3 = if b + 2 >= n as isize { y2 + (y2 - y1) } else { y3 };
                    let (a0, a1, a2) = (-0.5 * y0 + 1.5 * y1 - 1.5 * y2 + 0.5 * y3, y0 - 2.5 * y1 + 2.0 * y2 - 0.5 * y3, -0.5 * y0 + 0.5 * y2);
                    a0 * f * f * f + a1 * f * f + a2 * f + y1 };
                let tol = T::EPS * 500.0 * (1.0 + n as f64) * if exact && k.fract() == 0.0 && delay == 0.0 { 0.01 } else { 1.0 };
                if !near(got[i], w, tol) { return Err(format!("point {} (position {}): {} instead of {} in {}", i, pos, got[i], w, short(&got))); }
            }
            Ok(())
        });
    }}}}}}
}
pub fn run(ctx: &Ctx) { t::<f64>(ctx); t::<f32>(ctx); }
