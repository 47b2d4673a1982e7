//! C11: every convolution path computes the same circular convolution.
use crate::fw::*;
use crate::inv;
use crate::ops::{c, C};
use crate::tf::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::*;
use arrayvec::ArrayVec;

/// out[i] = sum over k of h[k] * x[(i + ceil(m/2) - 1 - k) mod n]
pub fn conv_ref(x: &[C], h: &[C]) -> Vec<C> {
    let (n, m) = (x.len() as isize, h.len() as isize);
    (0..n).map(|i| { let mut s = c(0.0, 0.0); for k in 0..m { s += h[k as usize] * x[(i + (m + 1) / 2 - 1 - k).rem_euclid(n) as usize]; } s }).collect()
}
pub fn data(r: &mut Rng, n: usize, cx: bool) -> Vec<C> { (0..n).map(|_| c(r.int(), if cx { r.int() } else { 0.0 })).collect() }
pub fn il(x: &[C], cx: bool) -> Vec<f64> { x.iter().flat_map(|z| if cx { vec![z.re, z.im] } else { vec![z.re] }).collect() }
pub fn absmax(x: &[C]) -> f64 { x.iter().map(|z| z.norm()).fold(0.0, f64::max) }
pub fn sumabs(x: &[C]) -> f64 { x.iter().map(|z| z.norm()).sum() }
pub fn within<T: Tt>(got: &[T], want: &[f64], tol: f64) -> R {
    eq("length", got.len(), want.len())?;
    for i in 0..want.len() { if !((got[i].f() - want[i]).abs() <= tol) { return Err(format!("value {}: got {} want {} (tolerance {:e})", i, got[i].f(), want[i], tol)); } }
    Ok(())
}
#[repr(C, align(64))]
struct Padded<T, S, const P: usize> { pad: [T; P], v: S }
macro_rules! pads { ($ctx:expr, $T:ty, $($p:literal)*) => { $(
    for n in [1100usize, 1101, 1300] { for m in [12usize, 13, 40, 103] { for cx in [false, true] {
        $ctx.case(format!("convolve_signal {} in an array behind {} values n={} m={} complex={}", <$T>::NAME, $p, n, m, cx), true, || {
            let mut r = Rng::new((n * 1000 + m) as u64);
            let (x, h) = (data(&mut r, n, cx), data(&mut r, m, cx));
            let (mx, mh) = (ts::<$T>(&il(&x, cx)), ts::<$T>(&il(&h, cx)));
            let a: ArrayVec<$T, 2800> = mx.iter().cloned().collect();
            let mut w = Box::new(Padded::<$T, _, $p> { pad: [<$T>::of(0.0); $p], v: a.to_gen_dsp_vec(cx, DataDomain::Time) });
            let mut b = FixedLenBuffer::new(std::iter::repeat(<$T>::of(0.0)).take(2800).collect::<ArrayVec<$T, 2800>>());
            w.v.convolve_signal(&mut b, &mh.to_gen_dsp_vec(cx, DataDomain::Time)).map_err(|e| format!("refused: {:?}", e))?;
            let tol = <$T>::EPS * 40.0 * (1.0 + sumabs(&h) * absmax(&x));
            within(w.v.data(..), &il(&conv_ref(&x, &h), cx), tol)
        });
    }}}
)* } }
fn t<T: Tt>(ctx: &Ctx) {
    let mut sizes: Vec<(usize, usize)> = vec![];
    for n in 1..24 { for m in 1..=n { sizes.push((n, m)); } }
    // around the sizes at which the paths change: 1000 values of the vector, 11 and 202 values of the impulse response
    for n in [499, 500, 501, 502, 503, 999, 1000, 1001, 1002, 1003, 1004, 1007, 1013, 1100] { for m in [1, 2, 3, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 23, 50, 99, 100, 101, 102, 103, 150, 201, 202, 203, 204, 300] { sizes.push((n, m)); } }
    for (n, m) in [(5000, 8), (5001, 8), (5001, 9), (5001, 101), (5001, 102), (5001, 103), (5002, 150), (5003, 151), (5001, 499), (5001, 500), (5001, 501), (5300, 513), (6000, 514), (7300, 257), (8192, 128), (10001, 210), (10003, 600)] { sizes.push((n, m)); }
    for (n, m) in [(10300, 1026), (12100, 1026), (13000, 1026), (14000, 1026), (16000, 1026), (16500, 1026), (13333, 1027), (12289, 1100), (24000, 2050), (11000, 1024), (11000, 1025)] { sizes.push((n, m)); }
    if ctx.thorough {
        for n in 24..60 { for m in 1..=n { sizes.push((n, m)); } }
        for n in [1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008] { for m in 5..206 { sizes.push((n, m)); } }
        let mut r = Rng::new(ctx.seed + 77);
        for _ in 0..60 { let m = 101 + r.below(1200); sizes.push((10 * m + 1 + r.below(12000), m)); }
    }
    for (n, m) in sizes { if m > n { continue; } for cx in [false, true] { for slack in [0usize, 6] { for gen in [false, true] {
        if n > 1200 && (slack > 0) == gen { continue; }
        if n > 30 && !gen && slack > 0 && !ctx.thorough { continue; }
        ctx.case(format!("convolve_signal {} n={} m={} complex={} slack={} gen={}", T::NAME, n, m, cx, slack, gen), true, || {
            let mut r = Rng::new((n * 1000 + m) as u64);
            let (x, h) = (data(&mut r, n, cx), data(&mut r, m, cx));
            let mut mx = ts::<T>(&il(&x, cx)); let k = mx.len(); mx.extend((0..slack).map(|i| T::of(1000.0 + i as f64)));
            let mut mh = ts::<T>(&il(&h, cx)); let kh = mh.len(); mh.extend((0..slack).map(|i| T::of(2000.0 + i as f64)));
            macro_rules! go { ($x:expr, $h:expr) => {{ let (mut v, mut w) = ($x, $h); v.resize(k).unwrap(); w.resize(kh).unwrap();
                v.convolve_signal(&mut SingleBuffer::new(), &w).map_err(|e| format!("refused: {:?}", e))?;
                inv!(v);
                let tol = T::EPS * 40.0 * (1.0 + sumabs(&h) * absmax(&x));
                within(v.data(..), &il(&conv_ref(&x, &h), cx), tol)?;
                cmp("impulse response", &f64s(w.data(..)), &il(&h, cx), 0.0) }} }
            if gen { go!(mx.to_gen_dsp_vec(cx, DataDomain::Time).mc(), mh.to_gen_dsp_vec(cx, DataDomain::Time).mc()) }
            else if cx { go!(mx.to_complex_time_vec().mc(), mh.to_complex_time_vec().mc()) } else { go!(mx.to_real_time_vec().mc(), mh.to_real_time_vec().mc()) }
        });
    }}}}
    // an odd number of allocated elements behind a complex impulse response
    for (n, m) in [(30usize, 7usize), (600, 20), (5100, 200), (6000, 300), (9000, 101)] { for odd in [false, true] {
        ctx.case(format!("convolve_signal {} n={} m={} odd storage={}", T::NAME, n, m, odd), true, || {
            let mut r = Rng::new((n * 1000 + m) as u64);
            let (x, h) = (data(&mut r, n, true), data(&mut r, m, false));
            let mut mh = ts::<T>(&il(&h, false)); mh.resize(2 * m + odd as usize, T::of(77.0));
            let mut w = mh.to_real_time_vec(); w.resize(m).unwrap();
            let w = w.to_complex().map_err(|(e, _)| format!("{:?}", e))?;
            let mut v = ts::<T>(&il(&x, true)).to_complex_time_vec();
            v.convolve_signal(&mut SingleBuffer::new(), &w).map_err(|e| format!("refused: {:?}", e))?;
            inv!(v);
            within(v.data(..), &il(&conv_ref(&x, &h), true), T::EPS * 40.0 * (1.0 + sumabs(&h) * absmax(&x)))
        });
    }}
    // a vector which keeps its values in an array, whose first value may lie at any offset from an aligned address
    pads!(ctx, T, 0 1 2 3 4 5 6 7);
    // sampled functions
    let mut sizes: Vec<(usize, usize)> = vec![];
    for n in 1..20 { for l in 0..=n + 2 { sizes.push((n, l)); } }
    for n in [999, 1000, 1001, 1005, 1999, 2000, 2001, 2002, 2003, 2008, 2500, 5010] { for l in [1, 2, 5, 6, 12, 25, 49, 50, 51, 100, 101, 150, 202, 203] { sizes.push((n, l)); } }
    for (n, l) in sizes { for cx in [false, true] { for cfun in [false, true] { for sym in [false, true] { for ratio in [1.0f64, 0.5, 2.0] { for gen in [false, true] {
        if cfun && !cx { continue; }
        if n > 20 && (ratio != 1.0 || gen) && n != 2001 { continue; }
        ctx.case(format!("convolve {} n={} len={} complex={} complexfunction={} sym={} ratio={} gen={}", T::NAME, n, l, cx, cfun, sym, ratio, gen), true, || {
            let mut r = Rng::new((n * 1000 + l) as u64);
            let x = data(&mut r, n, cx);
            let f = Fun { sym, declare: sym };
            let cl = l.min(n) as isize;
            // h[k] = f((k - cl) * ratio)
            let h: Vec<C> = (-cl..=cl).map(|d| { let p = T::of(d as f64 * ratio).f(); if cfun { let (a, b) = cfun_ref(sym, p); c(a, b) } else { c(fun_ref(sym, p), 0.0) } }).collect();
            let mx = ts::<T>(&il(&x, cx));
            let tol = T::EPS * 40.0 * (1.0 + sumabs(&h) * absmax(&x));
            let want = il(&conv_ref(&x, &h), cx);
            let mut b = SingleBuffer::new();
            macro_rules! go { ($v:expr, $f:expr) => {{ let mut v = $v; v.convolve(&mut b, $f, T::of(ratio), l); inv!(v); within(v.data(..), &want, tol) }} }
            let (rf, cf): (&dyn RealImpulseResponse<T>, &dyn ComplexImpulseResponse<T>) = (&f, &f);
            match (gen, cx, cfun) {
                (true, _, false) => go!(mx.to_gen_dsp_vec(cx, DataDomain::Time).mc(), rf),
                (true, _, true) => go!(mx.to_gen_dsp_vec(cx, DataDomain::Time).mc(), cf),
                (false, true, false) => go!(mx.to_complex_time_vec().mc(), rf),
                (false, true, true) => go!(mx.to_complex_time_vec().mc(), cf),
                _ => go!(mx.to_real_time_vec().mc(), rf),
            }
        });
    }}}}}}
    // ratios whose inverse is close to a whole number
    for cx in [false, true] { for (ratio, l) in [(1e6f64, 1usize), (2e6, 10), (1e30, 3), (0.5f64 * (1.0 + T::EPS * 2.0), 10), (0.5 * (1.0 + T::EPS * 8.0), 40)] {
        ctx.case(format!("convolve {} with a ratio of {:e} len={} complex={}", T::NAME, ratio, l, cx), true, || {
            let n = 2500;
            let mut r = Rng::new(l as u64);
            let x = data(&mut r, n, cx);
            let f = Fun { sym: true, declare: true };
            let ratio = T::of(ratio);
            let h: Vec<C> = (-(l as isize)..=l as isize).map(|d| c(fun_ref(true, (T::of(d as f64) * ratio).f()), 0.0)).collect();
            let mut b = SingleBuffer::new();
            let mut v = ts::<T>(&il(&x, cx)).to_gen_dsp_vec(cx, DataDomain::Time);
            v.convolve(&mut b, &f as &dyn RealImpulseResponse<T>, ratio, l);
            inv!(v);
            within(v.data(..), &il(&conv_ref(&x, &h), cx), T::EPS * 40.0 * (1.0 + sumabs(&h) * absmax(&x)))
        });
    }}
    // a matrix of vectors with a vector of impulse responses
    for n in 1..14usize { for m in 1..=n { for rows in 1..4usize { for cx in [false, true] { for slack in [0usize, 4] {
        ctx.case(format!("convolve_mat {} n={} m={} rows={} complex={} slack={}", T::NAME, n, m, rows, cx, slack), true, || {
            let mut r = Rng::new((n * 1000 + m * 10 + rows) as u64);
            let xs: Vec<Vec<C>> = (0..rows).map(|_| data(&mut r, n, cx)).collect();
            let hs: Vec<Vec<C>> = (0..rows).map(|_| data(&mut r, m, cx)).collect();
            let mut want = vec![c(0.0, 0.0); n];
            for (x, h) in xs.iter().zip(&hs) { for (w, y) in want.iter_mut().zip(conv_ref(x, h)) { *w += y; } }
            let mk = |x: &Vec<C>| { let mut m = ts::<T>(&il(x, cx)); let k = m.len(); m.extend((0..slack).map(|i| T::of(1000.0 + i as f64))); let mut v = m.to_gen_dsp_vec(cx, DataDomain::Time).mc(); v.resize(k).unwrap(); v };
            let (a, b): (Vec<_>, Vec<_>) = (xs.iter().map(mk).collect(), hs.iter().map(mk).collect());
            let (ar, br): (Vec<_>, Vec<_>) = (a.iter().collect(), b.iter().collect());
            let k = il(&want, cx).len();
            let mut target = vec![T::of(5.0); k + 3];
            GenDspVec::convolve_mat(&ar, &br, &mut target[..]).map_err(|e| format!("refused: {:?}", e))?;
            within(&target[..k], &il(&want, cx), 1e-3)?;
            cmp("behind the result", &f64s(&target[k..]), &[5.0; 3], 0.0)?;
            ensure(GenDspVec::convolve_mat(&ar, &br[..rows - 1], &mut target[..]) == Err(ErrorReason::InvalidArgumentLength), "different number of vectors accepted")
        });
    }}}}}
}
pub fn run(ctx: &Ctx) { t::<f32>(ctx); t::<f64>(ctx); }
