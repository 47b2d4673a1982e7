//! C02: multi-core settings never change a result.
use crate::fw::*;
use crate::ops::*;
use crate::tf::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::Complex;
use basic_dsp_vector::*;
use basic_dsp_vector::MultiCoreSettings as S;

/// (values, tolerance relevant) of a run
type Out = Result<Vec<f64>, String>;
fn settings(i: usize) -> S {
    match i {
        0 => S::with_thresholds(2, 0, 0, 0, 0),
        1 => S::with_thresholds(3, 0, 0, 0, 0),
        2 => S::with_thresholds(4, 0, 0, 0, 0),
        3 => S::with_thresholds(5, 0, 0, 0, 0),
        4 => S::with_thresholds(7, 0, 0, 0, 0),
        5 => S::with_thresholds(8, 1, 10, 1, 10),
        6 => S::with_thresholds(16, 3, 20, 2, 30),
        7 => S::with_thresholds(6, 9, 9, 9, 9),
        8 => S::with_thresholds(0, 0, 0, 0, 0),
        9 => S::with_thresholds(1, 0, 0, 0, 0),
        10 => S::with_thresholds(70, 0, 0, 0, 0),
        11 => S::with_thresholds(4, usize::MAX, usize::MAX, usize::MAX, usize::MAX),
        12 => S::with_thresholds(3, 0, 0, usize::MAX, usize::MAX),
        _ => S::with_thresholds(5, usize::MAX - 1, 0, 0, usize::MAX),
    }
}
const NSET: usize = 14;
struct MOp { name: &'static str, run: fn(&[f64], Option<S>) -> Out, tol: f64, lens: u8 }
macro_rules! start { ($T:ty, $x:expr, $s:expr, $conv:ident) => {{ let mut v = ts::<$T>($x).$conv(); if let Some(s) = $s { v.set_multicore_settings(s); } v }} }
macro_rules! out { ($v:expr) => {{ let mut o = f64s($v.data(..)); o.push($v.len() as f64); o.push($v.delta().f()); Ok(o) }} }

fn real_ops<T: Tt>() -> Vec<MOp> {
    macro_rules! o { ($name:expr, $tol:expr, $lens:expr, $conv:ident, |$v:ident, $x:ident| $b:expr) => { MOp { name: $name, tol: $tol, lens: $lens, run: |$x, s| { #[allow(unused_mut)] let mut $v = start!(T, $x, s, $conv); $b } } } }
    let e = T::EPS * 200.0;
    vec![
        o!("map", 0.0, 0, to_real_time_vec, |v, x| { let _ = x; v.map_inplace(2.0, &|a: T, i, c: f64| T::of(a.f() * c + 3.0 * i as f64)); out!(v) }),
        o!("window", 0.0, 0, to_real_time_vec, |v, x| { let _ = x; v.apply_window(&Win { sym: false, declare: false }); out!(v) }),
        o!("window_sym", 0.0, 0, to_real_time_vec, |v, x| { let _ = x; v.apply_window(&Win { sym: true, declare: true }); out!(v) }),
        o!("unwindow_sym", 0.0, 0, to_real_time_vec, |v, x| { let _ = x; v.unapply_window(&Win { sym: true, declare: true }); out!(v) }),
        o!("freq", e, 0, to_real_freq_vec, |v, x| { let _ = x; v.multiply_frequency_response(&Fun { sym: false, declare: false } as &dyn RealFrequencyResponse<T>, T::of(0.5)); out!(v) }),
        o!("freq_sym", e, 0, to_real_freq_vec, |v, x| { let _ = x; v.multiply_frequency_response(&Fun { sym: true, declare: true } as &dyn RealFrequencyResponse<T>, T::of(0.5)); out!(v) }),
        o!("zero_interleave_b", 0.0, 0, to_real_time_vec, |v, x| { let _ = x; let mut b = SingleBuffer::new(); v.zero_interleave_b(&mut b, 3); out!(v) }),
        o!("convolve_signal", e, 1, to_real_time_vec, |v, x| { let h = ts::<T>(&x.iter().take(3).cloned().collect::<Vec<_>>()).to_real_time_vec(); let mut b = SingleBuffer::new(); v.convolve_signal(&mut b, &h).map_err(|e| format!("{:?}", e))?; out!(v) }),
        o!("convolve_signal_13", e, 2, to_real_time_vec, |v, x| { let h = ts::<T>(&x.iter().take(13).cloned().collect::<Vec<_>>()).to_real_time_vec(); let mut b = SingleBuffer::new(); v.convolve_signal(&mut b, &h).map_err(|e| format!("{:?}", e))?; out!(v) }),
        o!("convolve", e, 1, to_real_time_vec, |v, x| { let _ = x; let mut b = SingleBuffer::new(); v.convolve(&mut b, &Fun { sym: false, declare: false } as &dyn RealImpulseResponse<T>, T::of(0.5), 4); out!(v) }),
        o!("interpolatef", e, 1, to_real_time_vec, |v, x| { let _ = x; let mut b = SingleBuffer::new(); v.interpolatef(&mut b, &Fun { sym: true, declare: true } as &dyn RealImpulseResponse<T>, T::of(1.5), T::of(0.0), 4); out!(v) }),
        o!("interpolatef2", e, 3, to_real_time_vec, |v, x| { let _ = x; let mut b = SingleBuffer::new(); v.interpolatef(&mut b, &Fun { sym: true, declare: true } as &dyn RealImpulseResponse<T>, T::of(2.0), T::of(0.0), 3); out!(v) }),
        o!("add", 0.0, 0, to_real_time_vec, |v, x| { let w = ts::<T>(x).to_real_time_vec(); v.add(&w).map_err(|e| format!("{:?}", e))?; out!(v) }),
        o!("mul_smaller", 0.0, 0, to_real_time_vec, |v, x| { let w = ts::<T>(&x[0..1.min(x.len())]).to_real_time_vec(); v.mul_smaller(&w).map_err(|e| format!("{:?}", e))?; out!(v) }),
        o!("dot", e, 0, to_real_time_vec, |v, x| { let w = ts::<T>(x).to_real_time_vec(); let r = v.dot_product(&w).map_err(|e| format!("{:?}", e))?; Ok(vec![r.f()]) }),
        o!("dot_prec", e, 0, to_real_time_vec, |v, x| { let w = ts::<T>(x).to_real_time_vec(); let r = v.dot_product_prec(&w).map_err(|e| format!("{:?}", e))?; Ok(vec![r.f()]) }),
        o!("sum", e, 0, to_real_time_vec, |v, x| { let _ = x; Ok(vec![v.sum().f(), v.sum_sq().f()]) }),
        o!("stats", e, 0, to_real_time_vec, |v, x| { let _ = x; let s = v.statistics(); Ok(vec![s.sum.f(), s.count as f64, s.average.f(), s.rms.f(), s.min.f(), s.max.f(), s.min_index as f64, s.max_index as f64]) }),
        o!("stats_split", e, 0, to_real_time_vec, |v, x| { let _ = x; let s = v.statistics_split(3).map_err(|e| format!("{:?}", e))?; Ok(s.iter().flat_map(|s| vec![s.sum.f(), s.count as f64, s.average.f(), s.rms.f(), s.min.f(), s.max.f(), s.min_index as f64, s.max_index as f64]).collect()) }),
        o!("map_aggr", e, 0, to_real_time_vec, |v, x| { let _ = x; let r = v.map_aggregate(1.0, &|a: T, i, c: f64| a.f() * (i as f64 + 1.0) * c, &|a, b| a + b).map_err(|e| format!("{:?}", e))?; Ok(vec![r]) }),
        o!("reverse_swap", 0.0, 0, to_real_time_vec, |v, x| { let _ = x; v.reverse(); v.swap_halves(); out!(v) }),
        o!("diff_sum", e, 0, to_real_time_vec, |v, x| { let _ = x; v.diff_with_start(); v.cum_sum(); out!(v) }),
        o!("fft", e, 1, to_real_time_vec, |v, x| { let _ = x; let mut b = SingleBuffer::new(); let f = v.fft(&mut b); out!(f) }),
    ]
}
fn complex_ops<T: Tt>() -> Vec<MOp> {
    macro_rules! o { ($name:expr, $tol:expr, $lens:expr, $conv:ident, |$v:ident, $x:ident| $b:expr) => { MOp { name: $name, tol: $tol, lens: $lens, run: |$x, s| { #[allow(unused_mut)] let mut $v = start!(T, $x, s, $conv); $b } } } }
    let e = T::EPS * 500.0;
    vec![
        o!("map", 0.0, 0, to_complex_time_vec, |v, x| { let _ = x; v.map_inplace(2.0, &|a: Complex<T>, i, c: f64| Complex::new(T::of(a.re.f() * c), T::of(a.im.f() + 3.0 * i as f64))); out!(v) }),
        o!("cexp", T::EPS * 4000.0, 0, to_complex_time_vec, |v, x| { let _ = x; v.multiply_complex_exponential(T::of(0.125), T::of(0.25)); out!(v) }),
        o!("window", 0.0, 0, to_complex_time_vec, |v, x| { let _ = x; v.apply_window(&Win { sym: false, declare: false }); out!(v) }),
        o!("window_sym", 0.0, 0, to_complex_time_vec, |v, x| { let _ = x; v.apply_window(&Win { sym: true, declare: true }); out!(v) }),
        o!("freq", e, 0, to_complex_freq_vec, |v, x| { let _ = x; v.multiply_frequency_response(&Fun { sym: false, declare: false } as &dyn ComplexFrequencyResponse<T>, T::of(0.5)); out!(v) }),
        o!("freq_sym", e, 0, to_complex_freq_vec, |v, x| { let _ = x; v.multiply_frequency_response(&Fun { sym: true, declare: true } as &dyn ComplexFrequencyResponse<T>, T::of(0.5)); out!(v) }),
        o!("rfreq_sym", e, 0, to_complex_freq_vec, |v, x| { let _ = x; v.multiply_frequency_response(&Fun { sym: true, declare: true } as &dyn RealFrequencyResponse<T>, T::of(0.5)); out!(v) }),
        o!("zero_interleave_b", 0.0, 0, to_complex_time_vec, |v, x| { let _ = x; let mut b = SingleBuffer::new(); v.zero_interleave_b(&mut b, 3); out!(v) }),
        o!("convolve_signal", e, 1, to_complex_time_vec, |v, x| { let h = ts::<T>(&x.iter().take(6).cloned().collect::<Vec<_>>()).to_complex_time_vec(); let mut b = SingleBuffer::new(); v.convolve_signal(&mut b, &h).map_err(|e| format!("{:?}", e))?; out!(v) }),
        o!("convolve_signal_13", e, 2, to_complex_time_vec, |v, x| { let h = ts::<T>(&x.iter().take(26).cloned().collect::<Vec<_>>()).to_complex_time_vec(); let mut b = SingleBuffer::new(); v.convolve_signal(&mut b, &h).map_err(|e| format!("{:?}", e))?; out!(v) }),
        o!("convolve", e, 1, to_complex_time_vec, |v, x| { let _ = x; let mut b = SingleBuffer::new(); v.convolve(&mut b, &Fun { sym: false, declare: false } as &dyn ComplexImpulseResponse<T>, T::of(0.5), 4); out!(v) }),
        o!("interpolatef", e, 1, to_complex_time_vec, |v, x| { let _ = x; let mut b = SingleBuffer::new(); v.interpolatef(&mut b, &Fun { sym: true, declare: true } as &dyn RealImpulseResponse<T>, T::of(1.5), T::of(0.0), 4); out!(v) }),
        o!("interpolatef2", e, 3, to_complex_time_vec, |v, x| { let _ = x; let mut b = SingleBuffer::new(); v.interpolatef(&mut b, &Fun { sym: true, declare: true } as &dyn RealImpulseResponse<T>, T::of(2.0), T::of(0.0), 3); out!(v) }),
        o!("mul", T::EPS * 20.0, 0, to_complex_time_vec, |v, x| { let w = ts::<T>(x).to_complex_time_vec(); v.mul(&w).map_err(|e| format!("{:?}", e))?; out!(v) }),
        o!("div_smaller", T::EPS * 20.0, 0, to_complex_time_vec, |v, x| { let w = ts::<T>(&x[0..2.min(x.len())]).to_complex_time_vec(); v.div_smaller(&w).map_err(|e| format!("{:?}", e))?; out!(v) }),
        o!("dot", e, 0, to_complex_time_vec, |v, x| { let w = ts::<T>(x).to_complex_time_vec(); let r = v.dot_product(&w).map_err(|e| format!("{:?}", e))?; Ok(vec![r.re.f(), r.im.f()]) }),
        o!("dot_prec", e, 0, to_complex_time_vec, |v, x| { let w = ts::<T>(x).to_complex_time_vec(); let r = v.dot_product_prec(&w).map_err(|e| format!("{:?}", e))?; Ok(vec![r.re.f(), r.im.f()]) }),
        o!("sum", e, 0, to_complex_time_vec, |v, x| { let _ = x; Ok([v.sum(), v.sum_sq()].iter().flat_map(|c| vec![c.re.f(), c.im.f()]).collect()) }),
        o!("stats", e, 0, to_complex_time_vec, |v, x| { let _ = x; let s = v.statistics(); Ok(vec![s.sum.re.f(), s.sum.im.f(), s.count as f64, s.average.re.f(), s.average.im.f(), s.rms.re.f(), s.rms.im.f(), s.min.norm().f(), s.max.norm().f(), s.min_index as f64, s.max_index as f64]) }),
        o!("stats_split", e, 0, to_complex_time_vec, |v, x| { let _ = x; let s = v.statistics_split(3).map_err(|e| format!("{:?}", e))?; Ok(s.iter().flat_map(|s| vec![s.sum.re.f(), s.sum.im.f(), s.count as f64, s.rms.re.f(), s.rms.im.f(), s.min.norm().f(), s.max.norm().f(), s.min_index as f64, s.max_index as f64]).collect()) }),
        o!("map_aggr", e, 0, to_complex_time_vec, |v, x| { let _ = x; let r = v.map_aggregate(1.0, &|a: Complex<T>, i, c: f64| (a.re.f() - 2.0 * a.im.f()) * (i as f64 + 1.0) * c, &|a, b| a + b).map_err(|e| format!("{:?}", e))?; Ok(vec![r]) }),
        o!("magnitude_b", T::EPS * 20.0, 0, to_complex_time_vec, |v, x| { let _ = x; let mut b = SingleBuffer::new(); let r = v.magnitude_b(&mut b); out!(r) }),
        o!("magnitude_squared_b", T::EPS * 20.0, 0, to_complex_time_vec, |v, x| { let _ = x; let mut b = SingleBuffer::new(); let r = v.magnitude_squared_b(&mut b); out!(r) }),
        o!("to_real_b", 0.0, 0, to_complex_time_vec, |v, x| { let _ = x; let mut b = SingleBuffer::new(); let r = v.to_real_b(&mut b); out!(r) }),
        o!("phase_b", e, 0, to_complex_time_vec, |v, x| { let _ = x; let mut b = SingleBuffer::new(); let r = v.phase_b(&mut b); out!(r) }),
        o!("getters", e, 0, to_complex_time_vec, |v, x| { let _ = x;
            let mut o = vec![];
            let mut t = vec![T::of(9.0); x.len() / 2].to_real_time_vec();
            v.get_real(&mut t); o.extend(f64s(t.data(..))); v.get_imag(&mut t); o.extend(f64s(t.data(..)));
            v.get_magnitude(&mut t); o.extend(f64s(t.data(..))); v.get_magnitude_squared(&mut t); o.extend(f64s(t.data(..)));
            v.get_phase(&mut t); o.extend(f64s(t.data(..)));
            Ok(o) }),
        o!("magnitude_scale", T::EPS * 20.0, 0, to_complex_time_vec, |v, x| { let _ = x; v.conj(); v.scale(Complex::new(T::of(2.0), T::of(1.0))); let r = v.magnitude(); out!(r) }),
    ]
}
macro_rules! po { ($T:ident, $name:expr, $tol:expr, $lens:expr, $conv:ident, |$v:ident, $x:ident| $b:expr) => { MOp { name: $name, tol: $tol, lens: $lens, run: |$x, s| { #[allow(unused_mut)] let mut $v = start!($T, $x, s, $conv); $b } } } }
macro_rules! prec { ($T:ident, $fr:ident, $fc:ident) => {
fn $fr() -> Vec<MOp> {
    let e = <$T as Tt>::EPS * 200.0;
    vec![
        po!($T, "stats_prec", e, 0, to_real_time_vec, |v, x| { let _ = x; let s = v.statistics_prec(); Ok(vec![s.sum.f(), s.count as f64, s.average.f(), s.rms.f(), s.min.f(), s.max.f(), s.min_index as f64, s.max_index as f64]) }),
        po!($T, "stats_split_prec", e, 0, to_real_time_vec, |v, x| { let _ = x; let s = v.statistics_split_prec(3).map_err(|e| format!("{:?}", e))?; Ok(s.iter().flat_map(|s| vec![s.sum.f(), s.count as f64, s.average.f(), s.rms.f(), s.min.f(), s.max.f(), s.min_index as f64, s.max_index as f64]).collect()) }),
        po!($T, "sum_prec", e, 0, to_real_time_vec, |v, x| { let _ = x; Ok(vec![v.sum_prec().f(), v.sum_sq_prec().f()]) }),
    ]
}
fn $fc() -> Vec<MOp> {
    let e = <$T as Tt>::EPS * 200.0;
    vec![
        po!($T, "stats_prec", e, 0, to_complex_time_vec, |v, x| { let _ = x; let s = v.statistics_prec(); Ok(vec![s.sum.re.f(), s.sum.im.f(), s.count as f64, s.average.re.f(), s.average.im.f(), s.rms.re.f(), s.rms.im.f(), s.min.norm().f(), s.max.norm().f(), s.min_index as f64, s.max_index as f64]) }),
        po!($T, "sum_prec", e, 0, to_complex_time_vec, |v, x| { let _ = x; Ok([v.sum_prec(), v.sum_sq_prec()].iter().flat_map(|c| vec![c.re.f(), c.im.f()]).collect()) }),
        po!($T, "stats_split_prec", e, 0, to_complex_time_vec, |v, x| { let _ = x; let s = v.statistics_split_prec(3).map_err(|e| format!("{:?}", e))?; Ok(s.iter().flat_map(|s| vec![s.sum.re.f(), s.sum.im.f(), s.count as f64, s.rms.re.f(), s.rms.im.f(), s.min.norm().f(), s.max.norm().f(), s.min_index as f64, s.max_index as f64]).collect()) }),
    ]
}
}}
prec!(f32, rp32, cp32);
prec!(f64, rp64, cp64);
fn grid<T: Tt>(ctx: &Ctx, kind: &str, ops: Vec<MOp>, st: usize) {
    for o in &ops {
        let mut ls: Vec<usize> = match o.lens { 0 => (0..=if ctx.thorough { 66 } else { 22 }).chain([31, 32, 33, 47, 64, 65, 100, 101, 200, 257]).collect(),
            1 => (3..=if ctx.thorough { 40 } else { 16 }).chain([31, 33, 64, 101, 200]).collect(),
            3 => vec![3, 10, 31, 33, 64, 101, 200, 1001],
            _ => vec![501, 502, 510, 1001, 1007] };
        if ctx.thorough && o.lens == 0 { ls.extend([510, 511, 512, 513, 999]); }
        for n in ls { for s in 0..NSET {
            let mut s0 = ctx.seed; s0 = s0.wrapping_mul(31).wrapping_add(n as u64);
            ctx.case(format!("{}/{} {} points={} settings={} seed={}", kind, o.name, T::NAME, n, s, ctx.seed), n > 1, || {
                let mut rng = Rng::new(s0);
                let x: Vec<f64> = (0..n * st).map(|_| rng.nzint()).collect();
                // order of the extreme values must not depend on ties: make them distinct
                let x: Vec<f64> = if o.name.starts_with("stats") { x.iter().enumerate().map(|(i, v)| v * 1.0 + i as f64 * 0.03125 * if i % 2 == 0 { 1.0 } else { -1.0 }).collect() } else { x };
                let base = (o.run)(&x, None);
                let set = settings(s);
                let got = (o.run)(&x, Some(set));
                match (base, got) {
                    (Ok(b), Ok(g)) => cmp("result", &g, &b, o.tol),
                    (Err(a), Err(b)) => eq("error", b, a),
                    (a, b) => Err(format!("single threaded {:?}, divided {:?}", a, b)),
                }
            });
        }}
    }
}
fn tables<T: Tt>(ctx: &Ctx) {
    let n1 = real_table::<T, RealTimeVec<Vec<T>, T>>().len();
    for k in 0..n1 { for n in [0usize, 1, 2, 3, 5, 8, 17, 33, 64, 100, 131] { for s in 0..NSET {
        let name = real_table::<T, RealTimeVec<Vec<T>, T>>()[k].name;
        ctx.case(format!("rtab/{} {} points={} settings={} seed={}", name, T::NAME, n, s, ctx.seed), n > 1, || {
            let t = real_table::<T, RealTimeVec<Vec<T>, T>>();
            let mut rng = Rng::new(ctx.seed + n as u64);
            let x: Vec<f64> = (0..n).map(|_| t[k].input.gen(&mut rng)).collect();
            let mut a = ts::<T>(&x).to_real_time_vec(); let mut b = ts::<T>(&x).to_real_time_vec();
            b.set_multicore_settings(settings(s));
            (t[k].run)(&mut a); (t[k].run)(&mut b);
            cmp("result", &f64s(b.data(..)), &f64s(a.data(..)), T::EPS * 20.0)
        });
    }}}
    let n2 = complex_table::<T, ComplexTimeVec<Vec<T>, T>>().len();
    for k in 0..n2 { for n in [0usize, 1, 2, 3, 5, 8, 17, 33, 64, 100, 131] { for s in 0..NSET {
        let name = complex_table::<T, ComplexTimeVec<Vec<T>, T>>()[k].name;
        ctx.case(format!("ctab/{} {} points={} settings={} seed={}", name, T::NAME, n, s, ctx.seed), n > 1, || {
            let t = complex_table::<T, ComplexTimeVec<Vec<T>, T>>();
            let mut rng = Rng::new(ctx.seed + n as u64);
            let x: Vec<f64> = (0..2 * n).map(|_| t[k].input.gen(&mut rng)).collect();
            let mut a = ts::<T>(&x).to_complex_time_vec(); let mut b = ts::<T>(&x).to_complex_time_vec();
            b.set_multicore_settings(settings(s));
            (t[k].run)(&mut a); (t[k].run)(&mut b);
            cmp("result", &f64s(b.data(..)), &f64s(a.data(..)), t[k].tol + T::EPS * 20.0)
        });
    }}}
}
/// every element is visited exactly once with its own index
fn visits(ctx: &Ctx) {
    use std::sync::Mutex;
    for cplx in [false, true] { for n in (0..70usize).chain([127, 128, 255, 1000]) { for s in 0..NSET {
        ctx.case(format!("visits/{} points={} settings={}", if cplx { "complex" } else { "real" }, n, s), n > 1, || {
            let seen = Mutex::new(vec![0usize; n]);
            let bad = Mutex::new(None);
            if cplx {
                let mut v = (0..2 * n).map(|i| i as f64).collect::<Vec<f64>>().to_complex_time_vec();
                v.set_multicore_settings(settings(s));
                v.map_inplace((&seen, &bad), &|a: Complex<f64>, i, (seen, bad): (&Mutex<Vec<usize>>, &Mutex<Option<String>>)| {
                    if a.re != 2.0 * i as f64 || a.im != 2.0 * i as f64 + 1.0 { *bad.lock().unwrap() = Some(format!("point {} came with index {}", a, i)); }
                    if i < n { seen.lock().unwrap()[i] += 1; } a });
            } else {
                let mut v = (0..n).map(|i| i as f64).collect::<Vec<f64>>().to_real_time_vec();
                v.set_multicore_settings(settings(s));
                v.map_inplace((&seen, &bad), &|a: f64, i, (seen, bad): (&Mutex<Vec<usize>>, &Mutex<Option<String>>)| {
                    if a != i as f64 { *bad.lock().unwrap() = Some(format!("point {} came with index {}", a, i)); }
                    if i < n { seen.lock().unwrap()[i] += 1; } a });
            }
            if let Some(b) = bad.into_inner().unwrap() { return Err(b); }
            ensure(seen.into_inner().unwrap().iter().all(|c| *c == 1), "not every point visited exactly once")
        });
    }}}
}
pub fn run(ctx: &Ctx) {
    visits(ctx);
    grid::<f32>(ctx, "real", real_ops::<f32>(), 1);
    grid::<f64>(ctx, "real", real_ops::<f64>(), 1);
    grid::<f32>(ctx, "complex", complex_ops::<f32>(), 2);
    grid::<f64>(ctx, "complex", complex_ops::<f64>(), 2);
    grid::<f32>(ctx, "realprec", rp32(), 1);
    grid::<f64>(ctx, "realprec", rp64(), 1);
    grid::<f32>(ctx, "complexprec", cp32(), 2);
    grid::<f64>(ctx, "complexprec", cp64(), 2);
    tables::<f64>(ctx);
    tables::<f32>(ctx);
}
