//! C13: statistics describe exactly the valid elements.
use crate::fw::*;
use crate::ops::{c, C};
use basic_dsp_vector::numbers::Complex;
use basic_dsp_vector::MultiCoreSettings as S;
use basic_dsp_vector::*;

fn settings(i: usize) -> S {
    match i { 0 => S::default(), 1 => S::with_thresholds(2, 0, 0, 0, 0), 2 => S::with_thresholds(3, 0, 0, 0, 0), 3 => S::with_thresholds(5, 0, 0, 0, 0), 4 => S::with_thresholds(24, 0, 0, 0, 0), _ => S::with_thresholds(70, 0, 0, 0, 0) }
}
struct St { sum: C, count: usize, avg: C, rms: C, min: C, max: C, mini: usize, maxi: usize }
fn rs<T: Tt>(s: &Statistics<T>) -> St { let r = |x: T| c(x.f(), 0.0); St { sum: r(s.sum), count: s.count, avg: r(s.average), rms: r(s.rms), min: r(s.min), max: r(s.max), mini: s.min_index, maxi: s.max_index } }
fn cs<T: Tt>(s: &Statistics<Complex<T>>) -> St { let r = |x: Complex<T>| c(x.re.f(), x.im.f()); St { sum: r(s.sum), count: s.count, avg: r(s.average), rms: r(s.rms), min: r(s.min), max: r(s.max), mini: s.min_index, maxi: s.max_index } }
fn cnear(what: &str, a: C, b: C, tol: f64) -> R { if near(a.re, b.re, tol) && near(a.im, b.im, tol) { Ok(()) } else { Err(format!("{}: got {} want {}", what, a, b)) } }
/// `p`: the points; `real`: order by value, otherwise by magnitude. `mag`: sum of the magnitudes, scale of the tolerance
fn check(what: &str, s: &St, p: &[C], real: bool, eps: f64) -> R {
    let n = p.len();
    let w = |x: &str| format!("{} {}", what, x);
    eq(&w("count"), s.count, n)?;
    if n == 0 { return Ok(()); }
    let mag: f64 = p.iter().map(|x| x.norm()).sum::<f64>();
    let msq: f64 = p.iter().map(|x| x.norm_sqr()).sum::<f64>();
    let tol = eps * (n as f64 + 4.0);
    let sum: C = p.iter().sum();
    let sq: C = p.iter().map(|x| x * x).sum();
    let ab = |what: &str, got: C, want: C, t: f64| -> R { if (got - want).norm() <= t { Ok(()) } else { Err(format!("{}: got {} want {} (tolerance {:e})", what, got, want, t)) } };
    ab(&w("sum"), s.sum, sum, tol * mag)?;
    ab(&w("average"), s.avg, sum / n as f64, tol * mag / n as f64)?;
    // rms^2 is well conditioned, rms is not near zero
    ab(&w("rms squared"), s.rms * s.rms, sq / n as f64, 4.0 * tol * msq / n as f64)?;
    if real { ensure(s.rms.re >= 0.0, &w("rms is negative"))?; } else { ensure(s.rms.re >= -8.0 * eps * s.rms.norm(), &w("rms is not the principal root"))?; }
    let key = |x: C| if real { x.re } else { x.norm() };
    let (mn, mx) = (p.iter().map(|x| key(*x)).fold(f64::INFINITY, f64::min), p.iter().map(|x| key(*x)).fold(f64::NEG_INFINITY, f64::max));
    let t = if real { 0.0 } else { 4.0 * eps };
    if !near(key(s.min), mn, t) { return Err(format!("{}: got {} want {}", w("min"), s.min, mn)); }
    if !near(key(s.max), mx, t) { return Err(format!("{}: got {} want {}", w("max"), s.max, mx)); }
    ensure(s.mini < n && s.maxi < n, &w("index out of range"))?;
    cnear(&w("element at min_index"), p[s.mini], s.min, eps)?;
    cnear(&w("element at max_index"), p[s.maxi], s.max, eps)
}
fn values(kind: usize, n: usize, seed: u64) -> Vec<f64> {
    let mut r = Rng::new(seed);
    (0..n).map(|i| match kind {
        0 => r.int(), 1 => i as f64 - 3.0, 2 => 5.0 - i as f64, 3 => if i + 1 == n { 50.0 } else if i + 2 == n { -50.0 } else { 1.0 },
        4 => if i % 2 == 0 { 1e7 + (i % 5) as f64 } else { 0.001 * (i % 7) as f64 }, 5 => -3.0 - r.below(5) as f64, 6 => 0.0,
        7 => if i == n / 2 { -9.0 } else if i == n / 2 + 1 { 9.0 } else { 0.5 },
        _ => if i == 0 { 9.0 } else if i == 1 { -9.0 } else { (i % 3) as f64 },
    }).collect()
}
macro_rules! sized { ($T:ty, $ctx:expr, $e64:expr) => {{
    let ctx: &Ctx = $ctx;
    let ns: Vec<usize> = (0..20).chain([24, 31, 32, 33, 40, 63, 64, 65, 100, 257]).collect();
    let eps = <$T as Tt>::EPS;
    let peps: f64 = f64::EPSILON;
    for &n in &ns { for kind in 0..9 { for set in 0..6 { for slack in [0usize, 1, 4] {
        ctx.case(format!("real {} n={} values={} settings={} slack={}", <$T as Tt>::NAME, n, kind, set, slack), n > 0, || {
            let x = values(kind, n, n as u64 + 7 * kind as u64);
            let mut a = Al::<$T>::with(&x, slack, 1 + n % 3);
            let x = f64s(&a.r()[..n]);
            let mut v = a.s().to_real_time_vec(); v.resize(n).unwrap(); v.set_multicore_settings(settings(set));
            let p: Vec<C> = x.iter().map(|v| c(*v, 0.0)).collect();
            check("statistics", &rs(&v.statistics()), &p, true, eps)?;
            check("statistics_prec", &rs(&v.statistics_prec()), &p, true, peps * 2.0)?;
            for k in 0..=17usize {
                let part = |j: usize| -> Vec<C> { p.iter().skip(j).step_by(k).cloned().collect() };
                match (v.statistics_split(k), v.statistics_split_prec(k)) {
                    (Ok(s), Ok(sp)) => {
                        ensure(k <= 16, "split into more parts than the result can hold")?;
                        eq("parts", (s.len(), sp.len()), if n > 0 { (k, k) } else { (s.len(), s.len()) })?;
                        for j in 0..s.len() {
                            check(&format!("split {}/{}", j, k), &rs(&s[j]), &part(j), true, eps)?;
                            check(&format!("split_prec {}/{}", j, k), &rs(&sp[j]), &part(j), true, peps * 2.0)?;
                        }
                    }
                    (Err(e), Err(f)) => { eq("error", (e, f), (ErrorReason::InvalidArgumentLength, ErrorReason::InvalidArgumentLength))?; ensure(k > 16, "refused")? }
                    _ => return Err("split and split_prec disagree".into()),
                }
            }
            let (sum, sq): (f64, f64) = (x.iter().sum(), x.iter().map(|v| v * v).sum());
            let (mag, n1): (f64, f64) = (x.iter().map(|v| v.abs()).sum(), n as f64 + 4.0);
            let ab = |what: &str, got: f64, want: f64, t: f64| -> R { if (got - want).abs() <= t { Ok(()) } else { Err(format!("{}: got {} want {}", what, got, want)) } };
            ab("sum", v.sum().f(), sum, n1 * eps * mag)?;
            ab("sum_sq", v.sum_sq().f(), sq, n1 * eps * sq)?;
            ab("sum_prec", v.sum_prec() as f64, sum, n1 * peps * mag)?;
            ab("sum_sq_prec", v.sum_sq_prec() as f64, sq, n1 * peps * sq)?;
            let y = values((kind + 1) % 9, n, n as u64 + 99);
            let mut b = Al::<$T>::with(&y, slack, n % 4);
            let y = f64s(&b.r()[..n]);
            let mut w = b.s().to_real_time_vec(); w.resize(n).unwrap();
            let (d, m): (f64, f64) = (x.iter().zip(&y).map(|(a, b)| a * b).sum(), x.iter().zip(&y).map(|(a, b)| (a * b).abs()).sum());
            ab("dot", v.dot_product(&w).map_err(|e| format!("{:?}", e))?.f(), d, n1 * eps * m)?;
            ab("dot_prec", v.dot_product_prec(&w).map_err(|e| format!("{:?}", e))?.f(), d, n1 * eps * m)?;
            cmp("data", &f64s(v.data(..)), &x, 0.0)?;
            a.slack_ok(n)
        });
        ctx.case(format!("complex {} n={} values={} settings={} slack={}", <$T as Tt>::NAME, n, kind, set, slack), n > 0, || {
            let re = values(kind, n, n as u64 + 7 * kind as u64); let im = values((kind + 3) % 9, n, n as u64 + 13);
            let x: Vec<f64> = re.iter().zip(&im).flat_map(|(a, b)| vec![*a, *b]).collect();
            let x = f64s(&ts::<$T>(&x));
            let al = if slack % 2 == 1 { 2 * n + slack + 1 } else { 2 * n + slack };
            let mut st = ts::<$T>(&x); st.resize(al, <$T as Tt>::of(777.0));
            let mut v = (&mut st[..]).to_complex_time_vec(); v.resize(2 * n).unwrap(); v.set_multicore_settings(settings(set));
            let p: Vec<C> = x.chunks(2).map(|v| c(v[0], v[1])).collect();
            check("statistics", &cs(&v.statistics()), &p, false, eps)?;
            check("statistics_prec", &cs(&v.statistics_prec()), &p, false, peps * 2.0)?;
            for k in 0..=17usize {
                let part = |j: usize| -> Vec<C> { p.iter().skip(j).step_by(k).cloned().collect() };
                match (v.statistics_split(k), v.statistics_split_prec(k)) {
                    (Ok(s), Ok(sp)) => {
                        ensure(k <= 16, "split into more parts than the result can hold")?;
                        eq("parts", (s.len(), sp.len()), if n > 0 { (k, k) } else { (s.len(), s.len()) })?;
                        for j in 0..s.len() {
                            check(&format!("split {}/{}", j, k), &cs(&s[j]), &part(j), false, eps)?;
                            check(&format!("split_prec {}/{}", j, k), &cs(&sp[j]), &part(j), false, peps * 2.0)?;
                        }
                    }
                    (Err(e), Err(f)) => { eq("error", (e, f), (ErrorReason::InvalidArgumentLength, ErrorReason::InvalidArgumentLength))?; ensure(k > 16, "refused")? }
                    _ => return Err("split and split_prec disagree".into()),
                }
            }
            let (sum, sq): (C, C) = (p.iter().sum(), p.iter().map(|v| v * v).sum());
            let (mag, msq, n1): (f64, f64, f64) = (p.iter().map(|v| v.norm()).sum(), p.iter().map(|v| v.norm_sqr()).sum(), 2.0 * n as f64 + 8.0);
            let cc = |x: Complex<$T>| c(x.re.f(), x.im.f());
            let ab = |what: &str, got: C, want: C, t: f64| -> R { if (got - want).norm() <= t { Ok(()) } else { Err(format!("{}: got {} want {}", what, got, want)) } };
            ab("sum", cc(v.sum()), sum, n1 * eps * mag)?;
            ab("sum_sq", cc(v.sum_sq()), sq, n1 * eps * msq)?;
            let q = v.sum_prec(); ab("sum_prec", c(q.re as f64, q.im as f64), sum, n1 * peps * mag)?;
            let q = v.sum_sq_prec(); ab("sum_sq_prec", c(q.re as f64, q.im as f64), sq, n1 * peps * msq)?;
            let mut st2: Vec<$T> = ts::<$T>(&x); st2.reverse(); let y = f64s(&st2);
            st2.resize(2 * n + 3, <$T as Tt>::of(555.0));
            let mut w = (&mut st2[..]).to_gen_dsp_vec(true, DataDomain::Time); w.resize(2 * n).unwrap();
            let q: Vec<C> = y.chunks(2).map(|v| c(v[0], v[1])).collect();
            let (d, m): (C, f64) = (p.iter().zip(&q).map(|(a, b)| a * b).sum(), p.iter().zip(&q).map(|(a, b)| (a * b).norm()).sum());
            ab("dot", cc(v.dot_product(&w).map_err(|e| format!("{:?}", e))?), d, n1 * eps * m)?;
            ab("dot_prec", cc(v.dot_product_prec(&w).map_err(|e| format!("{:?}", e))?), d, n1 * eps * m)?;
            cmp("data", &f64s(v.data(..)), &x, 0.0)
        });
        // statistics of consecutive pieces merged to the statistics of the whole
        if slack == 0 { for pieces in [1usize, 2, 3, 5, 16, 17, 40] { for cx in [false, true] { ctx.case(format!("merge {} complex={} n={} values={} set={} pieces={}", <$T as Tt>::NAME, cx, n, kind, set, pieces), n > 1, || {
            if n < pieces { return Ok(()); }
            let re = f64s(&ts::<$T>(&values(kind, n, n as u64 + 7 * kind as u64 + set as u64)));
            let im = f64s(&ts::<$T>(&values((kind + set + 3) % 9, n, n as u64 + 13)));
            let p: Vec<C> = re.iter().zip(&im).map(|(a, b)| c(*a, if cx { *b } else { 0.0 })).collect();
            let cuts: Vec<usize> = (0..=pieces).map(|i| i * n / pieces).collect();
            if cx {
                let el = |i: usize| Complex::<$T>::new(<$T as Tt>::of(p[i].re), <$T as Tt>::of(p[i].im));
                let parts: Vec<Statistics<Complex<$T>>> = (0..pieces).map(|q| { let mut s = Statistics::<Complex<$T>>::empty(); for i in cuts[q]..cuts[q + 1] { s.add(el(i), i); } s }).collect();
                check("merge", &cs(&Statistics::merge(&parts)), &p, false, eps)?;
                for k in [1usize, 2, 3, 16] {
                    let cols: Vec<StatsVec<Statistics<Complex<$T>>>> = (0..pieces).map(|q| { let mut s = Statistics::<Complex<$T>>::empty_vec(k); for i in cuts[q]..cuts[q + 1] { s[i % k].add(el(i), i / k); } s }).collect();
                    let m = Statistics::merge_cols(&cols);
                    eq("columns", m.len(), k)?;
                    for j in 0..k { let pj: Vec<C> = p.iter().skip(j).step_by(k).cloned().collect(); check("merge_cols", &cs(&m[j]), &pj, false, eps)?; }
                }
            } else {
                let el = |i: usize| <$T as Tt>::of(p[i].re);
                let parts: Vec<Statistics<$T>> = (0..pieces).map(|q| { let mut s = Statistics::<$T>::empty(); for i in cuts[q]..cuts[q + 1] { s.add(el(i), i); } s }).collect();
                check("merge", &rs(&Statistics::merge(&parts)), &p, true, eps)?;
                for k in [1usize, 2, 3, 16] {
                    let cols: Vec<StatsVec<Statistics<$T>>> = (0..pieces).map(|q| { let mut s = Statistics::<$T>::empty_vec(k); for i in cuts[q]..cuts[q + 1] { s[i % k].add(el(i), i / k); } s }).collect();
                    let m = Statistics::merge_cols(&cols);
                    eq("columns", m.len(), k)?;
                    for j in 0..k { let pj: Vec<C> = p.iter().skip(j).step_by(k).cloned().collect(); check("merge_cols", &rs(&m[j]), &pj, true, eps)?; }
                }
            }
            Ok(())
        }); } } }
        // vectors with spare growable storage
        if set < 2 && kind < 3 { ctx.case(format!("spare {} n={} values={} settings={} slack={}", <$T as Tt>::NAME, n, kind, set, slack), n > 0, || {
            let x: Vec<f64> = values(kind, 2 * n, 5 + n as u64);
            let mut m: Vec<$T> = ts::<$T>(&x); m.extend((0..2 * slack).map(|_| <$T as Tt>::of(99.0)));
            let mut v = m.to_complex_time_vec(); v.resize(2 * n).unwrap(); v.set_multicore_settings(settings(set));
            let p: Vec<C> = x.chunks(2).map(|v| c(v[0], v[1])).collect();
            check("statistics", &cs(&v.statistics()), &p, false, eps)?;
            let s: C = p.iter().sum(); let q = v.sum();
            cnear("sum", c(q.re.f(), q.im.f()), s, eps * 100.0)
        }); }
    }}}}
}}}
pub fn run(ctx: &Ctx) { sized!(f32, ctx, 1.0); sized!(f64, ctx, 1.0); }
