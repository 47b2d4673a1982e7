//! C19: mapping and folding.
use crate::fw::*;
use crate::{inv, over_storage};
use basic_dsp_vector::numbers::Complex;
use basic_dsp_vector::*;
use basic_dsp_vector::MultiCoreSettings as S;
use std::sync::Mutex;

fn settings(i: usize) -> S { match i { 0 => S::default(), 1 => S::with_thresholds(2, 0, 0, 0, 0), 2 => S::with_thresholds(7, 0, 0, 0, 0), _ => S::parallel() } }
fn ns(ctx: &Ctx) -> Vec<usize> { let mut v: Vec<usize> = (0..=24).collect(); v.extend([31, 32, 33, 63, 64, 65, 100, 129, 1000]); if ctx.thorough { v.extend(34..130); } v }
fn t<T: Tt>(ctx: &Ctx) {
    for &n in &ns(ctx) { for kind in 0..3 { for slack in [0usize, 1, 2, 3, 5] { for set in 0..4 {
        ctx.case(format!("real {} n={} kind={} slack={} settings={}", T::NAME, n, kind, slack, set), n > 0, || {
            let x: Vec<f64> = (0..n).map(|i| ((i * 7) % 13) as f64 - 4.0).collect();
            over_storage!(T, kind, &x, slack, to_real_time_vec, |v| {
                v.set_multicore_settings(settings(set));
                let seen = Mutex::new(vec![0u32; n]);
                v.map_inplace(T::of(3.0), &|a: T, i, arg: T| { seen.lock().unwrap()[i] += 1; a * arg + T::of(i as f64) });
                ensure(seen.into_inner().unwrap().iter().all(|c| *c == 1), "a point was not visited exactly once")?;
                let w: Vec<f64> = x.iter().enumerate().map(|(i, a)| a * 3.0 + i as f64).collect();
                cmp("map", &f64s(v.data(..)), &w, 0.0)?;
                let all = f64s(&v.data[..]);
                for i in n..all.len() { eq("storage behind the valid length", all[i], 1000.0 + (i - n) as f64)?; }
                inv!(v);
                let seen = Mutex::new(vec![0u32; n]);
                let r = v.map_aggregate(T::of(2.0), &|a: T, i, arg: T| { seen.lock().unwrap()[i] += 1; vec![(i, (a * arg).f())] }, &|mut a: Vec<(usize, f64)>, b| { a.extend(b); a });
                if n == 0 { return eq("empty", r, Err(ErrorReason::InputMustNotBeEmpty)); }
                ensure(seen.into_inner().unwrap().iter().all(|c| *c == 1), "a point was not folded exactly once")?;
                let mut r = r.map_err(|e| format!("{:?}", e))?; r.sort_by_key(|x| x.0);
                eq("folded", r, w.iter().enumerate().map(|(i, a)| (i, a * 2.0)).collect::<Vec<_>>())?;
                let r: usize = v.map_aggregate((), &|_, i, _| i + 1, &|a, b| a + b).map_err(|e| format!("{:?}", e))?;
                eq("sum of indices", r, n * (n + 1) / 2)
            })
        });
        ctx.case(format!("complex {} n={} kind={} slack={} settings={}", T::NAME, n, kind, slack, set), n > 0, || {
            let x: Vec<f64> = (0..2 * n).map(|i| ((i * 7) % 13) as f64 - 4.0).collect();
            over_storage!(T, kind, &x, slack, to_complex_freq_vec, |v| {
                v.set_multicore_settings(settings(set));
                let seen = Mutex::new(vec![0u32; n]);
                v.map_inplace(T::of(3.0), &|a: Complex<T>, i, arg: T| { seen.lock().unwrap()[i] += 1; Complex::new(a.re * arg, a.im + T::of(i as f64)) });
                ensure(seen.into_inner().unwrap().iter().all(|c| *c == 1), "a point was not visited exactly once")?;
                let w: Vec<f64> = x.iter().enumerate().map(|(i, a)| if i % 2 == 0 { a * 3.0 } else { a + (i / 2) as f64 }).collect();
                cmp("map", &f64s(v.data(..)), &w, 0.0)?;
                let all = f64s(&v.data[..]);
                for i in 2 * n..all.len() { eq("storage behind the valid length", all[i], 1000.0 + (i - 2 * n) as f64)?; }
                inv!(v);
                let seen = Mutex::new(vec![0u32; n]);
                let r = v.map_aggregate((), &|a: Complex<T>, i, _| { seen.lock().unwrap()[i] += 1; vec![(i, a.re.f(), a.im.f())] }, &|mut a: Vec<(usize, f64, f64)>, b| { a.extend(b); a });
                if n == 0 { return eq("empty", r, Err(ErrorReason::InputMustNotBeEmpty)); }
                ensure(seen.into_inner().unwrap().iter().all(|c| *c == 1), "a point was not folded exactly once")?;
                let mut r = r.map_err(|e| format!("{:?}", e))?; r.sort_by_key(|x| x.0);
                eq("folded", r, (0..n).map(|i| (i, w[2 * i], w[2 * i + 1])).collect::<Vec<_>>())?;
                let r: usize = v.map_aggregate((), &|_, i, _| i + 1, &|a, b| a + b).map_err(|e| format!("{:?}", e))?;
                eq("sum of indices", r, n * (n + 1) / 2)
            })
        });
    }}}}
    // storages that are not empty while the vector is; runtime typed vectors of the other number space
    for slack in 0..5usize { for cx in [false, true] { ctx.case(format!("gen {} slack={} complex={}", T::NAME, slack, cx), true, || {
        let mut v = vec![T::of(1.0); 6 + slack].to_gen_dsp_vec(cx, DataDomain::Time); v.resize(6).unwrap();
        let r = v.map_aggregate((), &|_: T, _, _| 1usize, &|a, b| a + b);
        eq("real fold", r, if cx { Err(ErrorReason::InputMustBeReal) } else { Ok(6) })?;
        let r = v.map_aggregate((), &|_: Complex<T>, _, _| 1usize, &|a, b| a + b);
        eq("complex fold", r, if cx { Ok(3) } else { Err(ErrorReason::InputMustBeComplex) })?;
        let mut e = v.clone(); e.resize(0).unwrap();
        if cx { eq("empty", e.map_aggregate((), &|_: Complex<T>, _, _| 1usize, &|a, b| a + b), Err(ErrorReason::InputMustNotBeEmpty))?; e.map_inplace((), &|_: Complex<T>, _, _| panic!("called")); }
        else { eq("empty", e.map_aggregate((), &|_: T, _, _| 1usize, &|a, b| a + b), Err(ErrorReason::InputMustNotBeEmpty))?; e.map_inplace((), &|_: T, _, _| panic!("called")); }
        inv!(e); Ok(())
    }); } }
}
pub fn run(ctx: &Ctx) { t::<f32>(ctx); t::<f64>(ctx); }
