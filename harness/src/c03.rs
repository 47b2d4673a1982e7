//! C03: operations between vectors check their operands before touching them.
use crate::fw::*;
use crate::inv;
use basic_dsp_vector::numbers::Complex;
use basic_dsp_vector::*;
use ErrorReason::*;

type G<T> = GenDspVec<Vec<T>, T>;
#[derive(Clone, Copy, Debug, PartialEq)]
struct P { n: usize, cplx: bool, freq: bool, delta: f64 }
fn mk<T: Tt>(p: P, seed: u64, slack: usize) -> G<T> {
    let mut rng = Rng::new(seed);
    let len = p.n * if p.cplx { 2 } else { 1 };
    let mut x: Vec<T> = (0..len).map(|_| T::of(rng.nzint())).collect();
    x.extend((0..slack * 2).map(|i| T::of(1000.0 + i as f64)));
    let mut v = x.to_gen_dsp_vec(p.cplx, if p.freq { DataDomain::Frequency } else { DataDomain::Time }).mc();
    v.resize(len).unwrap();
    v.set_delta(T::of(p.delta));
    v
}
fn same<T: Tt>(what: &str, v: &G<T>, p: P, before: &[f64]) -> R {
    eq(&format!("{} length", what), v.len(), p.n * if p.cplx { 2 } else { 1 })?;
    cmp(what, &f64s(v.data(..)), before, 0.0)?;
    eq(&format!("{} delta", what), v.delta().f(), T::of(p.delta).f())?;
    eq(&format!("{} number space", what), v.is_complex(), p.cplx)?;
    eq(&format!("{} domain", what), v.domain() == DataDomain::Frequency, p.freq)
}
/// reasons that apply to the operands; empty: they fit
fn reasons(op: &str, a: P, b: P) -> Vec<ErrorReason> {
    let (la, lb) = (a.n * if a.cplx { 2 } else { 1 }, b.n * if b.cplx { 2 } else { 1 });
    let ratio = a.delta / b.delta;
    let meta = a.cplx != b.cplx || a.freq != b.freq;
    let dmeta = meta || ratio > 1.1 || ratio < 0.9;
    let mut r = vec![];
    match op {
        "add" | "sub" | "mul" | "div" => { if la != lb { r.push(InputMustHaveTheSameSize); } if dmeta { r.push(InputMetaDataMustAgree); } }
        "add_smaller" | "sub_smaller" | "mul_smaller" | "div_smaller" => { if lb == 0 || la % lb != 0 { r.push(InvalidArgumentLength); } if dmeta { r.push(InputMetaDataMustAgree); } }
        "dot" | "dot_prec" => { if a.cplx { r.push(InputMustBeReal); } if la != lb { r.push(InputMustHaveTheSameSize); } if meta { r.push(InputMetaDataMustAgree); } }
        "cdot" | "cdot_prec" => { if !a.cplx { r.push(InputMustBeComplex); } if la != lb { r.push(InputMustHaveTheSameSize); } if meta { r.push(InputMetaDataMustAgree); } }
        "convolve_signal" => { if dmeta { r.push(InputMetaDataMustAgree); } if a.freq { r.push(InputMustBeInTimeDomain); } if a.n < b.n { r.push(InvalidArgumentLength); } }
        "correlate" => { if a.freq { r.push(InputMustBeInTimeDomain); } if !a.cplx { r.push(InputMustBeComplex); }
            if !b.freq { r.push(InputMetaDataMustAgree); r.push(InputMustBeInFrequencyDomain); } if !b.cplx { r.push(InputMetaDataMustAgree); r.push(InputMustBeComplex); }
            if b.n < a.n { r.push(InvalidArgumentLength); } }
        _ => unreachable!(),
    }
    r
}
fn go<T: Tt>(ctx: &Ctx) where G<T>: Clone {
    let ops = ["add", "sub", "mul", "div", "add_smaller", "sub_smaller", "mul_smaller", "div_smaller", "dot", "dot_prec", "cdot", "cdot_prec", "convolve_signal", "correlate"];
    let ns: Vec<usize> = if ctx.thorough { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33] } else { vec![0, 1, 2, 3, 4, 6, 8, 9, 17] };
    for op in ops { for &na in &ns { for &nb in &ns { for ca in [false, true] { for cb in [false, true] { for fa in [false, true] { for fb in [false, true] {
        for (da, db) in [(1.0, 1.0), (1.0, 1.04), (1.04, 1.0), (1.0, 1.2), (1.2, 1.0), (0.5, 4.0)] { for slack in [0usize, 3] {
            let (a, b) = (P { n: na, cplx: ca, freq: fa, delta: da }, P { n: nb, cplx: cb, freq: fb, delta: db });
            ctx.case(format!("{} {} self={},{},{},{} arg={},{},{},{} slack={}", op, T::NAME, na, ca, fa, da, nb, cb, fb, db, slack), na > 0, || {
                let mut v = mk::<T>(a, 1 + na as u64, slack);
                let w = mk::<T>(b, 77 + nb as u64, slack);
                let (x, y) = (f64s(v.data(..)), f64s(w.data(..)));
                let expect = reasons(op, a, b);
                let mut buf = SingleBuffer::new();
                let mut unchanged = false;
                let r: VoidResult = match op {
                    "add" => v.add(&w), "sub" => v.sub(&w), "mul" => v.mul(&w), "div" => v.div(&w),
                    "add_smaller" => v.add_smaller(&w), "sub_smaller" => v.sub_smaller(&w), "mul_smaller" => v.mul_smaller(&w), "div_smaller" => v.div_smaller(&w),
                    "dot" => { unchanged = true; let r = <G<T> as DotProductOps<G<T>, T, T, _, _>>::dot_product(&v, &w); r.map(|_| ()) }
                    "dot_prec" => { unchanged = true; let r = <G<T> as PreciseDotProductOps<G<T>, T, T, _, _>>::dot_product_prec(&v, &w); r.map(|_| ()) }
                    "cdot" => { unchanged = true; let r = <G<T> as DotProductOps<G<T>, Complex<T>, T, _, _>>::dot_product(&v, &w); r.map(|_| ()) }
                    "cdot_prec" => { unchanged = true; let r = <G<T> as PreciseDotProductOps<G<T>, Complex<T>, T, _, _>>::dot_product_prec(&v, &w); r.map(|_| ()) }
                    "convolve_signal" => v.convolve_signal(&mut buf, &w),
                    _ => v.correlate(&mut buf, &w),
                };
                same("argument", &w, b, &y)?;
                inv!(v);
                match r {
                    Ok(()) => {
                        ensure(expect.is_empty(), &format!("accepted operands that do not fit: {:?}", expect))?;
                        if unchanged { same("self", &v, a, &x)?; }
                        else {
                            eq("delta", v.delta().f(), T::of(da).f())?;
                            eq("number space", v.is_complex(), ca)?;
                            eq("domain", v.domain() == DataDomain::Frequency, fa)?;
                            eq("length", v.points(), if op == "correlate" { nb } else { na })?;
                        }
                        Ok(())
                    }
                    Err(e) => {
                        // an empty impulse response or an empty argument of a transform may be refused
                        if expect.is_empty() && (op == "convolve_signal" || op == "correlate") && (na == 0 || nb == 0) { return same("self", &v, a, &x); }
                        if !expect.contains(&e) { return Err(if expect.is_empty() { format!("operands that fit were rejected with {:?}", e) } else { format!("error {:?}, but the reason is {:?}", e, expect) }); }
                        same("self after an error", &v, a, &x)
                    }
                }
            });
        }}
    }}}}}}}
}
/// the same for vectors whose storage cannot grow, and for typed vectors of unequal length
fn typed<T: Tt>(ctx: &Ctx) {
    for na in 0..14usize { for nb in 0..14usize { for op in 0..8 {
        ctx.case(format!("slices/{} {} self={} arg={}", op, T::NAME, na, nb), na > 0, || {
            let (mut x, mut y) = (Al::<T>::with(&(0..na).map(|i| i as f64 + 1.0).collect::<Vec<_>>(), 3, 1), Al::<T>::with(&(0..nb).map(|i| i as f64 + 2.0).collect::<Vec<_>>(), 2, 2));
            let (xs, ys) = (f64s(&x.r()[..na]), f64s(&y.r()[..nb]));
            let r = {
                let mut v = x.s().to_real_time_vec().mc(); v.resize(na).unwrap();
                let mut w = y.s().to_real_time_vec().mc(); w.resize(nb).unwrap();
                let r = match op { 0 => v.add(&w), 1 => v.sub(&w), 2 => v.mul(&w), 3 => v.div(&w), 4 => v.add_smaller(&w), 5 => v.sub_smaller(&w), 6 => v.mul_smaller(&w), _ => v.div_smaller(&w) };
                eq("len", v.len(), na)?; eq("arg len", w.len(), nb)?; r };
            cmp("argument", &f64s(&y.r()[..nb]), &ys, 0.0)?;
            x.slack_ok(na)?; y.slack_ok(nb)?;
            let fit = if op < 4 { na == nb } else { nb > 0 && na % nb == 0 };
            let want = if fit { Ok(()) } else if op < 4 { Err(InputMustHaveTheSameSize) } else { Err(InvalidArgumentLength) };
            eq("result", r, want)?;
            if !fit { cmp("self after an error", &f64s(&x.r()[..na]), &xs, 0.0)?; }
            Ok(())
        });
    }}}
    // arguments of correlations
    for n in 0..20usize { for padded in [false, true] {
        ctx.case(format!("prepare/{} {} n={}", padded, T::NAME, n), n > 0, || {
            let v = (0..2 * n).map(|i| T::of(i as f64)).collect::<Vec<T>>().to_complex_time_vec().mc();
            let mut b = SingleBuffer::new();
            let r = if padded { v.prepare_argument_padded(&mut b) } else { v.prepare_argument(&mut b) };
            inv!(r);
            eq("points", r.points(), if padded && n > 0 { 2 * n - 1 } else { n })
        });
    }}
}
pub fn run(ctx: &Ctx) { go::<f32>(ctx); go::<f64>(ctx); typed::<f32>(ctx); typed::<f64>(ctx); }
