use crate::fw::*;
use crate::ops::*;
use basic_dsp_vector::*;
use basic_dsp_vector::numbers::Complex;

pub fn lens(t: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if t { 70 } else { 34 }).collect();
    v.extend([47, 63, 64, 65, 127, 256, 257]);
    if t { v.extend([511, 512, 513, 1000, 1023]); }
    v.dedup();
    v
}
fn real<T: Tt>(ctx: &Ctx) {
    let names: Vec<&str> = real_table::<T, RealTimeVec<&mut [T], T>>().iter().map(|o| o.name).collect();
    for (k, name) in names.iter().enumerate() {
        for &len in &lens(ctx.thorough) { for off in 0..8 { for slack in [0usize, 1, 2, 7] {
            ctx.case(format!("real/{} {} len={} off={} slack={} seed={}", name, T::NAME, len, off, slack, ctx.seed), len > 0, || {
                let mut rng = Rng::new(ctx.seed * 1000 + len as u64 * 31 + off as u64);
                let tab0 = real_table::<T, RealTimeVec<&mut [T], T>>();
                let (input, r, tol) = (tab0[k].input, tab0[k].r, tab0[k].tol);
                let x: Vec<f64> = (0..len).map(|_| T::of(input.gen(&mut rng)).f()).collect();
                let mut b = Al::<T>::with(&x, slack, off);
                {
                    let mut v = b.s().to_real_time_vec().mc();
                    v.resize(len).map_err(|e| format!("{:?}", e))?;
                    (real_table::<T, RealTimeVec<&mut [T], T>>()[k].run)(&mut v);
                    eq("len", v.len(), len)?;
                    eq("delta", v.delta().f(), 1.0)?;
                }
                let want: Vec<f64> = x.iter().map(|v| r(*v)).collect();
                cmp("result", &f64s(&b.r()[..len]), &want, tol)?;
                b.slack_ok(len)
            });
        }}}
    }
}
fn complex<T: Tt>(ctx: &Ctx) {
    let names: Vec<&str> = complex_table::<T, ComplexTimeVec<&mut [T], T>>().iter().map(|o| o.name).collect();
    for (k, name) in names.iter().enumerate() {
        for &len in &lens(ctx.thorough) { if len % 2 != 0 { continue; } for off in 0..8 { for slack in [0usize, 1, 2, 7] {
            ctx.case(format!("complex/{} {} len={} off={} slack={} seed={}", name, T::NAME, len, off, slack, ctx.seed), len > 0, || {
                let mut rng = Rng::new(ctx.seed * 1000 + len as u64 * 31 + off as u64);
                let tab0 = complex_table::<T, ComplexTimeVec<&mut [T], T>>();
                let (input, r, tol) = (tab0[k].input, tab0[k].r, tab0[k].tol);
                let x: Vec<f64> = (0..len).map(|_| T::of(input.gen(&mut rng)).f()).collect();
                let mut b = Al::<T>::with(&x, slack, off);
                {
                    let mut v = b.s().to_complex_time_vec().mc();
                    v.resize(len).map_err(|e| format!("{:?}", e))?;
                    (complex_table::<T, ComplexTimeVec<&mut [T], T>>()[k].run)(&mut v);
                    eq("len", v.len(), len)?;
                    eq("delta", v.delta().f(), 1.0)?;
                }
                let want: Vec<f64> = (0..len / 2).flat_map(|i| { let y = r(i, c(x[2 * i], x[2 * i + 1])); [y.re, y.im] }).collect();
                cmp("result", &f64s(&b.r()[..len]), &want, tol)?;
                b.slack_ok(len)
            });
        }}}
    }
}
fn binary<T: Tt>(ctx: &Ctx) {
    macro_rules! go { ($cplx:expr, $V:ident, $conv:ident) => {{
        let n = bin_table::<T, $V<&mut [T], T>, _, _>().len();
        for k in 0..n {
            for &len in &lens(ctx.thorough) { if $cplx && len % 2 != 0 { continue; }
            for off in 0..8usize { for off2 in [0usize, 1, 2, 3] { for slack in [0usize, 1, 3] {
                let (name, smaller, tol) = { let t = bin_table::<T, $V<&mut [T], T>, _, _>(); (t[k].name, t[k].smaller, t[k].tol) };
                let l2s: Vec<usize> = if !smaller { vec![len] } else { (1..=len).filter(|d| len % d == 0 && !($cplx && d % 2 != 0)).filter(|d| *d <= 8 || *d * 2 >= len).collect() };
                if smaller && (off2 > 1 || slack == 3) { continue; }
                for l2 in l2s {
                ctx.case(format!("{}/{} {} len={} arg={} off={} off2={} slack={} seed={}", if $cplx { "cbin" } else { "bin" }, name, T::NAME, len, l2, off, off2, slack, ctx.seed), len > 0, || {
                    let mut rng = Rng::new(ctx.seed * 1000 + len as u64 * 31 + off as u64);
                    let x: Vec<f64> = (0..len).map(|_| rng.int()).collect();
                    let y: Vec<f64> = (0..l2).map(|_| rng.nzint()).collect();
                    let mut b = Al::<T>::with(&x, slack, off);
                    let mut b2 = Al::<T>::with(&y, (slack + 1) % 3, off2);
                    let (r, cf);
                    {
                        let mut v = b.s().$conv().mc();
                        v.resize(len).map_err(|e| format!("{:?}", e))?;
                        let mut w = b2.s().$conv().mc();
                        w.resize(l2).map_err(|e| format!("{:?}", e))?;
                        let t = bin_table::<T, $V<&mut [T], T>, _, _>();
                        r = t[k].r; cf = t[k].c;
                        (t[k].run)(&mut v, &w).map_err(|e| format!("rejected valid operands: {:?}", e))?;
                        eq("len", v.len(), len)?;
                        eq("arg len", w.len(), l2)?;
                    }
                    let want: Vec<f64> = if $cplx {
                        (0..len / 2).flat_map(|i| { let j = i % (l2 / 2); let z = cf(c(x[2 * i], x[2 * i + 1]), c(y[2 * j], y[2 * j + 1])); [z.re, z.im] }).collect()
                    } else { (0..len).map(|i| r(x[i], y[i % l2])).collect() };
                    cmp("result", &f64s(&b.r()[..len]), &want, if tol { T::EPS * 10.0 } else { 0.0 })?;
                    b.slack_ok(len)?;
                    cmp("argument", &f64s(&b2.r()[..l2]), &y, 0.0)?;
                    b2.slack_ok(l2)
                }); }
            }}}}
        }
    }}}
    go!(false, RealTimeVec, to_real_time_vec);
    go!(true, ComplexTimeVec, to_complex_time_vec);
}
pub fn run(ctx: &Ctx) {
    real::<f32>(ctx); real::<f64>(ctx);
    complex::<f32>(ctx); complex::<f64>(ctx);
    binary::<f32>(ctx); binary::<f64>(ctx);
    let _ = Complex::new(0.0, 0.0);
}
