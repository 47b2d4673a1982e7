//! C14: complex data and its components.
use crate::fw::*;
use crate::{inv, over_storage_move};
use basic_dsp_vector::*;

const PARTS: [&str; 5] = ["re", "im", "mag", "magsq", "phase"];
fn part(k: usize, re: f64, im: f64) -> f64 { match k { 0 => re, 1 => im, 2 => (re * re + im * im).sqrt(), 3 => re * re + im * im, _ => im.atan2(re) } }
fn want(k: usize, x: &[f64]) -> Vec<f64> { x.chunks(2).map(|c| part(k, c[0], c[1])).collect() }
fn data(n: usize, seed: u64) -> Vec<f64> {
    let mut r = Rng::new(seed * 31 + n as u64);
    let mut x: Vec<f64> = (0..2 * n).map(|_| r.int()).collect();
    // distinct points, all quadrants, axes
    for i in 0..n { x[2 * i] += (i % 7) as f64; if i % 5 == 4 { x[2 * i + 1] = 0.0; } if i % 11 == 10 { x[2 * i] = -x[2 * i].abs() - 1.0; } }
    x
}
fn ns(ctx: &Ctx) -> Vec<usize> { let mut v: Vec<usize> = (0..=40).collect(); v.extend([63, 64, 65, 100, 127, 128, 129, 257, 1000]); if ctx.thorough { v.extend(41..140); v.extend([1001, 4096, 4097, 20001]) } v }
fn t<T: Tt>(ctx: &Ctx) {
    let tol = T::EPS * 10.0;
    macro_rules! conv { ($name:expr, $conv:ident) => { for &n in &ns(ctx) { for k in 0..5 { for kind in 0..3 { for slack in [0usize, 1, 2, 3, 5] {
        ctx.case(format!("inplace-{}/{} {} n={} kind={} slack={}", PARTS[k], $name, T::NAME, n, kind, slack), n > 0, || {
            let x = data(n, 3);
            let tt = if k < 2 { 0.0 } else { tol };
            over_storage_move!(T, kind, &x, slack, $conv, |v| {
                v.set_delta(T::of(0.25));
                let dom = v.domain();
                let v = match k { 0 => v.to_real(), 1 => v.to_imag(), 2 => v.magnitude(), 3 => v.magnitude_squared(), _ => v.phase() };
                eq("complex", v.is_complex(), false)?; eq("domain", v.domain(), dom)?; eq("delta", v.delta().f(), 0.25)?; inv!(v);
                cmp("result", &f64s(v.data(..)), &want(k, &x), tt)
            })?;
            Ok(())
        });
        for b in 0..4 { ctx.case(format!("buffered-{}/{} {} n={} kind={} slack={} buffer={}", PARTS[k], $name, T::NAME, n, kind, slack, b), n > 0, || {
            let x = data(n, 4);
            let tt = if k < 2 { 0.0 } else { tol };
            macro_rules! ap { ($v:expr, $b:expr) => {{ let bb = $b; match k { 0 => $v.to_real_b(bb), 1 => $v.to_imag_b(bb), 2 => $v.magnitude_b(bb), 3 => $v.magnitude_squared_b(bb), _ => $v.phase_b(bb) } }} }
            macro_rules! chk { ($v:expr) => {{ let v = $v; eq("complex", v.is_complex(), false)?; eq("delta", v.delta().f(), 0.25)?; inv!(v); cmp("result", &f64s(v.data(..)), &want(k, &x), tt) }} }
            if kind == 0 {
                let mut m = ts::<T>(&x); m.extend((0..slack).map(|i| T::of(1000.0 + i as f64)));
                let mut v = m.$conv().mc(); v.resize(2 * n).unwrap(); v.set_delta(T::of(0.25));
                let v = match b { 0 => ap!(v, &mut SingleBuffer::new()), 1 => { let mut bu = SingleBuffer::with_capacity(3 * n + 9); let w = vec![T::of(55.0); 6 * n + 8].$conv().mc(); let _ = w.to_imag_b(&mut bu); ap!(v, &mut bu) }, 2 => ap!(v, &mut NoBuffer), _ => ap!(v, &mut FixedLenBuffer::new(vec![T::of(-3.0); n + 2 * slack])) };
                chk!(v)
            } else if kind == 1 {
                let mut m = ts::<T>(&x); m.extend((0..slack).map(|i| T::of(1000.0 + i as f64)));
                let mut v = m.into_boxed_slice().$conv().mc(); v.resize(2 * n).unwrap(); v.set_delta(T::of(0.25));
                let v = ap!(v, &mut FixedLenBuffer::new(vec![T::of(-3.0); if b == 0 { n } else { n + b.min(n) }].into_boxed_slice()));
                chk!(v)
            } else {
                let mut a = Al::<T>::with(&x, slack, b);
                let mut bm = Al::<T>::new(n + (b / 2).min(n), b + 1);
                let mut v = a.s().$conv().mc(); v.resize(2 * n).unwrap(); v.set_delta(T::of(0.25));
                { let v = ap!(v, &mut FixedLenBuffer::new(bm.s())); chk!(v)?; }
                a.guards_ok()?; bm.guards_ok()
            }
        }); }
    }}}}}}
    conv!("time", to_complex_time_vec); conv!("freq", to_complex_freq_vec);
    // getters
    macro_rules! get { ($name:expr, $conv:ident, $rconv:ident) => { for &n in &ns(ctx) { for k in 0..7 { for slack in [0usize, 1, 2, 3, 5] { for dk in 0..5 { for off in 0..3usize {
        if off > 0 && slack > 2 { continue; }
        ctx.case(format!("getter-{}/{} {} n={} slack={} dest={} offset={}", if k < 5 { PARTS[k] } else if k == 5 { "re+im" } else { "mag+phase" }, $name, T::NAME, n, slack, dk, off), n > 0, || {
            let x = data(n, 5);
            let tt = if k < 2 || k == 5 { 0.0 } else { tol };
            let mut a = Al::<T>::with(&x, slack, off);
            {
                let mut v = a.s().$conv().mc(); v.resize(2 * n).unwrap(); v.set_delta(T::of(0.25));
                macro_rules! ap { ($d:expr, $e:expr) => {{ let (d, e) = ($d, $e);
                    match k { 0 => v.get_real(d), 1 => v.get_imag(d), 2 => v.get_magnitude(d), 3 => v.get_magnitude_squared(d), 4 => v.get_phase(d), 5 => v.get_real_imag(d, e), _ => v.get_mag_phase(d, e) }
                    let (p, q) = match k { 5 => (0, 1), 6 => (2, 4), k => (k, k) };
                    inv!(d); inv!(e);
                    cmp("result", &f64s(d.data(..)), &want(p, &x), tt)?; eq("delta", d.delta().f(), 0.25)?;
                    if k > 4 { cmp("second result", &f64s(e.data(..)), &want(q, &x), tt)?; eq("second delta", e.delta().f(), 0.25)?; }
                }} }
                match dk {
                    0 => ap!(&mut Vec::<T>::new().$rconv(), &mut Vec::<T>::new().$rconv()),
                    1 => ap!(&mut vec![T::of(9.0); 3 * n + 3].$rconv(), &mut vec![T::of(9.0); n / 2].$rconv()),
                    2 => { let (mut d, mut e) = (Al::<T>::new(n, 2), Al::<T>::new(n, off)); ap!(&mut d.s().$rconv(), &mut e.s().$rconv()); d.guards_ok()?; e.guards_ok()? }
                    3 => { let (mut d, mut e) = (Al::<T>::new(n + 3, off), Al::<T>::new(n + 1, 3)); ap!(&mut d.s().$rconv(), &mut e.s().$rconv()); d.guards_ok()?; e.guards_ok()? }
                    _ => ap!(&mut vec![T::of(9.0); n].into_boxed_slice().to_gen_dsp_vec(false, v.domain()), &mut vec![T::of(9.0); 2 * n].into_boxed_slice().to_gen_dsp_vec(false, v.domain())),
                }
                cmp("source", &f64s(v.data(..)), &x, 0.0)?;
            }
            a.slack_ok(2 * n)
        });
    }}}}}}}
    get!("time", to_complex_time_vec, to_real_time_vec); get!("freq", to_complex_freq_vec, to_real_freq_vec);
    // setters and round trips
    for &n in &ns(ctx) { for m in [0usize, 1, n, n + 2] { for hist in 0..4 { for k in 0..2 { for slack in [0usize, 2, 3] {
        ctx.case(format!("setter-{} {} n={} m={} self={} slack={}", ["re+im", "mag+phase"][k], T::NAME, n, m, hist, slack), n > 0, || {
            let x = data(n, 6); let y = data(m, 7);
            let (p, q) = if k == 0 { (want(0, &x), want(1, &y)) } else { (want(2, &x), want(4, &y)) };
            let mk = |p: &[f64]| { let mut v = ts::<T>(p); v.extend((0..slack).map(|i| T::of(70.0 + i as f64))); let mut v = v.to_real_time_vec().mc(); v.resize(p.len()).unwrap(); v.set_delta(T::of(0.5)); v };
            let (re, im) = (mk(&p), mk(&q));
            let mut v = match hist { 0 => Vec::<T>::new().to_complex_time_vec().mc(), 1 => vec![T::of(5.0); 2].to_complex_time_vec().mc(), 2 => vec![T::of(5.0); 4 * n + 6].to_complex_time_vec().mc(), _ => { let mut v = vec![T::of(5.0); 2 * n + 4].to_complex_time_vec().mc(); v.resize(2).unwrap(); v } };
            let before = f64s(v.data(..));
            let r = if k == 0 { v.set_real_imag(&re, &im) } else { v.set_mag_phase(&re, &im) };
            if n != m {
                eq("result", r, Err(ErrorReason::InvalidArgumentLength))?;
                return cmp("unchanged", &f64s(v.data(..)), &before, 0.0);
            }
            eq("result", r, Ok(()))?; inv!(v);
            let w: Vec<f64> = p.iter().zip(&q).flat_map(|(a, b)| if k == 0 { vec![*a, *b] } else { let (a, b) = (T::of(*a).f(), T::of(*b).f()); vec![a * b.cos(), a * b.sin()] }).collect();
            cmp("result", &f64s(v.data(..)), &w, if k == 0 { 0.0 } else { tol })?;
            let (mut a, mut b) = (Vec::<T>::new().to_real_time_vec().mc(), Vec::<T>::new().to_real_time_vec().mc());
            if k == 0 { v.get_real_imag(&mut a, &mut b); } else { v.get_mag_phase(&mut a, &mut b); }
            cmp("first back", &f64s(a.data(..)), &p, if k == 0 { 0.0 } else { tol })?;
            if k == 0 { cmp("second back", &f64s(b.data(..)), &q, 0.0)?; }
            Ok(())
        });
    }}}}}
    for &n in &ns(ctx) { for slack in [0usize, 1, 2, 3, 5] { for form in 0..7 { ctx.case(format!("to_complex {} n={} slack={} form={}", T::NAME, n, slack, form), n > 0, || {
        let x: Vec<f64> = data(n, 8)[..n].to_vec();
        let w: Vec<f64> = x.iter().flat_map(|v| vec![*v, 0.0]).collect();
        macro_rules! chk { ($r:expr) => {{ let v = $r; ensure(v.is_complex(), "not complex")?; eq("domain", v.domain(), DataDomain::Frequency)?; eq("delta", v.delta().f(), 0.25)?; inv!(v); cmp("result", &f64s(v.data(..)), &w, 0.0) }} }
        let mut m = ts::<T>(&x); m.extend((0..slack).map(|i| T::of(1000.0 + i as f64)));
        macro_rules! mk { ($m:expr) => {{ let mut v = $m.to_real_freq_vec().mc(); v.resize(n).unwrap(); v.set_delta(T::of(0.25)); v }} }
        match form {
            0 => chk!(mk!(m).to_complex().map_err(|e| format!("{:?}", e.0))?),
            1 => chk!(mk!(m).to_complex_b(&mut SingleBuffer::with_capacity(slack))),
            2 => { let mut b = SingleBuffer::new(); let _ = vec![T::of(3.0); 2 * n + 9].to_real_time_vec().mc().to_complex_b(&mut b); let _ = vec![T::of(4.0); n + 3].to_real_time_vec().mc().to_complex_b(&mut b); chk!(mk!(m).to_complex_b(&mut b)) }
            3 => chk!(mk!(m).to_complex_b(&mut FixedLenBuffer::new(vec![T::of(2.0); 2 * n + slack]))),
            4 => { let mut m = ts::<T>(&x); m.extend((0..n + slack).map(|i| T::of(1000.0 + i as f64))); chk!(mk!(m.into_boxed_slice()).to_complex().map_err(|e| format!("{:?}", e.0))?) }
            5 => { // storage that can not grow far enough
                if n == 0 { return Ok(()); }
                let mut m = ts::<T>(&x); m.resize((n + slack).min(2 * n - 1), T::of(99.0));
                match mk!(m.into_boxed_slice()).to_complex() { Ok(_) => Err("accepted".into()), Err((e, v)) => { inv!(v); eq("error", e, ErrorReason::TypeCanNotResize) } }
            }
            _ => { let mut v = m.to_gen_dsp_vec(false, DataDomain::Frequency).mc(); v.resize(n).unwrap(); v.set_delta(T::of(0.25)); chk!(v.to_complex().map_err(|e| format!("{:?}", e.0))?) }
        }
    }); } } }
}
pub fn run(ctx: &Ctx) { t::<f32>(ctx); t::<f64>(ctx); }
