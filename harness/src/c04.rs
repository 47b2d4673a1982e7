//! C04: the valid length stays consistent with the storage.
use crate::fw::*;
use crate::inv;
use arrayvec::ArrayVec;
use basic_dsp_vector::inline_vector::InlineVector;
use basic_dsp_vector::numbers::Complex;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;

macro_rules! ca { ($v:expr, $want:expr) => {{
        let p: Vec<Complex<f64>> = $want.chunks(2).map(|c| Complex::new(c[0], c[1])).collect();
        eq("datac(..)", g($v.datac(..)), p.clone())?;
        for a in 0..=p.len() {
            if a < p.len() { eq("datac(i)", g(&[*$v.datac(a)]), vec![p[a]])?; }
            eq("datac(a..)", g($v.datac(a..)), p[a..].to_vec())?;
            eq("datac(..a)", g($v.datac(..a)), p[..a].to_vec())?;
            for b in a..=p.len().min(a + 2) { eq("datac(a..b)", g($v.datac(a..b)), p[a..b].to_vec())?; }
        }
    }} }
pub trait Acc { fn accessors(&self, want: &[f64]) -> R; fn behind(&self) -> bool; }
fn g<T: Tt>(x: &[Complex<T>]) -> Vec<Complex<f64>> { x.iter().map(|c| Complex::new(c.re.f(), c.im.f())).collect() }
impl<S: ToSlice<T>, T: Tt, D: Domain> Acc for DspVec<S, T, meta::Real, D> {
    fn accessors(&self, want: &[f64]) -> R {
        let n = want.len();
        cmp("[..]", &f64s(&self[..]), want, 0.0)?;
        for a in 0..=n {
            if a < n { eq("[a]", self[a].f(), want[a])?; }
            cmp("[a..]", &f64s(&self[a..]), &want[a..], 0.0)?; cmp("[..a]", &f64s(&self[..a]), &want[..a], 0.0)?;
            for b in a..=n.min(a + 2) { cmp("[a..b]", &f64s(&self[a..b]), &want[a..b], 0.0)?; }
        }
        Ok(())
    }
    fn behind(&self) -> bool { let _ = self[self.points()]; true }
}
impl<S: ToSlice<T>, T: Tt, D: Domain> Acc for DspVec<S, T, meta::Complex, D> {
    fn accessors(&self, want: &[f64]) -> R {
        ca!(self, want);
        let p: Vec<Complex<f64>> = want.chunks(2).map(|c| Complex::new(c[0], c[1])).collect();
        eq("[..]", g(&self[..]), p.clone())?;
        for a in 0..=p.len() {
            if a < p.len() { eq("[i]", g(&[self[a]]), vec![p[a]])?; }
            eq("[a..]", g(&self[a..]), p[a..].to_vec())?; eq("[..a]", g(&self[..a]), p[..a].to_vec())?;
            for b in a..=p.len().min(a + 2) { eq("[a..b]", g(&self[a..b]), p[a..b].to_vec())?; }
        }
        Ok(())
    }
    fn behind(&self) -> bool { let _ = self.datac(self.points()); true }
}
impl<S: ToSlice<T>, T: Tt, D: Domain> Acc for DspVec<S, T, meta::RealOrComplex, D> {
    fn accessors(&self, want: &[f64]) -> R { if self.is_complex() { ca!(self, want); } Ok(()) }
    fn behind(&self) -> bool { let _ = self.data(self.len()); true }
}
fn complete<T: Tt, S: ToSlice<T>, N: NumberSpace, D: Domain>(v: &DspVec<S, T, N, D>, want: &[f64]) -> R where DspVec<S, T, N, D>: Acc {
    inv!(v);
    eq("length", v.len(), want.len())?;
    eq("is_empty", v.is_empty(), want.is_empty())?;
    cmp("data(..)", &f64s(v.data(..)), want, 0.0)?;
    let n = want.len();
    for i in 0..n { eq("data(i)", v.data(i).f(), want[i])?; }
    for a in 0..=n {
        cmp("data(a..)", &f64s(v.data(a..)), &want[a..], 0.0)?;
        cmp("data(..a)", &f64s(v.data(..a)), &want[..a], 0.0)?;
        for b in a..=n.min(a + 3) { cmp("data(a..b)", &f64s(v.data(a..b)), &want[a..b], 0.0)?; }
    }
    v.accessors(want)?;
    Ok(())
}
fn fails<F: FnOnce()>(what: &str, f: F) -> R {
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok() { Err(format!("{} was handed out behind the valid length", what)) } else { Ok(()) }
}
/// resizing keeps the common elements, refuses what it must, and nothing changes when it refuses
fn resizes<T: Tt, S: ToSlice<T>, N: NumberSpace, D: Domain>(v: &mut DspVec<S, T, N, D>, first: &[f64], seq: &[usize], cap: usize) -> R where DspVec<S, T, N, D>: Acc {
    let mut model: Vec<f64> = first.to_vec(); // all storage the vector has shown so far
    let mut len = first.len();
    let delta = v.delta().f();
    complete(v, &model)?;
    for &l in seq {
        let before = f64s(v.data(..));
        let r = v.resize(l);
        let odd = v.is_complex() && l % 2 == 1;
        let want = if odd { Err(ErrorReason::InputMustHaveAnEvenLength) } else if l > cap { Err(ErrorReason::TypeCanNotResize) } else { Ok(()) };
        eq(&format!("resize({})", l), r, want)?;
        if want.is_ok() {
            eq("new length", v.len(), l)?;
            let now = f64s(v.data(..));
            let keep = len.min(l);
            cmp("common elements", &now[..keep], &before[..keep], 0.0)?;
            len = l;
            model = now;
        }
        complete(v, &model)?;
        eq("delta", v.delta().f(), delta)?;
    }
    Ok(())
}
macro_rules! construct {
    ($ctx:expr, $T:ty, $name:expr, $n:expr, $mk:expr, $cap:expr) => {{
        let (n, cap): (usize, usize) = ($n, $cap);
        let x: Vec<f64> = (0..n).map(|i| i as f64 + 1.0).collect();
        let even: &[f64] = if n % 2 == 0 { &x } else { &[] };
        let (f, nn) = (vec![0usize, 1, 2, n / 2, n, n + 1, n + 2, n + 3, 3, 40, 64, 65, 66, 80, 4, 0, 2], n);
        macro_rules! one { ($what:expr, $v:expr, $want:expr, $cplx:expr, $freq:expr) => {
            $ctx.case(format!("new/{}/{} {} n={}", $name, $what, <$T>::NAME, nn), nn > 0, || {
                let mut v = $v;
                eq("is_complex", v.is_complex(), $cplx)?;
                eq("frequency", v.domain() == DataDomain::Frequency, $freq)?;
                eq("delta", v.delta().f(), 1.0)?;
                complete(&v, $want)?;
                fails("data(len)", || { let _ = *v.data(v.len()); })?;
                fails("data(..len+1)", || { let _ = v.data(..v.len() + 1).len(); })?;
                fails("[points]", || { v.behind(); })?;
                resizes(&mut v, $want, &f, cap)
            });
        } }
        one!("real_time", $mk(&x).to_real_time_vec(), &x, false, false);
        one!("real_freq", $mk(&x).to_real_freq_vec(), &x, false, true);
        one!("complex_time", $mk(&x).to_complex_time_vec(), even, true, false);
        one!("complex_freq", $mk(&x).to_complex_freq_vec(), even, true, true);
        one!("gen_real", $mk(&x).to_gen_dsp_vec(false, DataDomain::Time), &x, false, false);
        one!("gen_complex", $mk(&x).to_gen_dsp_vec(true, DataDomain::Frequency), even, true, true);
        one!("meta_real", $mk(&x).to_dsp_vec(&vec![<$T>::of(0.0)].to_real_freq_vec().get_meta_data()), &x, false, true);
        one!("meta_complex", $mk(&x).to_dsp_vec(&vec![<$T>::of(0.0)].to_complex_time_vec().get_meta_data()), even, true, false);
        one!("meta_gen", $mk(&x).to_dsp_vec(&vec![<$T>::of(0.0); 2].to_gen_dsp_vec(true, DataDomain::Time).get_meta_data()), even, true, false);
        one!("from_real_time", RealTimeVec::from($mk(&x)), &x, false, false);
        one!("from_real_freq", RealFreqVec::from($mk(&x)), &x, false, true);
        one!("from_complex_time", ComplexTimeVec::from($mk(&x)), even, true, false);
        one!("from_complex_freq", ComplexFreqVec::from($mk(&x)), even, true, true);
    }};
}
fn cplx<T: Tt>(n: usize) -> Vec<Complex<T>> { (0..n).map(|i| Complex::new(T::of(2.0 * i as f64 + 1.0), T::of(2.0 * i as f64 + 2.0))).collect() }
fn news<T: Tt>(ctx: &Ctx) {
    for n in (0..14).chain([31, 32, 33, 63, 64, 65, 66, 79]) {
        construct!(ctx, T, "vec", n, |x: &[f64]| ts::<T>(x), usize::MAX);
        construct!(ctx, T, "vec_spare", n, |x: &[f64]| { let mut v: Vec<T> = Vec::with_capacity(n + 5); v.extend(ts::<T>(x)); v }, usize::MAX);
        construct!(ctx, T, "box", n, |x: &[f64]| ts::<T>(x).into_boxed_slice(), n);
        if n <= 80 { construct!(ctx, T, "array", n, |x: &[f64]| ts::<T>(x).into_iter().collect::<ArrayVec<T, 80>>(), 80); }
        {
            let cap = if n <= 64 { 64 } else { n };
            construct!(ctx, T, "inline", n, |x: &[f64]| { let mut v = InlineVector::<T>::of_size(T::of(0.0), n); for (a, b) in v.iter_mut().zip(x) { *a = T::of(*b); } v }, cap);
        }
        let y: Vec<T> = (0..n).map(|i| T::of(i as f64 + 1.0)).collect();
        construct!(ctx, T, "slice", n, |_: &[f64]| &y[..], n);
        // borrowed mutable storage cannot be created by a closure
        for k in 0..8 {
            ctx.case(format!("new/mut_slice/{} {} n={}", k, T::NAME, n), n > 0, || {
                let mut a = Al::<T>::with(&(0..n).map(|i| i as f64 + 1.0).collect::<Vec<_>>(), 0, 1);
                let x: Vec<f64> = f64s(a.r());
                let even: &[f64] = if n % 2 == 0 { &x } else { &[] };
                let seq = [0, 1, 2, n, n + 1, n + 2, n / 2, 3, 40, 4];
                let md = vec![T::of(0.0)].to_complex_time_vec().get_meta_data();
                match k {
                    0 => resizes(&mut a.s().to_real_time_vec(), &x, &seq, n)?,
                    1 => resizes(&mut a.s().to_real_freq_vec(), &x, &seq, n)?,
                    2 => resizes(&mut a.s().to_complex_time_vec(), even, &seq, n)?,
                    3 => resizes(&mut a.s().to_complex_freq_vec(), even, &seq, n)?,
                    4 => resizes(&mut a.s().to_gen_dsp_vec(false, DataDomain::Time), &x, &seq, n)?,
                    5 => resizes(&mut a.s().to_gen_dsp_vec(true, DataDomain::Time), even, &seq, n)?,
                    6 => resizes(&mut a.s().to_dsp_vec(&md), even, &seq, n)?,
                    _ => resizes(&mut ComplexTimeVec::from(a.s()), even, &seq, n)?,
                }
                a.guards_ok()
            });
        }
        // complex storage
        for k in 0..6 {
            ctx.case(format!("new/complex_storage/{} {} n={}", k, T::NAME, n), n > 0, || {
                let x: Vec<f64> = (0..2 * n).map(|i| i as f64 + 1.0).collect();
                let mut c = cplx::<T>(n);
                let seq = [0, 1, 2, 2 * n, 2 * n + 1, 2 * n + 2, 3, 40, 4];
                let mut spare = Vec::with_capacity(n + 7); spare.extend(cplx::<T>(n));
                match k {
                    0 => resizes(&mut c.to_complex_time_vec(), &x, &seq, usize::MAX),
                    1 => resizes(&mut c.to_complex_freq_vec(), &x, &seq, usize::MAX),
                    2 => resizes(&mut spare.to_complex_time_vec(), &x, &seq, usize::MAX),
                    3 => resizes(&mut (&c[..]).to_complex_time_vec(), &x, &seq, 2 * n),
                    4 => resizes(&mut (&mut c[..]).to_complex_time_vec(), &x, &seq, 2 * n),
                    _ => resizes(&mut (&mut c[..]).to_complex_freq_vec(), &x, &seq, 2 * n),
                }
            });
        }
    }
    // writing through the accessors reaches exactly the addressed elements
    for n in 1..9usize { for i in 0..2 * n { for m in 0..5 {
        ctx.case(format!("write/{} {} n={} i={}", m, T::NAME, n, i), true, || {
            let mut a = Al::<T>::with(&(0..2 * n).map(|i| i as f64 + 1.0).collect::<Vec<_>>(), 4, 0);
            let mut want = f64s(a.r());
            {
                let mut v = a.s().to_gen_dsp_vec(true, DataDomain::Time);
                v.resize(2 * n).unwrap();
                match m {
                    0 => *v.data_mut(i) = T::of(-5.0),
                    1 => v.data_mut(i..)[0] = T::of(-5.0),
                    2 => { let k = v.data_mut(..i + 1).len(); eq("len", k, i + 1)?; v.data_mut(..i + 1)[i] = T::of(-5.0) }
                    3 => { let k = v.data_mut(i..i + 1).len(); eq("len", k, 1)?; v.data_mut(i..i + 1)[0] = T::of(-5.0) }
                    _ => { let k = v.data_mut(..).len(); eq("len", k, 2 * n)?; v.data_mut(..)[i] = T::of(-5.0) }
                }
            }
            want[i] = -5.0;
            cmp("storage", &f64s(a.r()), &want, 0.0)?;
            if i % 2 == 0 {
                let p = i / 2;
                {
                    let mut v = a.s().to_gen_dsp_vec(true, DataDomain::Time);
                    v.resize(2 * n).unwrap();
                    let c = Complex::new(T::of(-6.0), T::of(-7.0));
                    match m {
                        0 => *v.datac_mut(p) = c, 1 => v.datac_mut(p..)[0] = c, 2 => v.datac_mut(..p + 1)[p] = c,
                        3 => v.datac_mut(p..p + 1)[0] = c, _ => { let k = v.datac_mut(..).len(); eq("len", k, n)?; v.datac_mut(..)[p] = c }
                    }
                }
                want[i] = -6.0; want[i + 1] = -7.0;
                cmp("storage", &f64s(a.r()), &want, 0.0)?;
            }
            a.guards_ok()
        });
    }}}
    // resizing with a buffer
    for n in 0..10usize { for l in 0..14usize { for cplx in [false, true] { for kind in 0..4 {
        if cplx && n % 2 == 1 { continue; }
        ctx.case(format!("resize_b/{} {} n={} to={} complex={}", kind, T::NAME, n, l, cplx), n > 0, || {
            let x: Vec<f64> = (0..n).map(|i| i as f64 + 1.0).collect();
            let odd = cplx && l % 2 == 1;
            let want = if odd { Err(ErrorReason::InputMustHaveAnEvenLength) } else { Ok(()) };
            let check = |r: VoidResult, len: usize, data: &[f64]| -> R {
                eq("result", r, want)?;
                let exp = if odd { n } else { l };
                eq("length", len, exp)?; eq("accessor", data.len(), exp)?;
                cmp("common elements", &data[..exp.min(n)], &x[..exp.min(n)], 0.0) };
            match kind {
                0 => { let mut v = ts::<T>(&x).to_gen_dsp_vec(cplx, DataDomain::Time); let mut b = SingleBuffer::new();
                       let r = v.resize_b(&mut b, l); inv!(v); check(r, v.len(), &f64s(v.data(..))) }
                1 => { let mut v = ts::<T>(&x).to_gen_dsp_vec(cplx, DataDomain::Time); let mut b = SingleBuffer::with_capacity(30);
                       let r = v.resize_b(&mut b, l); inv!(v); check(r, v.len(), &f64s(v.data(..))) }
                2 => { let mut v = ts::<T>(&x).to_gen_dsp_vec(cplx, DataDomain::Time); let mut b = NoBuffer;
                       let r = v.resize_b(&mut b, l); inv!(v); check(r, v.len(), &f64s(v.data(..))) }
                _ => { // storage that cannot grow, but a buffer that can replace it
                       let mut st: Vec<T> = ts(&x); st.resize(n, T::of(0.0));
                       let mut v = st.into_boxed_slice().to_gen_dsp_vec(cplx, DataDomain::Time);
                       let mut b = BoxBuffer { data: vec![T::of(77.0); 3].into_boxed_slice() };
                       let r = v.resize_b(&mut b, l); inv!(v); check(r, v.len(), &f64s(v.data(..))) }
            }
        });
    }}}}
}
/// a buffer that replaces fixed size storage, as a user may write it
struct BoxBuffer<T: Tt> { data: Box<[T]> }
struct BoxBorrow<'a, T: Tt> { owner: &'a mut BoxBuffer<T> }
impl<'a, T: Tt> ToSlice<T> for BoxBorrow<'a, T> {
    fn to_slice(&self) -> &[T] { &self.owner.data }
    fn len(&self) -> usize { self.owner.data.len() }
    fn is_empty(&self) -> bool { self.owner.data.is_empty() }
    fn alloc_len(&self) -> usize { self.owner.data.len() }
    fn try_resize(&mut self, len: usize) -> VoidResult { self.owner.data.try_resize(len) }
}
impl<'a, T: Tt> ToSliceMut<T> for BoxBorrow<'a, T> { fn to_slice_mut(&mut self) -> &mut [T] { &mut self.owner.data } }
impl<'a, T: Tt> BufferBorrow<Box<[T]>, T> for BoxBorrow<'a, T> { fn trade(self, s: &mut Box<[T]>) { std::mem::swap(&mut self.owner.data, s) } }
impl<'a, T: Tt> Buffer<'a, Box<[T]>, T> for BoxBuffer<T> {
    type Borrow = BoxBorrow<'a, T>;
    fn borrow(&'a mut self, len: usize) -> BoxBorrow<'a, T> { self.data = vec![T::of(55.0); len].into_boxed_slice(); BoxBorrow { owner: self } }
    fn alloc_len(&self) -> usize { self.data.len() }
}
type G<T> = GenDspVec<Vec<T>, T>;
/// random sequences of operations; after each the vector is consistent
fn histories<T: Tt>(ctx: &Ctx) {
    let count = if ctx.thorough { 3000 } else { 500 };
    for k in 0..count {
        let seed = ctx.seed * 100_000 + k;
        ctx.case(format!("history {} seed={}", T::NAME, seed), true, || {
            let mut r = Rng::new(seed);
            let (n, cx, fr) = (r.below(13), r.below(2) == 1, r.below(2) == 1);
            let mut v: G<T> = (0..n * if cx { 2 } else { 1 }).map(|i| T::of(i as f64 + 1.0)).collect::<Vec<T>>()
                .to_gen_dsp_vec(cx, if fr { DataDomain::Frequency } else { DataDomain::Time });
            let mut b = SingleBuffer::with_capacity(r.below(50));
            let mut trace = vec![];
            for _ in 0..12 {
                let (l, d, z) = (v.len(), v.delta().f(), v.is_complex());
                let dom = v.domain();
                let before = f64s(v.data(..));
                let op = r.below(34);
                trace.push(op);
                let mut keeps_on_error = true;
                let res: VoidResult = match op {
                    0 => { let k = r.below(30); v.resize(k) }
                    1 => { let k = r.below(30); v.resize_b(&mut b, k) }
                    2 => { let p = v.points() + r.below(6); v.zero_pad(p, [PaddingOption::End, PaddingOption::Center, PaddingOption::Surround][r.below(3)]) }
                    3 => { let p = v.points() + r.below(6); v.zero_pad_b(&mut b, p, [PaddingOption::End, PaddingOption::Center, PaddingOption::Surround][r.below(3)]) }
                    4 => v.zero_interleave(1 + r.below(3) as u32),
                    5 => { v.zero_interleave_b(&mut b, 1 + r.below(3) as u32); Ok(()) }
                    6 => { v.reverse(); Ok(()) }
                    7 => { v.swap_halves(); Ok(()) }
                    8 => { v.diff(); Ok(()) }
                    9 => { v.cum_sum(); Ok(()) }
                    10 => { let k = 1 + r.below(3) as u32; v.decimatei(k, 0); Ok(()) }
                    11 => { v.abs(); Ok(()) }
                    12 => { v.scale(T::of(0.5)); Ok(()) }
                    13 => { v.offset(T::of(0.5)); Ok(()) }
                    14 => { v.sin(); Ok(()) }
                    15 => { let w = v.clone(); v.add(&w) }
                    16 => { let w = v.clone(); v.mul(&w) }
                    17 => { v = v.to_complex().map_err(|(e, _)| e).unwrap_or_else(|_| vec![T::of(1.0); 6].to_gen_dsp_vec(false, DataDomain::Time)); Ok(()) }
                    18 => { v = v.to_real(); Ok(()) }
                    19 => { v = v.to_imag(); Ok(()) }
                    20 => { v = v.magnitude(); Ok(()) }
                    21 => { v = v.magnitude_b(&mut b); Ok(()) }
                    22 => { v = v.to_real_b(&mut b); Ok(()) }
                    23 => { v = v.phase_b(&mut b); Ok(()) }
                    24 => { v.conj(); Ok(()) }
                    25 => { if !v.is_empty() { v = v.fft(&mut b) } Ok(()) }
                    26 => { if !v.is_empty() { v = v.ifft(&mut b) } Ok(()) }
                    27 => { v.apply_window(&HammingWindow::default()); Ok(()) }
                    28 => { v.wrap(T::of(2.0)); Ok(()) }
                    29 => { v.interleave_noop(); Ok(()) }
                    30 => { keeps_on_error = false; let mut t = vec![T::of(0.0); 7].to_gen_dsp_vec(false, DataDomain::Time); v.get_real(&mut t); inv!(t); Ok(()) }
                    31 => { let w = vec![T::of(1.0); 3].to_gen_dsp_vec(false, DataDomain::Time); let w2 = w.clone(); v.set_real_imag(&w, &w2) }
                    32 => { v.mirror_noop(); Ok(()) }
                    _ => { let w = vec![T::of(1.0); 4].to_gen_dsp_vec(v.is_complex(), v.domain()); v.sub_smaller(&w) }
                };
                inv!(v);
                if res.is_err() && keeps_on_error {
                    eq(&format!("length after error {:?}", trace), v.len(), l)?;
                    eq("delta after error", near(v.delta().f(), d, 0.0), true)?;
                    eq("number space after error", v.is_complex(), z)?;
                    eq("domain after error", v.domain(), dom)?;
                    cmp("data after error", &f64s(v.data(..)), &before, 0.0)?;
                }
                let now = f64s(v.data(..));
                complete_nan(&v, &now).map_err(|e| format!("{} after {:?}", e, trace))?;
            }
            Ok(())
        });
    }
}
trait Noops { fn interleave_noop(&mut self); fn mirror_noop(&mut self); }
impl<T: Tt> Noops for G<T> { fn interleave_noop(&mut self) {} fn mirror_noop(&mut self) {} }
fn complete_nan<T: Tt>(v: &G<T>, now: &[f64]) -> R {
    inv!(v);
    if v.is_complex() {
        eq("datac", v.datac(..).len(), v.points())?;
        for (i, c) in v.datac(..).iter().enumerate() { if !near(c.re.f(), now[2 * i], 0.0) || !near(c.im.f(), now[2 * i + 1], 0.0) { return Err(format!("point {} is not its floats", i)); } }
    }
    Ok(())
}
pub fn run(ctx: &Ctx) { news::<f32>(ctx); news::<f64>(ctx); histories::<f32>(ctx); histories::<f64>(ctx); }
