//! C15: the buffer's history and kind do not matter.
use crate::fw::*;
use crate::inv;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;

/// name, needs complex, needs time domain
const OPS: [(&str, Option<bool>, Option<bool>); 37] = [
    ("zero_pad_b/end", None, None), ("zero_pad_b/surround", None, None), ("zero_pad_b/center", None, None), ("zero_pad_b/short", None, None),
    ("zero_interleave_b/1", None, None), ("zero_interleave_b/2", None, None), ("zero_interleave_b/3", None, None), ("resize_b/grow", None, None), ("resize_b/shrink", None, None),
    ("magnitude_b", Some(true), None), ("magnitude_squared_b", Some(true), None), ("to_real_b", Some(true), None), ("to_imag_b", Some(true), None), ("phase_b", Some(true), None),
    ("to_complex_b", Some(false), None),
    ("plain_fft", Some(true), Some(true)), ("fft", Some(true), Some(true)), ("windowed_fft", Some(true), Some(true)), ("plain_fft/real", Some(false), Some(true)),
    ("plain_ifft", Some(true), Some(false)), ("ifft", Some(true), Some(false)), ("windowed_ifft", Some(true), Some(false)),
    ("plain_sfft", Some(false), Some(true)), ("sfft", Some(false), Some(true)), ("windowed_sfft", Some(false), Some(true)),
    ("plain_sifft", Some(true), Some(false)), ("sifft", Some(true), Some(false)), ("windowed_sifft", Some(true), Some(false)), ("mirror", Some(true), Some(false)),
    ("convolve_signal/short", None, Some(true)), ("convolve_signal/long", None, Some(true)), ("correlate", Some(true), Some(true)), ("prepare_argument", Some(true), Some(true)), ("prepare_argument_padded", Some(true), Some(true)),
    ("interpolatef", None, Some(true)), ("interpolatei", None, Some(true)), ("interpolate", None, Some(true)),
];
const REAL_OPS: [&str; 4] = ["interpft", "interpolate_lin", "interpolate_hermite", "interpolatei/full"];

macro_rules! data_of { ($v:expr) => {{ let v = &$v; inv!(v); Ok::<_, String>((f64s(v.data(..)), v.delta().f(), v.is_complex(), v.domain())) }} }
type Res = (Vec<f64>, f64, bool, DataDomain);
/// the operation on a generic vector; `Ok(Err(_))` carries a reported error
macro_rules! conv_ok { ($v:expr, $b:expr, $h:expr) => { $v.convolve_signal($b, &$h) } }
macro_rules! conv_no { ($v:expr, $b:expr, $h:expr) => {{ let _ = $h; Err(ErrorReason::InputMustBeConjSymmetric) }} }
macro_rules! apply { ($T:ty, $op:expr, $v:expr, $b:expr, $cv:ident) => {{
    let mut v = $v; let b = $b; let p = v.points(); let st = if v.is_complex() { 2 } else { 1 };
    let e = |e: ErrorReason| Some(format!("{:?}", e));
    let of = <$T as Tt>::of;
    let h = |n: usize, cx: bool| { let k = n * if cx { 2 } else { 1 }; (0..k).map(|i| of(((i * 5) % 7) as f64 - 2.0)).collect::<Vec<$T>>().to_gen_dsp_vec(cx, DataDomain::Time).mc() };
    let (v, err): (GenDspVec<_, $T>, Option<String>) = match $op {
        "zero_pad_b/end" => { let r = v.zero_pad_b(b, p + 5, PaddingOption::End); (v, r.err().and_then(e)) }
        "zero_pad_b/surround" => { let r = v.zero_pad_b(b, p + 3, PaddingOption::Surround); (v, r.err().and_then(e)) }
        "zero_pad_b/center" => { let r = v.zero_pad_b(b, p + 4, PaddingOption::Center); (v, r.err().and_then(e)) }
        "zero_pad_b/short" => { let r = v.zero_pad_b(b, p, PaddingOption::End); (v, r.err().and_then(e)) }
        "zero_interleave_b/1" => { v.zero_interleave_b(b, 1); (v, None) }
        "zero_interleave_b/2" => { v.zero_interleave_b(b, 2); (v, None) }
        "zero_interleave_b/3" => { v.zero_interleave_b(b, 3); (v, None) }
        "resize_b/grow" => { let r = v.resize_b(b, (p + 3) * st); let k = p * st; let r = r.err().and_then(e); if r.is_none() { if v.len() != (p + 3) * st { return Err(format!("resize_b to {} gives {}", (p + 3) * st, v.len())); } v.resize(k).unwrap(); } (v, r) }
        "resize_b/shrink" => { let r = v.resize_b(b, p / 2 * st); (v, r.err().and_then(e)) }
        "magnitude_b" => (v.magnitude_b(b), None), "magnitude_squared_b" => (v.magnitude_squared_b(b), None), "to_real_b" => (v.to_real_b(b), None), "to_imag_b" => (v.to_imag_b(b), None), "phase_b" => (v.phase_b(b), None),
        "to_complex_b" => (v.to_complex_b(b), None),
        "plain_fft" | "plain_fft/real" => (v.plain_fft(b), None), "fft" => (v.fft(b), None), "windowed_fft" => (v.windowed_fft(b, &TriangularWindow), None),
        "plain_ifft" => (v.plain_ifft(b), None), "ifft" => (v.ifft(b), None), "windowed_ifft" => (v.windowed_ifft(b, &TriangularWindow), None),
        "plain_sfft" => match v.plain_sfft(b) { Ok(v) => (v, None), Err((r, v)) => (v, e(r)) },
        "sfft" => match v.sfft(b) { Ok(v) => (v, None), Err((r, v)) => (v, e(r)) },
        "windowed_sfft" => match v.windowed_sfft(b, &TriangularWindow) { Ok(v) => (v, None), Err((r, v)) => (v, e(r)) },
        "plain_sifft" => match v.plain_sifft(b) { Ok(v) => (v, None), Err((r, v)) => (v, e(r)) },
        "sifft" => match v.sifft(b) { Ok(v) => (v, None), Err((r, v)) => (v, e(r)) },
        "windowed_sifft" => match v.windowed_sifft(b, &TriangularWindow) { Ok(v) => (v, None), Err((r, v)) => (v, e(r)) },
        "mirror" => { v.mirror(b); (v, None) }
        "convolve_signal/short" => { let h = h(3.min(p), v.is_complex()); let r: VoidResult = $cv!(v, b, h); (v, r.err().and_then(e)) }
        "convolve_signal/long" => { let h = h(p / 2 + 1, v.is_complex()); let r: VoidResult = $cv!(v, b, h); (v, r.err().and_then(e)) }
        "correlate" => { let o = h(p, true).prepare_argument_padded(&mut SingleBuffer::new()); let r = v.correlate(b, &o); (v, r.err().and_then(e)) }
        "prepare_argument" => (v.prepare_argument(b), None), "prepare_argument_padded" => (v.prepare_argument_padded(b), None),
        "interpolatef" => { v.interpolatef(b, &SincFunction::new() as &dyn RealImpulseResponse<$T>, of(2.0), of(0.0), 4); (v, None) }
        "interpolatei" => { let r = v.interpolatei(b, &RaisedCosineFunction::new(of(0.35)) as &dyn RealFrequencyResponse<$T>, 2); (v, r.err().and_then(e)) }
        "interpolate" => { let r = v.interpolate(b, Some(&SincFunction::new() as &dyn RealFrequencyResponse<$T>), 2 * p + 1, of(0.0)); (v, r.err().and_then(e)) }
        "interpft" => { v.interpft(b, 2 * p + 1); (v, None) }
        o => panic!("unknown operation {}", o),
    };
    data_of!(v).map(|r| (r, err))
}} }
macro_rules! apply_real { ($T:ty, $op:expr, $v:expr, $b:expr) => {{
    let mut v = $v; let b = $b; let of = <$T as Tt>::of;
    match $op {
        "interpft" => { let p = v.points(); v.interpft(b, 2 * p + 1); }
        "interpolate_lin" => v.interpolate_lin(b, of(2.5), of(0.25)),
        "interpolate_hermite" => v.interpolate_hermite(b, of(2.5), of(0.25)),
        _ => { v.interpolatei(b, &SincFunction::new() as &dyn RealFrequencyResponse<$T>, 3).map_err(|e| format!("{:?}", e))?; }
    }
    data_of!(v).map(|r| (r, None::<String>))
}} }
fn mem<T: Tt>(n: usize, cx: bool, op: &str, slack: usize) -> Vec<T> {
    let k = n * if cx { 2 } else { 1 };
    let mut m: Vec<T> = (0..k).map(|i| T::of(if i == 1 && op.contains("sifft") { 0.0 } else { ((i * 7) % 11) as f64 - 3.0 })).collect();
    m.extend((0..slack).map(|i| T::of(1000.0 + i as f64)));
    m
}
fn same<T: Tt>(got: &(Res, Option<String>), want: &(Res, Option<String>)) -> R {
    eq("error", &got.1, &want.1)?;
    if got.0.0.len() != want.0.0.len() { return Err(format!("length {} instead of {}", got.0.0.len(), want.0.0.len())); }
    for i in 0..got.0.0.len() { let (a, b) = (got.0.0[i], want.0.0[i]); if !(a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= T::EPS * 100.0 * (1.0 + a.abs().max(b.abs()))) { return Err(format!("index {}: {} instead of {}", i, a, b)); } }
    ensure(got.0.1 == want.0.1 || (got.0.1.is_nan() && want.0.1.is_nan()), "delta")?;
    eq("number space", got.0.2, want.0.2)?; eq("domain", got.0.3, want.0.3)
}
/// A buffer which was filled with `fill` by an earlier operation
fn used<T: Tt>(len: usize, fill: f64) -> SingleBuffer<T> {
    let mut b = SingleBuffer::new();
    let mut v = vec![T::of(fill); len].to_real_time_vec().mc();
    v.zero_pad_b(&mut b, len + 1, PaddingOption::End).unwrap();
    b
}
fn t<T: Tt>(ctx: &Ctx) {
    let mut ns: Vec<usize> = vec![1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 31, 33];
    if ctx.thorough { ns.extend(34..70); ns.extend([100, 127, 1000, 1001]); } else { ns.extend([64, 101]) }
    for (op, cx, time) in OPS.iter().chain(std::iter::once(&("interpft", Some(true), Some(true)))).cloned() { for c in [false, true] { for tm in [false, true] {
        if cx.map_or(false, |x| x != c) || time.map_or(false, |x| x != tm) { continue; }
        let dom = if tm { DataDomain::Time } else { DataDomain::Frequency };
        for &n in &ns { for slack in [0usize, 2, 7] {
            let k = n * if c { 2 } else { 1 };
            macro_rules! run { ($v:expr, $b:expr) => {{ let mut v = $v; v.resize(k).unwrap(); v.set_delta(T::of(0.5)); apply!(T, op, v, $b, conv_ok) }} }
            for kind in 0..8 { ctx.case(format!("{} {} complex={} time={} n={} slack={} buffer={}", op, T::NAME, c, tm, n, slack, kind), true, || {
                let want = run!(mem::<T>(n, c, op, slack).to_gen_dsp_vec(c, dom).mc(), &mut NoBuffer)?;
                let v = mem::<T>(n, c, op, slack).to_gen_dsp_vec(c, dom).mc();
                let big = 12 * k + 64;
                let got = match kind {
                    0 => run!(v, &mut SingleBuffer::new())?,
                    1 => run!(v, &mut SingleBuffer::with_capacity(n))?,
                    2 => run!(v, &mut used::<T>(big, 55.0))?,
                    3 => run!(v, &mut used::<T>(big, f64::NAN))?,
                    4 => run!(v, &mut used::<T>(n / 2 + 1, f64::NAN))?,
                    5 => run!(v, &mut FixedLenBuffer::new(vec![T::of(-9.0); big]))?,
                    6 => run!(v, &mut FixedLenBuffer::new(vec![T::of(f64::NAN); big].into_boxed_slice().into_vec()))?,
                    _ => { // the second use of the buffer, after the same operation on other data
                        let mut b = SingleBuffer::new();
                        let o = (0..k + 4).map(|i| T::of(77.0 + i as f64)).collect::<Vec<T>>().to_gen_dsp_vec(c, dom).mc();
                        let mut o = o; o.resize(k).unwrap();
                        if op.contains("sifft") { o.data_mut(..)[k.min(2) - 1] = T::of(0.0); }
                        let _ = apply!(T, op, o, &mut b, conv_ok)?;
                        run!(v, &mut b)?
                    }
                };
                same::<T>(&got, &want)
            }); }
            // storages of fixed size, with room for the result
            for kind in 0..2 { ctx.case(format!("{}/fixed {} complex={} time={} n={} slack={} storage={}", op, T::NAME, c, tm, n, slack, kind), true, || {
                if op.starts_with("convolve_signal") { return Ok(()); } // not available for slices
                macro_rules! run2 { ($v:expr, $b:expr) => {{ let mut v = $v; v.resize(k).unwrap(); v.set_delta(T::of(0.5)); apply!(T, op, v, $b, conv_no) }} }
                let want = run!(mem::<T>(n, c, op, slack).to_gen_dsp_vec(c, dom).mc(), &mut NoBuffer)?;
                let big = 12 * k + 64;
                let mut m = mem::<T>(n, c, op, big);
                let mut b = vec![T::of(f64::NAN); big];
                let got = if kind == 0 { run2!((&mut m[..]).to_gen_dsp_vec(c, dom).mc(), &mut FixedLenBuffer::new(&mut b[..]))? } else { run2!(m.into_boxed_slice().to_gen_dsp_vec(c, dom).mc(), &mut FixedLenBuffer::new(b.into_boxed_slice()))? };
                same::<T>(&got, &want)
            }); }
        }}
    }}}
    for op in REAL_OPS { for &n in &ns { for slack in [0usize, 2, 7] {
        macro_rules! run { ($v:expr, $b:expr) => {{ let mut v = $v; v.resize(n).unwrap(); v.set_delta(T::of(0.5)); apply_real!(T, op, v, $b) }} }
        for kind in 0..7 { ctx.case(format!("{} {} n={} slack={} buffer={}", op, T::NAME, n, slack, kind), true, || {
            let want = run!(mem::<T>(n, false, op, slack).to_real_time_vec().mc(), &mut NoBuffer)?;
            let v = mem::<T>(n, false, op, slack).to_real_time_vec().mc();
            let big = 24 * n + 64;
            let got = match kind {
                0 => run!(v, &mut SingleBuffer::new())?,
                1 => run!(v, &mut SingleBuffer::with_capacity(n))?,
                2 => run!(v, &mut used::<T>(big, 55.0))?,
                3 => run!(v, &mut used::<T>(big, f64::NAN))?,
                4 => run!(v, &mut used::<T>(n / 2 + 1, f64::NAN))?,
                5 => run!(v, &mut FixedLenBuffer::new(vec![T::of(f64::NAN); big]))?,
                _ => { let mut m = mem::<T>(n, false, op, big); let mut b = vec![T::of(f64::NAN); big]; run!((&mut m[..]).to_real_time_vec().mc(), &mut FixedLenBuffer::new(&mut b[..]))? }
            };
            same::<T>(&got, &want)
        }); }
    }}}
}
pub fn run(ctx: &Ctx) { t::<f64>(ctx); t::<f32>(ctx); }
