//! C20: misuse of vectors whose number space and domain are only known at run time.
use crate::fw::*;
use crate::inv;
use crate::tf::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::Complex;
use basic_dsp_vector::*;

type V<T> = GenDspVec<Vec<T>, T>;
/// what an operation needs: complex?, time domain?
struct Need { c: Option<bool>, time: Option<bool> }
/// meta data after success: complex?, time?
struct After { c: Option<bool>, time: Option<bool> }
enum Out<T: Tt> {
    /// can not return an error
    Mark(V<T>),
    /// returns an error
    Res(V<T>, Result<(), ErrorReason>),
    /// scalar result, vector must be unchanged in any case
    Scalar(V<T>, Result<(), ErrorReason>),
}
use Out::*;
fn mk<T: Tt>(n: usize, cx: bool, time: bool, slack: usize) -> V<T> {
    let k = n * if cx { 2 } else { 1 };
    let mut m: Vec<T> = (0..k).map(|i| T::of(if i == 1 { 0.0 } else { 1.0 + ((i * 7) % 11) as f64 })).collect();
    m.extend((0..slack).map(|i| T::of(1000.0 + i as f64)));
    let mut v = m.to_gen_dsp_vec(cx, if time { DataDomain::Time } else { DataDomain::Frequency }).mc();
    v.resize(k).unwrap();
    v.set_delta(T::of(0.5));
    v
}
fn ops<T: Tt>() -> Vec<(&'static str, Need, After, Box<dyn Fn(V<T>) -> Out<T>>)>
{
    let mut r: Vec<(&'static str, Need, After, Box<dyn Fn(V<T>) -> Out<T>>)> = vec![];
    let keep = || After { c: None, time: None };
    let cplx = || Need { c: Some(true), time: None };
    let real = || Need { c: Some(false), time: None };
    macro_rules! mark { ($name:expr, $need:expr, $after:expr, |$v:ident, $b:ident| $e:expr) => {
        r.push(($name, $need, $after, Box::new(|v| { #[allow(unused_mut)] let mut $v = v; #[allow(unused)] let mut $b = SingleBuffer::<T>::new(); $e; Mark($v) })));
    } }
    macro_rules! conv { ($name:expr, $need:expr, $after:expr, |$v:ident, $b:ident| $e:expr) => {
        r.push(($name, $need, $after, Box::new(|$v| { #[allow(unused)] let mut $b = SingleBuffer::<T>::new(); Mark($e) })));
    } }
    macro_rules! tr { ($name:expr, $need:expr, $after:expr, |$v:ident, $b:ident| $e:expr) => {
        r.push(($name, $need, $after, Box::new(|$v| { #[allow(unused)] let mut $b = SingleBuffer::<T>::new(); match $e { Ok(v) => Res(v, Ok(())), Err((e, v)) => Res(v, Err(e)) } })));
    } }
    macro_rules! res { ($name:expr, $need:expr, $after:expr, |$v:ident, $b:ident| $e:expr) => {
        r.push(($name, $need, $after, Box::new(|v| { #[allow(unused_mut)] let mut $v = v; #[allow(unused)] let mut $b = SingleBuffer::<T>::new(); let e = $e; Res($v, e) })));
    } }
    macro_rules! sca { ($name:expr, $need:expr, |$v:ident| $e:expr) => {
        r.push(($name, $need, keep(), Box::new(|$v| { let e = $e; Scalar($v, e) })));
    } }
    // real only
    mark!("abs", real(), keep(), |v, b| v.abs());
    mark!("wrap", real(), keep(), |v, b| v.wrap(T::of(3.0)));
    mark!("unwrap", real(), keep(), |v, b| v.unwrap(T::of(3.0)));
    mark!("ln_approx", real(), keep(), |v, b| v.ln_approx());
    mark!("exp_approx", real(), keep(), |v, b| v.exp_approx());
    mark!("sin_approx", real(), keep(), |v, b| v.sin_approx());
    mark!("cos_approx", real(), keep(), |v, b| v.cos_approx());
    mark!("log_approx", real(), keep(), |v, b| v.log_approx(T::of(3.0)));
    mark!("expf_approx", real(), keep(), |v, b| v.expf_approx(T::of(1.5)));
    mark!("powf_approx", real(), keep(), |v, b| v.powf_approx(T::of(1.5)));
    mark!("map_inplace_real", real(), keep(), |v, b| <V<T> as MapInplaceOps<T>>::map_inplace(&mut v, (), &|x: T, _i, _a| x + T::of(1.0)));
    tr!("to_complex", real(), After { c: Some(true), time: None }, |v, b| v.to_complex());
    conv!("to_complex_b", real(), After { c: Some(true), time: None }, |v, b| v.to_complex_b(&mut b));
    mark!("interpolate_lin", real(), keep(), |v, b| v.interpolate_lin(&mut b, T::of(2.0), T::of(0.0)));
    mark!("interpolate_hermite", real(), keep(), |v, b| v.interpolate_hermite(&mut b, T::of(2.0), T::of(0.0)));
    // complex only
    mark!("conj", cplx(), keep(), |v, b| v.conj());
    mark!("multiply_complex_exponential", cplx(), keep(), |v, b| v.multiply_complex_exponential(T::of(0.5), T::of(0.25)));
    mark!("scale_complex", cplx(), keep(), |v, b| v.scale(Complex::new(T::of(2.0), T::of(1.0))));
    mark!("offset_complex", cplx(), keep(), |v, b| v.offset(Complex::new(T::of(2.0), T::of(1.0))));
    mark!("map_inplace_complex", cplx(), keep(), |v, b| <V<T> as MapInplaceOps<Complex<T>>>::map_inplace(&mut v, (), &|x: Complex<T>, _i, _a| x + x));
    let toreal = || After { c: Some(false), time: None };
    conv!("magnitude", cplx(), toreal(), |v, b| v.magnitude());
    conv!("magnitude_squared", cplx(), toreal(), |v, b| v.magnitude_squared());
    conv!("to_real", cplx(), toreal(), |v, b| v.to_real());
    conv!("to_imag", cplx(), toreal(), |v, b| v.to_imag());
    conv!("phase", cplx(), toreal(), |v, b| v.phase());
    conv!("magnitude_b", cplx(), toreal(), |v, b| v.magnitude_b(&mut b));
    conv!("magnitude_squared_b", cplx(), toreal(), |v, b| v.magnitude_squared_b(&mut b));
    conv!("to_real_b", cplx(), toreal(), |v, b| v.to_real_b(&mut b));
    conv!("to_imag_b", cplx(), toreal(), |v, b| v.to_imag_b(&mut b));
    conv!("phase_b", cplx(), toreal(), |v, b| v.phase_b(&mut b));
    // setters: self complex, arguments real
    res!("set_real_imag", cplx(), keep(), |v, b| { let n = v.points(); let (x, y) = (mk::<T>(n, false, true, 0), mk::<T>(n, false, true, 0)); v.set_real_imag(&x, &y) });
    res!("set_mag_phase", cplx(), keep(), |v, b| { let n = v.points(); let (x, y) = (mk::<T>(n, false, true, 0), mk::<T>(n, false, true, 0)); v.set_mag_phase(&x, &y) });
    // time and frequency
    let fft = || Need { c: None, time: Some(true) };
    let tofreq = || After { c: Some(true), time: Some(false) };
    conv!("plain_fft", fft(), tofreq(), |v, b| v.plain_fft(&mut b));
    conv!("fft", fft(), tofreq(), |v, b| v.fft(&mut b));
    conv!("windowed_fft", fft(), tofreq(), |v, b| v.windowed_fft(&mut b, &Win { sym: false, declare: false }));
    let sfft = || Need { c: Some(false), time: Some(true) };
    tr!("plain_sfft", sfft(), tofreq(), |v, b| v.plain_sfft(&mut b));
    tr!("sfft", sfft(), tofreq(), |v, b| v.sfft(&mut b));
    tr!("windowed_sfft", sfft(), tofreq(), |v, b| v.windowed_sfft(&mut b, &Win { sym: false, declare: false }));
    let ifft = || Need { c: Some(true), time: Some(false) };
    let totime = || After { c: Some(true), time: Some(true) };
    conv!("plain_ifft", Need { c: None, time: Some(false) }, totime(), |v, b| v.plain_ifft(&mut b));
    conv!("ifft", Need { c: None, time: Some(false) }, totime(), |v, b| v.ifft(&mut b));
    conv!("windowed_ifft", Need { c: None, time: Some(false) }, totime(), |v, b| v.windowed_ifft(&mut b, &Win { sym: false, declare: false }));
    let tortime = || After { c: Some(false), time: Some(true) };
    tr!("plain_sifft", ifft(), tortime(), |v, b| v.plain_sifft(&mut b));
    tr!("sifft", ifft(), tortime(), |v, b| v.sifft(&mut b));
    tr!("windowed_sifft", ifft(), tortime(), |v, b| v.windowed_sifft(&mut b, &Win { sym: false, declare: false }));
    mark!("mirror", ifft(), keep(), |v, b| v.mirror(&mut b));
    mark!("multiply_frequency_response_real", Need { c: None, time: Some(false) }, keep(), |v, b| v.multiply_frequency_response(&Fun { sym: true, declare: true } as &dyn RealFrequencyResponse<T>, T::of(1.0)));
    mark!("multiply_frequency_response_complex", ifft(), keep(), |v, b| v.multiply_frequency_response(&Fun { sym: true, declare: true } as &dyn ComplexFrequencyResponse<T>, T::of(1.0)));
    mark!("convolve_real", fft(), keep(), |v, b| v.convolve(&mut b, &Fun { sym: true, declare: true } as &dyn RealImpulseResponse<T>, T::of(1.0), 2));
    mark!("convolve_complex", Need { c: Some(true), time: Some(true) }, keep(), |v, b| v.convolve(&mut b, &Fun { sym: true, declare: true } as &dyn ComplexImpulseResponse<T>, T::of(1.0), 2));
    res!("convolve_signal", fft(), keep(), |v, b| { let n = v.points(); let m = if n > 3 { 3 } else { n }; let h = mk::<T>(m, v.is_complex(), v.domain() == DataDomain::Time, 0); v.convolve_signal(&mut b, &h) });
    res!("correlate", Need { c: Some(true), time: Some(true) }, keep(), |v, b| { let n = v.points(); let mut h = mk::<T>(n, true, false, 0); h.set_delta(v.delta()); v.correlate(&mut b, &h) });
    conv!("prepare_argument", fft(), tofreq(), |v, b| v.prepare_argument(&mut b));
    conv!("prepare_argument_padded", fft(), tofreq(), |v, b| v.prepare_argument_padded(&mut b));
    // scalars
    sca!("dot_product_real", real(), |v| { let o = mk::<T>(v.points(), v.is_complex(), v.domain() == DataDomain::Time, 0); let x = <V<T> as DotProductOps<V<T>, T, T, meta::RealOrComplex, meta::TimeOrFreq>>::dot_product(&v, &o); x.map(|_| ()) });
    sca!("dot_product_complex", cplx(), |v| { let o = mk::<T>(v.points(), v.is_complex(), v.domain() == DataDomain::Time, 0); let x = <V<T> as DotProductOps<V<T>, Complex<T>, T, meta::RealOrComplex, meta::TimeOrFreq>>::dot_product(&v, &o); x.map(|_| ()) });
    sca!("map_aggregate_real", real(), |v| <V<T> as MapAggregateOps<T, T>>::map_aggregate(&v, (), &|x: T, _i: usize, _a| x, &|a: T, b: T| a + b).map(|_| ()));
    sca!("map_aggregate_complex", cplx(), |v| <V<T> as MapAggregateOps<Complex<T>, Complex<T>>>::map_aggregate(&v, (), &|x: Complex<T>, _i: usize, _a| x, &|a: Complex<T>, b: Complex<T>| a + b).map(|_| ()));
    r
}
trait Pr: Tt { fn prec(v: &V<Self>, c: bool) -> Result<(), ErrorReason>; }
impl Pr for f32 { fn prec(v: &V<f32>, c: bool) -> Result<(), ErrorReason> { let o = mk::<f32>(v.points(), v.is_complex(), v.domain() == DataDomain::Time, 0);
    if c { <V<f32> as PreciseDotProductOps<V<f32>, Complex<f32>, f32, meta::RealOrComplex, meta::TimeOrFreq>>::dot_product_prec(v, &o).map(|_| ()) } else { <V<f32> as PreciseDotProductOps<V<f32>, f32, f32, meta::RealOrComplex, meta::TimeOrFreq>>::dot_product_prec(v, &o).map(|_| ()) } } }
impl Pr for f64 { fn prec(v: &V<f64>, c: bool) -> Result<(), ErrorReason> { let o = mk::<f64>(v.points(), v.is_complex(), v.domain() == DataDomain::Time, 0);
    if c { <V<f64> as PreciseDotProductOps<V<f64>, Complex<f64>, f64, meta::RealOrComplex, meta::TimeOrFreq>>::dot_product_prec(v, &o).map(|_| ()) } else { <V<f64> as PreciseDotProductOps<V<f64>, f64, f64, meta::RealOrComplex, meta::TimeOrFreq>>::dot_product_prec(v, &o).map(|_| ()) } } }

fn t<T: Tt + Pr>(ctx: &Ctx) {
    let mut ns: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 17, 33, 100, 257, 1201]; if ctx.thorough { ns.extend(10..80); ns.extend([1000, 2500]); }
    for &n in &ns { for cx in [false, true] { for time in [false, true] { for slack in [0usize, 3, 40] {
        let mut table = ops::<T>();
        table.push(("dot_product_prec_real", Need { c: Some(false), time: None }, After { c: None, time: None }, Box::new(|v| { let e = T::prec(&v, false); Scalar(v, e) })));
        table.push(("dot_product_prec_complex", Need { c: Some(true), time: None }, After { c: None, time: None }, Box::new(|v| { let e = T::prec(&v, true); Scalar(v, e) })));
        for (name, need, after, f) in table {
            let mut missing = vec![];
            if need.c == Some(true) && !cx { missing.push(ErrorReason::InputMustBeComplex) }
            if need.c == Some(false) && cx { missing.push(ErrorReason::InputMustBeReal) }
            if need.time == Some(true) && !time { missing.push(ErrorReason::InputMustBeInTimeDomain) }
            if need.time == Some(false) && time { missing.push(ErrorReason::InputMustBeInFrequencyDomain) }
            let other_limits = name.contains("sfft") && n % 2 == 0 || name.contains("sifft");
            // an interpolation needs points to interpolate between
            if name.starts_with("interpolate_") && n < 3 { continue; }
            ctx.case(format!("{} {} n={} complex={} time={} slack={}", name, T::NAME, n, cx, time, slack), n > 0, || {
                let v = mk::<T>(n, cx, time, slack);
                let before = f64s(v.data(..));
                let unchanged = |v: &V<T>| -> bool { v.is_complex() == cx && (v.domain() == DataDomain::Time) == time && v.delta().f() == 0.5 && f64s(v.data(..)) == before };
                let marked = |v: &V<T>| -> bool { v.len() == 0 && v.delta().f().is_nan() && v.is_erroneous() };
                let (v, e) = match f(v) {
                    Scalar(v, e) => {
                        inv!(v);
                        ensure(unchanged(&v), "the vector changed")?;
                        if missing.is_empty() { if n > 0 { eq("result", e, Ok(()))?; } return Ok(()); }
                        return match e { Ok(()) => Err("misuse yields a value".into()), Err(r) => if missing.contains(&r) { Ok(()) } else { Err(format!("misuse is reported as {:?} instead of {:?}", r, missing)) } };
                    }
                    Mark(v) => (v, None),
                    Res(v, e) => (v, Some(e)),
                };
                inv!(v);
                if !missing.is_empty() {
                    match e {
                        None => ensure(marked(&v), &format!("misuse ({:?}) is not marked: {} values, delta {}", missing, v.len(), v.delta().f())),
                        Some(Ok(())) => Err(format!("misuse ({:?}) reports success", missing)),
                        Some(Err(r)) => {
                            if !missing.contains(&r) { return Err(format!("misuse is reported as {:?} instead of {:?}", r, missing)); }
                            let same = v.delta().f() == 0.5 && f64s(v.data(..)) == before && v.is_complex() == cx;
                            ensure(marked(&v) || same, &format!("misuse yields {} values", v.len()))
                        }
                    }
                } else {
                    if let Some(Err(r)) = e { if other_limits { ensure(v.len() == 0, "refused input yields values")?; return Ok(()); } return Err(format!("fitting input is refused: {:?}", r)); }
                    ensure(!v.delta().f().is_nan(), "fitting input is marked as erroneous")?;
                    if n > 0 { ensure(v.len() > 0, "fitting input yields nothing")?; } else { eq("points of an empty vector", v.len(), 0)?; }
                    eq("complex afterwards", v.is_complex(), after.c.unwrap_or(cx))?;
                    eq("time domain afterwards", v.domain() == DataDomain::Time, after.time.unwrap_or(time))
                }
            });
        }
    }}}}
    // inverse pairs restore number space, domain and length
    for &n in &ns { for cx in [false, true] { for pair in 0..4 { for slack in [0usize, 5] {
        ctx.case(format!("pair {} {} n={} complex={} slack={}", ["plain_fft/plain_ifft", "fft/ifft", "windowed_fft/windowed_ifft", "set_real_imag/get_real_imag"][pair], T::NAME, n, cx, slack), n > 0, || {
            let v = mk::<T>(n, cx, true, slack);
            let mut want = f64s(v.data(..));
            if !cx { want = want.iter().flat_map(|x| [*x, 0.0]).collect(); }
            let mut b = SingleBuffer::<T>::new();
            let w = Win { sym: false, declare: false };
            let mut t = match pair {
                0 => { let f = v.plain_fft(&mut b); inv!(f); eq("frequency", f.domain(), DataDomain::Frequency)?; eq("points", f.points(), n)?; let mut t = f.plain_ifft(&mut b); if n > 0 { t.scale(T::of(1.0 / n as f64)); } t }
                1 => { let f = v.fft(&mut b); inv!(f); eq("frequency", f.domain(), DataDomain::Frequency)?; eq("points", f.points(), n)?; f.ifft(&mut b) }
                2 => { let f = v.windowed_fft(&mut b, &w); inv!(f); eq("frequency", f.domain(), DataDomain::Frequency)?; eq("points", f.points(), n)?; f.windowed_ifft(&mut b, &w) }
                _ => { if !cx { return Ok(()); } let (mut x, mut y) = (mk::<T>(0, false, true, 0), mk::<T>(0, false, true, 0)); v.get_real_imag(&mut x, &mut y); let mut o = mk::<T>(2, true, true, 0); o.set_real_imag(&x, &y).map_err(|e| format!("{:?}", e))?; o }
            };
            inv!(t); eq("points", t.points(), n)?; eq("domain", t.domain(), DataDomain::Time)?; eq("complex", t.is_complex(), true)?;
            t.scale(T::of(1.0));
            cmp("restored", &f64s(t.data(..)), &want, T::EPS * 200.0 * (n as f64 + 10.0) * if pair == 2 { n as f64 + 1.0 } else { 1.0 })
        });
    }}}}
}
pub fn run(ctx: &Ctx) { t::<f32>(ctx); t::<f64>(ctx); }
