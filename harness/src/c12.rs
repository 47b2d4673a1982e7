//! C12: windows and frequency responses hit every point at its own position.
use crate::fw::*;
use crate::inv;
use crate::tf::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;

/// A built-in window with another declaration of its symmetry.
struct As<'a, T: Tt>(&'a dyn WindowFunction<T>, bool);
impl<'a, T: Tt> WindowFunction<T> for As<'a, T> { fn is_symmetric(&self) -> bool { self.1 } fn window(&self, n: usize, l: usize) -> T { if n >= l { panic!("window called at {} of {}", n, l) } self.0.window(n, l) } }

fn t<T: Tt>(ctx: &Ctx) {
    let mut ns: Vec<usize> = (0..40).collect(); ns.extend([63, 64, 65, 99, 100, 101, 255, 256, 257, 1000, 1001]); if ctx.thorough { ns.extend(41..400) }
    let mc = |k: usize| match k { 0 => MultiCoreSettings::default(), 1 => MultiCoreSettings::with_thresholds(4, 0, 0, 0, 0), _ => MultiCoreSettings::with_thresholds(3, 0, 0, 0, 0) };
    for &n in &ns { for cx in [false, true] { for slack in [0usize, 3] { for gen in [false, true] { for w in 0..9 { for threads in 0..3 { for op in 0..3 {
        if threads > 0 && (slack > 0 || gen || n > 300) { continue; }
        let name = ["asym", "sym", "sym_declared", "triangular", "hamming", "hamming_undeclared", "blackman", "blackman_undeclared", "rectangular"][w];
        ctx.case(format!("{} {} n={} complex={} slack={} gen={} window={} threads={}", ["apply_window", "unapply_window", "apply_unapply"][op], T::NAME, n, cx, slack, gen, name, threads), n > 0, || {
            let (h, b) = (HammingWindow::<T>::default(), BlackmanHarrisWindow);
            let (a0, a1, a2) = (Win { sym: false, declare: false }, Win { sym: true, declare: false }, Win { sym: true, declare: true });
            let (h2, b2) = (As(&h, false), As(&b, false));
            let win: &dyn WindowFunction<T> = match w { 0 => &a0, 1 => &a1, 2 => &a2, 3 => &TriangularWindow, 4 => &h, 5 => &h2, 6 => &b, 7 => &b2, _ => &RectangularWindow };
            if n == 1 && (4..8).contains(&w) { return Ok(()); } // not defined for a single point
            let k = n * if cx { 2 } else { 1 };
            let mut r = Rng::new((n * 3 + w) as u64);
            let x: Vec<f64> = (0..k).map(|_| r.nzint()).collect();
            let wv: Vec<f64> = (0..n).map(|i| match w { 0..=2 => win_ref(w > 0, i, n), _ => win.window(i, n).f() }).collect();
            if op > 0 && wv.iter().any(|v| v.abs() < 1e-9) { return Ok(()); }
            let want: Vec<f64> = x.iter().enumerate().map(|(i, v)| { let f = wv[if cx { i / 2 } else { i }]; match op { 0 => v * f, 1 => v / f, _ => *v } }).collect();
            let mut m = ts::<T>(&x); m.extend((0..slack).map(|i| T::of(1000.0 + i as f64)));
            macro_rules! go { ($v:expr) => {{ let mut v = $v; v.resize(k).unwrap(); v.set_multicore_settings(mc(threads)); v.set_delta(T::of(0.25));
                match op { 0 => v.apply_window(win), 1 => v.unapply_window(win), _ => { v.apply_window(win); v.unapply_window(win) } }
                inv!(v); eq("delta", v.delta().f(), 0.25)?; eq("complex", v.is_complex(), cx)?; eq("domain", v.domain(), DataDomain::Time)?;
                cmp("result", &f64s(v.data(..)), &want, T::EPS * 64.0 * (1.0 + if op > 0 { 1.0 / wv.iter().map(|v| v.abs()).fold(1.0, f64::min) } else { 0.0 }))?;
                let (mem, l) = v.getf(); eq("valid length", l, k)?;
                cmp("storage behind the valid length", &f64s(&mem[k..k + slack]), &(0..slack).map(|i| 1000.0 + i as f64).collect::<Vec<_>>(), 0.0) }} }
            if gen { go!(m.to_gen_dsp_vec(cx, DataDomain::Time)) } else if cx { go!(m.to_complex_time_vec()) } else { go!(m.to_real_time_vec()) }
        });
    }}}}}}}
    // built-in windows are as symmetric as they declare
    for n in 2..80usize { for w in 0..4 {
        ctx.case(format!("symmetry {} n={} window={}", T::NAME, n, w), true, || {
            let h = HammingWindow::<T>::new(T::of(0.6));
            let win: &dyn WindowFunction<T> = match w { 0 => &TriangularWindow, 1 => &h, 2 => &BlackmanHarrisWindow, _ => &RectangularWindow };
            if win.is_symmetric() { for i in 0..n { if !near(win.window(i, n).f(), win.window(n - 1 - i, n).f(), T::EPS * 64.0) { return Err(format!("point {}", i)); } } }
            Ok(())
        });
    }}
    // frequency responses
    for &n in &ns { if n < 2 { continue; } for cx in [false, true] { for slack in [0usize, 3] { for gen in [false, true] { for cfun in [false, true] { for f in 0..3 { for ratio in [1.0f64, 0.5, 2.0, -1.5] { for threads in 0..3 {
        if cfun && !cx || threads > 0 && (slack > 0 || gen || n > 300) { continue; }
        ctx.case(format!("multiply_frequency_response {} n={} complex={} slack={} gen={} complexfunction={} function={} ratio={} threads={}", T::NAME, n, cx, slack, gen, cfun, f, ratio, threads), true, || {
            let fun = Fun { sym: f > 0, declare: f == 2 };
            let k = n * if cx { 2 } else { 1 };
            let mut r = Rng::new((n * 3 + f) as u64);
            let x: Vec<f64> = (0..k).map(|_| r.nzint()).collect();
            let mut want = vec![];
            let half = (n / 2) as f64;
            for i in 0..n {
                let pos = (i as f64 - half) / half * ratio;
                let (re, im) = if cfun { cfun_ref(fun.sym, pos) } else { (fun_ref(fun.sym, pos), 0.0) };
                if cx { let (a, b) = (x[2 * i], x[2 * i + 1]); want.push((a * re - b * im) * ratio); want.push((a * im + b * re) * ratio); } else { want.push(x[i] * re * ratio); }
            }
            let mut m = ts::<T>(&x); m.extend((0..slack).map(|i| T::of(1000.0 + i as f64)));
            let (rf, cf): (&dyn RealFrequencyResponse<T>, &dyn ComplexFrequencyResponse<T>) = (&fun, &fun);
            macro_rules! go { ($v:expr, $f:expr) => {{ let mut v = $v; v.resize(k).unwrap(); v.set_multicore_settings(mc(threads)); v.set_delta(T::of(0.25));
                v.multiply_frequency_response($f, T::of(ratio));
                inv!(v); eq("delta", v.delta().f(), 0.25)?; eq("complex", v.is_complex(), cx)?; eq("domain", v.domain(), DataDomain::Frequency)?;
                cmp("result", &f64s(v.data(..)), &want, T::EPS * 300.0)?;
                let (mem, l) = v.getf(); eq("valid length", l, k)?;
                cmp("storage behind the valid length", &f64s(&mem[k..k + slack]), &(0..slack).map(|i| 1000.0 + i as f64).collect::<Vec<_>>(), 0.0) }} }
            match (gen, cx, cfun) {
                (true, _, false) => go!(m.to_gen_dsp_vec(cx, DataDomain::Frequency), rf),
                (true, _, true) => go!(m.to_gen_dsp_vec(cx, DataDomain::Frequency), cf),
                (false, true, false) => go!(m.to_complex_freq_vec(), rf),
                (false, true, true) => go!(m.to_complex_freq_vec(), cf),
                _ => go!(m.to_real_freq_vec(), rf),
            }
        });
    }}}}}}}}
}
pub fn run(ctx: &Ctx) { t::<f32>(ctx); t::<f64>(ctx); }
