//! C16: conversions between storages and vectors, and between vector kinds, keep data and metadata.
use crate::fw::*;
use crate::{inv, mk::iota};
use arrayvec::ArrayVec;
use basic_dsp_vector::inline_vector::InlineVector;
use basic_dsp_vector::numbers::Complex;
use basic_dsp_vector::*;

fn cs<T: Tt>(x: &[f64]) -> Vec<Complex<T>> { x.chunks(2).map(|c| Complex::new(T::of(c[0]), T::of(c[1]))).collect() }
fn cf<T: Tt>(x: &[Complex<T>]) -> Vec<f64> { x.iter().flat_map(|c| vec![c.re.f(), c.im.f()]).collect() }
/// what a vector reports about itself
#[derive(Clone, Copy, PartialEq, Debug)]
struct Meta { cx: bool, time: bool, delta: f64, cores: usize }
fn meta_of<T: Tt, S: ToSlice<T>, N: NumberSpace, D: Domain>(v: &DspVec<S, T, N, D>) -> Meta {
    Meta { cx: v.is_complex(), time: v.domain() == DataDomain::Time, delta: v.delta().f(), cores: v.get_multicore_settings().core_limit }
}
fn chk<T: Tt, S: ToSlice<T>, N: NumberSpace, D: Domain>(what: &str, v: &DspVec<S, T, N, D>, data: &[f64], m: Meta) -> R {
    inv!(v);
    cmp(&format!("{} data", what), &f64s(v.data(..)), data, 0.0)?;
    eq(&format!("{} metadata", what), meta_of(v), m)
}
fn dom(t: bool) -> DataDomain { if t { DataDomain::Time } else { DataDomain::Frequency } }
const DEF: Meta = Meta { cx: false, time: true, delta: 1.0, cores: 1 };

/// Builds a vector of each kind with a method `$m` per (cx, time) and checks it, hands it to `$f`.
macro_rules! built { ($T:ty, $mk:expr, $x:expr, |$v:ident, $m:ident| $body:expr) => {{
        let x: &[f64] = $x;
        let odd = x.len() % 2 == 1;
        for cx in [false, true] { for time in [false, true] {
            let want: &[f64] = if cx && odd { &[] } else { x };
            let $m = Meta { cx, time, ..DEF };
            macro_rules! go { ($e:expr) => {{ #[allow(unused_mut)] let mut $v = $e; chk("constructor", &$v, want, $m)?; let r: R = $body(want); r?; }} }
            match (cx, time) {
                (false, true) => { go!($mk.to_real_time_vec()) }
                (false, false) => { go!($mk.to_real_freq_vec()) }
                (true, true) => { go!($mk.to_complex_time_vec()) }
                (true, false) => { go!($mk.to_complex_freq_vec()) }
            }
            go!($mk.to_gen_dsp_vec(cx, dom(time)));
        } }
        Ok(()) as R
    }} }
/// storage -> vector -> storage
fn storages<T: Tt>(x: &[f64], slack: usize) -> R {
    let t: Vec<T> = ts(x);
    let odd = x.len() % 2 == 1;
    let vecs = || { let mut v = Vec::with_capacity(x.len() + slack); v.extend_from_slice(&t); v };
    built!(T, vecs(), x, |v, m| |want: &[f64]| -> R {
        let a = v.alloc_len();
        ensure(a >= x.len(), "lost elements")?;
        let c = v.clone();
        let (s, l) = v.getf();
        eq("getf length", l, want.len())?; cmp("getf", &f64s(&s[..l]), want, 0.0)?;
        eq("storage kept", s.len(), a)?;
        cmp("storage behind", &f64s(&s[..x.len()]), x, 0.0)?;
        let m2 = c.get_meta_data();
        let back = s[..l].to_vec().to_dsp_vec(&m2);
        chk("to_dsp_vec", &back, want, m)
    })?;
    built!(T, vecs().into_boxed_slice(), x, |v, _m| |want: &[f64]| -> R {
        eq("alloc", v.alloc_len(), x.len())?;
        let meta = v.get_meta_data();
        let m0 = meta_of(&v);
        let (s, l) = v.getf();
        eq("getf length", l, want.len())?; cmp("getf", &f64s(&s), x, 0.0)?;
        if l == s.len() { chk("to_dsp_vec", &s.to_dsp_vec(&meta), want, m0)?; }
        Ok(())
    })?;
    built!(T, (&t[..]), x, |v, _m| |want: &[f64]| -> R {
        eq("alloc", v.alloc_len(), x.len())?;
        let meta = v.get_meta_data();
        let m0 = meta_of(&v);
        let (s, l) = v.getf();
        ensure(s.as_ptr() == t.as_ptr() && s.len() == t.len(), "another slice came back")?;
        eq("getf length", l, want.len())?;
        if l == s.len() { chk("to_dsp_vec", &s.to_dsp_vec(&meta), want, m0)?; }
        Ok(())
    })?;
    {
        let mut a = Al::<T>::with(x, 0, 1);
        built!(T, a.s(), x, |v, _m| |want: &[f64]| -> R {
            let meta = v.get_meta_data();
            let m0 = meta_of(&v);
            let (s, l) = v.getf();
            eq("getf length", l, want.len())?; cmp("getf", &f64s(s), x, 0.0)?;
            if l == s.len() { chk("to_dsp_vec", &s.to_dsp_vec(&meta), want, m0)?; }
            Ok(())
        })?;
        a.guards_ok()?;
    }
    if x.len() <= 64 {
        let arr = || { let mut v = ArrayVec::<T, 64>::new(); for e in &t { v.push(*e); } v };
        built!(T, arr(), x, |v, _m| |want: &[f64]| -> R {
            let m0 = meta_of(&v);
            let meta = v.get_meta_data();
            let c = v.clone();
            let (s, l) = v.getf();
            eq("getf length", l, want.len())?; cmp("getf", &f64s(&s[..x.len()]), x, 0.0)?;
            let c = c.getf().0;
            if l == c.len() { chk("to_dsp_vec", &c.to_dsp_vec(&meta), want, m0)?; }
            Ok(())
        })?;
        let inl = || { let mut v = InlineVector::<T>::with_capacity(x.len() + slack); for e in &t { v.push(*e); } v };
        built!(T, inl(), x, |v, _m| |want: &[f64]| -> R {
            let m0 = meta_of(&v);
            let meta = v.get_meta_data();
            let (s, l) = v.getf();
            eq("getf length", l, want.len())?; cmp("getf", &f64s(&s[..x.len()]), x, 0.0)?;
            let mut c = InlineVector::<T>::with_capacity(l); for i in 0..l { c.push(s[i]); }
            chk("to_dsp_vec", &c.to_dsp_vec(&meta), want, m0)
        })?;
    }
    // get and Into<Vec>
    for time in [true, false] {
        macro_rules! both { ($rt:ident, $rf:ident, $src:expr, |$v:ident| $b:expr) => { if time { let $v = $src.$rt(); $b } else { let $v = $src.$rf(); $b } } }
        both!(to_real_time_vec, to_real_freq_vec, vecs(), |v| { let c = v.clone(); let (s, l) = v.get(); eq("get length", l, x.len())?; cmp("get", &f64s(&s[..l]), x, 0.0)?; let s: Vec<T> = c.into(); cmp("into", &f64s(&s), x, 0.0)?; });
        both!(to_real_time_vec, to_real_freq_vec, (&t[..]), |v| { let (s, l) = v.get(); eq("get length", l, x.len())?; cmp("get", &f64s(s), x, 0.0)?; });
        let e: &[f64] = if odd { &[] } else { x };
        both!(to_complex_time_vec, to_complex_freq_vec, vecs(), |v| { let c = v.clone(); let (s, l) = v.get(); eq("get points", l, e.len() / 2)?; cmp("get", &cf(&s[..l]), e, 0.0)?; let s: Vec<Complex<T>> = c.into(); cmp("into", &cf(&s), e, 0.0)?; });
        // a valid length shorter than the storage
        for short in [x.len() / 2, x.len() / 4 * 2] {
            both!(to_real_time_vec, to_real_freq_vec, vecs(), |v| { let mut v = v; v.resize(short).map_err(|e| format!("{:?}", e))?; let c = v.clone(); eq("get length", v.get().1, short)?; let s: Vec<T> = c.into(); cmp("into after resize", &f64s(&s), &x[..short], 0.0)?; });
            if short % 2 == 0 && !odd { both!(to_complex_time_vec, to_complex_freq_vec, vecs(), |v| { let mut v = v; v.resize(short).map_err(|e| format!("{:?}", e))?; let c = v.clone(); let (s, l) = v.get(); eq("get points", l, short / 2)?; cmp("get after resize", &cf(&s[..l]), &x[..short], 0.0)?; let s: Vec<Complex<T>> = c.into(); cmp("into after resize", &cf(&s), &x[..short], 0.0)?; }); }
        }
        if !odd {
            let c: Vec<Complex<T>> = cs(x);
            let cvec = || { let mut v = Vec::with_capacity(c.len() + slack); v.extend_from_slice(&c); v };
            let m = Meta { cx: true, time, ..DEF };
            both!(to_complex_time_vec, to_complex_freq_vec, cvec(), |v| { chk("complex storage", &v, x, m)?; ensure(v.alloc_len() >= x.len() + 2 * slack, &format!("lost capacity (complex): {} of {}+{}", v.alloc_len(), x.len(), 2*slack))?; let (s, l) = v.get(); eq("points", l, c.len())?; ensure(s[..l] == c[..], "points differ")?; });
            both!(to_complex_time_vec, to_complex_freq_vec, (&c[..]), |v| { chk("complex slice", &v, x, m)?; let (s, l) = v.get(); eq("points", l, c.len())?; ensure(s == &c[..], "points differ")?; });
            let mut c2 = c.clone();
            both!(to_complex_time_vec, to_complex_freq_vec, (&mut c2[..]), |v| { chk("complex mut slice", &v, x, m)?; let (s, l) = v.get(); eq("points", l, c.len())?; ensure(s == &c[..], "points differ")?; });
        }
        // slices of any length, whatever is left of them is no point
        both!(to_complex_time_vec, to_complex_freq_vec, (&t[..]), |v| { let (s, l) = v.get(); eq("points of a slice", l, e.len() / 2)?; cmp("points of a slice", &cf(s), &x[..x.len() / 2 * 2], 0.0)?; });
        let mut t2 = t.clone();
        both!(to_complex_time_vec, to_complex_freq_vec, (&mut t2[..]), |v| { let (s, l) = v.get(); eq("points of a mut slice", l, e.len() / 2)?; cmp("points of a mut slice", &cf(s), &x[..x.len() / 2 * 2], 0.0)?; });
        // shorter vectors over slices
        let mut v = (&t[..]).to_complex_time_vec();
        if v.len() >= 2 { let k = v.len() / 4 * 2; v.resize(k).map_err(|e| format!("{:?}", e))?; eq("points of a resized slice", v.get().1, k / 2)?; }
    }
    // From
    let m = |cx, time| Meta { cx, time, ..DEF };
    let e: &[f64] = if odd { &[] } else { x };
    chk("from", &RealTimeVec::<Vec<T>, T>::from(vecs()), x, m(false, true))?;
    chk("from", &RealFreqVec::<Vec<T>, T>::from(vecs()), x, m(false, false))?;
    chk("from", &ComplexTimeVec::<Vec<T>, T>::from(vecs()), e, m(true, true))?;
    chk("from", &ComplexFreqVec::<Vec<T>, T>::from(vecs()), e, m(true, false))?;
    chk("from", &RealTimeVec::<&[T], T>::from(&t[..]), x, m(false, true))?;
    chk("from", &ComplexFreqVec::<Box<[T]>, T>::from(vecs().into_boxed_slice()), e, m(true, false))?;
    // parallel constructors differ in the settings only
    let p = |v: Meta| Meta { cores: 1, ..v };
    let rt = vecs().to_real_time_vec_par(); cmp("par", &f64s(rt.data(..)), x, 0.0)?; eq("par", p(meta_of(&rt)), m(false, true))?;
    let rt = vecs().to_real_freq_vec_par(); cmp("par", &f64s(rt.data(..)), x, 0.0)?; eq("par", p(meta_of(&rt)), m(false, false))?;
    let rt = vecs().to_complex_time_vec_par(); cmp("par", &f64s(rt.data(..)), e, 0.0)?; eq("par", p(meta_of(&rt)), m(true, true))?;
    let rt = vecs().to_complex_freq_vec_par(); cmp("par", &f64s(rt.data(..)), e, 0.0)?; eq("par", p(meta_of(&rt)), m(true, false))?;
    for cx in [false, true] { for time in [false, true] {
        let want = if cx { e } else { x };
        let mut g = vecs().to_gen_dsp_vec_par(cx, dom(time)); cmp("par", &f64s(g.data(..)), want, 0.0)?; eq("par", p(meta_of(&g)), m(cx, time))?;
        g.set_delta(T::of(0.25));
        let d = f64s(g.data(..));
        let h = ts::<T>(&d).to_dsp_vec_par(&g.get_meta_data()); cmp("par", &f64s(h.data(..)), want, 0.0)?; eq("par", p(meta_of(&h)), Meta { delta: 0.25, ..m(cx, time) })?;
    } }
    Ok(())
}
fn interleave<T: Tt>(n: usize, k: usize) -> R {
    let a: Vec<f64> = iota(n);
    let b: Vec<f64> = (0..k).map(|i| -(i as f64) - 100.0).collect();
    let want: Vec<f64> = if n == k { (0..n).flat_map(|i| vec![a[i], b[i]]).collect() } else { vec![] };
    macro_rules! go { ($x:expr, $y:expr) => {{
            let (x, y) = ($x, $y);
            match x.interleave_to_complex_time_vec(&y) { Ok(v) => { ensure(n == k, "accepted inputs of different size")?; chk("interleave time", &v, &want, Meta { cx: true, time: true, ..DEF })?; } Err(e) => { ensure(n != k, "refused inputs of the same size")?; eq("reason", e, ErrorReason::InputMustHaveTheSameSize)?; } }
            match x.interleave_to_complex_freq_vec(&y) { Ok(v) => { ensure(n == k, "accepted inputs of different size")?; chk("interleave freq", &v, &want, Meta { cx: true, time: false, ..DEF })?; } Err(e) => { ensure(n != k, "refused inputs of the same size")?; eq("reason", e, ErrorReason::InputMustHaveTheSameSize)?; } }
        }} }
    let (ta, tb): (Vec<T>, Vec<T>) = (ts(&a), ts(&b));
    go!(ta.clone(), tb.clone());
    go!(&ta[..], &tb[..]);
    go!(ta.clone().into_boxed_slice(), tb.clone().into_boxed_slice());
    Ok(())
}
fn odd_data(n: usize, cx: bool) -> Vec<f64> { iota(if cx { 2 * n } else { n }) }
/// every source kind rededicated into every target kind
fn rededicate<T: Tt>(n: usize, slack: usize) -> R {
    macro_rules! targets { ($src:expr, $x:expr, $m:expr) => {{
            let (x, m): (&[f64], Meta) = ($x, $m);
            macro_rules! to { ($K:ty, $cx:expr, $time:expr) => {{
                    let alloc = $src.alloc_len();
                    let r: $K = $src.rededicate();
                    let same = m.cx == $cx && m.time == $time;
                    chk("rededicate", &r, if same { x } else { &[] }, Meta { cx: $cx, time: $time, ..m })?;
                    eq("storage", r.alloc_len(), alloc)?;
                    let r = <$K>::rededicate_from($src);
                    chk("rededicate_from", &r, if same { x } else { &[] }, Meta { cx: $cx, time: $time, ..m })?;
                    if !($cx && x.len() % 2 == 1) {
                        let r = <$K>::rededicate_from_force($src);
                        chk("rededicate_from_force", &r, x, Meta { cx: $cx, time: $time, ..m })?;
                        for c in [false, true] { for t in [false, true] {
                            let r = <$K>::rededicate_with_runtime_data($src, c, dom(t));
                            chk("rededicate_with_runtime_data", &r, x, Meta { cx: $cx, time: $time, ..m })?;
                        } }
                    }
                }} }
            to!(RealTimeVec<Vec<T>, T>, false, true);
            to!(RealFreqVec<Vec<T>, T>, false, false);
            to!(ComplexTimeVec<Vec<T>, T>, true, true);
            to!(ComplexFreqVec<Vec<T>, T>, true, false);
            let r: GenDspVec<Vec<T>, T> = $src.rededicate();
            chk("rededicate to generic", &r, x, m)?;
            let r = GenDspVec::<Vec<T>, T>::rededicate_from($src);
            chk("rededicate_from to generic", &r, x, m)?;
            let r = GenDspVec::<Vec<T>, T>::rededicate_from_force($src);
            chk("rededicate_from_force to generic", &r, x, m)?;
            for c in [false, true] { for t in [false, true] {
                if c && x.len() % 2 == 1 { continue; }
                let r = GenDspVec::<Vec<T>, T>::rededicate_with_runtime_data($src, c, dom(t));
                chk("rededicate_with_runtime_data to generic", &r, x, Meta { cx: c, time: t, ..m })?;
            } }
            // clones
            let s = $src;
            let mut c = s.clone();
            chk("clone", &c, x, m)?;
            c.set_delta(T::of(7.0)); c.resize(0).map_err(|e| format!("{:?}", e))?;
            chk("the original of a changed clone", &s, x, m)?;
            let other = s.clone();
            c.clone_from(&other);
            chk("clone_from", &c, x, m)?;
            eq("storage of the clone", c.alloc_len(), s.alloc_len())?;
        }} }
    macro_rules! tune { ($v:expr, $n:expr) => {{ let mut v = $v; v.resize($n).map_err(|e| format!("{:?}", e))?; v.set_delta(T::of(0.125)); v.set_multicore_settings(MultiCoreSettings::with_thresholds(3, 0, 0, 0, 0)); v }} }
    let m = |cx, time| Meta { cx, time, delta: 0.125, cores: 3 };
    for cx in [false, true] {
        let x = odd_data(n, cx);
        let st = || { let mut s: Vec<T> = ts(&x); s.extend((0..2 * slack).map(|i| T::of(1000.0 + i as f64))); s };
        for time in [false, true] {
            targets!(tune!(st().to_gen_dsp_vec(cx, dom(time)), x.len()), &x, m(cx, time));
            match (cx, time) {
                (false, true) => targets!(tune!(st().to_real_time_vec(), x.len()), &x, m(cx, time)),
                (false, false) => targets!(tune!(st().to_real_freq_vec(), x.len()), &x, m(cx, time)),
                (true, true) => targets!(tune!(st().to_complex_time_vec(), x.len()), &x, m(cx, time)),
                (true, false) => targets!(tune!(st().to_complex_freq_vec(), x.len()), &x, m(cx, time)),
            }
        }
    }
    Ok(())
}
/// kinds that differ only in one of both attributes, over a random history
fn history<T: Tt>(seed: u64, len: usize) -> R {
    let mut r = Rng::new(seed);
    let n = r.below(20);
    let mut x = iota(n);
    let mut m = Meta { cx: false, time: true, delta: 0.5, cores: 2 };
    let mut g = ts::<T>(&x).to_gen_dsp_vec(false, DataDomain::Time);
    g.set_delta(T::of(0.5));
    g.set_multicore_settings(MultiCoreSettings::with_thresholds(2, 0, 0, 0, 0));
    for step in 0..len {
        let what = r.below(8);
        macro_rules! via { ($K:ty, $cx:expr, $time:expr) => {{ let t: $K = g.rededicate(); g = t.rededicate(); if m.cx != $cx || m.time != $time { x.clear(); } m.cx = $cx; m.time = $time; }} }
        match what {
            0 => via!(RealTimeVec<Vec<T>, T>, false, true),
            1 => via!(RealFreqVec<Vec<T>, T>, false, false),
            2 => via!(ComplexTimeVec<Vec<T>, T>, true, true),
            3 => via!(ComplexFreqVec<Vec<T>, T>, true, false),
            4 => { let md = g.get_meta_data(); let (s, l) = g.getf(); g = s[..l].to_vec().to_dsp_vec(&md); }
            5 => { let c = g.clone(); g = c; }
            6 => { let (c, t) = (r.below(2) == 0, r.below(2) == 0); if !(c && x.len() % 2 == 1) { g = GenDspVec::<Vec<T>, T>::rededicate_with_runtime_data(g, c, dom(t)); m.cx = c; m.time = t; } }
            _ => { let l = r.below(24); let l = if m.cx { l / 2 * 2 } else { l }; g.resize(l).map_err(|e| format!("{:?}", e))?; x = { let mut y = f64s(g.data(..)); let k = x.len().min(l); cmp("resize", &y[..k], &x[..k], 0.0)?; for i in k..l { *g.data_mut(i) = T::of(i as f64 - 50.0); y[i] = i as f64 - 50.0; } y }; }
        }
        chk(&format!("step {} ({})", step, what), &g, &x, m)?;
    }
    Ok(())
}
fn width<T: Tt>(ctx: &Ctx) {
    for n in 0..=if ctx.thorough { 70 } else { 41 } {
        for slack in [0, 1, 5] {
            ctx.case(format!("storage {} n={} slack={}", T::NAME, n, slack), n > 0, || storages::<T>(&iota(n), slack));
            ctx.case(format!("rededicate {} n={} slack={}", T::NAME, n, slack), n > 0, || rededicate::<T>(n, slack));
        }
        for k in [n, n + 1, n.saturating_sub(1), 0] {
            ctx.case(format!("interleave {} n={} k={}", T::NAME, n, k), n > 0, || interleave::<T>(n, k));
        }
    }
    for s in 0..if ctx.thorough { 20000 } else { 2000 } {
        ctx.case(format!("history {} seed={}", T::NAME, ctx.seed * 100000 + s), true, || history::<T>(ctx.seed * 100000 + s, 12));
    }
    for n in [1000, 10001, 200001] { ctx.case(format!("interleave {} n={} k={}", T::NAME, n, n), true, || interleave::<T>(n, n)); }
}
pub fn run(ctx: &Ctx) { width::<f32>(ctx); width::<f64>(ctx); }
