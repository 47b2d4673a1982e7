//! C17: a matrix operation is the vector operation on every row.
use crate::fw::*;
use crate::tf::*;
use basic_dsp_matrix::*;
use basic_dsp_vector::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::window_functions::*;
use num_complex::Complex;

fn bits(v: &[f64]) -> Vec<String> { v.iter().map(|x| if x.is_nan() { "nan".into() } else { format!("{:x}", x.to_bits()) }).collect() }
/// everything observable about a row
fn snap<T: Tt, V: Vector<T>>(v: &V) -> (Vec<String>, usize, usize, String, DataDomain, bool) {
    (bits(&f64s(v.data(..))), v.len(), v.points(), format!("{:?}", v.delta().f()), v.domain(), v.is_complex())
}
fn same_rows<T: Tt, V: Vector<T>>(what: &str, got: &[V], want: &[V]) -> R {
    eq(&format!("{}: number of rows", what), got.len(), want.len())?;
    for i in 0..got.len() { let (g, w) = (snap::<T, V>(&got[i]), snap::<T, V>(&want[i])); if g != w { return Err(format!("{}: row {}: got {:?} {} want {:?} {}", what, i, short(&f64s(got[i].data(..))), got[i].delta().f(), short(&f64s(want[i].data(..))), want[i].delta().f())); } }
    Ok(())
}
fn head<T: Tt, V: Vector<T>, M: Matrix<V, T>>(m: &M) -> R {
    let r = m.rows();
    eq("rows", m.col_len(), r.len())?;
    if r.is_empty() { return Ok(()); }
    eq("row length", m.row_len(), r[0].len())?; eq("row points", m.row_points(), r[0].points())?; eq("delta", format!("{:?}", m.delta().f()), format!("{:?}", r[0].delta().f()))?; eq("domain", m.domain(), r[0].domain())?; eq("complex", m.is_complex(), r[0].is_complex())
}
/// values and errors in a comparable form
trait Obs { fn obs(&self) -> String; }
impl Obs for () { fn obs(&self) -> String { String::new() } }
impl Obs for f32 { fn obs(&self) -> String { bits(&[*self as f64]).remove(0) } }
impl Obs for f64 { fn obs(&self) -> String { bits(&[*self]).remove(0) } }
impl Obs for usize { fn obs(&self) -> String { self.to_string() } }
impl<A: Obs> Obs for Complex<A> { fn obs(&self) -> String { format!("{}/{}", self.re.obs(), self.im.obs()) } }
impl<A: Obs> Obs for Statistics<A> { fn obs(&self) -> String { format!("{}:{}:{}:{}:{}:{}:{}:{}", self.sum.obs(), self.count, self.average.obs(), self.rms.obs(), self.min.obs(), self.min_index, self.max.obs(), self.max_index) } }
impl<A: Obs> Obs for StatsVec<A> { fn obs(&self) -> String { self.iter().map(|x| x.obs()).collect::<Vec<_>>().join(",") } }
/// the result of a matrix operation, row by row
trait Rows { fn each(&self) -> Vec<String>; }
impl<A: Obs> Rows for Vec<A> { fn each(&self) -> Vec<String> { self.iter().map(|x| x.obs()).collect() } }
impl<A: Obs, const N: usize> Rows for [A; N] { fn each(&self) -> Vec<String> { self.iter().map(|x| x.obs()).collect() } }

/// in-place operation; $e has type () or VoidResult
macro_rules! inplace {
    ($c:expr, $T:ty, $what:expr, $mk:expr, |$v:ident| $e:expr) => {{
        let what: String = $what; let mk = $mk;
        macro_rules! one { ($form:expr, $nr:expr, $m:expr) => {{
            $c.case(format!("{} {} {}", what, <$T as Tt>::NAME, $form), $nr > 0, || {
                let rows: Vec<_> = (0..$nr).map(|i| mk(i)).collect();
                let mut want = rows; let mut bad = false;
                for r in want.iter_mut() { let $v = r; if $e.fails() { bad = true; } }
                let mut m = $m;
                let got = { let $v = &mut m; $e.fails() };
                eq("fails", got, bad)?;
                if bad { return Ok(()); }
                head::<$T, _, _>(&m)?;
                same_rows::<$T, _>(&what, m.rows(), &want)
            });
        }} }
        for nr in 0..6usize { one!(format!("{}rows", nr), nr, (0..nr).map(|i| mk(i)).collect::<Vec<_>>().to_mat()); }
        one!("2xN", 2, [mk(0), mk(1)].to_mat()); one!("3xN", 3, [mk(0), mk(1), mk(2)].to_mat()); one!("4xN", 4, [mk(0), mk(1), mk(2), mk(3)].to_mat());
    }};
}
/// in-place operation with another matrix of the same form
macro_rules! pair {
    ($c:expr, $T:ty, $what:expr, $mk:expr, $mk2:expr, |$v:ident, $o:ident| $e:expr) => {{
        let what: String = $what; let mk = $mk; let mk2 = $mk2;
        macro_rules! one { ($form:expr, $nr:expr, $m:expr, $m2:expr) => {{
            $c.case(format!("{} {} {}", what, <$T as Tt>::NAME, $form), $nr > 0, || {
                let mut want: Vec<_> = (0..$nr).map(|i| mk(i)).collect(); let mut want2: Vec<_> = (0..$nr).map(|i| mk2(i)).collect();
                let mut bad = false;
                for (r, s) in want.iter_mut().zip(want2.iter_mut()) { let $v = r; let $o = s; if $e.fails() { bad = true; } }
                let mut m = $m; let mut m2 = $m2;
                let got = { let $v = &mut m; let $o = &mut m2; $e.fails() };
                eq("fails", got, bad)?;
                if bad { return Ok(()); }
                head::<$T, _, _>(&m)?;
                same_rows::<$T, _>(&what, m.rows(), &want)?;
                same_rows::<$T, _>(&what, m2.rows(), &want2)
            });
        }} }
        for nr in 0..6usize { one!(format!("{}rows", nr), nr, (0..nr).map(|i| mk(i)).collect::<Vec<_>>().to_mat(), (0..nr).map(|i| mk2(i)).collect::<Vec<_>>().to_mat()); }
        one!("2xN", 2, [mk(0), mk(1)].to_mat(), [mk2(0), mk2(1)].to_mat()); one!("3xN", 3, [mk(0), mk(1), mk(2)].to_mat(), [mk2(0), mk2(1), mk2(2)].to_mat()); one!("4xN", 4, [mk(0), mk(1), mk(2), mk(3)].to_mat(), [mk2(0), mk2(1), mk2(2), mk2(3)].to_mat());
    }};
}
/// consuming operation which gives a matrix
macro_rules! into {
    ($c:expr, $T:ty, $what:expr, $mk:expr, |$v:ident| $e:expr) => {{
        let what: String = $what; let mk = $mk;
        macro_rules! one { ($form:expr, $nr:expr, $m:expr) => {{
            $c.case(format!("{} {} {}", what, <$T as Tt>::NAME, $form), $nr > 0, || {
                let mut bad = false;
                let want: Vec<_> = (0..$nr).map(|i| { let $v = mk(i); let (r, f) = $e.split(); bad |= f; r }).collect();
                let (m, f) = { let $v = $m; $e.split() };
                eq("fails", f, bad)?;
                head::<$T, _, _>(&m)?;
                same_rows::<$T, _>(&what, m.rows(), &want)?;
                let n = m.row_len(); let (rows, len) = m.get(); eq("length", len, n)?;
                same_rows::<$T, _>(&what, &rows[..], &want)
            });
        }} }
        for nr in 0..6usize { one!(format!("{}rows", nr), nr, (0..nr).map(|i| mk(i)).collect::<Vec<_>>().to_mat()); }
        one!("2xN", 2, [mk(0), mk(1)].to_mat()); one!("3xN", 3, [mk(0), mk(1), mk(2)].to_mat()); one!("4xN", 4, [mk(0), mk(1), mk(2), mk(3)].to_mat());
    }};
}
/// operation which gives one value per row: $e for a matrix, $f for a vector; both Result<_, ErrorReason>
macro_rules! value {
    ($c:expr, $T:ty, $what:expr, $mk:expr, |$v:ident| $e:expr, |$w:ident| $f:expr) => {{
        let what: String = $what; let mk = $mk;
        macro_rules! one { ($form:expr, $nr:expr, $m:expr, $ty:ty) => {{
            $c.case(format!("{} {} {}", what, <$T as Tt>::NAME, $form), $nr > 0, || {
                let mut bad = false; let mut want = vec![];
                for i in 0..$nr { let $w = mk(i); match $f { Ok(x) => want.push(x.obs()), Err(_) => bad = true } }
                let $v = $m;
                match $e { Ok(x) => { eq("fails", false, bad)?; eq("values", x.each(), want) } Err(_) => eq("fails", true, bad) }
            });
        }} }
        for nr in 0..6usize { one!(format!("{}rows", nr), nr, (0..nr).map(|i| mk(i)).collect::<Vec<_>>().to_mat(), ()); }
        one!("2xN", 2, [mk(0), mk(1)].to_mat(), ()); one!("3xN", 3, [mk(0), mk(1), mk(2)].to_mat(), ()); one!("4xN", 4, [mk(0), mk(1), mk(2), mk(3)].to_mat(), ());
    }};
}
trait Fails { fn fails(&self) -> bool; }
impl Fails for () { fn fails(&self) -> bool { false } }
impl Fails for VoidResult { fn fails(&self) -> bool { self.is_err() } }
/// either a plain value or a TransRes
trait Split<M> { fn split(self) -> (M, bool); }
impl<M> Split<M> for TransRes<M> { fn split(self) -> (M, bool) { match self { Ok(m) => (m, false), Err((_, m)) => (m, true) } } }
fn fine<M>(m: M) -> TransRes<M> { Ok(m) }
fn ok<M>(m: M) -> Result<M, ErrorReason> { Ok(m) }

fn t<T: Tt + Obs>(c: &Ctx) {
    let o = |x: f64| T::of(x);
    // rows differ in their values; `bad`: the second row has another length
    let mem = move |n: usize, seed: usize, i: usize| -> Vec<T> { let mut r = Rng::new((seed * 10 + i) as u64); (0..n).map(|_| o(r.nzint() + i as f64 * 0.5)).collect() };
    macro_rules! set { ($v:expr) => {{ let mut v = $v; v.set_delta(o(0.25)); v }} }
    let mut sizes = vec![0usize, 2, 4, 6, 10, 16, 22];
    if c.thorough { sizes.extend([8, 12, 14, 18, 20, 30, 64, 100, 122]); }
    for &n in &sizes {
        let rt = move |i: usize| set!(mem(n, 1, i).to_real_time_vec());
        let rt2 = move |i: usize| set!(mem(n, 2, i).to_real_time_vec());
        let rtbad = move |i: usize| set!(mem(if i == 1 { n + 2 } else { n }, 2, i).to_real_time_vec());
        let rts = move |i: usize| set!(mem(2, 3, i).to_real_time_vec());
        let rpos = move |i: usize| set!(mem(n, 1, i).iter().map(|x| x.abs() / o(16.0)).collect::<Vec<T>>().to_real_time_vec());
        let ct = move |i: usize| set!(mem(n, 1, i).to_complex_time_vec());
        let ct2 = move |i: usize| set!(mem(n, 2, i).to_complex_time_vec());
        let ctbad = move |i: usize| set!(mem(if i == 1 { n + 2 } else { n }, 2, i).to_complex_time_vec());
        let cts = move |i: usize| set!(mem(2, 3, i).to_complex_time_vec());
        let cf = move |i: usize| set!(mem(n, 1, i).to_complex_freq_vec());
        let rt1 = move |i: usize| set!(mem(n + 1, 1, i).to_real_time_vec());
        macro_rules! both { ($name:expr, |$v:ident| $e:expr) => {{ inplace!(c, T, format!("{} real n={}", $name, n), rt, |$v| $e); inplace!(c, T, format!("{} complex n={}", $name, n), ct, |$v| $e); }} }
        macro_rules! both_into { ($name:expr, |$v:ident| $e:expr) => {{ into!(c, T, format!("{} real n={}", $name, n), rt, |$v| $e); into!(c, T, format!("{} complex n={}", $name, n), ct, |$v| $e); }} }
        macro_rules! both_pair { ($name:expr, |$v:ident, $o:ident| $e:expr) => {{ pair!(c, T, format!("{} real n={}", $name, n), rt, rt2, |$v, $o| $e); pair!(c, T, format!("{} complex n={}", $name, n), ct, ct2, |$v, $o| $e); pair!(c, T, format!("{}-mismatch real n={}", $name, n), rt, rtbad, |$v, $o| $e); pair!(c, T, format!("{}-mismatch complex n={}", $name, n), ct, ctbad, |$v, $o| $e); }} }
        let z = Complex::new(o(2.0), o(-1.5));
        // elementary
        inplace!(c, T, format!("scale real n={}", n), rt, |v| v.scale(o(1.5))); inplace!(c, T, format!("offset real n={}", n), rt, |v| v.offset(o(1.5)));
        inplace!(c, T, format!("scale complex n={}", n), ct, |v| v.scale(z)); inplace!(c, T, format!("offset complex n={}", n), ct, |v| v.offset(z));
        both_pair!("add", |v, w| v.add(w)); both_pair!("sub", |v, w| v.sub(w)); both_pair!("mul", |v, w| v.mul(w)); both_pair!("div", |v, w| v.div(w));
        macro_rules! vecarg { ($name:expr, $f:ident) => {{
            inplace!(c, T, format!("{}-vector real n={}", $name, n), rt, |v| v.$f(&rt2(7))); inplace!(c, T, format!("{}-vector complex n={}", $name, n), ct, |v| v.$f(&ct2(7)));
            inplace!(c, T, format!("{}-vector-mismatch real n={}", $name, n), rt, |v| v.$f(&rtbad(1)));
        }} }
        vecarg!("add", add); vecarg!("sub", sub); vecarg!("mul", mul); vecarg!("div", div);
        macro_rules! smaller { ($name:expr, $f:ident) => {{
            pair!(c, T, format!("{} real n={}", $name, n), rt, rts, |v, w| v.$f(w)); pair!(c, T, format!("{} complex n={}", $name, n), ct, cts, |v, w| v.$f(w)); pair!(c, T, format!("{}-mismatch real n={}", $name, n), rt, rtbad, |v, w| v.$f(w));
            inplace!(c, T, format!("{}-vector real n={}", $name, n), rt, |v| v.$f(&rts(7))); inplace!(c, T, format!("{}-vector complex n={}", $name, n), ct, |v| v.$f(&cts(7)));
        }} }
        smaller!("add_smaller", add_smaller); smaller!("sub_smaller", sub_smaller); smaller!("mul_smaller", mul_smaller); smaller!("div_smaller", div_smaller);
        both!("reverse", |v| v.reverse()); both!("swap_halves", |v| v.swap_halves());
        both!("diff", |v| v.diff()); both!("diff_with_start", |v| v.diff_with_start()); both!("cum_sum", |v| v.cum_sum());
        both!("sin", |v| v.sin()); both!("cos", |v| v.cos()); both!("tan", |v| v.tan()); both!("asin", |v| v.asin()); both!("acos", |v| v.acos()); both!("atan", |v| v.atan());
        both!("sinh", |v| v.sinh()); both!("cosh", |v| v.cosh()); both!("tanh", |v| v.tanh()); both!("asinh", |v| v.asinh()); both!("acosh", |v| v.acosh()); both!("atanh", |v| v.atanh());
        both!("sqrt", |v| v.sqrt()); both!("square", |v| v.square()); both!("root", |v| v.root(o(3.0))); both!("powf", |v| v.powf(o(2.5))); both!("ln", |v| v.ln()); both!("exp", |v| v.exp()); both!("log", |v| v.log(o(10.0))); both!("expf", |v| v.expf(o(2.0)));
        inplace!(c, T, format!("map_inplace real n={}", n), rt, |v| v.map_inplace(o(2.0), &|x: T, i: usize, a: T| x * a + T::of(i as f64)));
        inplace!(c, T, format!("map_inplace complex n={}", n), ct, |v| v.map_inplace(o(2.0), &|x: Complex<T>, i: usize, a: T| x * a + T::of(i as f64)));
        // real
        inplace!(c, T, format!("abs n={}", n), rt, |v| v.abs()); inplace!(c, T, format!("wrap n={}", n), rt, |v| v.wrap(o(2.5))); inplace!(c, T, format!("unwrap n={}", n), rt, |v| v.unwrap(o(5.0)));
        inplace!(c, T, format!("ln_approx n={}", n), rpos, |v| v.ln_approx()); inplace!(c, T, format!("exp_approx n={}", n), rt, |v| v.exp_approx()); inplace!(c, T, format!("sin_approx n={}", n), rt, |v| v.sin_approx()); inplace!(c, T, format!("cos_approx n={}", n), rt, |v| v.cos_approx());
        inplace!(c, T, format!("log_approx n={}", n), rpos, |v| v.log_approx(o(3.0))); inplace!(c, T, format!("expf_approx n={}", n), rt, |v| v.expf_approx(o(3.0))); inplace!(c, T, format!("powf_approx n={}", n), rpos, |v| v.powf_approx(o(1.5)));
        into!(c, T, format!("to_complex n={}", n), rt, |v| v.to_complex()); into!(c, T, format!("to_complex_b n={}", n), rt, |v| fine(v.to_complex_b(&mut SingleBuffer::new())));
        // complex
        into!(c, T, format!("magnitude n={}", n), ct, |v| fine(v.magnitude())); into!(c, T, format!("magnitude_squared n={}", n), ct, |v| fine(v.magnitude_squared())); into!(c, T, format!("to_real n={}", n), ct, |v| fine(v.to_real())); into!(c, T, format!("to_imag n={}", n), ct, |v| fine(v.to_imag())); into!(c, T, format!("phase n={}", n), ct, |v| fine(v.phase()));
        into!(c, T, format!("magnitude_b n={}", n), ct, |v| fine(v.magnitude_b(&mut SingleBuffer::new()))); into!(c, T, format!("magnitude_squared_b n={}", n), ct, |v| fine(v.magnitude_squared_b(&mut SingleBuffer::new()))); into!(c, T, format!("to_real_b n={}", n), ct, |v| fine(v.to_real_b(&mut SingleBuffer::new()))); into!(c, T, format!("to_imag_b n={}", n), ct, |v| fine(v.to_imag_b(&mut SingleBuffer::new()))); into!(c, T, format!("phase_b n={}", n), ct, |v| fine(v.phase_b(&mut SingleBuffer::new())));
        inplace!(c, T, format!("multiply_complex_exponential n={}", n), ct, |v| v.multiply_complex_exponential(o(0.1), o(0.2))); inplace!(c, T, format!("conj n={}", n), ct, |v| v.conj());
        // getters and setters
        {
            // the matrix operations are only available for generic vectors
            let ct = move |i: usize| set!(mem(n, 1, i).to_gen_dsp_vec(true, DataDomain::Time));
            let half = n / 2;
            let dst = move |i: usize| set!(mem(half, 5, i).to_gen_dsp_vec(false, DataDomain::Time)); let dst2 = move |i: usize| set!(mem(half, 6, i).to_gen_dsp_vec(false, DataDomain::Time));
            macro_rules! get { ($f:ident) => { pair!(c, T, format!("{} n={}", stringify!($f), n), ct, dst, |v, d| v.$f(d)); } }
            get!(get_real); get!(get_imag); get!(get_magnitude); get!(get_magnitude_squared); get!(get_phase);
            macro_rules! two { ($f:ident) => {{
                macro_rules! one { ($form:expr, $nr:expr, $m:expr, $a:expr, $b:expr) => { c.case(format!("{} n={} {} {}", stringify!($f), n, T::NAME, $form), n > 0, || {
                    let m = $m; let (mut a, mut b) = ($a, $b); m.$f(&mut a, &mut b);
                    let mut wa: Vec<_> = (0..$nr).map(|i| dst(i)).collect(); let mut wb: Vec<_> = (0..$nr).map(|i| dst2(i)).collect();
                    for i in 0..$nr { ct(i).$f(&mut wa[i], &mut wb[i]); }
                    same_rows::<T, _>("first", a.rows(), &wa)?; same_rows::<T, _>("second", b.rows(), &wb)
                }); } }
                for nr in 0..6usize { one!(format!("{}rows", nr), nr, (0..nr).map(|i| ct(i)).collect::<Vec<_>>().to_mat(), (0..nr).map(|i| dst(i)).collect::<Vec<_>>().to_mat(), (0..nr).map(|i| dst2(i)).collect::<Vec<_>>().to_mat()); }
                one!("2xN", 2, [ct(0), ct(1)].to_mat(), [dst(0), dst(1)].to_mat(), [dst2(0), dst2(1)].to_mat());
                one!("3xN", 3, [ct(0), ct(1), ct(2)].to_mat(), [dst(0), dst(1), dst(2)].to_mat(), [dst2(0), dst2(1), dst2(2)].to_mat());
                one!("4xN", 4, [ct(0), ct(1), ct(2), ct(3)].to_mat(), [dst(0), dst(1), dst(2), dst(3)].to_mat(), [dst2(0), dst2(1), dst2(2), dst2(3)].to_mat());
            }} }
            two!(get_real_imag); two!(get_mag_phase);
            macro_rules! set2 { ($f:ident) => {{
                macro_rules! one { ($form:expr, $nr:expr, $m:expr, $a:expr, $b:expr, $bad:expr) => { c.case(format!("{} n={} bad={} {} {}", stringify!($f), n, $bad, T::NAME, $form), n > 0, || {
                    let mut m = $m; let (a, b) = ($a, $b); let r = m.$f(&a, &b).is_err();
                    let mut w: Vec<_> = (0..$nr).map(|i| ct(i)).collect(); let mut bad = false;
                    for i in 0..$nr { bad |= w[i].$f(&a.rows()[i], &b.rows()[i]).is_err(); }
                    eq("fails", r, bad)?; if bad { return Ok(()); }
                    head::<T, _, _>(&m)?; same_rows::<T, _>("result", m.rows(), &w)
                }); } }
                for bad in [false, true] {
                let d2 = |i: usize| if bad && i == 1 { set!(mem(half + 1, 6, i).to_gen_dsp_vec(false, DataDomain::Time)) } else { dst2(i) };
                for nr in 0..6usize { one!(format!("{}rows", nr), nr, (0..nr).map(|i| ct(i)).collect::<Vec<_>>().to_mat(), (0..nr).map(|i| dst(i)).collect::<Vec<_>>().to_mat(), (0..nr).map(|i| d2(i)).collect::<Vec<_>>().to_mat(), bad); }
                one!("2xN", 2, [ct(0), ct(1)].to_mat(), [dst(0), dst(1)].to_mat(), [d2(0), d2(1)].to_mat(), bad);
                one!("3xN", 3, [ct(0), ct(1), ct(2)].to_mat(), [dst(0), dst(1), dst(2)].to_mat(), [d2(0), d2(1), d2(2)].to_mat(), bad);
                one!("4xN", 4, [ct(0), ct(1), ct(2), ct(3)].to_mat(), [dst(0), dst(1), dst(2), dst(3)].to_mat(), [d2(0), d2(1), d2(2), d2(3)].to_mat(), bad);
                }
            }} }
            set2!(set_real_imag); set2!(set_mag_phase);
        }
        // values
        value!(c, T, format!("sum n={}", n), rt, |v| ok(v.sum()), |v| ok(SumOps::<T>::sum(&v))); value!(c, T, format!("sum_sq n={}", n), rt, |v| ok(v.sum_sq()), |v| ok(SumOps::<T>::sum_sq(&v)));
        value!(c, T, format!("statistics n={}", n), rt, |v| ok(v.statistics()), |v| ok(v.statistics())); value!(c, T, format!("statistics_split n={}", n), rt, |v| v.statistics_split(2), |v| v.statistics_split(2)); value!(c, T, format!("statistics_split-0 n={}", n), rt, |v| v.statistics_split(0), |v| v.statistics_split(0));
        value!(c, T, format!("dot_product-vector n={}", n), rt, |v| v.dot_product(&rt2(7)), |v| v.dot_product(&rt2(7))); value!(c, T, format!("dot_product-vector-mismatch n={}", n), rt, |v| v.dot_product(&rtbad(1)), |v| v.dot_product(&rtbad(1)));
        value!(c, T, format!("map_aggregate n={}", n + 2), move |i: usize| mem(n + 2, 1, i).to_real_time_vec(), |v| v.map_aggregate(3usize, &|x: T, i: usize, a: usize| (x.f() * 4.0 + 100.0) as usize * a + i, &|a: usize, b: usize| a + b), |v| v.map_aggregate(3usize, &|x: T, i: usize, a: usize| (x.f() * 4.0 + 100.0) as usize * a + i, &|a: usize, b: usize| a + b));
        for bad in [false, true] {
            let w2 = move |i: usize| if bad { rtbad(i) } else { rt2(i) };
            macro_rules! one { ($form:expr, $nr:expr, $m:expr, $m2:expr) => { c.case(format!("dot_product n={} bad={} {} {}", n, bad, T::NAME, $form), n > 0, || {
                let (m, m2) = ($m, $m2); let mut want = vec![]; let mut f = false;
                for i in 0..$nr { match rt(i).dot_product(&w2(i)) { Ok(x) => want.push(x.obs()), Err(_) => f = true } }
                match m.dot_product(&m2) { Ok(x) => { eq("fails", false, f)?; eq("values", x.each(), want) } Err(_) => eq("fails", true, f) }
            }); } }
            for nr in 0..6usize { one!(format!("{}rows", nr), nr, (0..nr).map(|i| rt(i)).collect::<Vec<_>>().to_mat(), (0..nr).map(|i| w2(i)).collect::<Vec<_>>().to_mat()); }
            one!("2xN", 2, [rt(0), rt(1)].to_mat(), [w2(0), w2(1)].to_mat()); one!("3xN", 3, [rt(0), rt(1), rt(2)].to_mat(), [w2(0), w2(1), w2(2)].to_mat()); one!("4xN", 4, [rt(0), rt(1), rt(2), rt(3)].to_mat(), [w2(0), w2(1), w2(2), w2(3)].to_mat());
        }
        // transforms
        let win = TriangularWindow; let b = || SingleBuffer::new();
        into!(c, T, format!("plain_fft real n={}", n), rt, |v| fine(v.plain_fft(&mut b()))); into!(c, T, format!("plain_fft complex n={}", n), ct, |v| fine(v.plain_fft(&mut b()))); both_into!("fft", |v| fine(v.fft(&mut b()))); both_into!("windowed_fft", |v| fine(v.windowed_fft(&mut b(), &win)));
        into!(c, T, format!("plain_sfft n={}", n), rt1, |v| v.plain_sfft(&mut b())); into!(c, T, format!("sfft n={}", n), rt1, |v| v.sfft(&mut b())); into!(c, T, format!("windowed_sfft n={}", n), rt1, |v| v.windowed_sfft(&mut b(), &win)); into!(c, T, format!("plain_sfft-even n={}", n), rt, |v| v.plain_sfft(&mut b()));
        into!(c, T, format!("plain_ifft n={}", n), cf, |v| fine(v.plain_ifft(&mut b()))); into!(c, T, format!("ifft n={}", n), cf, |v| fine(v.ifft(&mut b()))); into!(c, T, format!("windowed_ifft n={}", n), cf, |v| fine(v.windowed_ifft(&mut b(), &win)));
        let half = move |i: usize| set!({ let mut m = mem(n.max(2), 1, i); m[1] = if i == 3 { o(1.0) } else { o(0.0) }; m }.to_complex_freq_vec());
        into!(c, T, format!("plain_sifft n={}", n), half, |v| v.plain_sifft(&mut b())); into!(c, T, format!("sifft n={}", n), half, |v| v.sifft(&mut b())); into!(c, T, format!("windowed_sifft n={}", n), half, |v| v.windowed_sifft(&mut b(), &win));
        inplace!(c, T, format!("mirror n={}", n), cf, |v| v.mirror(&mut b())); inplace!(c, T, format!("fft_shift n={}", n), cf, |v| v.fft_shift()); inplace!(c, T, format!("ifft_shift n={}", n), cf, |v| v.ifft_shift());
        both!("apply_window", |v| v.apply_window(&win)); both!("unapply_window", |v| v.unapply_window(&HammingWindow::default()));
        into!(c, T, format!("prepare_argument n={}", n), ct, |v| fine(v.prepare_argument(&mut b()))); into!(c, T, format!("prepare_argument_padded n={}", n), ct, |v| fine(v.prepare_argument_padded(&mut b())));
        let gt = move |i: usize| set!(mem(n, 1, i).to_gen_dsp_vec(true, DataDomain::Time)); let gt2 = move |i: usize| set!(mem(n, 2, i).to_gen_dsp_vec(true, DataDomain::Time));
        if n > 0 { pair!(c, T, format!("correlate n={}", n), gt, move |i: usize| gt2(i).prepare_argument_padded(&mut SingleBuffer::new()), |v, w| v.correlate(&mut b(), w)); }
        // resampling
        let tri = Fun { sym: true, declare: true };
        both!("interpolatef", |v| v.interpolatef(&mut b(), &RaisedCosineFunction::new(o(0.35)) as &dyn RealImpulseResponse<T>, o(2.0), o(0.1), 3)); both!("interpolatei", |v| v.interpolatei(&mut b(), &tri as &dyn RealFrequencyResponse<T>, 3)); both!("interpolatei-asymmetric", |v| v.interpolatei(&mut b(), &Fun { sym: false, declare: false } as &dyn RealFrequencyResponse<T>, 3));
        if n > 0 { both!("interpolate", |v| v.interpolate(&mut b(), Some(&tri as &dyn RealFrequencyResponse<T>), 2 * n, o(0.1))); both!("interpolate-none", |v| v.interpolate(&mut b(), None, 2 * n, o(0.1))); both!("interpft", |v| v.interpft(&mut b(), n + 2)); both!("interpolate-asymmetric", |v| v.interpolate(&mut b(), Some(&Fun { sym: false, declare: false } as &dyn RealFrequencyResponse<T>), 2 * n, o(0.1))); }
        both!("decimatei", |v| v.decimatei(2, 1)); inplace!(c, T, format!("interpolate_hermite n={}", n), rt, |v| v.interpolate_hermite(&mut b(), o(1.5), o(0.2))); inplace!(c, T, format!("interpolate_lin n={}", n), rt, |v| v.interpolate_lin(&mut b(), o(1.5), o(0.2)));
        // convolution
        if n > 0 {
            both!("convolve-function", |v| v.convolve(&mut b(), &RaisedCosineFunction::new(o(0.35)) as &dyn RealImpulseResponse<T>, o(0.5), 4));
            inplace!(c, T, format!("convolve-complex-function n={}", n), ct, |v| v.convolve(&mut b(), &Fun { sym: false, declare: false } as &dyn ComplexImpulseResponse<T>, o(0.5), 4));
            inplace!(c, T, format!("convolve_signal real n={}", n), rt, |v| v.convolve_signal(&mut b(), &rts(5))); inplace!(c, T, format!("convolve_signal complex n={}", n), ct, |v| v.convolve_signal(&mut b(), &cts(5)));
            inplace!(c, T, format!("convolve_signal-longer n={}", n), rt, |v| v.convolve_signal(&mut b(), &rtbad(1)));
        }
        inplace!(c, T, format!("multiply_frequency_response real-function n={}", n), cf, |v| v.multiply_frequency_response(&tri as &dyn RealFrequencyResponse<T>, o(1.5))); inplace!(c, T, format!("multiply_frequency_response complex-function n={}", n), cf, |v| v.multiply_frequency_response(&tri as &dyn ComplexFrequencyResponse<T>, o(1.5)));
        // lengths, spacing
        both!("resize", |v| v.resize(n + 2)); both!("resize-shrink", |v| v.resize(n / 2)); both!("resize-odd", |v| v.resize(n + 1)); both!("set_delta", |v| v.set_delta(o(3.5)));
        // a matrix of impulse responses
        for nr in 1..5usize { for complex in [false, true] { for k in [1usize, 3] { for ni in [nr, nr - 1, nr + 1] { c.case(format!("convolve_mat n={} rows={} responses={} complex={} k={} {}", n, nr, ni, complex, k, T::NAME), n > 0, || {
            if ni == 0 || n == 0 { return Ok(()); }
            let st = if complex { 2 } else { 1 };
            if k * st > n { return Ok(()); }
            let resp: Vec<Vec<Vec<T>>> = (0..ni).map(|a| (0..nr).map(|b| mem(k * st, 50 + a, b)).collect()).collect();
            macro_rules! go { ($conv:ident, $mk:expr) => {{
                let rows: Vec<_> = (0..nr).map(|i| $mk(i)).collect();
                let rv: Vec<Vec<_>> = resp.iter().map(|r| r.iter().map(|x| set!(x.clone().$conv())).collect()).collect();
                // the sum of the rows, each convolved with its own response
                let want: Vec<Vec<f64>> = (0..nr.min(ni)).map(|a| { let mut s = vec![0.0; n]; for b in 0..nr { let mut v = rows[b].clone(); v.convolve_signal(&mut SingleBuffer::new(), &rv[a][b]).unwrap(); for (x, y) in s.iter_mut().zip(f64s(v.data(..))) { *x += y; } } s }).collect();
                let refs: Vec<Vec<_>> = rv.iter().map(|r| r.iter().collect()).collect(); let refs: Vec<_> = refs.iter().collect();
                let mut m = rows.to_mat();
                let r = m.convolve_signal(&mut SingleBuffer::new(), &refs);
                if ni != nr { return eq("fails", r.is_err(), true); }
                eq("result", r, Ok(()))?; head::<T, _, _>(&m)?;
                for a in 0..nr { cmp(&format!("row {}", a), &f64s(m.rows()[a].data(..)), &want[a], T::EPS * 500.0)?; }
                Ok(())
            }} }
            if complex { go!(to_complex_time_vec, ct) } else { go!(to_real_time_vec, rt) }
        }); }}}}
        macro_rules! fixed { ($nr:expr, $($i:expr),*) => {{ c.case(format!("convolve_mat-{}x{} n={} {}", $nr, $nr, n, T::NAME), n > 0, || {
            if n < 2 { return Ok(()); }
            let rv: Vec<Vec<_>> = (0..$nr).map(|a| (0..$nr).map(|b| set!(mem(2, 70 + a, b).to_real_time_vec())).collect()).collect();
            let mut m = [$(rt($i)),*].to_mat();
            fn row<'a, V, const K: usize>(r: &'a [V]) -> [&'a V; K] { core::array::from_fn(|i| &r[i]) }
            let resp: [[&_; $nr]; $nr] = core::array::from_fn(|a| row::<_, $nr>(&rv[a]));
            eq("result", m.convolve_signal(&mut SingleBuffer::new(), &resp), Ok(()))?; head::<T, _, _>(&m)?;
            for a in 0..$nr { let mut s = vec![0.0; n]; for b in 0..$nr { let mut v = rt(b); v.convolve_signal(&mut SingleBuffer::new(), &rv[a][b]).unwrap(); for (x, y) in s.iter_mut().zip(f64s(v.data(..))) { *x += y; } } cmp(&format!("row {}", a), &f64s(m.rows()[a].data(..)), &s, T::EPS * 500.0)?; }
            Ok(())
        }); }} }
        fixed!(2, 0, 1); fixed!(3, 0, 1, 2); fixed!(4, 0, 1, 2, 3);
    }
    // constructors
    for n in 0..7usize { for nr in 0..5usize { for kind in 0..5usize { for cx in [false, true] { for dom in [DataDomain::Time, DataDomain::Frequency] {
        if kind < 4 && (cx || dom == DataDomain::Frequency) { continue; }
        c.case(format!("construct n={} rows={} kind={} complex={} domain={:?} {}", n, nr, kind, cx, dom, T::NAME), nr > 0 && n > 0, || {
            let rows: Vec<Vec<T>> = (0..nr).map(|i| mem(n, 9, i)).collect();
            macro_rules! go { ($m:expr, $v:expr) => {{ let m = $m; let want: Vec<_> = rows.iter().map(|x| $v(x.clone())).collect(); head::<T, _, _>(&m)?; same_rows::<T, _>("constructed", m.rows(), &want)?; let len = m.row_len(); let (r, l) = m.get(); eq("length", l, len)?; same_rows::<T, _>("rows", &r[..], &want)?; }} }
            macro_rules! all { ($f:ident ( $($a:expr),* ), $g:ident) => {{
                go!(rows.clone().$f($($a),*), |x: Vec<T>| x.$g($($a),*));
                if nr == 2 { go!([rows[0].clone(), rows[1].clone()].$f($($a),*), |x: Vec<T>| x.$g($($a),*)); }
                if nr == 3 { go!([rows[0].clone(), rows[1].clone(), rows[2].clone()].$f($($a),*), |x: Vec<T>| x.$g($($a),*)); }
                if nr == 4 { go!([rows[0].clone(), rows[1].clone(), rows[2].clone(), rows[3].clone()].$f($($a),*), |x: Vec<T>| x.$g($($a),*)); }
            }} }
            match kind { 0 => all!(to_real_time_mat(), to_real_time_vec), 1 => all!(to_real_freq_mat(), to_real_freq_vec), 2 => all!(to_complex_time_mat(), to_complex_time_vec), 3 => { go!(rows.clone().to_real_time_mat(), |x: Vec<T>| x.to_real_time_vec()) } _ => all!(to_gen_dsp_mat(cx, dom), to_gen_dsp_vec) }
            Ok(())
        });
    }}}}}
}
fn prec(c: &Ctx) {
    for n in [0usize, 1, 2, 5, 8, 33] {
        let rt = move |i: usize| (0..n).map(|k| ((k * 7 + i * 3) % 11) as f32 - 4.5).collect::<Vec<f32>>().to_real_time_vec();
        value!(c, f32, format!("sum_prec n={}", n), rt, |v| ok({ let r = v.sum_prec(); pin(&r); r }), |v| ok::<f64>(v.sum_prec()));
        value!(c, f32, format!("sum_sq_prec n={}", n), rt, |v| ok({ let r = v.sum_sq_prec(); pin(&r); r }), |v| ok::<f64>(v.sum_sq_prec()));
        let rd = move |i: usize| (0..n).map(|k| ((k * 7 + i * 3) % 11) as f64 - 4.5).collect::<Vec<f64>>().to_real_time_vec();
        value!(c, f64, format!("dot_product_prec-vector n={}", n), rd, |v| v.dot_product_prec(&rd(9)), |v| v.dot_product_prec(&rd(9)));
        value!(c, f64, format!("statistics_prec n={}", n), rd, |v| ok(v.statistics_prec()), |v| ok(v.statistics_prec()));
        value!(c, f64, format!("statistics_split_prec n={}", n), rd, |v| v.statistics_split_prec(2), |v| v.statistics_split_prec(2));
    }
}
/// rows of f64 values
trait Wide {}
impl Wide for Vec<f64> {}
impl<const N: usize> Wide for [f64; N] {}
fn pin<W: Wide>(_: &W) {}
pub fn run(ctx: &Ctx) { t::<f64>(ctx); t::<f32>(ctx); prec(ctx); }
