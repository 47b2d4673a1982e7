//! Tables of element-wise operations with reference functions.
use crate::fw::*;
use basic_dsp_vector::numbers::Complex;
use basic_dsp_vector::*;
pub type C = Complex<f64>;
pub fn c(re: f64, im: f64) -> C { Complex::new(re, im) }

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum In { Int, Nz, Pos, Small, Unit, Ge1 }
impl In {
    pub fn gen(self, r: &mut Rng) -> f64 {
        match self {
            In::Int => r.int(),
            In::Nz => r.nzint(),
            In::Pos => (r.below(64) as f64 + 1.0) / 8.0,
            In::Small => r.int() / 6.0,
            In::Unit => r.int() / 10.0,
            In::Ge1 => 1.0 + (r.below(40) as f64 + 1.0) / 8.0,
        }
    }
}
pub struct Op<V> { pub name: &'static str, pub run: fn(&mut V), pub r: fn(f64) -> f64, pub input: In, pub tol: f64 }
pub struct COp<V> { pub name: &'static str, pub run: fn(&mut V), pub r: fn(usize, C) -> C, pub input: In, pub tol: f64 }

pub fn real_table<T: Tt, V>() -> Vec<Op<V>>
where V: ScaleOps<T> + OffsetOps<T> + TrigOps + PowerOps<T> + RealOps + ModuloOps<T> {
    let t = T::EPS * 20.0;
    macro_rules! o { ($n:expr, $i:expr, $tol:expr, $run:expr, $r:expr) => { Op { name: $n, run: $run, r: $r, input: $i, tol: $tol } } }
    vec![
        o!("scale", In::Int, 0.0, |v| v.scale(T::of(3.0)), |x| x * 3.0),
        o!("offset", In::Int, 0.0, |v| v.offset(T::of(5.0)), |x| x + 5.0),
        o!("abs", In::Int, 0.0, |v| v.abs(), |x| x.abs()),
        o!("sqrt", In::Pos, t, |v| v.sqrt(), |x| x.sqrt()),
        o!("square", In::Int, 0.0, |v| v.square(), |x| x * x),
        o!("root", In::Pos, t, |v| v.root(T::of(3.0)), |x| x.powf(1.0 / 3.0)),
        o!("powf", In::Pos, t * 10.0, |v| v.powf(T::of(2.5)), |x| x.powf(2.5)),
        o!("ln", In::Pos, t, |v| v.ln(), |x| x.ln()),
        o!("exp", In::Small, t, |v| v.exp(), |x| x.exp()),
        o!("log", In::Pos, t, |v| v.log(T::of(10.0)), |x| x.log(10.0)),
        o!("expf", In::Small, t, |v| v.expf(T::of(3.0)), |x| 3f64.powf(x)),
        o!("sin", In::Small, t, |v| v.sin(), |x| x.sin()),
        o!("cos", In::Small, t, |v| v.cos(), |x| x.cos()),
        o!("tan", In::Small, t, |v| v.tan(), |x| x.tan()),
        o!("asin", In::Unit, t, |v| v.asin(), |x| x.asin()),
        o!("acos", In::Unit, t, |v| v.acos(), |x| x.acos()),
        o!("atan", In::Small, t, |v| v.atan(), |x| x.atan()),
        o!("sinh", In::Small, t, |v| v.sinh(), |x| x.sinh()),
        o!("cosh", In::Small, t, |v| v.cosh(), |x| x.cosh()),
        o!("tanh", In::Small, t, |v| v.tanh(), |x| x.tanh()),
        o!("asinh", In::Small, t, |v| v.asinh(), |x| x.asinh()),
        o!("acosh", In::Ge1, t, |v| v.acosh(), |x| x.acosh()),
        o!("atanh", In::Unit, t, |v| v.atanh(), |x| x.atanh()),
        o!("wrap", In::Int, 0.0, |v| v.wrap(T::of(3.0)), |x| x % 3.0),
    ]
}
pub fn complex_table<T: Tt, V>() -> Vec<COp<V>>
where V: ScaleOps<T> + ScaleOps<Complex<T>> + OffsetOps<T> + OffsetOps<Complex<T>> + TrigOps + PowerOps<T> + ComplexOps<T> {
    let t = T::EPS * 100.0;
    fn cc<T: Tt>(re: f64, im: f64) -> Complex<T> { Complex::new(T::of(re), T::of(im)) }
    macro_rules! o { ($n:expr, $i:expr, $tol:expr, $run:expr, $r:expr) => { COp { name: $n, run: $run, r: $r, input: $i, tol: $tol } } }
    vec![
        o!("scale_real", In::Int, 0.0, |v| v.scale(T::of(3.0)), |_, x| x * 3.0),
        o!("scale_complex", In::Int, 0.0, |v| v.scale(cc::<T>(3.0, -2.0)), |_, x| x * c(3.0, -2.0)),
        o!("offset_real", In::Int, 0.0, |v| v.offset(T::of(5.0)), |_, x| x + 5.0),
        o!("offset_complex", In::Int, 0.0, |v| v.offset(cc::<T>(5.0, -7.0)), |_, x| x + c(5.0, -7.0)),
        o!("conj", In::Int, 0.0, |v| v.conj(), |_, x| x.conj()),
        o!("mul_cexp", In::Int, t * 20.0, |v| v.multiply_complex_exponential(T::of(0.125), T::of(0.5)), |i, x| x * C::from_polar(1.0, 0.125 * i as f64 + 0.5)),
        o!("sqrt", In::Pos, t, |v| v.sqrt(), |_, x| x.sqrt()),
        o!("square", In::Int, t, |v| v.square(), |_, x| x * x),
        o!("root", In::Pos, t, |v| v.root(T::of(3.0)), |_, x| x.powf(1.0 / 3.0)),
        o!("powf", In::Pos, t * 10.0, |v| v.powf(T::of(2.5)), |_, x| x.powf(2.5)),
        o!("ln", In::Pos, t, |v| v.ln(), |_, x| x.ln()),
        o!("exp", In::Small, t, |v| v.exp(), |_, x| x.exp()),
        o!("log", In::Pos, t, |v| v.log(T::of(10.0)), |_, x| x.log(10.0)),
        o!("expf", In::Small, t, |v| v.expf(T::of(3.0)), |_, x| x.expf(3.0)),
        o!("sin", In::Small, t, |v| v.sin(), |_, x| x.sin()),
        o!("cos", In::Small, t, |v| v.cos(), |_, x| x.cos()),
        o!("tan", In::Small, t, |v| v.tan(), |_, x| x.tan()),
        o!("asin", In::Pos, t, |v| v.asin(), |_, x| x.asin()),
        o!("acos", In::Pos, t, |v| v.acos(), |_, x| x.acos()),
        o!("atan", In::Pos, t, |v| v.atan(), |_, x| x.atan()),
        o!("sinh", In::Small, t, |v| v.sinh(), |_, x| x.sinh()),
        o!("cosh", In::Small, t, |v| v.cosh(), |_, x| x.cosh()),
        o!("tanh", In::Unit, t, |v| v.tanh(), |_, x| x.tanh()),
        o!("asinh", In::Pos, t, |v| v.asinh(), |_, x| x.asinh()),
        o!("acosh", In::Ge1, t, |v| v.acosh(), |_, x| x.acosh()),
        o!("atanh", In::Pos, t, |v| v.atanh(), |_, x| x.atanh()),
    ]
}
pub struct Bin<V> { pub name: &'static str, pub run: fn(&mut V, &V) -> VoidResult, pub r: fn(f64, f64) -> f64, pub c: fn(C, C) -> C, pub smaller: bool, pub tol: bool }
pub fn bin_table<T: Tt, V, N: NumberSpace, D: Domain>() -> Vec<Bin<V>>
where V: ElementaryOps<V, T, N, D> + ElementaryWrapAroundOps<V, T, N, D> + GetMetaData<T, N, D> {
    macro_rules! o { ($n:expr, $m:ident, $s:expr, $t:expr, $op:tt) => { Bin { name: $n, run: |a, b| a.$m(b), r: |x, y| x $op y, c: |x, y| x $op y, smaller: $s, tol: $t } } }
    vec![o!("add", add, false, false, +), o!("sub", sub, false, false, -), o!("mul", mul, false, false, *), o!("div", div, false, true, /),
         o!("add_smaller", add_smaller, true, false, +), o!("sub_smaller", sub_smaller, true, false, -), o!("mul_smaller", mul_smaller, true, false, *), o!("div_smaller", div_smaller, true, true, /)]
}
