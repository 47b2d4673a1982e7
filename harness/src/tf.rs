//! Test functions: windows, impulse responses and frequency responses that are easy to evaluate by hand.
use crate::fw::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::Complex;
use basic_dsp_vector::window_functions::WindowFunction;
/// asymmetric window: (2n+3)/(len+1); symmetric window: 1 + (n+1)*(len-n)/4
#[derive(Clone, Copy)]
pub struct Win { pub sym: bool, pub declare: bool }
pub fn win_ref(sym: bool, n: usize, len: usize) -> f64 {
    if sym { 1.0 + ((n + 1) * (len - n)) as f64 / 4.0 } else { (2 * n + 3) as f64 / (len + 1) as f64 }
}
impl<T: Tt> WindowFunction<T> for Win {
    fn is_symmetric(&self) -> bool { self.declare }
    fn window(&self, n: usize, length: usize) -> T {
        if n >= length { panic!("window called at {} of {}", n, length) }
        T::of(win_ref(self.sym, n, length))
    }
}
#[derive(Clone, Copy)]
pub struct Fun { pub sym: bool, pub declare: bool }
pub fn fun_ref(sym: bool, x: f64) -> f64 { if sym { 1.0 / (1.0 + x * x) + 0.125 } else { 1.0 / (1.0 + (x + 0.25) * (x + 0.25)) } }
pub fn cfun_ref(sym: bool, x: f64) -> (f64, f64) { (fun_ref(sym, x), if sym { 0.5 * x.cos() } else { 0.5 * x.sin() + 0.25 }) }
macro_rules! imp { ($tr:ident, $ctr:ident) => {
    impl<T: Tt> $tr<T> for Fun { fn is_symmetric(&self) -> bool { self.declare } fn calc(&self, x: T) -> T { T::of(fun_ref(self.sym, x.f())) } }
    impl<T: Tt> $ctr<T> for Fun { fn is_symmetric(&self) -> bool { self.declare } fn calc(&self, x: T) -> Complex<T> { let (a, b) = cfun_ref(self.sym, x.f()); Complex::new(T::of(a), T::of(b)) } }
}}
imp!(RealImpulseResponse, ComplexImpulseResponse);
imp!(RealFrequencyResponse, ComplexFrequencyResponse);
