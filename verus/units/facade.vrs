//@ unit-props C21
//@ unit-title exported functions of the C interface: each is the operation of the vector it is named after
use vstd::prelude::*;
verus! {
//@ extract file=vector/src/vector_types/checks_and_results.rs item=enum:ErrorReason
//@ prefix
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub
//@ end
//@ extract file=vector/src/vector_types/mod.rs item=enum:DataDomain
//@ prefix
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub
//@ end
//@ extract file=vector/src/vector_types/general/data_reorganization.rs item=enum:PaddingOption
//@ prefix
#[derive(Copy, Clone, PartialEq, Eq)]
pub
//@ end
pub type VoidResult = Result<(), ErrorReason>;
pub type ScalarResult<T> = Result<T, ErrorReason>;
pub type TransRes<T> = Result<T, (ErrorReason, T)>;
pub trait RealNumber: Copy {}
impl RealNumber for f32 {}
impl RealNumber for f64 {}
#[derive(Copy, Clone)]
pub struct Complex<T> { pub re: T, pub im: T }
pub type Complex32 = Complex<f32>;
pub type Complex64 = Complex<f64>;
/// ASSUMED contract on a dependency (num_complex)
pub uninterp spec fn quotient<T>(a: Complex<T>, b: Complex<T>) -> Complex<T>;
impl<T> Complex<T> { #[verifier::external_body] fn new(re: T, im: T) -> (r: Self) ensures r == (Complex { re: re, im: im }) { unimplemented!() } }
#[verifier::external_body]
fn quotient_of<T>(a: Complex<T>, b: Complex<T>) -> (r: Complex<T>) ensures r == quotient(a, b) { unimplemented!() }
/// ASSUMED: the settings, statistics and functions are opaque here
#[verifier::external_body] #[derive(Copy, Clone)] pub struct MultiCoreSettings {}
impl MultiCoreSettings {
    uninterp spec fn of_cores(n: usize) -> Self;
    uninterp spec fn of_thresholds(n: usize, a: usize, b: usize, c: usize, d: usize) -> Self;
    #[verifier::external_body]
    fn new(core_limit: usize) -> (r: Self) ensures r == Self::of_cores(core_limit) { unimplemented!() }
    #[verifier::external_body]
    fn with_thresholds(n: usize, a: usize, b: usize, c: usize, d: usize) -> (r: Self) ensures r == Self::of_thresholds(n, a, b, c, d) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Statistics<T> { t: T }
/// a boxed function object, and what the translation of a code yields
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Boxed<T> { t: T }
impl<T> Boxed<T> { #[verifier::external_body] fn as_ref(&self) -> (r: &Boxed<T>) ensures *r == *self { unimplemented!() } }
pub uninterp spec fn window_of<T>(code: i32) -> Boxed<T>;
pub uninterp spec fn impulse_of<T>(code: i32, rolloff: T) -> Boxed<T>;
pub uninterp spec fn response_of<T>(code: i32, rolloff: T) -> Boxed<T>;
#[verifier::external_body]
fn translate_to_window_function<T>(value: i32) -> (r: Boxed<T>) ensures r == window_of::<T>(value) { unimplemented!() }
#[verifier::external_body]
fn translate_to_real_convolution_function<T>(value: i32, rolloff: T) -> (r: Boxed<T>) ensures r == impulse_of(value, rolloff) { unimplemented!() }
#[verifier::external_body]
fn translate_to_real_frequency_response<T>(value: i32, rolloff: T) -> (r: Boxed<T>) ensures r == response_of(value, rolloff) { unimplemented!() }
/// functions of the caller; ASSUMED of transmute: a pointer becomes an address
#[derive(Copy, Clone)] pub struct DataPtr { pub address: usize }
fn transmuted(p: DataPtr) -> (r: usize) ensures r == p.address { p.address }
pub struct ForeignWindowFunction<F> { pub window_function: F, pub window_data: usize, pub is_symmetric: bool }
pub struct ForeignRealConvolutionFunction<F> { pub conv_function: F, pub conv_data: usize, pub is_symmetric: bool }
pub struct ForeignComplexConvolutionFunction<F> { pub conv_function: F, pub conv_data: usize, pub is_symmetric: bool }
// ---------------- the vector: what its operations do is the matter of the other properties; here they are arbitrary relations ----------------

#[allow(non_camel_case_types)]
pub enum Op { diff, diff_with_start, cum_sum, abs, sqrt, square, ln, exp, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, ln_approx, exp_approx, sin_approx, cos_approx, swap_halves, conj, fft_shift, ifft_shift, reverse, mirror, offset, scale, root, powf, log, expf, log_approx, expf_approx, powf_approx, wrap, unwrap, apply_window, unapply_window, zero_interleave_b, interpft, multiply_complex_exponential, decimatei, multiply_frequency_response, interpolate_lin, interpolate_hermite, convolve, interpolatef, add, sub, mul, div, add_smaller, sub_smaller, mul_smaller, div_smaller, correlate, convolve_signal, set_real_imag, set_mag_phase, zero_pad_b, interpolatei, interpolate, to_complex_b, magnitude_b, magnitude_squared_b, to_real_b, to_imag_b, phase_b, plain_fft, plain_ifft, fft, ifft, prepare_argument, prepare_argument_padded, windowed_fft, windowed_ifft, plain_sfft, sfft, plain_sifft, sifft, windowed_sfft, windowed_sifft, get_magnitude, get_magnitude_squared, get_real, get_imag, get_phase, get_real_imag, get_mag_phase, sum, sum_sq, sum_prec, sum_sq_prec, statistics, statistics_prec, dot_product, dot_product_prec, resize, overwrite }
/// the operation turned `o` into `n`
pub uninterp spec fn did<V, A>(op: Op, o: V, a: A, n: V) -> bool;
/// the operation refused with this reason and left `n`
pub uninterp spec fn failed<V, A>(op: Op, o: V, a: A, e: ErrorReason, n: V) -> bool;
/// the operation computed `r` from `o`
pub uninterp spec fn gave<V, A, R>(op: Op, o: V, a: A, r: R) -> bool;
pub open spec fn tried<V, A>(op: Op, o: V, a: A, q: VoidResult, n: V) -> bool { match q { Ok(u) => did(op, o, a, n), Err(e) => failed(op, o, a, e, n) } }
pub open spec fn ttried<V, A>(op: Op, o: V, a: A, q: TransRes<V>) -> bool { match q { Ok(n) => did(op, o, a, n), Err(p) => failed(op, o, a, p.0, p.1) } }
#[verifier::external_body] #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(T)]
pub struct GenDspVec<S, T> { s: S, t: T }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct SingleBuffer<T> { t: T }
impl<T> SingleBuffer<T> { #[verifier::external_body] fn new() -> Self { unimplemented!() } }
impl<T: RealNumber> GenDspVec<Vec<T>, T> {
    pub uninterp spec fn erroneous(&self) -> bool;
    pub uninterp spec fn el(&self) -> Seq<T>;
    pub uninterp spec fn cplx(&self) -> bool;
    pub uninterp spec fn freq(&self) -> bool;
    pub uninterp spec fn dlt(&self) -> T;
    pub uninterp spec fn pts(&self) -> int;
    pub uninterp spec fn alloc(&self) -> int;
    pub uninterp spec fn cores(&self) -> MultiCoreSettings;
    #[verifier::external_body]
    fn is_erroneous(&self) -> (r: bool) ensures r == self.erroneous() { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.el().len() { unimplemented!() }
    #[verifier::external_body]
    fn points(&self) -> (r: usize) ensures r == self.pts() { unimplemented!() }
    #[verifier::external_body]
    fn alloc_len(&self) -> (r: usize) ensures r == self.alloc() { unimplemented!() }
    #[verifier::external_body]
    fn delta(&self) -> (r: T) ensures r == self.dlt() { unimplemented!() }
    #[verifier::external_body]
    fn is_complex(&self) -> (r: bool) ensures r == self.cplx() { unimplemented!() }
    #[verifier::external_body]
    fn domain(&self) -> (r: DataDomain) ensures r == if self.freq() { DataDomain::Frequency } else { DataDomain::Time } { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn data(&self, i: usize) -> (r: &T) requires i < self.el().len() ensures *r == self.el()[i as int] { unimplemented!() }
    #[verifier::external_body]
    fn data_set(&mut self, i: usize, x: T) requires i < old(self).el().len() ensures final(self).el() == old(self).el().update(i as int, x), final(self).same_kind(old(self)) { unimplemented!() }
    /// number space, domain, spacing and settings
    pub open spec fn same_kind(&self, o: &Self) -> bool { self.cplx() == o.cplx() && self.freq() == o.freq() && self.dlt() == o.dlt() && self.cores() == o.cores() }
    #[verifier::external_body]
    fn resize(&mut self, len: usize) -> (q: VoidResult) ensures tried(Op::resize, *old(self), len, q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn set_delta(&mut self, d: T) ensures final(self).el() == old(self).el(), final(self).cplx() == old(self).cplx(), final(self).freq() == old(self).freq(), final(self).dlt() == d, final(self).cores() == old(self).cores() { unimplemented!() }
    #[verifier::external_body]
    fn set_multicore_settings(&mut self, m: MultiCoreSettings) ensures final(self).el() == old(self).el(), final(self).cplx() == old(self).cplx(), final(self).freq() == old(self).freq(), final(self).dlt() == old(self).dlt(), final(self).cores() == m { unimplemented!() }
    /// the constructor: `length` times the value (an odd number of floats is no complex vector)
    #[verifier::external_body]
    fn filled(value: T, length: usize, complex: bool, d: DataDomain) -> (r: Self) ensures r.el() == filled_with(value, length, complex), r.cplx() == complex, r.freq() == (d == DataDomain::Frequency) { unimplemented!() }
    #[verifier::external_body]
    fn diff(&mut self) ensures did(Op::diff, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn diff_with_start(&mut self) ensures did(Op::diff_with_start, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn cum_sum(&mut self) ensures did(Op::cum_sum, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn abs(&mut self) ensures did(Op::abs, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn sqrt(&mut self) ensures did(Op::sqrt, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn square(&mut self) ensures did(Op::square, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn ln(&mut self) ensures did(Op::ln, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn exp(&mut self) ensures did(Op::exp, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn sin(&mut self) ensures did(Op::sin, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn cos(&mut self) ensures did(Op::cos, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn tan(&mut self) ensures did(Op::tan, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn asin(&mut self) ensures did(Op::asin, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn acos(&mut self) ensures did(Op::acos, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn atan(&mut self) ensures did(Op::atan, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn sinh(&mut self) ensures did(Op::sinh, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn cosh(&mut self) ensures did(Op::cosh, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn tanh(&mut self) ensures did(Op::tanh, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn asinh(&mut self) ensures did(Op::asinh, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn acosh(&mut self) ensures did(Op::acosh, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn atanh(&mut self) ensures did(Op::atanh, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn ln_approx(&mut self) ensures did(Op::ln_approx, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn exp_approx(&mut self) ensures did(Op::exp_approx, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn sin_approx(&mut self) ensures did(Op::sin_approx, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn cos_approx(&mut self) ensures did(Op::cos_approx, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn swap_halves(&mut self) ensures did(Op::swap_halves, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn conj(&mut self) ensures did(Op::conj, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn fft_shift(&mut self) ensures did(Op::fft_shift, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn ifft_shift(&mut self) ensures did(Op::ifft_shift, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn reverse(&mut self) ensures did(Op::reverse, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn mirror(&mut self, buffer: &mut SingleBuffer<T>) ensures did(Op::mirror, *old(self), (), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn offset<A>(&mut self, a: A) ensures did(Op::offset, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn scale<A>(&mut self, a: A) ensures did(Op::scale, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn root<A>(&mut self, a: A) ensures did(Op::root, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn powf<A>(&mut self, a: A) ensures did(Op::powf, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn log<A>(&mut self, a: A) ensures did(Op::log, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn expf<A>(&mut self, a: A) ensures did(Op::expf, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn log_approx<A>(&mut self, a: A) ensures did(Op::log_approx, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn expf_approx<A>(&mut self, a: A) ensures did(Op::expf_approx, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn powf_approx<A>(&mut self, a: A) ensures did(Op::powf_approx, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn wrap<A>(&mut self, a: A) ensures did(Op::wrap, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn unwrap<A>(&mut self, a: A) ensures did(Op::unwrap, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn apply_window<A>(&mut self, a: A) ensures did(Op::apply_window, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn unapply_window<A>(&mut self, a: A) ensures did(Op::unapply_window, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn zero_interleave_b<A>(&mut self, buffer: &mut SingleBuffer<T>, a: A) ensures did(Op::zero_interleave_b, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn interpft<A>(&mut self, buffer: &mut SingleBuffer<T>, a: A) ensures did(Op::interpft, *old(self), a, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn multiply_complex_exponential<A, B>(&mut self, a: A, b: B) ensures did(Op::multiply_complex_exponential, *old(self), (a, b), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn decimatei<A, B>(&mut self, a: A, b: B) ensures did(Op::decimatei, *old(self), (a, b), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn multiply_frequency_response<A, B>(&mut self, a: A, b: B) ensures did(Op::multiply_frequency_response, *old(self), (a, b), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn interpolate_lin<A, B>(&mut self, buffer: &mut SingleBuffer<T>, a: A, b: B) ensures did(Op::interpolate_lin, *old(self), (a, b), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn interpolate_hermite<A, B>(&mut self, buffer: &mut SingleBuffer<T>, a: A, b: B) ensures did(Op::interpolate_hermite, *old(self), (a, b), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn convolve<A, B, C>(&mut self, buffer: &mut SingleBuffer<T>, a: A, b: B, c: C) ensures did(Op::convolve, *old(self), (a, b, c), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn interpolatef<A, B, C, D>(&mut self, buffer: &mut SingleBuffer<T>, a: A, b: B, c: C, d: D) ensures did(Op::interpolatef, *old(self), (a, b, c, d), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn add(&mut self, o: &Self) -> (q: VoidResult) ensures tried(Op::add, *old(self), *o, q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn sub(&mut self, o: &Self) -> (q: VoidResult) ensures tried(Op::sub, *old(self), *o, q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn mul(&mut self, o: &Self) -> (q: VoidResult) ensures tried(Op::mul, *old(self), *o, q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn div(&mut self, o: &Self) -> (q: VoidResult) ensures tried(Op::div, *old(self), *o, q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn add_smaller(&mut self, o: &Self) -> (q: VoidResult) ensures tried(Op::add_smaller, *old(self), *o, q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn sub_smaller(&mut self, o: &Self) -> (q: VoidResult) ensures tried(Op::sub_smaller, *old(self), *o, q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn mul_smaller(&mut self, o: &Self) -> (q: VoidResult) ensures tried(Op::mul_smaller, *old(self), *o, q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn div_smaller(&mut self, o: &Self) -> (q: VoidResult) ensures tried(Op::div_smaller, *old(self), *o, q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn correlate(&mut self, buffer: &mut SingleBuffer<T>, o: &Self) -> (q: VoidResult) ensures tried(Op::correlate, *old(self), *o, q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn convolve_signal(&mut self, buffer: &mut SingleBuffer<T>, o: &Self) -> (q: VoidResult) ensures tried(Op::convolve_signal, *old(self), *o, q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn set_real_imag(&mut self, a: &Self, b: &Self) -> (q: VoidResult) ensures tried(Op::set_real_imag, *old(self), (*a, *b), q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn set_mag_phase(&mut self, a: &Self, b: &Self) -> (q: VoidResult) ensures tried(Op::set_mag_phase, *old(self), (*a, *b), q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn zero_pad_b<A, B>(&mut self, buffer: &mut SingleBuffer<T>, a: A, b: B) -> (q: VoidResult) ensures tried(Op::zero_pad_b, *old(self), (a, b), q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn interpolatei<A, B>(&mut self, buffer: &mut SingleBuffer<T>, a: A, b: B) -> (q: VoidResult) ensures tried(Op::interpolatei, *old(self), (a, b), q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn interpolate<A, B, C>(&mut self, buffer: &mut SingleBuffer<T>, a: A, b: B, c: C) -> (q: VoidResult) ensures tried(Op::interpolate, *old(self), (a, b, c), q, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn to_complex_b(self, buffer: &mut SingleBuffer<T>) -> (r: Self) ensures did(Op::to_complex_b, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn magnitude_b(self, buffer: &mut SingleBuffer<T>) -> (r: Self) ensures did(Op::magnitude_b, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn magnitude_squared_b(self, buffer: &mut SingleBuffer<T>) -> (r: Self) ensures did(Op::magnitude_squared_b, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn to_real_b(self, buffer: &mut SingleBuffer<T>) -> (r: Self) ensures did(Op::to_real_b, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn to_imag_b(self, buffer: &mut SingleBuffer<T>) -> (r: Self) ensures did(Op::to_imag_b, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn phase_b(self, buffer: &mut SingleBuffer<T>) -> (r: Self) ensures did(Op::phase_b, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn plain_fft(self, buffer: &mut SingleBuffer<T>) -> (r: Self) ensures did(Op::plain_fft, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn plain_ifft(self, buffer: &mut SingleBuffer<T>) -> (r: Self) ensures did(Op::plain_ifft, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn fft(self, buffer: &mut SingleBuffer<T>) -> (r: Self) ensures did(Op::fft, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn ifft(self, buffer: &mut SingleBuffer<T>) -> (r: Self) ensures did(Op::ifft, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn prepare_argument(self, buffer: &mut SingleBuffer<T>) -> (r: Self) ensures did(Op::prepare_argument, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn prepare_argument_padded(self, buffer: &mut SingleBuffer<T>) -> (r: Self) ensures did(Op::prepare_argument_padded, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn windowed_fft<A>(self, buffer: &mut SingleBuffer<T>, a: A) -> (r: Self) ensures did(Op::windowed_fft, self, a, r) { unimplemented!() }
    #[verifier::external_body]
    fn windowed_ifft<A>(self, buffer: &mut SingleBuffer<T>, a: A) -> (r: Self) ensures did(Op::windowed_ifft, self, a, r) { unimplemented!() }
    #[verifier::external_body]
    fn plain_sfft(self, buffer: &mut SingleBuffer<T>) -> (r: TransRes<Self>) ensures ttried(Op::plain_sfft, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn sfft(self, buffer: &mut SingleBuffer<T>) -> (r: TransRes<Self>) ensures ttried(Op::sfft, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn plain_sifft(self, buffer: &mut SingleBuffer<T>) -> (r: TransRes<Self>) ensures ttried(Op::plain_sifft, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn sifft(self, buffer: &mut SingleBuffer<T>) -> (r: TransRes<Self>) ensures ttried(Op::sifft, self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn windowed_sfft<A>(self, buffer: &mut SingleBuffer<T>, a: A) -> (r: TransRes<Self>) ensures ttried(Op::windowed_sfft, self, a, r) { unimplemented!() }
    #[verifier::external_body]
    fn windowed_sifft<A>(self, buffer: &mut SingleBuffer<T>, a: A) -> (r: TransRes<Self>) ensures ttried(Op::windowed_sifft, self, a, r) { unimplemented!() }
    #[verifier::external_body]
    fn get_magnitude(&self, a: &mut Self) ensures did(Op::get_magnitude, *old(a), *self, *final(a)) { unimplemented!() }
    #[verifier::external_body]
    fn get_magnitude_squared(&self, a: &mut Self) ensures did(Op::get_magnitude_squared, *old(a), *self, *final(a)) { unimplemented!() }
    #[verifier::external_body]
    fn get_real(&self, a: &mut Self) ensures did(Op::get_real, *old(a), *self, *final(a)) { unimplemented!() }
    #[verifier::external_body]
    fn get_imag(&self, a: &mut Self) ensures did(Op::get_imag, *old(a), *self, *final(a)) { unimplemented!() }
    #[verifier::external_body]
    fn get_phase(&self, a: &mut Self) ensures did(Op::get_phase, *old(a), *self, *final(a)) { unimplemented!() }
    #[verifier::external_body]
    fn get_real_imag(&self, a: &mut Self, b: &mut Self) ensures did(Op::get_real_imag, (*old(a), *old(b)), *self, (*final(a), *final(b))) { unimplemented!() }
    #[verifier::external_body]
    fn get_mag_phase(&self, a: &mut Self, b: &mut Self) ensures did(Op::get_mag_phase, (*old(a), *old(b)), *self, (*final(a), *final(b))) { unimplemented!() }
    #[verifier::external_body]
    fn sum<R>(&self) -> (r: R) ensures gave(Op::sum, *self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn sum_sq<R>(&self) -> (r: R) ensures gave(Op::sum_sq, *self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn sum_prec<R>(&self) -> (r: R) ensures gave(Op::sum_prec, *self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn sum_sq_prec<R>(&self) -> (r: R) ensures gave(Op::sum_sq_prec, *self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn statistics<R>(&self) -> (r: R) ensures gave(Op::statistics, *self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn statistics_prec<R>(&self) -> (r: R) ensures gave(Op::statistics_prec, *self, (), r) { unimplemented!() }
    #[verifier::external_body]
    fn dot_product<R>(&self, o: &Self) -> (r: ScalarResult<R>) ensures gave(Op::dot_product, *self, *o, r) { unimplemented!() }
    #[verifier::external_body]
    fn dot_product_prec<R>(&self, o: &Self) -> (r: ScalarResult<R>) ensures gave(Op::dot_product_prec, *self, *o, r) { unimplemented!() }
}
pub uninterp spec fn filled_with<T>(value: T, length: usize, complex: bool) -> Seq<T>;
pub open spec fn code(e: ErrorReason) -> int {
    match e {
        ErrorReason::InputMustHaveTheSameSize => 1, ErrorReason::InputMetaDataMustAgree => 2, ErrorReason::InputMustBeComplex => 3,
        ErrorReason::InputMustBeReal => 4, ErrorReason::InputMustBeInTimeDomain => 5, ErrorReason::InputMustBeInFrequencyDomain => 6,
        ErrorReason::InvalidArgumentLength => 7, ErrorReason::InputMustBeConjSymmetric => 8, ErrorReason::InputMustHaveAnOddLength => 9,
        ErrorReason::ArgumentFunctionMustBeSymmetric => 10, ErrorReason::InvalidNumberOfArgumentsForCombinedOp => 11,
        ErrorReason::InputMustNotBeEmpty => 12, ErrorReason::InputMustHaveAnEvenLength => 13, ErrorReason::TypeCanNotResize => 14,
    }
}
/// proven in the unit errors, as are the contracts of convert_vec, trans_vec, convert_scalar and get_error_marker
#[verifier::external_body]
fn translate_to_padding_option(value: i32) -> (r: PaddingOption) ensures r == padding_of(value) { unimplemented!() }
pub open spec fn padding_of(value: i32) -> PaddingOption { if value == 0 { PaddingOption::End } else if value == 1 { PaddingOption::Surround } else { PaddingOption::Center } }
//@ extract file=interop/src/lib.rs item=struct:InteropVec
//@ prefix
#[verifier::reject_recursive_types(T)]
pub
//@ end
//@ extract file=interop/src/lib.rs item=struct:VectorInteropResult
//@ prefix
pub
//@ end
//@ extract file=interop/src/lib.rs item=struct:ScalarInteropResult
//@ prefix
pub
//@ end
impl<T: RealNumber> InteropVec<T> {
    pub closed spec fn v(&self) -> GenDspVec<Vec<T>, T> { self.vec }
    /// the code which is reported if the operation itself succeeds
    pub closed spec fn marker(&self) -> int { if self.vec.erroneous() { -1 } else { 0 } }
    #[verifier::external_body]
    pub fn trans_vec<F>(self, op: F) -> (r: VectorInteropResult<InteropVec<T>>) where F: Fn(GenDspVec<Vec<T>, T>, &mut SingleBuffer<T>) -> TransRes<GenDspVec<Vec<T>, T>>
        requires forall|b: &mut SingleBuffer<T>| #[trigger] op.requires((self.v(), b)),
        ensures
            exists|b: &mut SingleBuffer<T>, q: TransRes<GenDspVec<Vec<T>, T>>| #[trigger] op.ensures((self.v(), b), q) && match q {
                Ok(v) => r.vector.v() == v && r.result_code == r.vector.marker(),
                Err((e, v)) => r.vector.v() == v && r.result_code == code(e),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn convert_vec<F>(self, op: F) -> (r: VectorInteropResult<InteropVec<T>>) where F: Fn(&mut GenDspVec<Vec<T>, T>, &mut SingleBuffer<T>) -> VoidResult
        requires forall|v: &mut GenDspVec<Vec<T>, T>, b: &mut SingleBuffer<T>| *v == self.v() ==> #[trigger] op.requires((v, b)),
        ensures
            exists|v: &mut GenDspVec<Vec<T>, T>, b: &mut SingleBuffer<T>, q: VoidResult| *v == self.v() && #[trigger] op.ensures((v, b), q) && r.vector.v() == *final(v)
                && r.result_code == match q { Ok(()) => r.vector.marker(), Err(e) => code(e) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn convert_scalar<F, TT>(&self, op: F, default: TT) -> (r: ScalarInteropResult<TT>) where F: Fn(&GenDspVec<Vec<T>, T>) -> ScalarResult<TT>
        requires op.requires((&self.v(),)),
        ensures exists|q: ScalarResult<TT>| #[trigger] op.ensures((&self.v(),), q) && match q {
            Ok(x) => r.result == x && r.result_code == self.marker(),
            Err(e) => r.result == default && r.result_code == code(e),
        },
    { unimplemented!() }
}
#[verifier::external_body]
fn get_error_marker<T: RealNumber>(vec: &InteropVec<T>) -> (r: i32) ensures r == vec.marker() { unimplemented!() }
/// the operation was applied and the code is the marker of the result
pub open spec fn done<T: RealNumber, A>(op: Op, o: InteropVec<T>, a: A, r: VectorInteropResult<InteropVec<T>>) -> bool {
    did(op, o.v(), a, r.vector.v()) && r.result_code == r.vector.marker()
}
pub open spec fn resized_or_refused<V>(o: V, len: usize, n: V) -> bool {
    did(Op::resize, o, len, n) || exists|e: ErrorReason| #[trigger] failed(Op::resize, o, len, e, n)
}
/// the same, or it was refused and the code names the reason
pub open spec fn done_or_refused<T: RealNumber, A>(op: Op, o: InteropVec<T>, a: A, r: VectorInteropResult<InteropVec<T>>) -> bool {
    ||| did(op, o.v(), a, r.vector.v()) && r.result_code == r.vector.marker()
    ||| exists|e: ErrorReason| #[trigger] failed(op, o.v(), a, e, r.vector.v()) && r.result_code == code(e)
}
pub open spec fn computed<T: RealNumber, A, R>(op: Op, o: InteropVec<T>, a: A, default: R, r: ScalarInteropResult<R>) -> bool {
    ||| gave(op, o.v(), a, Ok::<R, ErrorReason>(r.result)) && r.result_code == o.marker()
    ||| exists|e: ErrorReason| #[trigger] gave(op, o.v(), a, Err::<R, ErrorReason>(e)) && r.result == default && r.result_code == code(e)
}

//@ for b F = 32:f32 64:f64
pub type VecBuf@b@ = InteropVec<@F@>;
//@ extract file=interop/src/facade@b@.rs fn=diff@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::diff, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::diff, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=diff_with_start@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::diff_with_start, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::diff_with_start, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=cum_sum@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::cum_sum, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::cum_sum, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=abs@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::abs, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::abs, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=sqrt@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::sqrt, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::sqrt, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=square@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::square, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::square, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=ln@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::ln, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::ln, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=exp@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::exp, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::exp, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=sin@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::sin, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::sin, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=cos@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::cos, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::cos, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=tan@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::tan, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::tan, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=asin@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::asin, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::asin, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=acos@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::acos, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::acos, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=atan@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::atan, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::atan, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=sinh@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::sinh, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::sinh, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=cosh@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::cosh, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::cosh, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=tanh@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::tanh, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::tanh, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=asinh@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::asinh, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::asinh, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=acosh@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::acosh, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::acosh, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=atanh@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::atanh, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::atanh, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=ln_approx@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::ln_approx, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::ln_approx, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=exp_approx@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::exp_approx, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::exp_approx, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=sin_approx@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::sin_approx, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::sin_approx, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=cos_approx@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::cos_approx, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::cos_approx, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=swap_halves@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::swap_halves, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::swap_halves, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=conj@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::conj, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::conj, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=fft_shift@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::fft_shift, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::fft_shift, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=ifft_shift@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::ifft_shift, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::ifft_shift, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=reverse@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::reverse, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::reverse, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=mirror@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::mirror, *old(v), (), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::mirror, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=real_offset@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::offset, *old(v), value, *final(v)) { \2 }) }
//@ spec
        ensures done(Op::offset, *vector, value, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=real_scale@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::scale, *old(v), value, *final(v)) { \2 }) }
//@ spec
        ensures done(Op::scale, *vector, value, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=root@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::root, *old(v), value, *final(v)) { \2 }) }
//@ spec
        ensures done(Op::root, *vector, value, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=powf@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::powf, *old(v), value, *final(v)) { \2 }) }
//@ spec
        ensures done(Op::powf, *vector, value, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=log@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::log, *old(v), value, *final(v)) { \2 }) }
//@ spec
        ensures done(Op::log, *vector, value, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=expf@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::expf, *old(v), value, *final(v)) { \2 }) }
//@ spec
        ensures done(Op::expf, *vector, value, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=log_approx@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::log_approx, *old(v), value, *final(v)) { \2 }) }
//@ spec
        ensures done(Op::log_approx, *vector, value, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=expf_approx@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::expf_approx, *old(v), value, *final(v)) { \2 }) }
//@ spec
        ensures done(Op::expf_approx, *vector, value, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=powf_approx@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::powf_approx, *old(v), value, *final(v)) { \2 }) }
//@ spec
        ensures done(Op::powf_approx, *vector, value, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=wrap@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::wrap, *old(v), value, *final(v)) { \2 }) }
//@ spec
        ensures done(Op::wrap, *vector, value, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=unwrap@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::unwrap, *old(v), value, *final(v)) { \2 }) }
//@ spec
        ensures done(Op::unwrap, *vector, value, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=complex_offset@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite_sig? /\breal\b/
real_
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\breal\b/
real_
//@ rewrite? /Complex@b@::new\(([^()]*)\) \/ Complex@b@::new\(([^()]*)\)/
quotient_of(Complex::<@F@>::new(\1), Complex::<@F@>::new(\2))
//@ rewrite? /\bComplex@b@::new/
Complex::<@F@>::new
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::offset, *old(v), (Complex::<@F@> { re: real_, im: imag }), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::offset, *vector, (Complex::<@F@> { re: real_, im: imag }), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=complex_scale@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite_sig? /\breal\b/
real_
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\breal\b/
real_
//@ rewrite? /Complex@b@::new\(([^()]*)\) \/ Complex@b@::new\(([^()]*)\)/
quotient_of(Complex::<@F@>::new(\1), Complex::<@F@>::new(\2))
//@ rewrite? /\bComplex@b@::new/
Complex::<@F@>::new
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::scale, *old(v), (Complex::<@F@> { re: real_, im: imag }), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::scale, *vector, (Complex::<@F@> { re: real_, im: imag }), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=complex_divide@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite_sig? /\breal\b/
real_
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\breal\b/
real_
//@ rewrite? /(\d\.\d), (\d\.\d)\)/
\1@F@, \2@F@)
//@ rewrite? /Complex@b@::new\(([^()]*)\) \/ Complex@b@::new\(([^()]*)\)/
quotient_of(Complex::<@F@>::new(\1), Complex::<@F@>::new(\2))
//@ rewrite? /\bComplex@b@::new/
Complex::<@F@>::new
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::scale, *old(v), quotient(Complex::<@F@> { re: 1.0@F@, im: 0.0@F@ }, Complex::<@F@> { re: real_, im: imag }), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::scale, *vector, quotient(Complex::<@F@> { re: 1.0@F@, im: 0.0@F@ }, Complex::<@F@> { re: real_, im: imag }), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=zero_interleave@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /factor as u32/
#[verifier::truncate] (factor as u32)
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::zero_interleave_b, *old(v), (factor as u32), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::zero_interleave_b, *vector, (factor as u32), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=interpft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::interpft, *old(v), dest_points, *final(v)) { \2 }) }
//@ spec
        ensures done(Op::interpft, *vector, dest_points, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=apply_window@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /translate_to_window_function\(/
translate_to_window_function::<@F@>(
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::apply_window, *old(v), &window_of::<@F@>(given_window), *final(v)) { \2 }) }
//@ body_start
    let ghost given_window = window;
//@ spec
        ensures done(Op::apply_window, *vector, &window_of::<@F@>(window), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=unapply_window@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /translate_to_window_function\(/
translate_to_window_function::<@F@>(
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::unapply_window, *old(v), &window_of::<@F@>(given_window), *final(v)) { \2 }) }
//@ body_start
    let ghost given_window = window;
//@ spec
        ensures done(Op::unapply_window, *vector, &window_of::<@F@>(window), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=multiply_complex_exponential@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::multiply_complex_exponential, *old(v), (a, b), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::multiply_complex_exponential, *vector, (a, b), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=decimatei@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::decimatei, *old(v), (decimation_factor, delay), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::decimatei, *vector, (decimation_factor, delay), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=interpolate_lin@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::interpolate_lin, *old(v), (interpolation_factor, delay), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::interpolate_lin, *vector, (interpolation_factor, delay), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=interpolate_hermite@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::interpolate_hermite, *old(v), (interpolation_factor, delay), *final(v)) { \2 }) }
//@ spec
        ensures done(Op::interpolate_hermite, *vector, (interpolation_factor, delay), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=zero_pad@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::zero_pad_b, *old(v), (points, padding_of(given_padding_option)), q, *final(v)) { \2 }) }
//@ body_start
    let ghost given_padding_option = padding_option;
//@ spec
        ensures done_or_refused(Op::zero_pad_b, *vector, (points, padding_of(padding_option)), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=add@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::add, *old(v), operand.v(), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::add, *vector, operand.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=add_vector@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::add, *old(v), operand.v(), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::add, *vector, operand.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=add_smaller_vector@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::add_smaller, *old(v), operand.v(), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::add_smaller, *vector, operand.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=sub@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::sub, *old(v), operand.v(), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::sub, *vector, operand.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=sub_vector@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::sub, *old(v), operand.v(), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::sub, *vector, operand.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=sub_smaller_vector@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::sub_smaller, *old(v), operand.v(), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::sub_smaller, *vector, operand.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=mul@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::mul, *old(v), operand.v(), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::mul, *vector, operand.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=mul_vector@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::mul, *old(v), operand.v(), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::mul, *vector, operand.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=mul_smaller_vector@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::mul_smaller, *old(v), operand.v(), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::mul_smaller, *vector, operand.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=div@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::div, *old(v), operand.v(), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::div, *vector, operand.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=div_vector@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::div, *old(v), operand.v(), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::div, *vector, operand.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=div_smaller_vector@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::div_smaller, *old(v), operand.v(), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::div_smaller, *vector, operand.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=correlate@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::correlate, *old(v), other.v(), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::correlate, *vector, other.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=convolve_signal@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::convolve_signal, *old(v), given_impulse_response.v(), q, *final(v)) { \2 }) }
//@ body_start
    let ghost given_impulse_response = impulse_response;
//@ spec
        ensures done_or_refused(Op::convolve_signal, *vector, impulse_response.v(), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=set_real_imag@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite_sig? /\breal\b/
real_
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\breal\b/
real_
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::set_real_imag, *old(v), (real_.v(), imag.v()), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::set_real_imag, *vector, (real_.v(), imag.v()), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=set_mag_phase@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::set_mag_phase, *old(v), (mag.v(), phase.v()), q, *final(v)) { \2 }) }
//@ spec
        ensures done_or_refused(Op::set_mag_phase, *vector, (mag.v(), phase.v()), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=to_complex@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::to_complex_b, v, (), q) { \2 }) }
//@ spec
        ensures done(Op::to_complex_b, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=magnitude@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::magnitude_b, v, (), q) { \2 }) }
//@ spec
        ensures done(Op::magnitude_b, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=magnitude_squared@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::magnitude_squared_b, v, (), q) { \2 }) }
//@ spec
        ensures done(Op::magnitude_squared_b, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=to_real@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::to_real_b, v, (), q) { \2 }) }
//@ spec
        ensures done(Op::to_real_b, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=to_imag@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::to_imag_b, v, (), q) { \2 }) }
//@ spec
        ensures done(Op::to_imag_b, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=phase@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::phase_b, v, (), q) { \2 }) }
//@ spec
        ensures done(Op::phase_b, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=plain_fft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::plain_fft, v, (), q) { \2 }) }
//@ spec
        ensures done(Op::plain_fft, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=plain_ifft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::plain_ifft, v, (), q) { \2 }) }
//@ spec
        ensures done(Op::plain_ifft, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=fft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::fft, v, (), q) { \2 }) }
//@ spec
        ensures done(Op::fft, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=ifft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::ifft, v, (), q) { \2 }) }
//@ spec
        ensures done(Op::ifft, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=prepare_argument@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::prepare_argument, v, (), q) { \2 }) }
//@ spec
        ensures done(Op::prepare_argument, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=prepare_argument_padded@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::prepare_argument_padded, v, (), q) { \2 }) }
//@ spec
        ensures done(Op::prepare_argument_padded, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=plain_sfft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures ttried(Op::plain_sfft, v, (), q) { \2 }) }
//@ spec
        ensures done_or_refused(Op::plain_sfft, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=sfft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures ttried(Op::sfft, v, (), q) { \2 }) }
//@ spec
        ensures done_or_refused(Op::sfft, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=plain_sifft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures ttried(Op::plain_sifft, v, (), q) { \2 }) }
//@ spec
        ensures done_or_refused(Op::plain_sifft, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=sifft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures ttried(Op::sifft, v, (), q) { \2 }) }
//@ spec
        ensures done_or_refused(Op::sifft, *vector, (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=windowed_fft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /translate_to_window_function\(/
translate_to_window_function::<@F@>(
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::windowed_fft, v, &window_of::<@F@>(given_window), q) { \2 }) }
//@ body_start
    let ghost given_window = window;
//@ spec
        ensures done(Op::windowed_fft, *vector, &window_of::<@F@>(window), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=windowed_ifft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /translate_to_window_function\(/
translate_to_window_function::<@F@>(
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::windowed_ifft, v, &window_of::<@F@>(given_window), q) { \2 }) }
//@ body_start
    let ghost given_window = window;
//@ spec
        ensures done(Op::windowed_ifft, *vector, &window_of::<@F@>(window), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=windowed_sfft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /translate_to_window_function\(/
translate_to_window_function::<@F@>(
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures ttried(Op::windowed_sfft, v, &window_of::<@F@>(given_window), q) { \2 }) }
//@ body_start
    let ghost given_window = window;
//@ spec
        ensures done_or_refused(Op::windowed_sfft, *vector, &window_of::<@F@>(window), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=windowed_sifft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /translate_to_window_function\(/
translate_to_window_function::<@F@>(
//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures ttried(Op::windowed_sifft, v, &window_of::<@F@>(given_window), q) { \2 }) }
//@ body_start
    let ghost given_window = window;
//@ spec
        ensures done_or_refused(Op::windowed_sifft, *vector, &window_of::<@F@>(window), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=apply_custom_window@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite_sig /fn apply_custom_window@b@\(/
fn apply_custom_window@b@<CB: Copy>(
//@ rewrite? /mem::transmute\(/
transmuted(
//@ rewrite? /\bunsafe\b/

//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::apply_window, *old(v), &(ForeignWindowFunction::<CB> { window_function: given_window, window_data: given_window_data.address, is_symmetric: given_is_symmetric }), *final(v)) { \2 }) }
//@ body_start
    let ghost given_window = window; let ghost given_window_data = window_data; let ghost given_is_symmetric = is_symmetric;
//@ spec
        ensures done(Op::apply_window, *vector, &(ForeignWindowFunction::<CB> { window_function: window, window_data: window_data.address, is_symmetric: is_symmetric }), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=unapply_custom_window@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite_sig /fn unapply_custom_window@b@\(/
fn unapply_custom_window@b@<CB: Copy>(
//@ rewrite? /mem::transmute\(/
transmuted(
//@ rewrite? /\bunsafe\b/

//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::unapply_window, *old(v), &(ForeignWindowFunction::<CB> { window_function: given_window, window_data: given_window_data.address, is_symmetric: given_is_symmetric }), *final(v)) { \2 }) }
//@ body_start
    let ghost given_window = window; let ghost given_window_data = window_data; let ghost given_is_symmetric = is_symmetric;
//@ spec
        ensures done(Op::unapply_window, *vector, &(ForeignWindowFunction::<CB> { window_function: window, window_data: window_data.address, is_symmetric: is_symmetric }), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=windowed_custom_fft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite_sig /fn windowed_custom_fft@b@\(/
fn windowed_custom_fft@b@<CB: Copy>(
//@ rewrite? /mem::transmute\(/
transmuted(
//@ rewrite? /\bunsafe\b/

//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::windowed_fft, v, &(ForeignWindowFunction::<CB> { window_function: given_window, window_data: given_window_data.address, is_symmetric: given_is_symmetric }), q) { \2 }) }
//@ body_start
    let ghost given_window = window; let ghost given_window_data = window_data; let ghost given_is_symmetric = is_symmetric;
//@ spec
        ensures done(Op::windowed_fft, *vector, &(ForeignWindowFunction::<CB> { window_function: window, window_data: window_data.address, is_symmetric: is_symmetric }), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=windowed_custom_ifft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite_sig /fn windowed_custom_ifft@b@\(/
fn windowed_custom_ifft@b@<CB: Copy>(
//@ rewrite? /mem::transmute\(/
transmuted(
//@ rewrite? /\bunsafe\b/

//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures q.is_ok(), ttried(Op::windowed_ifft, v, &(ForeignWindowFunction::<CB> { window_function: given_window, window_data: given_window_data.address, is_symmetric: given_is_symmetric }), q) { \2 }) }
//@ body_start
    let ghost given_window = window; let ghost given_window_data = window_data; let ghost given_is_symmetric = is_symmetric;
//@ spec
        ensures done(Op::windowed_ifft, *vector, &(ForeignWindowFunction::<CB> { window_function: window, window_data: window_data.address, is_symmetric: is_symmetric }), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=windowed_custom_sfft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite_sig /fn windowed_custom_sfft@b@\(/
fn windowed_custom_sfft@b@<CB: Copy>(
//@ rewrite? /mem::transmute\(/
transmuted(
//@ rewrite? /\bunsafe\b/

//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures ttried(Op::windowed_sfft, v, &(ForeignWindowFunction::<CB> { window_function: given_window, window_data: given_window_data.address, is_symmetric: given_is_symmetric }), q) { \2 }) }
//@ body_start
    let ghost given_window = window; let ghost given_window_data = window_data; let ghost given_is_symmetric = is_symmetric;
//@ spec
        ensures done_or_refused(Op::windowed_sfft, *vector, &(ForeignWindowFunction::<CB> { window_function: window, window_data: window_data.address, is_symmetric: is_symmetric }), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=windowed_custom_sifft@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite_sig /fn windowed_custom_sifft@b@\(/
fn windowed_custom_sifft@b@<CB: Copy>(
//@ rewrite? /mem::transmute\(/
transmuted(
//@ rewrite? /\bunsafe\b/

//@ rewrite /vector\s*\.trans_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.trans_vec(|v: GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: TransRes<GenDspVec<Vec<@F@>, @F@>>) ensures ttried(Op::windowed_sifft, v, &(ForeignWindowFunction::<CB> { window_function: given_window, window_data: given_window_data.address, is_symmetric: given_is_symmetric }), q) { \2 }) }
//@ body_start
    let ghost given_window = window; let ghost given_window_data = window_data; let ghost given_is_symmetric = is_symmetric;
//@ spec
        ensures done_or_refused(Op::windowed_sifft, *vector, &(ForeignWindowFunction::<CB> { window_function: window, window_data: window_data.address, is_symmetric: is_symmetric }), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=convolve_real@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite_sig /fn convolve_real@b@\(/
fn convolve_real@b@<CB: Copy>(
//@ rewrite? /mem::transmute\(/
transmuted(
//@ rewrite? /\bunsafe\b/

//@ rewrite? /let function: &dyn \w+<@F@> =/
let function =
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::convolve, *old(v), ((&ForeignRealConvolutionFunction::<CB> { conv_function: given_impulse_response, conv_data: given_impulse_response_data.address, is_symmetric: given_is_symmetric }), ratio, len), *final(v)) { \2 }) }
//@ body_start
    let ghost given_is_symmetric = is_symmetric; let ghost given_impulse_response = impulse_response; let ghost given_impulse_response_data = impulse_response_data;
//@ spec
        ensures done(Op::convolve, *vector, ((&ForeignRealConvolutionFunction::<CB> { conv_function: impulse_response, conv_data: impulse_response_data.address, is_symmetric: is_symmetric }), ratio, len), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=multiply_frequency_response_real@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite_sig /fn multiply_frequency_response_real@b@\(/
fn multiply_frequency_response_real@b@<CB: Copy>(
//@ rewrite? /mem::transmute\(/
transmuted(
//@ rewrite? /\bunsafe\b/

//@ rewrite? /let function: &dyn \w+<@F@> =/
let function =
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::multiply_frequency_response, *old(v), ((&ForeignRealConvolutionFunction::<CB> { conv_function: given_frequency_response, conv_data: given_frequency_response_data.address, is_symmetric: given_is_symmetric }), ratio), *final(v)) { \2 }) }
//@ body_start
    let ghost given_is_symmetric = is_symmetric; let ghost given_frequency_response = frequency_response; let ghost given_frequency_response_data = frequency_response_data;
//@ spec
        ensures done(Op::multiply_frequency_response, *vector, ((&ForeignRealConvolutionFunction::<CB> { conv_function: frequency_response, conv_data: frequency_response_data.address, is_symmetric: is_symmetric }), ratio), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=convolve_complex@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite_sig /fn convolve_complex@b@\(/
fn convolve_complex@b@<CB: Copy>(
//@ rewrite? /mem::transmute\(/
transmuted(
//@ rewrite? /\bunsafe\b/

//@ rewrite? /let function: &dyn \w+<@F@> =/
let function =
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::convolve, *old(v), ((&ForeignComplexConvolutionFunction::<CB> { conv_function: given_impulse_response, conv_data: given_impulse_response_data.address, is_symmetric: given_is_symmetric }), ratio, len), *final(v)) { \2 }) }
//@ body_start
    let ghost given_is_symmetric = is_symmetric; let ghost given_impulse_response = impulse_response; let ghost given_impulse_response_data = impulse_response_data;
//@ spec
        ensures done(Op::convolve, *vector, ((&ForeignComplexConvolutionFunction::<CB> { conv_function: impulse_response, conv_data: impulse_response_data.address, is_symmetric: is_symmetric }), ratio, len), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=multiply_frequency_response_complex@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite_sig /fn multiply_frequency_response_complex@b@\(/
fn multiply_frequency_response_complex@b@<CB: Copy>(
//@ rewrite? /mem::transmute\(/
transmuted(
//@ rewrite? /\bunsafe\b/

//@ rewrite? /let function: &dyn \w+<@F@> =/
let function =
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::multiply_frequency_response, *old(v), ((&ForeignComplexConvolutionFunction::<CB> { conv_function: given_frequency_response, conv_data: given_frequency_response_data.address, is_symmetric: given_is_symmetric }), ratio), *final(v)) { \2 }) }
//@ body_start
    let ghost given_is_symmetric = is_symmetric; let ghost given_frequency_response = frequency_response; let ghost given_frequency_response_data = frequency_response_data;
//@ spec
        ensures done(Op::multiply_frequency_response, *vector, ((&ForeignComplexConvolutionFunction::<CB> { conv_function: frequency_response, conv_data: frequency_response_data.address, is_symmetric: is_symmetric }), ratio), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=interpolatef_custom@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite_sig /fn interpolatef_custom@b@\(/
fn interpolatef_custom@b@<CB: Copy>(
//@ rewrite? /mem::transmute\(/
transmuted(
//@ rewrite? /\bunsafe\b/

//@ rewrite? /let function: &dyn \w+<@F@> =/
let function =
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::interpolatef, *old(v), ((&ForeignRealConvolutionFunction::<CB> { conv_function: given_impulse_response, conv_data: given_impulse_response_data.address, is_symmetric: given_is_symmetric }), interpolation_factor, delay, len), *final(v)) { \2 }) }
//@ body_start
    let ghost given_is_symmetric = is_symmetric; let ghost given_impulse_response = impulse_response; let ghost given_impulse_response_data = impulse_response_data;
//@ spec
        ensures done(Op::interpolatef, *vector, ((&ForeignRealConvolutionFunction::<CB> { conv_function: impulse_response, conv_data: impulse_response_data.address, is_symmetric: is_symmetric }), interpolation_factor, delay, len), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=interpolate_custom@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite_sig /fn interpolate_custom@b@\(/
fn interpolate_custom@b@<CB: Copy>(
//@ rewrite? /mem::transmute\(/
transmuted(
//@ rewrite? /\bunsafe\b/

//@ rewrite? /let function: &dyn \w+<@F@> =/
let function =
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::interpolate, *old(v), (Some((&ForeignRealConvolutionFunction::<CB> { conv_function: given_frequency_response, conv_data: given_frequency_response_data.address, is_symmetric: given_is_symmetric })), dest_points, delay), q, *final(v)) { \2 }) }
//@ body_start
    let ghost given_is_symmetric = is_symmetric; let ghost given_frequency_response = frequency_response; let ghost given_frequency_response_data = frequency_response_data;
//@ spec
        ensures done_or_refused(Op::interpolate, *vector, (Some((&ForeignRealConvolutionFunction::<CB> { conv_function: frequency_response, conv_data: frequency_response_data.address, is_symmetric: is_symmetric })), dest_points, delay), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=interpolatei_custom@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite_sig /fn interpolatei_custom@b@\(/
fn interpolatei_custom@b@<CB: Copy>(
//@ rewrite? /mem::transmute\(/
transmuted(
//@ rewrite? /\bunsafe\b/

//@ rewrite? /let function: &dyn \w+<@F@> =/
let function =
//@ rewrite? /interpolation_factor as u32/
#[verifier::truncate] (interpolation_factor as u32)
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::interpolatei, *old(v), ((&ForeignRealConvolutionFunction::<CB> { conv_function: given_frequency_response, conv_data: given_frequency_response_data.address, is_symmetric: given_is_symmetric }), interpolation_factor as u32), q, *final(v)) { \2 }) }
//@ body_start
    let ghost given_is_symmetric = is_symmetric; let ghost given_frequency_response = frequency_response; let ghost given_frequency_response_data = frequency_response_data;
//@ spec
        ensures done_or_refused(Op::interpolatei, *vector, ((&ForeignRealConvolutionFunction::<CB> { conv_function: frequency_response, conv_data: frequency_response_data.address, is_symmetric: is_symmetric }), interpolation_factor as u32), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=convolve@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::convolve, *old(v), (&impulse_of::<@F@>(given_impulse_response, rolloff), ratio, len), *final(v)) { \2 }) }
//@ body_start
    let ghost given_impulse_response = impulse_response;
//@ spec
        ensures done(Op::convolve, *vector, (&impulse_of::<@F@>(impulse_response, rolloff), ratio, len), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=multiply_frequency_response@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::multiply_frequency_response, *old(v), (&response_of::<@F@>(given_frequency_response, rolloff), ratio), *final(v)) { \2 }) }
//@ body_start
    let ghost given_frequency_response = frequency_response;
//@ spec
        ensures done(Op::multiply_frequency_response, *vector, (&response_of::<@F@>(frequency_response, rolloff), ratio), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=interpolatef@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures q.is_ok(), did(Op::interpolatef, *old(v), (&impulse_of::<@F@>(given_impulse_response, rolloff), interpolation_factor, delay, len), *final(v)) { \2 }) }
//@ body_start
    let ghost given_impulse_response = impulse_response;
//@ spec
        ensures done(Op::interpolatef, *vector, (&impulse_of::<@F@>(impulse_response, rolloff), interpolation_factor, delay, len), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=interpolate@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::interpolate, *old(v), (Some(&response_of::<@F@>(given_frequency_response, rolloff)), dest_points, delay), q, *final(v)) { \2 }) }
//@ body_start
    let ghost given_frequency_response = frequency_response;
//@ spec
        ensures done_or_refused(Op::interpolate, *vector, (Some(&response_of::<@F@>(frequency_response, rolloff)), dest_points, delay), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=interpolatei@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /interpolation_factor as u32/
#[verifier::truncate] (interpolation_factor as u32)
//@ rewrite /vector\s*\.convert_vec\(\s*\|v, (\w+)\|(.*)\)/
{ let vv = *vector; vv.convert_vec(|v: &mut GenDspVec<Vec<@F@>, @F@>, \1: &mut SingleBuffer<@F@>| -> (q: VoidResult) ensures tried(Op::interpolatei, *old(v), (&response_of::<@F@>(given_frequency_response, rolloff), interpolation_factor as u32), q, *final(v)) { \2 }) }
//@ body_start
    let ghost given_frequency_response = frequency_response;
//@ spec
        ensures done_or_refused(Op::interpolatei, *vector, (&response_of::<@F@>(frequency_response, rolloff), interpolation_factor as u32), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=get_magnitude@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures did(Op::get_magnitude, old(destination).v(), vector.v(), final(destination).v()), r == final(destination).marker(),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=get_magnitude_squared@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures did(Op::get_magnitude_squared, old(destination).v(), vector.v(), final(destination).v()), r == final(destination).marker(),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=get_real@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures did(Op::get_real, old(destination).v(), vector.v(), final(destination).v()), r == final(destination).marker(),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=get_imag@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures did(Op::get_imag, old(destination).v(), vector.v(), final(destination).v()), r == final(destination).marker(),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=get_phase@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures did(Op::get_phase, old(destination).v(), vector.v(), final(destination).v()), r == final(destination).marker(),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=get_real_imag@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite_sig? /\breal\b/
real_
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\breal\b/
real_
//@ spec
        ensures did(Op::get_real_imag, (old(real_).v(), old(imag).v()), vector.v(), (final(real_).v(), final(imag).v())), r == (if final(real_).marker() != 0 { final(real_).marker() } else { final(imag).marker() }),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=get_mag_phase@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures did(Op::get_mag_phase, (old(mag).v(), old(phase).v()), vector.v(), (final(mag).v(), final(phase).v())), r == (if final(mag).marker() != 0 { final(mag).marker() } else { final(phase).marker() }),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=get_len@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures r == vector.v().el().len(),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=get_points@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures r == vector.v().pts(),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=get_delta@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures r == vector.v().dlt(),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=get_allocated_len@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures r == vector.v().alloc(),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=is_complex@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures r == (if vector.v().cplx() { 1int } else { 0 }),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=get_domain@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures r == (if vector.v().freq() { 1int } else { 0 }),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=get_value@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        requires index < vector.v().el().len(),
        ensures r == vector.v().el()[index as int],
//@ end
//@ extract file=interop/src/facade@b@.rs fn=set_value@b@
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\*vector\.vec\.data_mut\((\w+)\) = (\w+);/
vector.vec.data_set(\1, \2);
//@ spec
        requires index < old(vector).v().el().len(),
        ensures final(vector).v().el() == old(vector).v().el().update(index as int, value), final(vector).v().same_kind(&old(vector).v()),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=set_len@b@
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures resized_or_refused(old(vector).v(), len, final(vector).v()),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=clone@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\bVecBuf\b/
VecBuf@b@
//@ spec
        ensures r.v() == vector.v(),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=new@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\bVecBuf\b/
VecBuf@b@
//@ rewrite? /vec!\[(\w+); (\w+)\]\s*\.to_gen_dsp_vec\(/
GenDspVec::<Vec<@F@>, @F@>::filled(\1, \2, 
//@ spec
        ensures r.v().el() == filled_with(init_value, length, is_complex != 0), r.v().cplx() == (is_complex != 0), r.v().freq() == (domain != 0), r.v().dlt() == delta,
//@ end
//@ extract file=interop/src/facade@b@.rs fn=new_with_performance_options@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\bVecBuf\b/
VecBuf@b@
//@ rewrite? /vec!\[(\w+); (\w+)\]\s*\.to_gen_dsp_vec\(/
GenDspVec::<Vec<@F@>, @F@>::filled(\1, \2, 
//@ spec
        ensures r.v().el() == filled_with(init_value, length, is_complex != 0), r.v().cplx() == (is_complex != 0), r.v().freq() == (domain != 0), r.v().dlt() == delta, r.v().cores() == MultiCoreSettings::of_cores(core_limit),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=new_with_detailed_performance_options@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\bVecBuf\b/
VecBuf@b@
//@ rewrite? /vec!\[(\w+); (\w+)\]\s*\.to_gen_dsp_vec\(/
GenDspVec::<Vec<@F@>, @F@>::filled(\1, \2, 
//@ spec
        ensures r.v().el() == filled_with(init_value, length, is_complex != 0), r.v().cplx() == (is_complex != 0), r.v().freq() == (domain != 0), r.v().dlt() == delta, r.v().cores() == MultiCoreSettings::of_thresholds(core_limit, med_dual_core_threshold, med_multi_core_threshold, large_dual_core_threshold, large_multi_core_threshold),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=real_sum@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures gave(Op::sum, vector.v(), (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=complex_sum@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures gave(Op::sum, vector.v(), (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=real_sum_sq@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures gave(Op::sum_sq, vector.v(), (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=complex_sum_sq@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures gave(Op::sum_sq, vector.v(), (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=real_sum_prec@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures gave(Op::sum_prec, vector.v(), (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=complex_sum_prec@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures gave(Op::sum_prec, vector.v(), (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=real_sum_sq_prec@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures gave(Op::sum_sq_prec, vector.v(), (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=complex_sum_sq_prec@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ spec
        ensures gave(Op::sum_sq_prec, vector.v(), (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=real_statistics@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /&vector\.vec as &dyn \w+<.*?>>;/
&vector.vec;
//@ spec
        ensures gave(Op::statistics, vector.v(), (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=complex_statistics@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /&vector\.vec as &dyn \w+<.*?>>;/
&vector.vec;
//@ spec
        ensures gave(Op::statistics, vector.v(), (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=real_statistics_prec@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /&vector\.vec as &dyn \w+<.*?>>;/
&vector.vec;
//@ spec
        ensures gave(Op::statistics_prec, vector.v(), (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=complex_statistics_prec@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /&vector\.vec as &dyn \w+<.*?>>;/
&vector.vec;
//@ spec
        ensures gave(Op::statistics_prec, vector.v(), (), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=real_dot_product@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\w+::<.*?>::dot_product\(v,/
v.dot_product(
//@ rewrite? /\|v\|\s*\{([^{}]*)\}/
|v: &GenDspVec<Vec<@F@>, @F@>| -> (q: ScalarResult<@F@>) ensures gave(Op::dot_product, *v, operand.v(), q) { \1 }
//@ rewrite? /\b0\.0\b/
0.0@F@
//@ rewrite? /\bComplex@b@::new/
Complex::<@F@>::new
//@ spec
        ensures computed(Op::dot_product, *vector, operand.v(), 0.0@F@, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=complex_dot_product@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\w+::<.*?>::dot_product\(v,/
v.dot_product(
//@ rewrite? /\|v\|\s*\{([^{}]*)\}/
|v: &GenDspVec<Vec<@F@>, @F@>| -> (q: ScalarResult<Complex<@F@>>) ensures gave(Op::dot_product, *v, operand.v(), q) { \1 }
//@ rewrite? /\b0\.0\b/
0.0@F@
//@ rewrite? /\bComplex@b@::new/
Complex::<@F@>::new
//@ spec
        ensures computed(Op::dot_product, *vector, operand.v(), (Complex::<@F@> { re: 0.0@F@, im: 0.0@F@ }), r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=real_dot_product_prec@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\w+::<.*?>::dot_product_prec\(v,/
v.dot_product_prec(
//@ rewrite? /\|v\|\s*\{([^{}]*)\}/
|v: &GenDspVec<Vec<@F@>, @F@>| -> (q: ScalarResult<@F@>) ensures gave(Op::dot_product_prec, *v, operand.v(), q) { \1 }
//@ rewrite? /\b0\.0\b/
0.0@F@
//@ rewrite? /\bComplex@b@::new/
Complex::<@F@>::new
//@ spec
        ensures computed(Op::dot_product_prec, *vector, operand.v(), 0.0@F@, r),
//@ end
//@ extract file=interop/src/facade@b@.rs fn=complex_dot_product_prec@b@
//@ ret r
//@ rewrite_sig? /\bVecBuf\b/
VecBuf@b@
//@ rewrite_sig? /\bVecBox\b/
Box<VecBuf@b@>
//@ rewrite_sig? /extern "C" fn\([^()]*\) -> \w+/
CB
//@ rewrite_sig? /\*const c_void/
DataPtr
//@ rewrite? /\|v, _\|/
|v, _buf|
//@ rewrite? /\w+::<.*?>::dot_product_prec\(v,/
v.dot_product_prec(
//@ rewrite? /\|v\|\s*\{([^{}]*)\}/
|v: &GenDspVec<Vec<@F@>, @F@>| -> (q: ScalarResult<Complex<@F@>>) ensures gave(Op::dot_product_prec, *v, operand.v(), q) { \1 }
//@ rewrite? /\b0\.0\b/
0.0@F@
//@ rewrite? /\bComplex@b@::new/
Complex::<@F@>::new
//@ spec
        ensures computed(Op::dot_product_prec, *vector, operand.v(), (Complex::<@F@> { re: 0.0@F@, im: 0.0@F@ }), r),
//@ end
//@ endfor
}
fn main() {}
