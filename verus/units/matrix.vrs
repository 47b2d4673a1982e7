//@ unit-props C17
//@ unit-title matrices: every operation acts on every row as the operation of a vector
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::marker;
verus! {

//@ extract file=vector/src/vector_types/checks_and_results.rs item=enum:ErrorReason
//@ prefix
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub
//@ end
pub type VoidResult = Result<(), ErrorReason>;
pub type ScalarResult<T> = Result<T, ErrorReason>;
pub type TransRes<T> = Result<T, (ErrorReason, T)>;
//@ extract file=vector/src/vector_types/mod.rs item=enum:DataDomain
//@ prefix
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub
//@ end
//@ include iters
pub trait RealNumber: Copy {
    spec fn zero_spec() -> Self;
    fn zero() -> (r: Self) ensures r == Self::zero_spec();
}
#[derive(Copy, Clone)]
pub struct Complex<T> { pub re: T, pub im: T }
pub trait NumberSpace {}
pub trait Domain {}
pub trait WindowFunction<T> {}
pub trait RealImpulseResponse<T> {}
pub trait ComplexImpulseResponse<T> {}
pub trait RealFrequencyResponse<T> {}
pub trait ComplexFrequencyResponse<T> {}
// ---------------- rows ----------------
/// The operations of a vector. What they do is the matter of the other properties; here they are arbitrary relations between
/// the vector before, the arguments and the vector after, one per operation.
#[allow(non_camel_case_types)]
pub enum Op {
    abs, wrap, unwrap, ln_approx, exp_approx, sin_approx, cos_approx, log_approx, expf_approx, powf_approx,
    multiply_complex_exponential, conj,
    scale, offset, c_scale, c_offset, reverse, swap_halves, diff, diff_with_start, cum_sum,
    sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh,
    sqrt, square, root, powf, ln, exp, log, expf, map_inplace, c_map_inplace,
    mirror, fft_shift, ifft_shift, apply_window, unapply_window, interpolatef, interpft, decimatei, interpolate_hermite, interpolate_lin,
    convolve, c_convolve, multiply_frequency_response, c_multiply_frequency_response, set_delta,
    resize, add, sub, mul, div, add_smaller, sub_smaller, mul_smaller, div_smaller, interpolatei, interpolate, correlate, convolve_signal,
    get_real, get_imag, get_magnitude, get_magnitude_squared, get_phase, get_real_imag, get_mag_phase, set_real_imag, set_mag_phase,
    magnitude, magnitude_squared, to_real, to_imag, phase, magnitude_b, magnitude_squared_b, to_real_b, to_imag_b, phase_b,
    to_complex, to_complex_b, plain_fft, fft, windowed_fft, plain_ifft, ifft, windowed_ifft, prepare_argument, prepare_argument_padded,
    plain_sfft, sfft, windowed_sfft, plain_sifft, sifft, windowed_sifft,
    statistics, statistics_split, sum, sum_sq, statistics_prec, statistics_split_prec, sum_prec, sum_sq_prec, dot_product, dot_product_prec, map_aggregate,
    rededicate_from_force, rededicate_with_runtime_data,
    to_gen_dsp_vec, to_real_time_vec, to_real_freq_vec, to_complex_time_vec, to_complex_freq_vec,
    domain, is_complex, delta, len, points, get_meta_data,
}
/// the operation turned `o` into `n`
pub uninterp spec fn did<V, A>(op: Op, o: V, a: A, n: V) -> bool;
/// the operation refused with this reason and left `n`
pub uninterp spec fn failed<V, A>(op: Op, o: V, a: A, e: ErrorReason, n: V) -> bool;
/// the operation's result
pub uninterp spec fn gave<V, A, R>(op: Op, v: V, a: A, r: R) -> bool;
/// a getter's result
pub uninterp spec fn got<V, R>(op: Op, v: V) -> R;
pub open spec fn tried<V, A>(op: Op, o: V, a: A, n: V, r: VoidResult) -> bool {
    match r { Ok(_) => did(op, o, a, n), Err(e) => failed(op, o, a, e, n) }
}
/// A row, or what rows are made of or converted to. `T` is the number type, `W` what the conversions hand back.
pub trait Vector<T>: Sized {
//@ for f = abs ln_approx exp_approx sin_approx cos_approx conj reverse swap_halves diff diff_with_start cum_sum sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh sqrt square ln exp fft_shift ifft_shift
    fn @f@(&mut self) ensures did(Op::@f@, *old(self), (), *final(self));
//@ endfor
//@ for f = wrap unwrap log_approx expf_approx powf_approx scale offset root powf log expf apply_window unapply_window set_delta
    fn @f@<A>(&mut self, a: A) ensures did(Op::@f@, *old(self), a, *final(self));
//@ endfor
//@ for f = multiply_complex_exponential decimatei map_inplace multiply_frequency_response
    fn @f@<A, B>(&mut self, a: A, b: B) ensures did(Op::@f@, *old(self), (a, b), *final(self));
//@ endfor
    fn mirror<S>(&mut self, buffer: &mut S) ensures did(Op::mirror, *old(self), (), *final(self));
    fn interpft<S, A>(&mut self, buffer: &mut S, a: A) ensures did(Op::interpft, *old(self), a, *final(self));
    fn interpolate_hermite<S, A, B>(&mut self, buffer: &mut S, a: A, b: B) ensures did(Op::interpolate_hermite, *old(self), (a, b), *final(self));
    fn interpolate_lin<S, A, B>(&mut self, buffer: &mut S, a: A, b: B) ensures did(Op::interpolate_lin, *old(self), (a, b), *final(self));
    fn convolve<S, A, B, C>(&mut self, buffer: &mut S, a: A, b: B, c: C) ensures did(Op::convolve, *old(self), (a, b, c), *final(self));
    fn interpolatef<S, A, B, C, D>(&mut self, buffer: &mut S, a: A, b: B, c: C, d: D) ensures did(Op::interpolatef, *old(self), (a, b, c, d), *final(self));
//@ for f = resize add sub mul div add_smaller sub_smaller mul_smaller div_smaller
    fn @f@<A>(&mut self, a: A) -> (r: VoidResult) ensures tried(Op::@f@, *old(self), a, *final(self), r);
//@ endfor
//@ for f = set_real_imag set_mag_phase
    fn @f@<A, B>(&mut self, a: A, b: B) -> (r: VoidResult) ensures tried(Op::@f@, *old(self), (a, b), *final(self), r);
//@ endfor
//@ for f = correlate convolve_signal
    fn @f@<S, A>(&mut self, buffer: &mut S, a: A) -> (r: VoidResult) ensures tried(Op::@f@, *old(self), a, *final(self), r);
//@ endfor
    fn interpolatei<S, A, B>(&mut self, buffer: &mut S, a: A, b: B) -> (r: VoidResult) ensures tried(Op::interpolatei, *old(self), (a, b), *final(self), r);
    fn interpolate<S, A, B, C>(&mut self, buffer: &mut S, a: A, b: B, c: C) -> (r: VoidResult) ensures tried(Op::interpolate, *old(self), (a, b, c), *final(self), r);
//@ for f = get_real get_imag get_magnitude get_magnitude_squared get_phase
    fn @f@<O>(&self, o: &mut O) ensures did(Op::@f@, *old(o), *self, *final(o));
//@ endfor
//@ for f = get_real_imag get_mag_phase
    fn @f@<O, P>(&self, o: &mut O, p: &mut P) ensures did(Op::@f@, (*old(o), *old(p)), *self, (*final(o), *final(p)));
//@ endfor
//@ for f R = domain:DataDomain is_complex:bool delta:T len:usize points:usize
    fn @f@(&self) -> (r: @R@) ensures r == got::<Self, @R@>(Op::@f@, *self);
//@ endfor
    fn get_meta_data<R>(&self) -> (r: R) ensures r == got::<Self, R>(Op::get_meta_data, *self);
//@ for f = magnitude magnitude_squared to_real to_imag phase magnitude_b magnitude_squared_b to_real_b to_imag_b phase_b to_complex_b plain_fft fft plain_ifft ifft prepare_argument prepare_argument_padded
    fn @f@<R>(self) -> (r: R) ensures gave(Op::@f@, self, (), r);
//@ endfor
//@ for f = windowed_fft windowed_ifft
    fn @f@<A, R>(self, a: A) -> (r: R) ensures gave(Op::@f@, self, a, r);
//@ endfor
//@ for f = to_complex plain_sfft sfft plain_sifft sifft
    fn @f@<R>(self) -> (r: TransRes<R>) ensures gave(Op::@f@, self, (), r);
//@ endfor
//@ for f = windowed_sfft windowed_sifft
    fn @f@<A, R>(self, a: A) -> (r: TransRes<R>) ensures gave(Op::@f@, self, a, r);
//@ endfor
//@ for f = statistics sum sum_sq statistics_prec sum_prec sum_sq_prec
    fn @f@<R>(&self) -> (r: R) ensures gave(Op::@f@, *self, (), r);
//@ endfor
//@ for f = statistics_split statistics_split_prec dot_product dot_product_prec
    fn @f@<A, R>(&self, a: A) -> (r: ScalarResult<R>) ensures gave(Op::@f@, *self, a, r);
//@ endfor
    fn map_aggregate<A, B, C, R>(&self, a: A, b: B, c: C) -> (r: ScalarResult<R>) ensures gave(Op::map_aggregate, *self, (a, b, c), r);
//@ for f = to_real_time_vec to_real_freq_vec to_complex_time_vec to_complex_freq_vec
    fn @f@<R>(self) -> (r: R) ensures gave(Op::@f@, self, (), r);
//@ endfor
    fn to_gen_dsp_vec<A, B, R>(self, a: A, b: B) -> (r: R) ensures gave(Op::to_gen_dsp_vec, self, (a, b), r);
    fn rededicate_from_force<O>(o: O) -> (r: Self) ensures gave(Op::rededicate_from_force, o, (), r);
    fn rededicate_with_runtime_data<O, A, B>(o: O, a: A, b: B) -> (r: Self) ensures gave(Op::rededicate_with_runtime_data, o, (a, b), r);
}
// ---------------- containers of rows ----------------
/// Vec<V> and [V; N]
pub trait Rows<V>: Sized {
    spec fn all(&self) -> Seq<V>;
    fn count(&self) -> (r: usize) ensures r == self.all().len();
    fn at(&self, i: usize) -> (r: &V) requires i < self.all().len() ensures *r == self.all()[i as int];
    fn view_all(&self) -> (r: &[V]) ensures r@ == self.all();
    fn view_all_mut(&mut self) -> (r: &mut [V]) ensures r@ == old(self).all(), final(self).all() == final(r)@;
}
// ASSUMED the views of the standard containers: all elements in order, writes go through
impl<V> Rows<V> for Vec<V> {
    open spec fn all(&self) -> Seq<V> { self@ }
    #[verifier::external_body] fn count(&self) -> usize { unimplemented!() }
    #[verifier::external_body] fn at(&self, i: usize) -> &V { unimplemented!() }
    #[verifier::external_body] fn view_all(&self) -> &[V] { unimplemented!() }
    #[verifier::external_body] fn view_all_mut(&mut self) -> &mut [V] { unimplemented!() }
}
impl<V, const N: usize> Rows<V> for [V; N] {
    open spec fn all(&self) -> Seq<V> { self@ }
    #[verifier::external_body] fn count(&self) -> usize { unimplemented!() }
    #[verifier::external_body] fn at(&self, i: usize) -> &V { unimplemented!() }
    #[verifier::external_body] fn view_all(&self) -> &[V] { unimplemented!() }
    #[verifier::external_body] fn view_all_mut(&mut self) -> &mut [V] { unimplemented!() }
}
/// the value a fallible conversion leaves, in either case
pub open spec fn left<D>(r: TransRes<D>) -> D { match r { Ok(v) => v, Err((_, v)) => v } }
/// the conversion of every row, in order, each once
pub open spec fn converted<S, D, F: Fn(S) -> D>(f: F, o: Seq<S>, n: Seq<D>) -> bool {
    n.len() == o.len() && forall|i: int| #![trigger n[i]] #![trigger o[i]] 0 <= i < o.len() ==> call_ensures(f, (o[i],), n[i])
}
/// the reason it names
pub open spec fn reason<D>(r: TransRes<D>) -> Option<ErrorReason> { match r { Ok(_) => None, Err((e, _)) => Some(e) } }
/// `w` are the results of a fallible conversion of every row; `n` are their values, and a reason is named exactly if one of them names it
pub open spec fn collected<D>(w: Seq<TransRes<D>>, n: Seq<D>, e: Option<ErrorReason>) -> bool {
    &&& n.len() == w.len()
    &&& forall|i: int| #![trigger n[i]] #![trigger w[i]] 0 <= i < w.len() ==> n[i] == left(w[i])
    &&& e is None ==> forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> w[i] is Ok
    &&& e is Some ==> exists|i: int| #![trigger w[i]] 0 <= i < w.len() && w[i] is Err && w[i]->Err_0.0 == e->Some_0
}
/// every row's result of the operation
pub open spec fn all_gave<V, A, R>(op: Op, o: Seq<V>, a: A, n: Seq<R>) -> bool {
    n.len() == o.len() && forall|i: int| #![trigger n[i]] #![trigger o[i]] 0 <= i < o.len() ==> gave(op, o[i], a, n[i])
}
pub trait TransformContent<S, D>: Rows<S> {
    type Output: Rows<D>;
    fn transform<F>(self, conversion: F) -> (r: Self::Output) where F: Fn(S) -> D
        requires forall|x: S| #[trigger] call_requires(conversion, (x,)),
        ensures converted(conversion, self.all(), r.all());
    fn transform_res<F>(self, conversion: F) -> (r: TransRes<Self::Output>) where F: Fn(S) -> TransRes<D>
        requires forall|x: S| #[trigger] call_requires(conversion, (x,)),
        ensures exists|w: Seq<TransRes<D>>| #![trigger converted(conversion, self.all(), w)] #![trigger collected(w, left(r).all(), reason(r))] converted(conversion, self.all(), w) && collected(w, left(r).all(), reason(r));
}
/// ASSUMED slice::reverse
#[verifier::external_body]
fn reverse_rows<D>(v: &mut Vec<D>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
impl<S, D> TransformContent<S, D> for Vec<S> {
    type Output = Vec<D>;
//@ extract file=matrix/src/lib.rs fn=transform impl="for\sVec<S>" loops=1
//@ rewrite_sig? /mut self, mut conversion/
self, conversion
//@ rewrite_sig? /FnMut/
Fn
//@ rewrite? /\bself\b/
me
//@ rewrite? /rows\.reverse\(\)/
reverse_rows(&mut rows)
//@ body_start
        let ghost o = self.all();
        let mut me = self;
//@ loop 1 iter it
            invariant
                forall|x: S| #[trigger] call_requires(conversion, (x,)),
                it.seq().len() == o.len(), it.index() + me@.len() == o.len(), me@ =~= o.subrange(0, o.len() - it.index()), rows@.len() == it.index(),
                forall|k: int| #![trigger rows@[k]] 0 <= k < rows@.len() ==> call_ensures(conversion, (o[o.len() - 1 - k],), rows@[k]),
//@ after /reverse_rows/ 1
        proof { assert forall|i: int| #![trigger rows@[i]] #![trigger o[i]] 0 <= i < o.len() implies call_ensures(conversion, (o[i],), rows@[i]) by { } }
//@ end
//@ extract file=matrix/src/lib.rs fn=transform_res impl="for\sVec<S>" loops=1
//@ expand try_conv
//@ rewrite_sig? /mut self, mut conversion/
self, conversion
//@ rewrite_sig? /FnMut/
Fn
//@ rewrite? /\bself\b/
me
//@ rewrite? /let mut error = None;/
let mut error: Option<ErrorReason> = None;
//@ rewrite? /conversion\(v\)/
{ let x = conversion(v); proof { w = w.push(x); } x }
//@ rewrite? /rows\.reverse\(\)/
reverse_rows(&mut rows)
//@ body_start
        let ghost o = self.all();
        let mut me = self;
        let ghost mut w: Seq<TransRes<D>> = Seq::empty();
//@ loop 1 iter it
            invariant
                forall|x: S| #[trigger] call_requires(conversion, (x,)),
                it.seq().len() == o.len(), it.index() + me@.len() == o.len(), me@ =~= o.subrange(0, o.len() - it.index()), rows@.len() == it.index(), w.len() == it.index(),
                forall|k: int| #![trigger w[k]] 0 <= k < w.len() ==> call_ensures(conversion, (o[o.len() - 1 - k],), w[k]) && rows@[k] == left(w[k]),
                error is None ==> forall|k: int| #![trigger w[k]] 0 <= k < w.len() ==> w[k] is Ok,
                error is Some ==> exists|k: int| #![trigger w[k]] 0 <= k < w.len() && w[k] is Err && w[k]->Err_0.0 == error->Some_0,
//@ loop_start 1
            let ghost w0 = w;
            let ghost e0 = error;
//@ loop_end 1
            proof {
                if e0 is Some { let k = choose|k: int| #![trigger w0[k]] 0 <= k < w0.len() && w0[k] is Err && w0[k]->Err_0.0 == e0->Some_0; assert(w[k] == w0[k]); }
                let last = w[w.len() - 1];
            }
//@ after /reverse_rows/ 1
        proof {
            if error is Some { let k = choose|k: int| #![trigger w[k]] 0 <= k < w.len() && w[k] is Err && w[k]->Err_0.0 == error->Some_0; let i = o.len() - 1 - k; assert(w.reverse()[i] == w[k]); }
            let rw = w.reverse(); assert(converted(conversion, o, rw)); assert forall|k: int| 0 <= k < w.len() implies rw[o.len() - 1 - k] == #[trigger] w[k] by { }
            assert forall|i: int| #![trigger rw[i]] 0 <= i < o.len() implies rows@[i] == left(rw[i]) && (error is None ==> rw[i] is Ok) by { let k = o.len() - 1 - i; assert(w[k] == rw[i]); }
            let res: TransRes<Vec<D>> = match error { None => Ok(rows), Some(err) => Err((err, rows)) };
            assert(left(res).all() =~= rows@);
            assert(converted(conversion, self.all(), rw) && collected(rw, left(res).all(), reason(res))); }
//@ end
}
/// An array in ManuallyDrop whose elements are read out with ptr::read: ASSUMED that this hands out the element; that no element is
/// handed out twice (which would be undefined behaviour) is proved.
pub struct Parts<S, const N: usize> { a: [S; N] }
impl<S, const N: usize> Parts<S, N> {
    pub uninterp spec fn all(&self) -> Seq<S>;
    pub uninterp spec fn taken(&self) -> Set<int>;
    #[verifier::external_body]
    fn take(&mut self, i: usize) -> (r: S)
        requires i < old(self).all().len(), !old(self).taken().contains(i as int),
        ensures r == old(self).all()[i as int], final(self).all() == old(self).all(), final(self).taken() == old(self).taken().insert(i as int),
    { unimplemented!() }
}
#[verifier::external_body]
fn parts_of<S, const N: usize>(a: [S; N]) -> (r: Parts<S, N>) ensures r.all() == a@, r.taken() == Set::<int>::empty() { unimplemented!() }
//@ for N = 2 3 4
impl<S, D> TransformContent<S, D> for [S; @N@] {
    type Output = [D; @N@];
//@ extract file=matrix/src/lib.rs fn=transform impl="for\s\[S;\s@N@\]" loops=0
//@ rewrite_sig? /mut conversion/
conversion
//@ rewrite_sig? /FnMut/
Fn
//@ rewrite? /let self_forget = ManuallyDrop::new\(self\);/
let mut self_forget = parts_of(self);
//@ rewrite? /ptr::read\(&self_forget\[(\d)\]\)/
self_forget.take(\1)
//@ rewrite? /\bunsafe \{/
{
//@ end
//@ extract file=matrix/src/lib.rs fn=transform_res impl="for\s\[S;\s@N@\]" loops=0
//@ expand try_conv
//@ rewrite_sig? /mut conversion/
conversion
//@ rewrite_sig? /FnMut/
Fn
//@ rewrite? /let self_forget = ManuallyDrop::new\(self\);/
let mut self_forget = parts_of(self);
//@ rewrite? /ptr::read\(&self_forget\[(\d)\]\)/
self_forget.take(\1)
//@ rewrite? /\bunsafe \{/
{
//@ rewrite? /let mut error = None;/
let mut error: Option<ErrorReason> = None;
//@ rewrite? /let res = conversion\((.*?)\);/
let res = conversion(\1); proof { w = w.push(res); }
//@ body_start
        let ghost mut w: Seq<TransRes<D>> = Seq::empty();
        proof { assert(self.all() == self@); }
//@ before /match error/ 1
            proof { assert(converted(conversion, self.all(), w)); assert(w[0] == w[0] && w[1] == w[1] && w[@N@ - 1] == w[@N@ - 1]); }
//@ end
}
//@ endfor
/// MatrixMxN, Matrix2xN, Matrix3xN and Matrix4xN differ in nothing but the container of their rows; `$matrix` of the macros stands for this.
pub struct AnyMatrix<C, V, S, T> {
    pub rows: C,
    pub storage_type: marker::PhantomData<S>,
    pub number_type: marker::PhantomData<T>,
    pub row_type: marker::PhantomData<V>,
}
pub trait Matrix<V, T> {
    spec fn all(&self) -> Seq<V>;
    fn rows(&self) -> (r: &[V]) ensures r@ == self.all();
    fn rows_mut(&mut self) -> (r: &mut [V]) ensures r@ == old(self).all(), final(self).all() == final(r)@;
}
/// every row did the operation with the same arguments
pub open spec fn all_did<V, A>(op: Op, o: Seq<V>, a: A, n: Seq<V>) -> bool {
    n.len() == o.len() && forall|i: int| #![trigger n[i]] #![trigger o[i]] 0 <= i < o.len() ==> did(op, o[i], a, n[i])
}
/// the rows before one of them did the operation, that one refused
pub open spec fn stopped<V, A>(op: Op, o: Seq<V>, a: A, n: Seq<V>, e: ErrorReason) -> bool {
    exists|k: int| #![trigger n[k]] 0 <= k < o.len() && failed(op, o[k], a, e, n[k]) && forall|i: int| #![trigger n[i]] #![trigger o[i]] 0 <= i < k ==> did(op, o[i], a, n[i])
}
/// every row did the operation with the row of the same number of the other matrix
pub open spec fn pairs_did<V, A>(op: Op, o: Seq<V>, a: Seq<A>, n: Seq<V>) -> bool {
    forall|i: int| #![trigger n[i]] #![trigger o[i]] #![trigger a[i]] 0 <= i < o.len() && i < a.len() ==> did(op, o[i], &a[i], n[i])
}
pub open spec fn pairs_stopped<V, A>(op: Op, o: Seq<V>, a: Seq<A>, n: Seq<V>, e: ErrorReason) -> bool {
    exists|k: int| #![trigger n[k]] 0 <= k < o.len() && k < a.len() && failed(op, o[k], &a[k], e, n[k]) && forall|i: int| #![trigger n[i]] #![trigger o[i]] 0 <= i < k ==> did(op, o[i], &a[i], n[i])
}
impl<C: Rows<V>, V: Vector<T>, S, T: RealNumber> Matrix<V, T> for AnyMatrix<C, V, S, T> {
    open spec fn all(&self) -> Seq<V> { self.rows.all() }
//@ extract file=matrix/src/mat_impl.rs fn=rows impl="Matrix<V,\sT>\sfor"
//@ rewrite? /&self\.rows\[\.\.\]/
self.rows.view_all()
//@ end
//@ extract file=matrix/src/mat_impl.rs fn=rows_mut impl="Matrix<V,\sT>\sfor"
//@ rewrite? /&mut self\.rows\[\.\.\]/
self.rows.view_all_mut()
//@ end
}
impl<C: Rows<V>, V: Vector<T>, S, T: RealNumber> AnyMatrix<C, V, S, T> {
//@ for file f nth as a = |
//@| real.rs | abs | 1 | abs | ()
//@| real.rs | ln_approx | 1 | ln_approx | ()
//@| real.rs | exp_approx | 1 | exp_approx | ()
//@| real.rs | sin_approx | 1 | sin_approx | ()
//@| real.rs | cos_approx | 1 | cos_approx | ()
//@| real.rs | wrap | 1 | wrap | divisor
//@| real.rs | unwrap | 1 | unwrap | divisor
//@| real.rs | log_approx | 1 | log_approx | base
//@| real.rs | expf_approx | 1 | expf_approx | base
//@| real.rs | powf_approx | 1 | powf_approx | exponent
//@| complex.rs | multiply_complex_exponential | 1 | multiply_complex_exponential | (a, b)
//@| complex.rs | conj | 1 | conj | ()
//@| general/elementary.rs | scale | 1 | scale | factor
//@| general/elementary.rs | scale | 2 | c_scale | factor
//@| general/elementary.rs | offset | 1 | offset | offset
//@| general/elementary.rs | offset | 2 | c_offset | offset
//@| general/elementary.rs | reverse | 1 | reverse | ()
//@| general/elementary.rs | swap_halves | 1 | swap_halves | ()
//@| general/elementary.rs | diff | 1 | diff | ()
//@| general/elementary.rs | diff_with_start | 1 | diff_with_start | ()
//@| general/elementary.rs | cum_sum | 1 | cum_sum | ()
//@| general/elementary.rs | sin | 1 | sin | ()
//@| general/elementary.rs | cos | 1 | cos | ()
//@| general/elementary.rs | tan | 1 | tan | ()
//@| general/elementary.rs | asin | 1 | asin | ()
//@| general/elementary.rs | acos | 1 | acos | ()
//@| general/elementary.rs | atan | 1 | atan | ()
//@| general/elementary.rs | sinh | 1 | sinh | ()
//@| general/elementary.rs | cosh | 1 | cosh | ()
//@| general/elementary.rs | tanh | 1 | tanh | ()
//@| general/elementary.rs | asinh | 1 | asinh | ()
//@| general/elementary.rs | acosh | 1 | acosh | ()
//@| general/elementary.rs | atanh | 1 | atanh | ()
//@| general/elementary.rs | sqrt | 1 | sqrt | ()
//@| general/elementary.rs | square | 1 | square | ()
//@| general/elementary.rs | ln | 1 | ln | ()
//@| general/elementary.rs | exp | 1 | exp | ()
//@| general/elementary.rs | root | 1 | root | degree
//@| general/elementary.rs | powf | 1 | powf | exponent
//@| general/elementary.rs | log | 1 | log | base
//@| general/elementary.rs | expf | 1 | expf | base
//@| general/elementary.rs | map_inplace | 1 | map_inplace | (argument, &map)
//@| general/elementary.rs | map_inplace | 2 | c_map_inplace | (argument, &map)
//@| time_freq.rs | mirror | 1 | mirror | ()
//@| time_freq.rs | fft_shift | 1 | fft_shift | ()
//@| time_freq.rs | ifft_shift | 1 | ifft_shift | ()
//@| time_freq.rs | apply_window | 1 | apply_window | window
//@| time_freq.rs | unapply_window | 1 | unapply_window | window
//@| time_freq.rs | interpolatef | 1 | interpolatef | (function, interpolation_factor, delay, conv_len)
//@| time_freq.rs | interpft | 1 | interpft | dest_points
//@| time_freq.rs | decimatei | 1 | decimatei | (decimation_factor, delay)
//@| time_freq.rs | interpolate_hermite | 1 | interpolate_hermite | (interpolation_factor, delay)
//@| time_freq.rs | interpolate_lin | 1 | interpolate_lin | (interpolation_factor, delay)
//@| time_freq.rs | convolve | 1 | convolve | (impulse_response, ratio, len)
//@| time_freq.rs | multiply_frequency_response | 1 | multiply_frequency_response | (frequency_response, ratio)
//@| time_freq.rs | convolve | 2 | c_convolve | (impulse_response, ratio, len)
//@| time_freq.rs | multiply_frequency_response | 2 | c_multiply_frequency_response | (frequency_response, ratio)
//@| mat_impl.rs | set_delta | 1 | set_delta | delta
//@ extract file=matrix/src/@file@ fn=@f@ as=@as@ nth=@nth@ loops=1
//@ rewrite? /for (\w+) in self\.rows_mut\(\) \{/
for \1 in self.rows_mut().iter_mut() {
//@ rewrite? /for (\w+) in &mut self\.rows\[\.\.\] \{/
for \1 in self.rows.view_all_mut().iter_mut() {
//@ rewrite_sig? /where B: for<'b> Buffer<'b, S, T>/
//@ rewrite_sig? /&'a dyn/
&dyn
//@ spec
        ensures all_did(Op::@f@, old(self).all(), @a@, final(self).all()),
//@ body_start
        let ghost o = self.all();
//@ loop 1 iter it
            invariant
                it.seq().len() == o.len(),
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < o.len() ==> *(it.seq()[k]) == o[k],
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> did(Op::@f@, o[k], @a@, *final(it.seq()[k])),
//@ end
//@ endfor
// fallible operations with the same argument for every row
//@ for file f nth as a = |
//@| mat_impl.rs | resize | 1 | resize | len
//@| general/elementary.rs | add | 2 | add_vec | summand
//@| general/elementary.rs | sub | 2 | sub_vec | summand
//@| general/elementary.rs | mul | 2 | mul_vec | summand
//@| general/elementary.rs | div | 2 | div_vec | summand
//@| general/elementary.rs | add_smaller | 2 | add_smaller_vec | summand
//@| general/elementary.rs | sub_smaller | 2 | sub_smaller_vec | summand
//@| general/elementary.rs | mul_smaller | 2 | mul_smaller_vec | summand
//@| general/elementary.rs | div_smaller | 2 | div_smaller_vec | summand
//@| time_freq.rs | interpolatei | 1 | interpolatei | (function, interpolation_factor)
//@| time_freq.rs | interpolate | 1 | interpolate | (function, dest_points, delay)
//@| time_freq.rs | convolve_signal | 1 | convolve_signal_vec | impulse_response
//@ extract file=matrix/src/@file@ fn=@f@ as=@as@ nth=@nth@ loops=1
//@ ret r
//@ rewrite? /for (\w+) in self\.rows_mut\(\) \{/
for \1 in self.rows_mut().iter_mut() {
//@ rewrite? /for (\w+) in &mut self\.rows\[\.\.\] \{/
for \1 in self.rows.view_all_mut().iter_mut() {
//@ rewrite_sig? /where B: for<'b> Buffer<'b, S, T>/
//@ rewrite_sig? /DspVec<S, T, N, D>/
V
//@ spec
        ensures
            final(self).all().len() == old(self).all().len(),
            r is Ok ==> all_did(Op::@f@, old(self).all(), @a@, final(self).all()),
            r is Err ==> stopped(Op::@f@, old(self).all(), @a@, final(self).all(), r->Err_0),
//@ body_start
        let ghost o = self.all();
//@ loop 1 iter it
            invariant
                it.seq().len() == o.len(),
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < o.len() ==> *(it.seq()[k]) == o[k],
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> did(Op::@f@, o[k], @a@, *final(it.seq()[k])),
//@ end
//@ endfor
// two matrices, row by row
//@ for file f nth as a other = |
//@| general/elementary.rs | add | 1 | add | summand | summand
//@| general/elementary.rs | sub | 1 | sub | summand | summand
//@| general/elementary.rs | mul | 1 | mul | summand | summand
//@| general/elementary.rs | div | 1 | div | summand | summand
//@| general/elementary.rs | add_smaller | 1 | add_smaller | summand | summand
//@| general/elementary.rs | sub_smaller | 1 | sub_smaller | summand | summand
//@| general/elementary.rs | mul_smaller | 1 | mul_smaller | summand | summand
//@| general/elementary.rs | div_smaller | 1 | div_smaller | summand | summand
//@| time_freq.rs | correlate | 1 | correlate | other | other
//@ extract file=matrix/src/@file@ fn=@f@ as=@as@ nth=@nth@ loops=1
//@ ret r
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite? /for \((\w+), (\w+)\) in self\.rows_mut\(\)\.iter_mut\(\)\.zip\(@other@\.rows\(\)\) \{/
for vo in zip_of(self.rows_mut().iter_mut(), @other@.rows().iter()) { let (\1, \2) = vo;
//@ rewrite_sig? /where B: for<'b> Buffer<'b, S, T>/
//@ rewrite_sig? /correlate<B>/
correlate<B, O: Matrix<V, T>>
//@ spec
        ensures
            final(self).all().len() == old(self).all().len(),
            r is Ok ==> pairs_did(Op::@f@, old(self).all(), @other@.all(), final(self).all()),
            r is Err ==> pairs_stopped(Op::@f@, old(self).all(), @other@.all(), final(self).all(), r->Err_0),
//@ body_start
        let ghost o1 = self.all();
        let ghost o2 = @other@.all();
//@ loop 1 iter it
            invariant
                it.seq().len() == if o1.len() < o2.len() { o1.len() } else { o2.len() },
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.seq().len() ==> *(it.seq()[k].0) == o1[k] && *(it.seq()[k].1) == o2[k],
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> did(Op::@f@, o1[k], it.seq()[k].1, *final(it.seq()[k].0)),
//@ end
//@ endfor
// getters into and setters from other matrices
//@ for f = get_real get_imag get_magnitude get_magnitude_squared get_phase
//@ extract file=matrix/src/complex.rs fn=@f@ loops=1
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite? /for \((\w+), (\w+)\) in destination\.rows_mut\(\)\.iter_mut\(\)\.zip\(self\.rows\(\)\) \{/
for ov in zip_of(destination.rows_mut().iter_mut(), self.rows().iter()) { let (\1, \2) = ov;
//@ rewrite_sig /fn (\w+)\(&self, destination: &mut O\)/
fn \1<O: Matrix<V, T>>(&self, destination: &mut O)
//@ spec
        ensures
            final(destination).all().len() == old(destination).all().len(),
            forall|i: int| #![trigger final(destination).all()[i]] 0 <= i < self.all().len() && i < final(destination).all().len() ==> did(Op::@f@, old(destination).all()[i], self.all()[i], final(destination).all()[i]),
//@ body_start
        let ghost o1 = destination.all();
        let ghost o2 = self.all();
//@ loop 1 iter it
            invariant
                it.seq().len() == if o1.len() < o2.len() { o1.len() } else { o2.len() },
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.seq().len() ==> *(it.seq()[k].0) == o1[k] && *(it.seq()[k].1) == o2[k],
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> did(Op::@f@, o1[k], o2[k], *final(it.seq()[k].0)),
//@ end
//@ endfor
//@ for f p q = get_real_imag:re_part:imag get_mag_phase:mag:phase
//@ extract file=matrix/src/complex.rs fn=@f@ loops=1
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite? /\breal\b/
re_part
//@ rewrite_sig? /\breal\b/
re_part
//@ rewrite? /for \(\((\w+), (\w+)\), (\w+)\) in @p@\.rows_mut\(\)\.iter_mut\(\)\s*\.zip\(@q@\.rows_mut\(\)\)\s*\.zip\(self\.rows\(\)\) \{/
for riv in zip_of(zip_of(@p@.rows_mut().iter_mut(), @q@.rows_mut().iter_mut()), self.rows().iter()) { let ((\1, \2), \3) = riv;
//@ rewrite_sig /fn (\w+)\(/
fn \1<O: Matrix<V, T>>(
//@ spec
        ensures
            final(@p@).all().len() == old(@p@).all().len(), final(@q@).all().len() == old(@q@).all().len(),
            forall|i: int| #![trigger final(@p@).all()[i]] #![trigger final(@q@).all()[i]] 0 <= i < self.all().len() && i < final(@p@).all().len() && i < final(@q@).all().len() ==>
                did(Op::@f@, (old(@p@).all()[i], old(@q@).all()[i]), self.all()[i], (final(@p@).all()[i], final(@q@).all()[i])),
//@ body_start
        let ghost o1 = @p@.all();
        let ghost o2 = @q@.all();
        let ghost o3 = self.all();
//@ loop 1 iter it
            invariant
                it.seq().len() == { let m = if o1.len() < o2.len() { o1.len() } else { o2.len() }; if m < o3.len() { m } else { o3.len() } },
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.seq().len() ==> *(it.seq()[k].0.0) == o1[k] && *(it.seq()[k].0.1) == o2[k] && *(it.seq()[k].1) == o3[k],
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> did(Op::@f@, (o1[k], o2[k]), o3[k], (*final(it.seq()[k].0.0), *final(it.seq()[k].0.1))),
//@ end
//@ endfor
//@ for f p q = set_real_imag:re_part:imag set_mag_phase:mag:phase
//@ extract file=matrix/src/complex.rs fn=@f@ loops=1
//@ ret res
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite? /\breal\b/
re_part
//@ rewrite_sig? /\breal\b/
re_part
//@ rewrite? /for \(\((\w+), (\w+)\), (\w+)\) in self\.rows_mut\(\)\.iter_mut\(\)\s*\.zip\(@p@\.rows\(\)\)\s*\.zip\(@q@\.rows\(\)\) \{/
for vri in zip_of(zip_of(self.rows_mut().iter_mut(), @p@.rows().iter()), @q@.rows().iter()) { let ((\1, \2), \3) = vri;
//@ rewrite_sig /fn (\w+)\(/
fn \1<O: Matrix<V, T>>(
//@ spec
        ensures
            final(self).all().len() == old(self).all().len(),
            res is Ok ==> forall|i: int| #![trigger final(self).all()[i]] 0 <= i < final(self).all().len() && i < @p@.all().len() && i < @q@.all().len() ==>
                did(Op::@f@, old(self).all()[i], (&@p@.all()[i], &@q@.all()[i]), final(self).all()[i]),
            res is Err ==> exists|k: int| 0 <= k < final(self).all().len() && k < @p@.all().len() && k < @q@.all().len()
                && #[trigger] failed(Op::@f@, old(self).all()[k], (&@p@.all()[k], &@q@.all()[k]), res->Err_0, final(self).all()[k])
                && forall|i: int| #![trigger final(self).all()[i]] 0 <= i < k ==> did(Op::@f@, old(self).all()[i], (&@p@.all()[i], &@q@.all()[i]), final(self).all()[i]),
//@ body_start
        let ghost o1 = self.all();
        let ghost o2 = @p@.all();
        let ghost o3 = @q@.all();
//@ loop 1 iter it
            invariant
                it.seq().len() == { let m = if o1.len() < o2.len() { o1.len() } else { o2.len() }; if m < o3.len() { m } else { o3.len() } },
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.seq().len() ==> *(it.seq()[k].0.0) == o1[k] && *(it.seq()[k].0.1) == o2[k] && *(it.seq()[k].1) == o3[k],
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> did(Op::@f@, o1[k], (it.seq()[k].0.1, it.seq()[k].1), *final(it.seq()[k].0.0)),
//@ end
//@ endfor
// meta data
//@ for f as op R e = |
//@| domain | domain | domain | DataDomain | DataDomain::Time
//@| is_complex | is_complex | is_complex | bool | false
//@| delta | delta | delta | T | T::zero_spec()
//@| row_len | row_len | len | usize | 0usize
//@| row_points | row_points | points | usize | 0usize
//@ extract file=matrix/src/mat_impl.rs fn=@f@ impl="(MetaData|Matrix<V,\sT>)\sfor\s.matrix"
//@ ret r
//@ rewrite? /self\.rows\.len\(\)/
self.rows.count()
//@ rewrite? /self\.rows\[0\]/
self.rows.at(0)
//@ spec
        ensures r == if self.all().len() == 0 { @e@ } else { got::<V, @R@>(Op::@op@, self.all()[0]) },
//@ end
//@ endfor
//@ extract file=matrix/src/mat_impl.rs fn=col_len impl="Matrix<V,\sT>\sfor"
//@ ret r
//@ rewrite? /self\.rows\.len\(\)/
self.rows.count()
//@ spec
        ensures r == self.all().len(),
//@ end
//@ extract file=matrix/src/mat_impl.rs fn=get_meta_data
//@ ret r
//@ rewrite_sig /get_meta_data\(&self\) -> TypeMetaData<T, N, D>/
get_meta_data<R>(&self) -> R
//@ rewrite? /self\.rows\[0\]/
self.rows.at(0)
//@ spec
        requires self.all().len() > 0,
        ensures r == got::<V, R>(Op::get_meta_data, self.all()[0]),
//@ end
// conversions of every row
//@ for file f cargs a = |
//@| complex.rs | magnitude | () | ()
//@| complex.rs | magnitude_squared | () | ()
//@| complex.rs | to_real | () | ()
//@| complex.rs | to_imag | () | ()
//@| complex.rs | phase | () | ()
//@| complex.rs | magnitude_b | (buffer) | ()
//@| complex.rs | magnitude_squared_b | (buffer) | ()
//@| complex.rs | to_real_b | (buffer) | ()
//@| complex.rs | to_imag_b | (buffer) | ()
//@| complex.rs | phase_b | (buffer) | ()
//@| real.rs | to_complex_b | (buffer) | ()
//@| time_freq.rs | plain_fft | (buffer) | ()
//@| time_freq.rs | fft | (buffer) | ()
//@| time_freq.rs | windowed_fft | (buffer, window) | window
//@| time_freq.rs | plain_ifft | (buffer) | ()
//@| time_freq.rs | ifft | (buffer) | ()
//@| time_freq.rs | windowed_ifft | (buffer, window) | window
//@| time_freq.rs | prepare_argument | (buffer) | ()
//@| time_freq.rs | prepare_argument_padded | (buffer) | ()
//@ extract file=matrix/src/@file@ fn=@f@ loops=0
//@ ret r
//@ rewrite_sig? /\s*where B: for<'b> Buffer<'b, S, T>/
//@ rewrite_sig? /fn (\w+)<B>\(/
fn \1<B, R: Vector<T>>(
//@ rewrite_sig? /fn (\w+)\(/
fn \1<R: Vector<T>>(
//@ rewrite_sig /Self::\w+Result/
AnyMatrix<<C as TransformContent<V, R>>::Output, R, S, T> where C: TransformContent<V, R>
//@ rewrite? /\|(\w+)\|\s*\1\.(\w+)\((?:buffer)?\)\)/
|\1: V| -> (x: R) ensures gave(Op::\2, \1, (), x) { \1.\2() })
//@ rewrite? /\|(\w+)\|\s*\1\.(\w+)\(buffer, (\w+)\)\)/
|\1: V| -> (x: R) ensures gave(Op::\2, \1, \3, x) { \1.\2(\3) })
//@ rewrite? /\$matrix/
AnyMatrix
//@ rewrite? /number_type: marker::PhantomData/
number_type: marker::PhantomData, row_type: marker::PhantomData
//@ spec
        ensures all_gave(Op::@f@, self.all(), @a@, r.rows.all()),
//@ end
//@ endfor
//@ for file f a = |
//@| real.rs | to_complex | ()
//@| time_freq.rs | plain_sfft | ()
//@| time_freq.rs | sfft | ()
//@| time_freq.rs | windowed_sfft | window
//@| time_freq.rs | plain_sifft | ()
//@| time_freq.rs | sifft | ()
//@| time_freq.rs | windowed_sifft | window
//@ extract file=matrix/src/@file@ fn=@f@ loops=0
//@ ret r
//@ expand try_transform
//@ rewrite_sig? /\s*where B: for<'b> Buffer<'b, S, T>/
//@ rewrite_sig? /fn (\w+)<B>\(/
fn \1<B, R: Vector<T>>(
//@ rewrite_sig? /fn (\w+)\(/
fn \1<R: Vector<T>>(
//@ rewrite_sig /TransRes<Self::\w+Result>/
TransRes<AnyMatrix<<C as TransformContent<V, R>>::Output, R, S, T>> where C: TransformContent<V, R>
//@ rewrite? /\|(\w+)\|\s*\1\.(\w+)\((?:buffer)?\)\)/
|\1: V| -> (x: TransRes<R>) ensures gave(Op::\2, \1, (), x) { \1.\2() })
//@ rewrite? /\|(\w+)\|\s*\1\.(\w+)\(buffer, (\w+)\)\)/
|\1: V| -> (x: TransRes<R>) ensures gave(Op::\2, \1, \3, x) { \1.\2(\3) })
//@ rewrite? /\$matrix/
AnyMatrix
//@ rewrite? /number_type: marker::PhantomData/
number_type: marker::PhantomData, row_type: marker::PhantomData
//@ spec
        ensures exists|w: Seq<TransRes<R>>| #[trigger] all_gave(Op::@f@, self.all(), @a@, w) && collected(w, left(r).rows.all(), reason(r)),
//@ before /match/ 1
        proof {
            let n = left(rows).all();
            let e = reason(rows);
            let w = choose|w: Seq<TransRes<R>>| #[trigger] collected(w, n, e) && all_gave(Op::@f@, self.all(), @a@, w);
            assert(all_gave(Op::@f@, self.all(), @a@, w));
        }
//@ end
//@ endfor
}
/// every row's result of an operation that may refuse
pub open spec fn all_ok<V, A, R>(op: Op, o: Seq<V>, a: A, n: Seq<R>) -> bool {
    n.len() == o.len() && forall|i: int| #![trigger n[i]] #![trigger o[i]] 0 <= i < o.len() ==> gave(op, o[i], a, Ok::<R, ErrorReason>(n[i]))
}
/// the refusal of one of the rows
pub open spec fn one_err<V, A, R>(op: Op, o: Seq<V>, a: A, e: ErrorReason, r: Option<R>) -> bool {
    exists|i: int| #![trigger o[i]] 0 <= i < o.len() && gave(op, o[i], a, Err::<R, ErrorReason>(e))
}
/// the same of two matrices, row by row; as many results as there are rows in both
pub open spec fn pairs_ok<V, A, R>(op: Op, o: Seq<V>, a: Seq<A>, n: Seq<R>) -> bool {
    n.len() == (if o.len() < a.len() { o.len() } else { a.len() }) && forall|i: int| #![trigger n[i]] #![trigger o[i]] 0 <= i < n.len() ==> gave(op, o[i], &a[i], Ok::<R, ErrorReason>(n[i]))
}
pub open spec fn one_pair_err<V, A, R>(op: Op, o: Seq<V>, a: Seq<A>, e: ErrorReason, r: Option<R>) -> bool {
    exists|i: int| #![trigger o[i]] 0 <= i < o.len() && i < a.len() && gave(op, o[i], &a[i], Err::<R, ErrorReason>(e))
}
pub trait IntoFixedLength<T, O>: Sized {
    spec fn fits(&self) -> bool;
    spec fn same(&self, r: O) -> bool;
    fn into_fixed_length(self) -> (r: O) requires self.fits() ensures self.same(r);
}
impl<T> IntoFixedLength<T, Vec<T>> for Vec<T> {
    open spec fn fits(&self) -> bool { true }
    open spec fn same(&self, r: Vec<T>) -> bool { r@ == self@ }
//@ extract file=matrix/src/lib.rs fn=into_fixed_length impl="IntoFixedLength<T,\sVec<T>>"
//@ end
}
//@ for N = 2 3 4
impl<T> IntoFixedLength<T, [T; @N@]> for Vec<T> {
    open spec fn fits(&self) -> bool { self@.len() == @N@ }
    open spec fn same(&self, r: [T; @N@]) -> bool { r@ == self@ }
//@ extract file=matrix/src/lib.rs fn=into_fixed_length impl="IntoFixedLength<T,\s\[T;\s@N@\]>"
//@ rewrite_sig? /mut self/
self
//@ rewrite? /\bself\b/
me
//@ rewrite? /\[(\w+(?:, \w+)+)\]/
{ let r = [\1]; proof { assert(r@ =~= self@); } r }
//@ body_start
        let mut me = self;
//@ end
}
//@ endfor
//@ for M C O = |
//@| MatrixMxN | Vec<V> | Vec<R>
//@| Matrix2xN | [V; 2] | [R; 2]
//@| Matrix3xN | [V; 3] | [R; 3]
//@| Matrix4xN | [V; 4] | [R; 4]
impl<V: Vector<T>, S, T: RealNumber> AnyMatrix<@C@, V, S, T> {
//@ for f = statistics sum sum_sq statistics_prec sum_prec sum_sq_prec
//@ extract file=matrix/src/general/statistics.rs fn=@f@ impl="for\s@M@" loops=1
//@ ret r
//@ rewrite_sig /fn (\w+)\(/
fn \1<R>(
//@ rewrite_sig /->.*/
-> @O@
//@ rewrite? /for (\w+) in self\.rows\(\) \{/
for \1 in self.rows().iter() {
//@ spec
        ensures all_gave(Op::@f@, self.all(), (), r@),
//@ loop 1 iter it
            invariant
                it.seq().len() == self.all().len(), result@.len() == it.index(),
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < self.all().len() ==> *(it.seq()[k]) == self.all()[k],
                forall|k: int| #![trigger result@[k]] 0 <= k < result@.len() ==> gave(Op::@f@, self.all()[k], (), result@[k]),
//@ end
//@ endfor
//@ for f = statistics_split statistics_split_prec
//@ extract file=matrix/src/general/statistics.rs fn=@f@ impl="for\s@M@" loops=1
//@ ret r
//@ rewrite_sig /fn (\w+)\(/
fn \1<R>(
//@ rewrite_sig /->.*/
-> ScalarResult<@O@>
//@ rewrite? /for (\w+) in self\.rows\(\) \{/
for \1 in self.rows().iter() {
//@ spec
        ensures
            r is Ok ==> all_ok(Op::@f@, self.all(), len, r->Ok_0@),
            r is Err ==> one_err(Op::@f@, self.all(), len, r->Err_0, None::<R>),
//@ loop 1 iter it
            invariant
                it.seq().len() == self.all().len(), result@.len() == it.index(),
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < self.all().len() ==> *(it.seq()[k]) == self.all()[k],
                forall|k: int| #![trigger result@[k]] 0 <= k < result@.len() ==> gave(Op::@f@, self.all()[k], len, Ok::<R, ErrorReason>(result@[k])),
//@ end
//@ endfor
//@ for f = dot_product dot_product_prec
//@ extract file=matrix/src/general/mod.rs fn=@f@ impl="DotProductOps<V,.*for\s@M@" as=@f@_vec loops=1
//@ ret r
//@ rewrite_sig /fn (\w+)\(/
fn \1<R>(
//@ rewrite_sig /->.*/
-> ScalarResult<@O@>
//@ rewrite? /for (\w+) in self\.rows\(\) \{/
for \1 in self.rows().iter() {
//@ spec
        ensures
            r is Ok ==> all_ok(Op::@f@, self.all(), factor, r->Ok_0@),
            r is Err ==> one_err(Op::@f@, self.all(), factor, r->Err_0, None::<R>),
//@ loop 1 iter it
            invariant
                it.seq().len() == self.all().len(), result@.len() == it.index(),
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < self.all().len() ==> *(it.seq()[k]) == self.all()[k],
                forall|k: int| #![trigger result@[k]] 0 <= k < result@.len() ==> gave(Op::@f@, self.all()[k], factor, Ok::<R, ErrorReason>(result@[k])),
//@ end
//@ extract file=matrix/src/general/mod.rs fn=@f@ impl="DotProductOps<@M@.*for\s@M@" loops=1
//@ ret r
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite_sig /fn (\w+)\(&self, factor: &\w+<V, S, T>\)/
fn \1<R>(&self, factor: &Self)
//@ rewrite_sig /->.*/
-> ScalarResult<Vec<R>>
//@ rewrite? /for \((\w+), (\w+)\) in self\.rows\(\)\.iter\(\)\.zip\(factor\.rows\(\)\) \{/
for vo in zip_of(self.rows().iter(), factor.rows().iter()) { let (\1, \2) = vo;
//@ spec
        ensures
            r is Ok ==> pairs_ok(Op::@f@, self.all(), factor.all(), r->Ok_0@),
            r is Err ==> one_pair_err(Op::@f@, self.all(), factor.all(), r->Err_0, None::<R>),
//@ body_start
        let ghost o1 = self.all();
        let ghost o2 = factor.all();
//@ loop 1 iter it
            invariant
                o1 == self.all(), o2 == factor.all(), it.seq().len() == (if o1.len() < o2.len() { o1.len() } else { o2.len() }), result@.len() == it.index(),
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.seq().len() ==> *(it.seq()[k].0) == o1[k] && *(it.seq()[k].1) == o2[k],
                forall|k: int| #![trigger result@[k]] 0 <= k < result@.len() ==> gave(Op::@f@, o1[k], &o2[k], Ok::<R, ErrorReason>(result@[k])),
//@ end
//@ endfor
//@ extract file=matrix/src/general/mod.rs fn=map_aggregate impl="for\s@M@" loops=1
//@ ret r
//@ rewrite_sig /->\s*ScalarResult<.*?>\s*where/
-> ScalarResult<@O@> where
//@ rewrite_sig /<'a, A, FMap, FAggr>/
<'a, R, A, FMap, FAggr>
//@ rewrite? /for (\w+) in self\.rows\(\) \{/
for \1 in self.rows().iter() {
//@ spec
        ensures
            r is Ok ==> all_ok(Op::map_aggregate, self.all(), (argument, &map, &aggregate), r->Ok_0@),
            r is Err ==> one_err(Op::map_aggregate, self.all(), (argument, &map, &aggregate), r->Err_0, None::<R>),
//@ loop 1 iter it
            invariant
                it.seq().len() == self.all().len(), result@.len() == it.index(),
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < self.all().len() ==> *(it.seq()[k]) == self.all()[k],
                forall|k: int| #![trigger result@[k]] 0 <= k < result@.len() ==> gave(Op::map_aggregate, self.all()[k], (argument, &map, &aggregate), Ok::<R, ErrorReason>(result@[k])),
//@ end
}
//@ endfor
// rededication
//@ for f a = |
//@| rededicate_from_force | ()
//@| rededicate_with_runtime_data | (is_complex, domain)
//@ extract file=matrix/src/rededicate.rs fn=@f@ loops=0
//@ ret r
//@ rewrite_sig? /\$matrix<O, S, T>/
AnyMatrix<C, O, S, T>
//@ rewrite_sig? /fn (\w+)\(/
fn \1<C: TransformContent<O, V>, O: Vector<T>, V: Vector<T>, S, T: RealNumber>(
//@ rewrite_sig /Self/
AnyMatrix<<C as TransformContent<O, V>>::Output, V, S, T>
//@ rewrite? /transform\(\s*V::rededicate_from_force\)/
transform(|v: O| -> (x: V) ensures gave(Op::rededicate_from_force, v, (), x) { V::rededicate_from_force(v) })
//@ rewrite? /transform\(\s*\|v\|\s*V::rededicate_with_runtime_data\(v, (\w+), (\w+)\)\)/
transform(|v: O| -> (x: V) ensures gave(Op::rededicate_with_runtime_data, v, (\1, \2), x) { V::rededicate_with_runtime_data(v, \1, \2) })
//@ rewrite? /\$matrix/
AnyMatrix
//@ rewrite? /number_type: marker::PhantomData/
number_type: marker::PhantomData, row_type: marker::PhantomData
//@ spec
        ensures all_gave(Op::@f@, origin.rows.all(), @a@, r.rows.all()),
//@ end
//@ endfor
// to and from matrices
//@ for M k CS CV CX = |
//@| MatrixMxN | mxn | Vec<S> | Vec<V> | Vec<S>
//@| Matrix2xN | 2xn | [S; 2] | [V; 2] | \[S;\s2\]
//@| Matrix3xN | 3xn | [S; 3] | [V; 3] | \[S;\s3\]
//@| Matrix4xN | 4xn | [S; 4] | [V; 4] | \[S;\s4\]
pub type @M@<V, S, T> = AnyMatrix<@CV@, V, S, T>;
//@ extract file=matrix/src/to_from_mat_conversions.rs fn=to_mat_@k@ loops=0
//@ ret r
//@ rewrite_sig? /\s*S: ToSlice<T>,/
//@ rewrite? /number_type: marker::PhantomData/
number_type: marker::PhantomData, row_type: marker::PhantomData
//@ spec
        requires forall|x: S| #[trigger] call_requires(conversion, (x,)),
        ensures converted(conversion, source.all(), r.rows.all()),
//@ end
//@ for f v = to_real_time:to_real_time_vec to_real_freq:to_real_freq_vec to_complex_time:to_complex_time_vec
//@ extract file=matrix/src/to_from_mat_conversions.rs fn=@f@_mat impl="for\s@CX@" as=@f@_mat_@k@ loops=0
//@ ret r
//@ rewrite_sig? /fn (\w+)\(self\) -> Self::Output/
fn \1<S: Vector<T>, V: Vector<T>, T: RealNumber>(me: @CS@) -> @M@<V, S, T>
//@ rewrite? /\bself\b/
me
//@ rewrite? /\|v\| v\.(\w+)\(\)/
|v: S| -> (x: V) ensures gave(Op::\1, v, (), x) { v.\1() }
//@ spec
        ensures all_gave(Op::@v@, me.all(), (), r.rows.all()),
//@ end
//@ endfor
//@ extract file=matrix/src/to_from_mat_conversions.rs fn=to_gen_dsp_mat impl="for\s@CX@" as=to_gen_dsp_mat_@k@ loops=0
//@ ret r
//@ rewrite_sig? /fn (\w+)\(self, (.*)\) -> Self::Output/
fn \1<S: Vector<T>, V: Vector<T>, T: RealNumber>(me: @CS@, \2) -> @M@<V, S, T>
//@ rewrite? /\bself\b/
me
//@ rewrite? /\|v\| v\.(\w+)\((\w+), (\w+)\)/
|v: S| -> (x: V) ensures gave(Op::\1, v, (\2, \3), x) { v.\1(\2, \3) }
//@ spec
        ensures all_gave(Op::to_gen_dsp_vec, me.all(), (is_complex, domain), r.rows.all()),
//@ end
//@ endfor
//@ for M k CV CD = |
//@| MatrixMxN | mxn | Vec<V> | Vec<DspVec<S,\sT,\sN,\sD>>
//@| Matrix2xN | 2xn | [V; 2] | \[DspVec<S,\sT,\sN,\sD>;\s2\]
//@| Matrix3xN | 3xn | [V; 3] | \[DspVec<S,\sT,\sN,\sD>;\s3\]
//@| Matrix4xN | 4xn | [V; 4] | \[DspVec<S,\sT,\sN,\sD>;\s4\]
//@ extract file=matrix/src/to_from_mat_conversions.rs fn=to_mat impl="for\s@CD@" as=to_mat_rows_@k@ loops=0
//@ ret r
//@ rewrite_sig? /fn (\w+)\(self\) -> Self::Output/
fn \1<V: Vector<T>, S, T: RealNumber>(me: @CV@) -> @M@<V, S, T>
//@ rewrite? /\bself\b/
me
//@ rewrite? /number_type: marker::PhantomData/
number_type: marker::PhantomData, row_type: marker::PhantomData
//@ spec
        ensures r.rows.all() == me.all(),
//@ end
//@ extract file=matrix/src/to_from_mat_conversions.rs fn=get impl="FromMatrix<T>\sfor\s@M@" as=get_@k@ loops=0
//@ ret r
//@ rewrite_sig? /fn (\w+)\(self\) -> \(Self::Output, usize\)/
fn \1<V: Vector<T>, S, T: RealNumber>(me: @M@<V, S, T>) -> (@CV@, usize)
//@ rewrite? /\bself\b/
me
//@ spec
        ensures r.0.all() == me.rows.all(), me.rows.all().len() > 0 ==> r.1 == got::<V, usize>(Op::len, me.rows.all()[0]),
//@ end
//@ endfor
} // verus!
fn main() {}
