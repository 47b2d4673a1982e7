//@ unit-props C11 C20
//@ unit-title choice of the convolution algorithm
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::marker::PhantomData;
use std::slice::IterMut;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include mark contracts
//@ include iters
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include cparts
//@ include changed
//@ include other
//@ include points
//@ include wrapit contracts
//@ include convspec
//@ include fundot
//@ include simdgen
//@ include conviter contracts
//@ include funconv
//@ include convscalar contracts
//@ include shifted contracts
//@ include simdconv contracts
//@ include simdconvimpl contracts
// ASSUMED: no GPU, as it is without the feature `use_gpu` (which is not built here)
#[verifier::external_body]
fn gpu_present<T>() -> (r: bool) ensures !r { unimplemented!() }
#[verifier::external_body]
fn gpu_convolved<T>(c: bool, source: &[T], target: &mut [T], imp: &[T]) -> Option<Range<usize>> requires false { unimplemented!() }
//@ include rustfft
//@ include overlap contracts
/// the convolution in frequency domain: every point is the one of the definition or the same point of a block of n points which is convolved with the transform
pub open spec fn spectral_convolved<T: RealNumber>(x: Seq<Complex<T>>, h: Seq<Complex<T>>, y: Seq<Complex<T>>) -> bool { exists|n: int| #[trigger] block_convolved(x, h, n, y) }
//@ include vectorimpl
/// the reasons for which a vector can not be convolved with an impulse response
pub open spec fn conv_checked<S: ToSlice<T>, T: RealNumber, N: NumberSpace, D: Domain, O: Vector<T>>(a: &DspVec<S, T, N, D>, b: &O) -> VoidResult {
    if !meta_agrees(a, b) { Err(ErrorReason::InputMetaDataMustAgree) }
    else if a.freq() { Err(ErrorReason::InputMustBeInTimeDomain) }
    else if a.vlen() as int / a.step() < b.ov().len() as int / a.step() { Err(ErrorReason::InvalidArgumentLength) }
    else { Ok(()) }
}
/// The convolution, by whatever algorithm: the sum of the definition; the same sum made in registers; or, for long complex signals, the one of the frequency domain
pub open spec fn signal_convolved<T: RealNumber>(cplx: bool, x: Seq<T>, h: Seq<T>, y: Seq<T>) -> bool {
    y.len() == x.len() && if cplx {
        convolved(cseq(x), cseq(h), cseq(y)) || (x.len() > 1000 && h.len() <= 202 && exists|l: int| #[trigger] simd_convolved::<T, Complex<T>>(x, h, l, y)) || (x.len() > 10000 && h.len() > 15 && x.len() > 10 * h.len() && spectral_convolved(cseq(x), cseq(h), cseq(y)))
    } else {
        convolved(x, h, y) || (x.len() > 1000 && h.len() <= 202 && exists|l: int| #[trigger] simd_convolved::<T, T>(x, h, l, y))
    }
}
/// ASSUMED here: an inline vector as storage; discharged for its functions in the units inline and storage
impl<T: RealNumber> ToSlice<T> for InlineVector<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    uninterp spec fn cap(&self) -> nat;
    #[verifier::external_body] fn alloc_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn to_slice(&self) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn try_resize(&mut self, len: usize) -> (r: VoidResult) { unimplemented!() }
}
impl<T: RealNumber> ToSliceMut<T> for InlineVector<T> {
    #[verifier::external_body] fn to_slice_mut(&mut self) -> (r: &mut [T]) { unimplemented!() }
}
#[verifier::external_body]
fn default_settings() -> MultiCoreSettings { unimplemented!() }
#[verifier::external_body]
fn largest_inline<T>() -> usize { unimplemented!() }
//@ include impresp
/// ASSUMED: the comparisons of floats with the literals 1e-6 and 0.5 and with one
pub uninterp spec fn negligible_p<T>(x: T) -> bool;
pub uninterp spec fn over_half_p<T>(x: T) -> bool;
pub uninterp spec fn is_one_p<T>(x: T) -> bool;
#[verifier::external_body]
fn negligible<T: RealNumber>(x: T) -> (r: bool) ensures r == negligible_p(x) { unimplemented!() }
#[verifier::external_body]
fn over_half<T: RealNumber>(x: T) -> (r: bool) ensures r == over_half_p(x) { unimplemented!() }
#[verifier::external_body]
fn is_one<T: RealNumber>(x: T) -> (r: bool) ensures r == is_one_p(x) { unimplemented!() }
/// ASSUMED of the floats: a positive number whose inverse is not further than 1e-6 away from one rounds to one; the quotient of a number with itself is one or not a number, so it is neither above 1.1 nor below 0.9
#[verifier::external_body]
proof fn axiom_one<T: RealNumber>(x: T)
    ensures
        quick_ratio(x) ==> whole(math(Fun::Round, math(Fun::Abs, x))) == Some(1int),
        !exceeds_p(x.div_spec(x)) && !falls_below_p(x.div_spec(x)),
{}
pub open spec fn quick_ratio<T: RealNumber>(ratio: T) -> bool {
    let inv = T::one_spec().div_spec(ratio);
    negligible_p(math(Fun::Round, inv).sub_spec(inv)) && is_one_p(math(Fun::Round, inv)) && over_half_p(ratio)
}
/// long vectors, short responses and a ratio of one take the path of convolve_signal
pub open spec fn quick<T: RealNumber>(n: int, l: int, ratio: T) -> bool { l <= 202 && n > 2000 && quick_ratio(ratio) }
//@ extract file=vector/src/vector_types/time_freq/convolution.rs fn=would_benefit_from_simd
//@ ret r
//@ rewrite? /\((ratio_inv\.round\(\) - ratio_inv)\)\.abs\(\) < T::from\(1e-6\)\.unwrap\(\)/
negligible(\1)
//@ rewrite? /ratio > T::from\(0\.5\)\.unwrap\(\)/
over_half(ratio)
//@ rewrite? /ratio_inv\.round\(\) == T::one\(\)/
is_one(ratio_inv.round())
//@ spec
    requires arith::<T>(),
    ensures r == quick(vec_len as int, imp_len as int, ratio),
//@ end
//@ extract file=vector/src/vector_types/time_freq/convolution.rs fn=can_use_simd
//@ rewrite? /InlineVector::<T>::max_capacity\(\)/
largest_inline::<T>()
//@ end
//@ extract file=vector/src/vector_types/time_freq/convolution.rs fn=calc_points
//@ ret r
//@ rewrite? /\.expect\("[^"]*"\)/
.unwrap()
//@ spec
    requires imp_len <= 0x10_0000, match whole(math(Fun::Round, math(Fun::Abs, ratio))) { Some(n) => 0 <= n <= 0x10_0000, None => false },
    ensures r == (if is_complex { 2int } else { 1 }) * (2 * imp_len + 1) * whole(math(Fun::Round, math(Fun::Abs, ratio))).unwrap(),
//@ body_start
    proof {
        let n = whole(math(Fun::Round, math(Fun::Abs, ratio))).unwrap();
        assert((2 * imp_len + 1) * n <= 0x20_0001 * 0x10_0000 && 0 <= (2 * imp_len + 1) * n && 2 * (2 * imp_len + 1) * n == 2 * ((2 * imp_len + 1) * n)) by (nonlinear_arith) requires 0 <= imp_len <= 0x10_0000, 0 <= n <= 0x10_0000;
        assert(1 * (2 * imp_len + 1) * n == (2 * imp_len + 1) * n) by (nonlinear_arith);
    }
//@ end
/// start, start + 1, ... counted in floats
pub open spec fn ticks<T: RealNumber>(start: T, k: int) -> T
    decreases k
{ if k <= 0 { start } else { ticks(start, k - 1).add_spec(T::one_spec()) } }
/// the values of the function at -l / ratio, (-l + 1) / ratio, ...
pub open spec fn samples_of<T: RealNumber, TT>(f: spec_fn(T) -> TT, l: int, ratio: T) -> Seq<TT> {
    Seq::new((2 * l + 1) as nat, |k: int| f(ticks(num_of::<T>(l).neg_spec(), k).mul_spec(T::one_spec().div_spec(ratio))))
}
/// the values of the functions
pub open spec fn real_fun<T: RealNumber>(f: &dyn RealImpulseResponse<T>) -> spec_fn(T) -> T { |x: T| f.value(x) }
pub open spec fn complex_fun<T: RealNumber>(f: &dyn ComplexImpulseResponse<T>) -> spec_fn(T) -> Complex<T> { |x: T| f.value(x) }
pub open spec fn widened<T: RealNumber>(f: &dyn RealImpulseResponse<T>) -> spec_fn(T) -> Complex<T> { |x: T| Complex { re: f.value(x), im: T::zero_spec() } }
/// every point is the sum of the neighbours weighted with the values of the function at their distances times the ratio
pub open spec fn response_convolved<T: RealNumber, TT: Ring>(f: spec_fn(T) -> TT, x: Seq<TT>, l: int, ratio: T, y: Seq<TT>) -> bool {
    y.len() == x.len() && forall|i: int| #![trigger y[i]] 0 <= i < x.len() ==> y[i] == fun_dot(x, Seq::new((2 * l + 1) as nat, |k: int| f(step_at::<T>(k, l).neg_spec().mul_spec(ratio))), i - l, (2 * l + 1) as nat)
}
proof fn lemma_response<T: RealNumber, TT: Ring, F: Fn(T) -> TT>(fun: F, f: spec_fn(T) -> TT, x: Seq<TT>, l: int, ratio: T, y: Seq<TT>)
    requires fun_convolved(fun, x, l, ratio, y), l >= 0, forall|a: T, r: TT| #[trigger] call_ensures(fun, (a,), r) ==> r == f(a),
    ensures response_convolved(f, x, l, ratio, y),
{
    let v = Seq::new((2 * l + 1) as nat, |k: int| f(step_at::<T>(k, l).neg_spec().mul_spec(ratio)));
    assert forall|i: int| #![trigger y[i]] 0 <= i < x.len() implies y[i] == fun_dot(x, v, i - l, (2 * l + 1) as nat) by {
        let w = choose|w: Seq<TT>| #[trigger] fun_weights(fun, l, ratio, w) && y[i] == fun_dot(x, w, i - l, (2 * l + 1) as nat);
        assert(w =~= v);
    }
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
    #[verifier::external_body]
    fn convolve_vector_range<O>(&self, target: &mut [T], vector: &O, range: Range<usize>) requires false { unimplemented!() }
//@ extract file=vector/src/vector_types/time_freq/convolution.rs fn=convolve_signal impl="ConvolutionOps<DspVec<SO,\sT,\sNO,\sDO>,\sS,\sT,\sNO,\sDO>"
//@ ret r
//@ expand assert_meta_data
//@ rewrite_sig /fn convolve_signal<B>/
fn convolve_signal<Reg: SimdGeneric<T>, SO, NO, DO, B>
//@ rewrite_sig? /B: for<'a> Buffer<'a, S, T>/
SO: ToSliceMut<T>, NO: NumberSpace, DO: Domain, B: Buffer<S, T>
//@ rewrite? /sel_reg!\(\s*self\.(\w+)::<T>\((.*?)\)\s*\)/
self.\1(RegType::<Reg>::new(), \2)
//@ rewrite? /(\w+) > T::from\(1\.1\)\.unwrap\(\)/
exceeds(\1)
//@ rewrite? /(\w+) < T::from\(0\.9\)\.unwrap\(\)/
falls_below(\1)
//@ rewrite? /T::has_gpu_support\(\)/
gpu_present::<T>()
//@ rewrite? /T::gpu_convolve_vector\(/
gpu_convolved::<T>(
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), impulse_response.wf(), impulse_response.vlen() <= max_len(), arith::<T>(),
        ensures
            r == conv_checked(old(self), impulse_response),
            r is Err ==> *final(self) == *old(self),
            final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() >= final(self).vlen(),
            r is Ok ==> signal_convolved(old(self).cplx(), old(self)@, impulse_response@, final(self)@),
//@ body_start
        let ghost o = *self;
        proof { assert(impulse_response.ov() =~= impulse_response@); Reg::laws(); }
//@ end
    /// ASSUMED here, discharged in unit vecops (data_mut)
    #[verifier::external_body]
    fn data_set(&mut self, i: usize, x: T)
        requires old(self).wf(), i < old(self).vlen(),
        ensures final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(), final(self)@ == old(self)@.update(i as int, x),
    { unimplemented!() }
//@ extract file=vector/src/vector_types/time_freq/convolution.rs fn=convolve impl="Convolution<'a,\sS,\sT,\s&'a\sdyn\sRealImpulseResponse" as=convolve_real loops=1
//@ expand assert_time assert_complex
//@ rewrite_sig /fn convolve<B>/
fn convolve<Reg: SimdGeneric<T>, B>
//@ rewrite_sig? /for<'b> Buffer<'b, S, T>/
Buffer<S, T>
//@ rewrite? /self\.convolve_signal\(([^()]*)\)\s*\.expect\(\s*"[^"]*",?\s*\)/
self.convolve_signal::<Reg, _, _, _, _>(\1).unwrap()
//@ rewrite? /MultiCoreSettings::default\(\)/
default_settings()
//@ rewrite? /T::from\(([^()]*)\)\s*\.unwrap\(\)/
num_from::<T>(\1)
//@ rewrite? /\*imp_resp\.data_mut\((\w+)\) = ([^;]*);/
imp_resp.data_set(\1, \2);
//@ rewrite? /self\.convolve_function_priv\(\s*buffer,\s*ratio,\s*len,\s*\|(\w+)\| (array_to_complex\(\w+\)),\s*\|(\w+)\| (array_to_complex_mut\(\w+\)),\s*\|(\w+)\| (.*?),?\s*\);/
{ let fun = |\5: T| -> (r: Complex<T>) ensures r == widened(function)(\5) { \6 };
                let ghost gf = fun;
                self.convolve_function_priv(buffer, ratio, len,
                    |\1: &[T]| -> (r: &[Complex<T>]) requires \1@.len() % 2 == 0 ensures r@ == cseq(\1@) { \2 },
                    |\3: &mut [T]| -> (r: &mut [Complex<T>]) requires old(\3)@.len() % 2 == 0 ensures r@ == cseq(old(\3)@), final(\3)@ == fseq(final(r)@) { \4 },
                    fun);
                proof { lemma_response(gf, widened(function), cseq(o), lesser(len as int, o.len() as int / 2) as int, ratio, cseq(self@)); } }
//@ rewrite? /self\.convolve_function_priv\(\s*buffer,\s*ratio,\s*len,\s*\|(\w+)\| (\w+),\s*\|(\w+)\| (\w+),\s*\|(\w+)\| (.*?),?\s*\);/
{ let fun = |\5: T| -> (r: T) ensures r == real_fun(function)(\5) { \6 };
                let ghost gf = fun;
                self.convolve_function_priv(buffer, ratio, len,
                    |\1: &[T]| -> (r: &[T]) ensures r@ == \1@ { \2 },
                    |\3: &mut [T]| -> (r: &mut [T]) ensures r@ == old(\3)@, final(\3)@ == final(r)@ { \4 },
                    fun);
                proof { lemma_response(gf, real_fun(function), o, lesser(len as int, o.len() as int) as int, ratio, self@); } }
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures
            old(self).freq() ==> final(self).vlen() == 0 && final(self).dlt().nan_p(),
            final(self).vlen() <= final(self).st().len(),
            !(old(self).freq()) ==> final(self).same_meta(old(self)) && final(self).vlen() == old(self).vlen() && ({
                let points = old(self).vlen() as int / old(self).step();
                let l = lesser(len as int, points) as int;
                &&& old(self).cplx() ==> response_convolved(widened(function), cseq(old(self)@), l, ratio, cseq(final(self)@))
                    || quick(old(self).vlen() as int, len as int, ratio) && signal_convolved(true, old(self)@, fseq(samples_of(widened(function), len as int, ratio)), final(self)@)
                &&& !old(self).cplx() ==> response_convolved(real_fun(function), old(self)@, l, ratio, final(self)@)
                    || quick(old(self).vlen() as int, len as int, ratio) && signal_convolved(false, old(self)@, samples_of(real_fun(function), len as int, ratio), final(self)@)
            }),
//@ body_start
        let ghost o = self@;
        let ghost cx = self.cplx();
        proof { axiom_one::<T>(ratio); axiom_one::<T>(self.dlt()); }
//@ before_loop 1
            let ghost want = if cx { fseq(samples_of(widened(function), len as int, ratio)) } else { samples_of(real_fun(function), len as int, ratio) };
            let ghost mut q: int = 0;
            let ghost start = j;
            proof {
                lemma_cseq_fseq(samples_of(widened(function), len as int, ratio));
                assert(points == want.len());
                assert(imp_resp@ =~= Seq::new(points as nat, |k: int| T::zero_spec()));
            }
            let ghost first = imp_resp;
//@ loop 1
                invariant
                    arith::<T>(), len <= 202, points == want.len(), points == (if cx { 2int } else { 1 }) * (2 * len + 1), imp_resp.wf(), imp_resp.vlen() == points, imp_resp.same_meta(&first), cx == first.cplx(), step == (if cx { 2int } else { 1 }),
                    i == (step as int) * q, 0 <= q <= 2 * len + 1, j == ticks(start, q), start == num_of::<T>(len as int).neg_spec(), ratio_inv == T::one_spec().div_spec(ratio),
                    want == if cx { fseq(samples_of(widened(function), len as int, ratio)) } else { samples_of(real_fun(function), len as int, ratio) },
                    forall|k: int| #![trigger imp_resp@[k]] 0 <= k < points ==> imp_resp@[k] == if k < i { want[k] } else { T::zero_spec() },
                decreases points - i,
//@ loop_start 1
                let ghost v0 = imp_resp@;
                let ghost i0 = i as int;
//@ loop_end 1
                proof {
                    q = q + 1;
                    assert(i0 == (step as int) * (q - 1));
                    assert forall|k: int| #![trigger imp_resp@[k]] 0 <= k < points implies imp_resp@[k] == if k < i { want[k] } else { T::zero_spec() } by {
                        let _ = v0[k];
                        if cx { assert(i0 == 2 * (q - 1)); if i0 <= k < i { assert(k / 2 == q - 1); } } else { assert(i0 == q - 1); }
                    }
                }
//@ after_loop 1
            proof { assert(imp_resp@ =~= want); }
//@ end
//@ extract file=vector/src/vector_types/time_freq/convolution.rs fn=convolve impl="Convolution<'a,\sS,\sT,\s&'a\sdyn\sComplexImpulseResponse" as=convolve_complex loops=1
//@ expand assert_time assert_complex
//@ rewrite_sig /fn convolve<B>/
fn convolve<Reg: SimdGeneric<T>, B>
//@ rewrite_sig? /for<'b> Buffer<'b, S, T>/
Buffer<S, T>
//@ rewrite? /self\.convolve_signal\(([^()]*)\)\s*\.expect\(\s*"[^"]*",?\s*\)/
self.convolve_signal::<Reg, _, _, _, _>(\1).unwrap()
//@ rewrite? /MultiCoreSettings::default\(\)/
default_settings()
//@ rewrite? /T::from\(([^()]*)\)\s*\.unwrap\(\)/
num_from::<T>(\1)
//@ rewrite? /\*imp_resp\.data_mut\((\w+)\) = ([^;]*);/
imp_resp.data_set(\1, \2);
//@ rewrite? /self\.convolve_function_priv\(\s*buffer,\s*ratio,\s*len,\s*\|(\w+)\| (array_to_complex\(\w+\)),\s*\|(\w+)\| (array_to_complex_mut\(\w+\)),\s*\|(\w+)\| (.*?),?\s*\);/
{ let fun = |\5: T| -> (r: Complex<T>) ensures r == complex_fun(function)(\5) { \6 };
                let ghost gf = fun;
                self.convolve_function_priv(buffer, ratio, len,
                    |\1: &[T]| -> (r: &[Complex<T>]) requires \1@.len() % 2 == 0 ensures r@ == cseq(\1@) { \2 },
                    |\3: &mut [T]| -> (r: &mut [Complex<T>]) requires old(\3)@.len() % 2 == 0 ensures r@ == cseq(old(\3)@), final(\3)@ == fseq(final(r)@) { \4 },
                    fun);
                proof { lemma_response(gf, complex_fun(function), cseq(o), lesser(len as int, o.len() as int / 2) as int, ratio, cseq(self@)); } }
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures
            old(self).freq() || !old(self).cplx() ==> final(self).vlen() == 0 && final(self).dlt().nan_p(),
            final(self).vlen() <= final(self).st().len(),
            !(old(self).freq() || !old(self).cplx()) ==> final(self).same_meta(old(self)) && final(self).vlen() == old(self).vlen() && ({
                let points = old(self).vlen() as int / old(self).step();
                let l = lesser(len as int, points) as int;
                &&& old(self).cplx() ==> response_convolved(complex_fun(function), cseq(old(self)@), l, ratio, cseq(final(self)@))
                    || quick(old(self).vlen() as int, len as int, ratio) && signal_convolved(true, old(self)@, fseq(samples_of(complex_fun(function), len as int, ratio)), final(self)@)
            }),
//@ body_start
        let ghost o = self@;
        let ghost cx = self.cplx();
        proof { axiom_one::<T>(ratio); axiom_one::<T>(self.dlt()); }
//@ before_loop 1
            let ghost want = fseq(samples_of(complex_fun(function), len as int, ratio));
            let ghost mut q: int = 0;
            let ghost start = j;
            proof {
                lemma_cseq_fseq(samples_of(complex_fun(function), len as int, ratio));
                assert(points == want.len());
                assert(imp_resp@ =~= Seq::new(points as nat, |k: int| T::zero_spec()));
            }
            let ghost first = imp_resp;
//@ loop 1
                invariant
                    arith::<T>(), len <= 202, points == want.len(), points == (if cx { 2int } else { 1 }) * (2 * len + 1), imp_resp.wf(), imp_resp.vlen() == points, imp_resp.same_meta(&first), cx == first.cplx(), cx,
                    i == 2 * q, 0 <= q <= 2 * len + 1, j == ticks(start, q), start == num_of::<T>(len as int).neg_spec(), ratio_inv == T::one_spec().div_spec(ratio),
                    want == fseq(samples_of(complex_fun(function), len as int, ratio)),
                    forall|k: int| #![trigger imp_resp@[k]] 0 <= k < points ==> imp_resp@[k] == if k < i { want[k] } else { T::zero_spec() },
                decreases points - i,
//@ loop_start 1
                let ghost v0 = imp_resp@;
                let ghost i0 = i as int;
//@ loop_end 1
                proof {
                    q = q + 1;
                    assert(i0 == 2 * (q - 1));
                    assert forall|k: int| #![trigger imp_resp@[k]] 0 <= k < points implies imp_resp@[k] == if k < i { want[k] } else { T::zero_spec() } by {
                        let _ = v0[k];
                        if cx { assert(i0 == 2 * (q - 1)); if i0 <= k < i { assert(k / 2 == q - 1); } } else { assert(i0 == q - 1); }
                    }
                }
//@ after_loop 1
            proof { assert(imp_resp@ =~= want); }
//@ end
}
}
fn main() {}
