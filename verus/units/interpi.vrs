//@ unit-props C23 C15
//@ unit-title interpolation by a whole factor in frequency domain
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::slice::IterMut;
use std::marker::PhantomData;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include memops
//@ include mark contracts
//@ include iters
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include sympairs contracts
//@ include cparts
//@ include simdgen
//@ include changed
//@ include elemspec
//@ include elemapi contracts
//@ include opdone
//@ include scale contracts
//@ include zib contracts
//@ include points
//@ include funmul contracts
//@ include rustfft
//@ include realresp
/// y is the inverse transform, not scaled, of the spectrum of x under the response
pub open spec fn through_response<T: RealNumber>(f: &dyn RealFrequencyResponse<T>, sym: bool, sh: bool, r: T, x: Seq<Complex<T>>, y: Seq<Complex<T>>) -> bool {
    exists|s: Seq<Complex<T>>| #[trigger] has_real_response(f, sym, sh, r, dft(FftDirection::Forward, x), s) && y == dft(FftDirection::Inverse, s)
}
/// ASSUMED of a vector which borrows its elements (to_complex_time_vec of a slice, NoTradeBuffer): the transform, the multiplication with the response and the inverse transform, in place.
/// The contracts of plain_fft, multiply_function_priv and plain_ifft are discharged for every storage in the units symfft and freqmul; their preconditions are obligations here
#[verifier::external_body]
fn spectral_filtered<T: RealNumber>(elements: &mut [T], function: &dyn RealFrequencyResponse<T>, is_symmetric: bool, is_fft_shifted: bool, ratio: T)
    requires old(elements)@.len() % 2 == 0, old(elements)@.len() <= 2 * exact(), arith::<T>(), is_symmetric ==> function.symmetric(),
    ensures final(elements)@.len() == old(elements)@.len(), through_response(function, is_symmetric, is_fft_shifted, ratio, cseq(old(elements)@), cseq(final(elements)@)),
{ unimplemented!() }
/// ASSUMED of the language: no slice has more than isize::MAX elements
#[verifier::external_body]
proof fn axiom_storage<S: ToSlice<T>, T: RealNumber, N: NumberSpace, D: Domain>(v: &DspVec<S, T, N, D>)
    ensures v.st().len() <= isize::MAX,
{}
pub open spec fn scaled<T: RealNumber>(c: Seq<Complex<T>>, f: T) -> Seq<Complex<T>> { Seq::new(c.len(), |i: int| Complex { re: c[i].re.mul_spec(f), im: c[i].im.mul_spec(f) }) }
pub open spec fn real_parts<T: RealNumber>(c: Seq<Complex<T>>) -> Seq<T> { Seq::new(c.len(), |i: int| c[i].re) }
/// the points as complex numbers
pub open spec fn as_points<T: RealNumber>(o: Seq<T>, complex: bool) -> Seq<Complex<T>> { if complex { cseq(o) } else { Seq::new(o.len(), |i: int| Complex { re: o[i], im: T::zero_spec() }) } }
/// a real signal interleaved with 2 k - 1 zeros is, read as complex numbers, the signal interleaved with k - 1 zeros
proof fn lemma_real_interleaved<T: RealNumber>(o: Seq<T>, k: int)
    requires k >= 1,
    ensures cseq(interleaved(o, 2 * k, T::zero_spec())) == interleaved(as_points(o, false), k, czero()),
{
    let w = interleaved(o, 2 * k, T::zero_spec()); let c = as_points(o, false); let v = interleaved(c, k, czero::<T>());
    assert(o.len() * (2 * k) == 2 * (o.len() * k)) by (nonlinear_arith);
    assert(o.len() * k >= 0) by (nonlinear_arith) requires k >= 1;
    assert(cseq(w).len() == v.len());
    assert forall|i: int| 0 <= i < v.len() implies cseq(w)[i] == v[i] by {
        let q = i / k; let r = i % k;
        lemma_fundamental_div_mod(i, k); lemma_mod_bound(i, k);
        assert(q >= 0 && q < o.len()) by (nonlinear_arith) requires i == k * q + r, 0 <= r < k, 0 <= i < o.len() * k, k >= 1;
        assert(2 * i == (2 * k) * q + 2 * r && 2 * i + 1 == (2 * k) * q + (2 * r + 1)) by (nonlinear_arith) requires i == k * q + r;
        assert((2 * k) * q == q * (2 * k)) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(2 * i, 2 * k, q, 2 * r);
        lemma_fundamental_div_mod_converse(2 * i + 1, 2 * k, q, 2 * r + 1);
    }
    assert(cseq(w) =~= v);
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
    pub closed spec fn same_kind(&self, o: &Self) -> bool { self.domain == o.domain && self.number_space == o.number_space && self.multicore_settings == o.multicore_settings }
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=data_mut impl="FloatIndexMut<RangeFull>\sfor\sDspVec"
//@ ret r
//@ spec
        requires old(self).wf(),
        ensures r@ == old(self)@, final(self)@ == final(r)@, final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
//@ end
//@ extract file=vector/src/vector_types/time_freq/interpolation.rs fn=interpolatei impl="InterpolationOps<S,\sT>\sfor"
//@ rewrite_sig /fn interpolatei<B>/
fn interpolatei<Reg: SimdGeneric<T>, B>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /let (\w+) = \((self\.data_mut\(\.\.\))\)\.to_complex_time_vec\(\);\s*let mut buffer = NoTradeBuffer::new\(buffer\.borrow\(buffer\.alloc_len\(\)\)\);\s*let mut \1 = \1\.plain_fft\(&mut buffer\);\s*(let \w+ = T::from\(\w+\)\.unwrap\(\);)\s*\1\.multiply_function_priv\(\s*([^,]*),\s*(\w+),\s*(\w+),\s*\|array\| array_to_complex_mut\(array\),\s*(\w+),\s*\|f, x\| Complex::<T>::new\(f\.calc\(x\), T::zero\(\)\),\s*\);\s*\1\.plain_ifft\(&mut buffer\);/
\3
        spectral_filtered(\2, \7, \4, \5, \6);
//@ rewrite? /T::from\((\w+)\)\.unwrap\(\)/
num_from::<T>(\1 as usize)
//@ rewrite? /self\.scale\(/
self.elem_scale::<Reg>(
//@ rewrite? /self\.pure_complex_to_real_operation_inplace\(\s*\|(\w+), (\w+)\| (.*?),\s*\(\),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: T) ensures q == \1.re { \3 }; self.pure_complex_to_real_operation_inplace(f, ())
//@ ret r
//@ spec
        requires
            old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(), interpolation_factor <= 0x200_0000,
            // integers up to 2^24 are exact in both float types
            old(self).vlen() * interpolation_factor <= if old(self).cplx() { 2 * exact() } else { exact() },
        ensures
            final(self).same_kind(old(self)),
            r == if interpolation_factor <= 1 || function.symmetric() || old(self).cplx() { Ok::<(), ErrorReason>(()) } else { Err(ErrorReason::ArgumentFunctionMustBeSymmetric) },
            interpolation_factor <= 1 || r.is_err() ==> final(self).dlt() == old(self).dlt() && final(self).vlen() == old(self).vlen() && final(self).st() == old(self).st(),
            interpolation_factor > 1 && r.is_ok() ==> {
                let k = interpolation_factor as int; let points = as_points(old(self)@, old(self).cplx()).len() * k;
                &&& final(self).vlen() == old(self).vlen() * k && final(self).vlen() <= final(self).st().len()
                &&& final(self).dlt() == old(self).dlt().div_spec(num_of::<T>(k))
                &&& exists|y: Seq<Complex<T>>| #[trigger] through_response(function, function.symmetric(), true, num_of::<T>(k), interleaved(as_points(old(self)@, old(self).cplx()), k, czero()), y)
                    && as_points(final(self)@, old(self).cplx()) == (if old(self).cplx() { scaled(y, T::one_spec().div_spec(num_of::<T>(points))) } else { as_points(real_parts(scaled(y, T::one_spec().div_spec(num_of::<T>(points)))), false) })
            },
//@ body_start
        let ghost o = self@;
        let ghost k = interpolation_factor as int;
        let ghost points_of = as_points(o, self.cplx());
        proof {
            let n = o.len() as int;
            assert(n * (2 * k) == 2 * (n * k)) by (nonlinear_arith);
            if self.cplx() { lemma_even_product(n, k); assert((n / 2) * k == (n * k) / 2); }
            assert(n * k >= 0) by (nonlinear_arith) requires n >= 0, k >= 0;
        }
//@ before /spectral_filtered/ 1
        proof {
            axiom_storage(&*self);
            if is_complex { lemma_cseq_fseq(interleaved(cseq(o), k, czero())); } else { lemma_real_interleaved(o, k); }
            assert(cseq(self@) == interleaved(points_of, k, czero()));
        }
//@ after /spectral_filtered/ 1
        proof { axiom_storage(&*self); }
        let ghost y = cseq(self@);
//@ before /if !is_complex/ 1
        let ghost z = scaled(y, T::one_spec().div_spec(num_of::<T>(points as int)));
        proof { axiom_storage(&*self); assert(cseq(self@) =~= z); }
//@ before /Ok\(\(\)\)/ 2
        proof {
            if is_complex { assert(as_points(self@, true) == z); } else { assert(self@ =~= real_parts(z)); }
        }
//@ end
}
}
fn main() {}
