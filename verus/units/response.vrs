//@ unit-props C12
//@ unit-title multiplication with a frequency response
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include mark contracts
//@ include iters
//@ include inlinevec contracts
//@ include chunkapi contracts
//@ include sympairs contracts
//@ include cparts
//@ include changed
//@ include points
//@ include funmul contracts
pub trait ComplexFrequencyResponse<T: RealNumber>: Sync {
    spec fn symmetric(&self) -> bool;
    spec fn value(&self, x: T) -> Complex<T>;
    fn is_symmetric(&self) -> (r: bool) ensures r == self.symmetric();
    fn calc(&self, x: T) -> (r: Complex<T>) ensures r == self.value(x);
}
pub trait RealFrequencyResponse<T: RealNumber>: Sync {
    spec fn symmetric(&self) -> bool;
    spec fn value(&self, x: T) -> T;
    fn is_symmetric(&self) -> (r: bool) ensures r == self.symmetric();
    fn calc(&self, x: T) -> (r: T) ensures r == self.value(x);
}
/// every bin was multiplied with the ratio and the response at its place (or, of a symmetric response, at the mirrored place)
pub open spec fn has_response<T: RealNumber, TT: Point<T>>(value: spec_fn(T) -> TT, sym: bool, r: T, o: Seq<TT>, n: Seq<TT>) -> bool {
    n.len() == o.len() && forall|i: int| #![trigger n[i]] 0 <= i < o.len() ==>
        multiplied(o[i], TT::scalar(r), value(axis(i, o.len() as int, false, r)), n[i]) || sym && multiplied(o[i], TT::scalar(r), value(mirrored_axis(i, o.len() as int, false, r)), n[i])
}
pub open spec fn multiplied<TT: Mul<Output = TT>>(x: TT, s: TT, w: TT, y: TT) -> bool { y == x.mul_spec(s).mul_spec(w) || y == x.mul_spec(s.mul_spec(w)) }
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=domain impl="MetaData\sfor\sDspVec"
//@ ret r
//@ spec
        ensures r == if self.freq() { DataDomain::Frequency } else { DataDomain::Time },
//@ end
//@ extract file=vector/src/vector_types/time_freq/convolution.rs fn=multiply_frequency_response impl="dyn\sComplexFrequencyResponse<T>>" as=multiply_complex_response
//@ rewrite? /\|(\w+)\| array_to_complex_mut\((\w+)\),\s*(\w+),\s*\|(\w+), (\w+)\| ([^\n]*?),\s*\)/
|\1: &mut [T]| -> (r: &mut [Complex<T>]) requires old(\1)@.len() % 2 == 0 ensures r@ == cseq(old(\1)@), final(\1)@ == fseq(final(r)@) { array_to_complex_mut(\2) },
                \3,
                |\4: &dyn ComplexFrequencyResponse<T>, \5: T| -> (w: Complex<T>) ensures w == \4.value(\5) { \6 },
            )
//@ spec
        requires old(self).wf(), old(self).vlen() <= exact(), arith::<T>(),
        ensures
            !old(self).cplx() || !old(self).freq() ==> final(self).vlen() == 0 && final(self).dlt().nan_p() && final(self).st() == old(self).st(),
            old(self).cplx() && old(self).freq() ==> final(self).only_values_changed(old(self))
                && has_response(|x: T| frequency_response.value(x), frequency_response.symmetric(), ratio, cseq(old(self)@), cseq(final(self)@)),
//@ end
//@ extract file=vector/src/vector_types/time_freq/convolution.rs fn=multiply_frequency_response impl="dyn\sRealFrequencyResponse<T>>" as=multiply_real_response
//@ rewrite? /\|(\w+)\| array_to_complex_mut\((\w+)\),\s*(\w+),\s*\|(\w+), (\w+)\| ([^\n]*?),\s*\)/
|\1: &mut [T]| -> (r: &mut [Complex<T>]) requires old(\1)@.len() % 2 == 0 ensures r@ == cseq(old(\1)@), final(\1)@ == fseq(final(r)@) { array_to_complex_mut(\2) },
                \3,
                |\4: &dyn RealFrequencyResponse<T>, \5: T| -> (w: Complex<T>) ensures w == (Complex { re: \4.value(\5), im: T::zero_spec() }) { \6 },
            )
//@ rewrite? /\|(\w+)\| (\w+),\s*(\w+),\s*\|(\w+), (\w+)\| ([^\n]*?),\s*\)/
|\1: &mut [T]| -> (r: &mut [T]) ensures r@ == old(\1)@, final(\1)@ == final(r)@ { \2 },
                \3,
                |\4: &dyn RealFrequencyResponse<T>, \5: T| -> (w: T) ensures w == \4.value(\5) { \6 },
            )
//@ spec
        requires old(self).wf(), old(self).vlen() <= exact(), arith::<T>(),
        ensures
            !old(self).freq() ==> final(self).vlen() == 0 && final(self).dlt().nan_p() && final(self).st() == old(self).st(),
            old(self).freq() && old(self).cplx() ==> final(self).only_values_changed(old(self))
                && has_response(|x: T| Complex { re: frequency_response.value(x), im: T::zero_spec() }, frequency_response.symmetric(), ratio, cseq(old(self)@), cseq(final(self)@)),
            old(self).freq() && !old(self).cplx() ==> final(self).only_values_changed(old(self))
                && has_response(|x: T| frequency_response.value(x), frequency_response.symmetric(), ratio, old(self)@, final(self)@),
//@ end
}
}
fn main() {}
