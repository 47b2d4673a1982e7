//@ unit-props C03 C15
//@ unit-title correlation: the check of the operands and what is done with operands which fit
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::slice::IterMut;
use std::marker::PhantomData;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include memops
//@ include mark contracts
//@ include iters
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include cparts
//@ include simdgen
//@ include changed
//@ include elemspec
//@ include elemapi contracts
//@ include opdone
//@ include scale contracts
//@ include shiftspec
//@ include shiftapi contracts
//@ include nums
//@ include rustfft
//@ include other
//@ include padb contracts
/// point by point the product of two spectra
pub open spec fn products<T: RealNumber>(a: Seq<Complex<T>>, b: Seq<Complex<T>>) -> Seq<Complex<T>> { Seq::new(a.len(), |i: int| a[i].mul_spec(b[i])) }
/// the transform, its product with another spectrum and the inverse transform, not scaled
pub open spec fn through_spectrum<T: RealNumber>(x: Seq<Complex<T>>, s: Seq<Complex<T>>) -> Seq<Complex<T>> { dft(FftDirection::Inverse, products(dft(FftDirection::Forward, x), s)) }
/// ASSUMED of the vectors which borrow the elements of the operands (to_complex_time_vec of a slice, NoTradeBuffer): the transform, the product and the inverse transform, in place.
/// The contracts of plain_fft, mul and plain_ifft are discharged for every storage in the units symfft and binary; their preconditions (equal lengths, whole points) are obligations here
#[verifier::external_body]
fn spectral_product<T: RealNumber>(elements: &mut [T], spectrum: &[T]) -> (r: VoidResult)
    requires old(elements)@.len() == spectrum@.len(), spectrum@.len() % 2 == 0,
    ensures r == Ok::<(), ErrorReason>(()), final(elements)@.len() == old(elements)@.len(), cseq(final(elements)@) == through_spectrum(cseq(old(elements)@), cseq(spectrum@)),
{ unimplemented!() }
/// ASSUMED of the language: no slice has more than isize::MAX elements
#[verifier::external_body]
proof fn axiom_storage<S: ToSlice<T>, T: RealNumber, N: NumberSpace, D: Domain>(v: &DspVec<S, T, N, D>)
    ensures v.st().len() <= isize::MAX,
{}
/// the signal, filled up with zeros on both sides to n points
pub open spec fn filled<T: RealNumber>(x: Seq<T>, n: int) -> Seq<T> { if 2 * n == x.len() { x } else { padded(x, 2 * n, 2, PaddingOption::Surround) } }
pub open spec fn scaled<T: RealNumber>(c: Seq<Complex<T>>, f: T) -> Seq<Complex<T>> { Seq::new(c.len(), |i: int| Complex { re: c[i].re.mul_spec(f), im: c[i].im.mul_spec(f) }) }
/// the reason for which the operands do not fit
pub open spec fn correlation_checked<S: ToSlice<T>, T: RealNumber, N: NumberSpace, D: Domain, O: Vector<T>>(a: &DspVec<S, T, N, D>, b: &O) -> VoidResult {
    if a.freq() { Err(ErrorReason::InputMustBeInTimeDomain) } else if !a.cplx() { Err(ErrorReason::InputMustBeComplex) } else if !b.ofreq() || !b.ocplx() { Err(ErrorReason::InputMetaDataMustAgree) } else if b.ov().len() < a.vlen() { Err(ErrorReason::InvalidArgumentLength) } else { Ok(()) }
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=data_mut impl="FloatIndexMut<RangeFull>\sfor\sDspVec"
//@ ret r
//@ spec
        requires old(self).wf(),
        ensures r@ == old(self)@, final(self)@ == final(r)@, final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
//@ end
//@ extract file=vector/src/vector_types/general/data_reorganization.rs fn=swap_halves impl="ReorganizeDataOps<T>\sfor" props=C05
//@ spec
        requires old(self).wf(),
        ensures
            final(self).frame(old(self)),
            !old(self).cplx() ==> is_shift(old(self)@, final(self)@, true),
            old(self).cplx() ==> is_shift(cseq(old(self)@), cseq(final(self)@), true),
//@ end
//@ extract file=vector/src/vector_types/time_freq/correlation.rs fn=correlate impl="CrossCorrelationOps<O,\sS,\sT,\sNO,\sDF>\sfor"
//@ rewrite_sig /fn correlate<B>/
fn correlate<Reg: SimdGeneric<T>, O: Vector<T>, B>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /let (\w+) = \((self\.data_mut\(\.\.\))\)\.to_complex_time_vec\(\);\s*let mut buffer = NoTradeBuffer::new\(buffer\.borrow\(buffer\.alloc_len\(\)\)\);\s*let mut \1 = \1\.plain_fft\(&mut buffer\);\s*let mut (\w+) = \((other\.data\(\.\.\))\)\.to_complex_freq_vec\(\);\s*\3\.delta = \1\.delta;\s*\1\.mul\(&\3\)\?;\s*\1\.plain_ifft\(&mut buffer\);/
spectral_product(\2, \4)?;
//@ rewrite? /T::from\((\w+)\)\.unwrap\(\)/
num_from::<T>(\1)
//@ rewrite? /self\.scale\(/
self.elem_scale::<Reg>(
//@ before /spectral_product/ 1
        proof { axiom_storage(&*self); if 2 * points != old(self).vlen() { reveal(padded); } assert(self@ =~= filled(old(self)@, points as int)); }
//@ after /spectral_product/ 1
        proof { axiom_storage(&*self); }
        let ghost t = cseq(self@);
//@ before /self\.swap_halves/ 1
        proof { axiom_storage(&*self); assert(cseq(self@) =~= scaled(t, T::one_spec().div_spec(num_of::<T>(points as int)))); }
//@ ret r
//@ spec
        requires old(self).wf(), owf(other), 2 * other.ov().len() <= max_len(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures
            r == correlation_checked(&*old(self), other),
            // operands which do not fit are not touched
            r.is_err() ==> final(self).same_meta(old(self)) && final(self).vlen() == old(self).vlen() && final(self).st() == old(self).st(),
            r.is_ok() ==> final(self).same_meta(old(self)) && final(self).vlen() == other.ov().len() && is_shift(
                scaled(through_spectrum(cseq(filled(old(self)@, other.ov().len() as int / 2)), cseq(other.ov())), T::one_spec().div_spec(num_of::<T>(other.ov().len() as int / 2))),
                cseq(final(self)@), true),
//@ end
}
}
fn main() {}
