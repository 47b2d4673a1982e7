//@ unit-props C23
//@ unit-title the steps of an interpolation in frequency domain
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::slice::IterMut;
use std::marker::PhantomData;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include memops
//@ include mark contracts
//@ include iters
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include sympairs contracts
//@ include cparts
//@ include simdgen
//@ include changed
//@ include elemspec
//@ include elemapi contracts
//@ include opdone
//@ include scale contracts
//@ include points
//@ include funmul contracts
//@ include realresp
//@ include turning
/// ASSUMED of a vector which borrows its elements (to_complex_freq_vec of a slice, sample spacing 1): the multiplication with a complex exponential.
/// The contract of multiply_complex_exponential is discharged for every storage in the unit expo
#[verifier::external_body]
fn turn_slice<T: RealNumber>(elements: &mut [T], a: T, b: T)
    requires old(elements)@.len() % 2 == 0, old(elements)@.len() <= max_len(), arith::<T>(),
    ensures final(elements)@.len() == old(elements)@.len(), all_turned(a.mul_spec(T::one_spec()), b.mul_spec(T::one_spec()), 0, cseq(old(elements)@), cseq(final(elements)@)),
{ unimplemented!() }
pub uninterp spec fn pi_of<T>() -> T;
/// ASSUMED contract on a dependency (FloatConst::PI)
#[verifier::external_body]
fn pi<T: RealNumber>() -> (r: T) ensures r == pi_of::<T>() { unimplemented!() }
pub open spec fn two<T: RealNumber>() -> T { T::one_spec().add_spec(T::one_spec()) }
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/time_freq/interpolation.rs fn=interpolate_upsample impl="impl<S"
//@ rewrite_sig /fn interpolate_upsample\(/
fn interpolate_upsample<Reg: SimdGeneric<T>>(
//@ rewrite? /self\.scale\(/
self.elem_scale::<Reg>(
//@ rewrite? /\|(\w+)\| array_to_complex_mut\((\w+)\),\s*(\w+),\s*\|(\w+), (\w+)\| ([^\n]*?),\s*\)/
|\1: &mut [T]| -> (r: &mut [Complex<T>]) requires old(\1)@.len() % 2 == 0 ensures r@ == cseq(old(\1)@), final(\1)@ == fseq(final(r)@) { array_to_complex_mut(\2) },
                \3,
                |\4: &dyn RealFrequencyResponse<T>, \5: T| -> (w: Complex<T>) ensures w == real_value(\4, \5) { \6 },
            )
//@ spec
        requires old(self).wf(), old(self).cplx(), old(self).vlen() <= exact(), arith::<T>(),
        ensures
            final(self).only_values_changed(old(self)),
            match function {
                None => applied(|x: T| x.mul_spec(interpolation_factorf), old(self)@, final(self)@),
                Some(f) => has_real_response(f, f.symmetric(), true, interpolation_factorf, cseq(old(self)@), cseq(final(self)@)),
            },
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=data_mut impl="FloatIndexMut<Range<usize>>\sfor\sDspVec"
//@ ret r
//@ spec
        requires old(self).wf(), index.start <= index.end <= old(self).vlen(),
        ensures r@ == old(self)@.subrange(index.start as int, index.end as int), final(self).only_values_changed(old(self)), 
            final(self)@.subrange(index.start as int, index.end as int) == final(r)@, final(self)@.subrange(0, index.start as int) == old(self)@.subrange(0, index.start as int),
            final(self)@.subrange(index.end as int, old(self).vlen() as int) == old(self)@.subrange(index.end as int, old(self).vlen() as int),
//@ end
//@ extract file=vector/src/vector_types/time_freq/interpolation.rs fn=apply_linear_phase impl="impl<S"
//@ rewrite? /let mut (\w+) = \((self\.data_mut\([^()]*\))\)\.to_complex_freq_vec\(\);(\s*(?:\/\/[^\n]*\n\s*)*let start = [^;]*;)\s*\1\.multiply_complex_exponential\(/
let elements = \2;\3
            turn_slice(elements, 
//@ rewrite? /T::from\(([^()]*)\)\.unwrap\(\)/
num_from::<T>(\1)
//@ rewrite? /let pi = T::PI\(\)/
let pi = pi::<T>()
//@ spec
        requires old(self).wf(), old(self).cplx(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures
            final(self).only_values_changed(old(self)),
            ({
                let n = old(self).vlen() as int / 2; let pos = n - n / 2;
                let inc = two::<T>().mul_spec(pi_of::<T>()).mul_spec(delay).div_spec(num_of::<T>(n));
                // zero and positive frequencies come first and their phase starts with 0, then the negative ones, whose phase starts with that of the lowest
                &&& all_turned(inc.mul_spec(T::one_spec()), T::zero_spec().mul_spec(T::one_spec()), 0, cseq(old(self)@).subrange(0, pos), cseq(final(self)@).subrange(0, pos))
                &&& all_turned(inc.mul_spec(T::one_spec()), num_of::<T>(n / 2).neg_spec().mul_spec(inc).mul_spec(T::one_spec()), 0, cseq(old(self)@).subrange(pos, n), cseq(final(self)@).subrange(pos, n))
            }),
//@ body_start
        let ghost o = self@;
//@ body_end
        proof {
            let n = o.len() as int / 2; let pos = n - n / 2;
            assert(cseq(o).subrange(0, pos) =~= cseq(o.subrange(0, 2 * pos)));
            assert(cseq(o).subrange(pos, n) =~= cseq(o.subrange(2 * pos, o.len() as int)));
            assert(cseq(self@).subrange(0, pos) =~= cseq(self@.subrange(0, 2 * pos)));
            assert(cseq(self@).subrange(pos, n) =~= cseq(self@.subrange(2 * pos, o.len() as int)));
        }
//@ end
}
}
fn main() {}
