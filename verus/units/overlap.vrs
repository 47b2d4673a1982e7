//@ unit-props C11 C15
//@ unit-title convolution in frequency domain
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::marker::PhantomData;
use std::slice::IterMut;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include mark contracts
//@ include iters
//@ include inlinevec contracts
//@ include chunkapi contracts
//@ include cparts
//@ include changed
//@ include other
//@ include points
//@ include wrapit contracts
//@ include convspec
//@ include conviter contracts
//@ include nums
//@ include rustfft
//@ include vectorimpl
//@ extract file=vector/src/vector_types/general/data_reorganization.rs item=enum:PaddingOption
//@ prefix
#[derive(Copy, Clone, PartialEq, Eq)]
pub
//@ end
/// the impulse response, shortened to its points and filled up with zeros; ASSUMED here for a vector which borrows its storage, discharged for every storage in the units storage (resize) and pad (zero_pad)
#[verifier::external_body]
fn padded<T: RealNumber>(a: &mut [T], len: usize, points: usize, option: PaddingOption)
    requires option == PaddingOption::End, len % 2 == 0, len <= 2 * points <= old(a)@.len(),
    ensures final(a)@.len() == old(a)@.len(), cseq(final(a)@.subrange(0, 2 * points as int)) == zeros_behind(cseq(old(a)@.subrange(0, len as int)), points as int),
{ unimplemented!() }
#[verifier::external_body]
fn gpu_overlap_discard<T>() -> isize requires false { unimplemented!() }
fn usize_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
//@ include overlap
}
fn main() {}
