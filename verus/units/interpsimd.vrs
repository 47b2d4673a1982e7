//@ unit-props C23 C02
//@ unit-title interpolation with registers
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::marker::PhantomData;
use std::slice::IterMut;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include mark contracts
//@ include iters
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include cparts
//@ include changed
//@ include other
//@ include points
//@ include wrapit contracts
//@ include convspec
//@ include fundot
//@ include simdgen
//@ include conviter contracts
//@ include shifted contracts
//@ include simdconv
//@ include impresp
//@ include interpreg
}
fn main() {}
