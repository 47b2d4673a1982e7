//@ unit-props C01 C02
//@ unit-title element-wise operations on the scalar and the register path
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::slice::IterMut;
use std::marker::PhantomData;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include iters
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include cparts
//@ include simdgen
//@ include changed
//@ include elemspec
//@ include elemapi
}
fn main() {}
