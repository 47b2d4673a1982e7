//@ unit-props C01
//@ unit-title division of a slice into registers and edges
use std::slice::IterMut;
use std::marker::PhantomData;
use vstd::std_specs::iter::IteratorSpec;
//@ include prelude
//@ include complex
//@ include iters
//@ include simdpart
}
fn main() {}
