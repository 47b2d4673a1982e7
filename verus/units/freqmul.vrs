//@ unit-props C12
//@ unit-title multiplication with a function of the position on the frequency axis
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include mark contracts
//@ include iters
//@ include inlinevec contracts
//@ include chunkapi contracts
//@ include sympairs contracts
//@ include cparts
//@ include changed
//@ include points
//@ include funmul
}
fn main() {}
