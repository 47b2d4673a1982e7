//@ unit-props C22
//@ unit-title small vectors with inline storage
#![feature(allocator_api)]
//@ include prelude
//@ include inlinevec
/// ASSUMED contract on a dependency (Vec::capacity: at least the length)
pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::capacity ](v: &Vec<T, A>) -> (r: usize)
    ensures r >= v@.len();
/// ASSUMED contract on a dependency (copying a float does not change it)
#[verifier::external_body]
broadcast proof fn axiom_cloned<T: RealNumber>(a: T, b: T)
    ensures #[trigger] cloned(a, b) ==> a == b,
{}
impl<T: RealNumber> InlineVector<T> {
//@ extract file=vector/src/inline_vector/dynamic.rs fn=try_resize impl="InlineVector" loops=1
//@ ret r
//@ spec
        ensures
            r.is_ok() ==> final(self)@.len() == len && forall|i: int| #![trigger final(self)@[i]] 0 <= i < len ==>
                final(self)@[i] == if i < old(self)@.len() { old(self)@[i] } else { T::zero_spec() },
            r.is_err() ==> final(self)@ == old(self)@ && r == Err::<(), _>(ErrorReason::TypeCanNotResize),
            len <= old(self)@.len() ==> r.is_ok(),
//@ body_start
        let ghost o = self@;
        broadcast use axiom_cloned;
//@ loop 1
                    invariant v@.len() <= len <= 64 || v@.len() == len, v@.len() < len ==> v@.len() >= o.len(), forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> v@[i] == if i < o.len() { o[i] } else { T::zero_spec() },
                    decreases len - v@.len(),
//@ end
}
}
fn main() {}
