//@ unit-props C04 C15 C16
//@ unit-title the storages and buffers fulfil the contracts of the storage and buffer traits
#![feature(allocator_api)]
//@ include prelude
//@ include complex
//@ include memops

/// ASSUMED contract on a dependency (Vec::capacity: at least the length)
pub uninterp spec fn vec_cap<T, A: std::alloc::Allocator>(v: &Vec<T, A>) -> nat;
pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::capacity ](v: &Vec<T, A>) -> (r: usize)
    ensures r == vec_cap(v), r >= v@.len();
/// ASSUMED contract on a dependency (the length of a slice behind a mutable reference can not change)
#[verifier::external_body]
proof fn axiom_slice_mut_len<T>(r: &mut [T])
    ensures final(r)@.len() == old(r)@.len(),
{}
/// ASSUMED contract on a dependency (copying a float does not change it)
#[verifier::external_body]
broadcast proof fn axiom_cloned<T: RealNumber>(a: T, b: T)
    ensures #[trigger] cloned(a, b) ==> a == b,
{}

impl<T: RealNumber> ToSlice<T> for Vec<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    open spec fn cap(&self) -> nat { vec_cap(self) }
//@ extract file=vector/src/vector_types/support_std.rs fn=to_slice impl="ToSlice<T>\sfor\sVec<T>"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=len impl="ToSlice<T>\sfor\sVec<T>"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=alloc_len impl="ToSlice<T>\sfor\sVec<T>"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=try_resize impl="ToSlice<T>\sfor\sVec<T>"
//@ ret r
//@ spec
        ensures r.is_ok(), final(self)@.len() == len,
//@ body_start
        broadcast use axiom_cloned;
//@ end
}
impl<T: RealNumber> ToSliceMut<T> for Vec<T> {
//@ extract file=vector/src/vector_types/support_std.rs fn=to_slice_mut impl="ToSliceMut<T>\sfor\sVec<T>"
//@ ret r
//@ rewrite /&mut\s+self\[\.\.\]/
{ let r: &mut [T] = self.as_mut_slice(); proof { axiom_slice_mut_len(r); } r }
//@ end
}
impl<T> ToSlice<T> for Box<[T]> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    open spec fn cap(&self) -> nat { self@.len() }
//@ extract file=vector/src/vector_types/support_std.rs fn=to_slice impl="ToSlice<T>\sfor\sBox<\[T\]>"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=len impl="ToSlice<T>\sfor\sBox<\[T\]>"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=alloc_len impl="ToSlice<T>\sfor\sBox<\[T\]>"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=try_resize impl="ToSlice<T>\sfor\sBox<\[T\]>"
//@ ret r
//@ body_start
        broadcast use axiom_cloned;
//@ end
}
impl<T> ToSliceMut<T> for Box<[T]> {
//@ extract file=vector/src/vector_types/support_std.rs fn=to_slice_mut impl="ToSliceMut<T>\sfor\sBox<\[T\]>"
//@ ret r
//@ rewrite? /\bself\b/
{ let r: &mut [T] = self; proof { axiom_slice_mut_len(r); } r }
//@ end
}
impl<'a, T> ToSlice<T> for &'a [T] {
    open spec fn sv(&self) -> Seq<T> { self@ }
    open spec fn cap(&self) -> nat { self@.len() }
//@ extract file=vector/src/vector_types/support_core.rs fn=to_slice impl="ToSlice<T>\sfor\s&'a\s\[T\]"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_core.rs fn=len impl="ToSlice<T>\sfor\s&'a\s\[T\]"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_core.rs fn=alloc_len impl="ToSlice<T>\sfor\s&'a\s\[T\]"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_core.rs fn=try_resize impl="ToSlice<T>\sfor\s&'a\s\[T\]"
//@ ret r
//@ body_start
        broadcast use axiom_cloned;
//@ end
}
impl<'a, T> ToSlice<T> for &'a mut [T] {
    open spec fn sv(&self) -> Seq<T> { self@ }
    open spec fn cap(&self) -> nat { self@.len() }
//@ extract file=vector/src/vector_types/support_core.rs fn=to_slice impl="ToSlice<T>\sfor\s&'a\smut\s\[T\]"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_core.rs fn=len impl="ToSlice<T>\sfor\s&'a\smut\s\[T\]"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_core.rs fn=alloc_len impl="ToSlice<T>\sfor\s&'a\smut\s\[T\]"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_core.rs fn=try_resize impl="ToSlice<T>\sfor\s&'a\smut\s\[T\]"
//@ ret r
//@ body_start
        broadcast use axiom_cloned;
//@ end
}
impl<'a, T> ToSliceMut<T> for &'a mut [T] {
//@ extract file=vector/src/vector_types/support_core.rs fn=to_slice_mut impl="ToSliceMut<T>\sfor\s&'a\smut\s\[T\]"
//@ ret r
//@ rewrite? /\bself\b/
{ let r: &mut [T] = self; proof { axiom_slice_mut_len(r); } r }
//@ end
}

// ---------------- buffers: what `borrow` hands out is exactly as long as asked for, `trade` moves all of it into the storage ----------------
//@ extract file=vector/src/vector_types/support_std.rs item=struct:SingleBuffer
//@ prefix
#[verifier::reject_recursive_types(T)]
pub
//@ end
//@ extract file=vector/src/vector_types/support_std.rs item=struct:SingleBufferBurrow
//@ prefix
#[verifier::reject_recursive_types(T)]
pub
//@ end
//@ extract file=vector/src/vector_types/support_std.rs item=struct:NoBufferBurrow
//@ prefix
#[verifier::reject_recursive_types(T)]
pub
//@ end
pub struct NoBuffer;
//@ extract file=vector/src/vector_types/support_core.rs item=struct:FixedLenBufferBurrow
//@ prefix
#[verifier::reject_recursive_types(T)]
pub
//@ end
//@ extract file=vector/src/vector_types/support_core.rs item=struct:FixedLenBuffer
//@ prefix
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(S)]
pub
//@ end
impl<T: RealNumber> SingleBuffer<T> {
    pub closed spec fn temp(&self) -> Seq<T> { self.temp@ }
//@ extract file=vector/src/vector_types/support_std.rs fn=new impl="impl<T>\sSingleBuffer<T>"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=with_capacity impl="impl<T>\sSingleBuffer<T>"
//@ ret r
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=borrow impl="Buffer<'a,\sVec<T>,\sT>\sfor\sSingleBuffer<T>"
//@ rewrite_sig /&'a\s+mut\s+self/
&mut self
//@ rewrite_sig /Self::Borrow/
SingleBufferBurrow<'_, T>
//@ ret r
//@ spec
        ensures r.sv().len() == len,
//@ end
}
impl<'a, T: RealNumber> SingleBufferBurrow<'a, T> {
    pub closed spec fn sv(&self) -> Seq<T> { self.owner.temp@ }
//@ extract file=vector/src/vector_types/support_std.rs fn=to_slice impl="ToSlice<T>\sfor\sSingleBufferBurrow<'a,\sT>"
//@ ret r
//@ spec
        ensures r@ == self.sv(),
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=len impl="ToSlice<T>\sfor\sSingleBufferBurrow<'a,\sT>"
//@ ret r
//@ spec
        ensures r == self.sv().len(),
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=try_resize impl="ToSlice<T>\sfor\sSingleBufferBurrow<'a,\sT>"
//@ ret r
//@ spec
        ensures r.is_ok(), final(self).sv().len() >= len,
            len >= old(self).sv().len() ==> final(self).sv().len() >= old(self).sv().len() && final(self).sv().subrange(0, old(self).sv().len() as int) == old(self).sv(),
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=to_slice_mut impl="ToSliceMut<T>\sfor\sSingleBufferBurrow<'a,\sT>"
//@ ret r
//@ spec
        ensures r@ == old(self).sv(), final(self).sv() == final(r)@, final(r)@.len() == r@.len(),
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=trade impl="BufferBorrow<Vec<T>,\sT>\sfor\sSingleBufferBurrow<'a,\sT>"
//@ spec
        ensures final(storage)@ == self.sv(),
//@ end
}
impl NoBuffer {
//@ extract file=vector/src/vector_types/support_std.rs fn=borrow impl="Buffer<'a,\sVec<T>,\sT>\sfor\sNoBuffer"
//@ rewrite_sig /fn\s+borrow/
fn borrow<T: RealNumber>
//@ rewrite_sig /Self::Borrow/
NoBufferBurrow<T>
//@ ret r
//@ spec
        ensures r.sv().len() == len,
//@ end
}
impl<T: RealNumber> NoBufferBurrow<T> {
    pub closed spec fn sv(&self) -> Seq<T> { self.data@ }
//@ extract file=vector/src/vector_types/support_std.rs fn=to_slice impl="ToSlice<T>\sfor\sNoBufferBurrow<T>"
//@ ret r
//@ spec
        ensures r@ == self.sv(),
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=len impl="ToSlice<T>\sfor\sNoBufferBurrow<T>"
//@ ret r
//@ spec
        ensures r == self.sv().len(),
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=to_slice_mut impl="ToSliceMut<T>\sfor\sNoBufferBurrow<T>"
//@ ret r
//@ spec
        ensures r@ == old(self).sv(), final(self).sv() == final(r)@, final(r)@.len() == r@.len(),
//@ end
//@ extract file=vector/src/vector_types/support_std.rs fn=trade impl="BufferBorrow<Vec<T>,\sT>\sfor\sNoBufferBurrow<T>"
//@ rewrite_sig /mut\s+self/
self
//@ rewrite /\bself\b/
this
//@ spec
        ensures final(storage)@ == self.sv(),
//@ body_start
        let mut this = self;
//@ end
}
impl<S: ToSliceMut<T>, T: RealNumber> FixedLenBuffer<S, T> {
    pub closed spec fn buf(&self) -> Seq<T> { self.data.sv() }
//@ extract file=vector/src/vector_types/support_core.rs fn=new impl="impl<S,\sT>\sFixedLenBuffer<S,\sT>"
//@ ret r
//@ spec
        ensures r.buf() == storage.sv(),
//@ end
//@ extract file=vector/src/vector_types/support_core.rs fn=borrow impl="Buffer<'a,\sS,\sT>\sfor\sFixedLenBuffer<S,\sT>"
//@ rewrite_sig /&'a\s+mut\s+self/
&mut self
//@ rewrite_sig /Self::Borrow/
FixedLenBufferBurrow<'_, T>
//@ ret r
//@ spec
        requires old(self).buf().len() >= len,
        ensures r.sv().len() == len,
//@ end
}
impl<'a, T: RealNumber> FixedLenBufferBurrow<'a, T> {
    pub closed spec fn sv(&self) -> Seq<T> { self.data@ }
//@ extract file=vector/src/vector_types/support_core.rs fn=to_slice impl="ToSlice<T>\sfor\sFixedLenBufferBurrow<'a,\sT>"
//@ ret r
//@ spec
        ensures r@ == self.sv(),
//@ end
//@ extract file=vector/src/vector_types/support_core.rs fn=len impl="ToSlice<T>\sfor\sFixedLenBufferBurrow<'a,\sT>"
//@ ret r
//@ spec
        ensures r == self.sv().len(),
//@ end
//@ extract file=vector/src/vector_types/support_core.rs fn=to_slice_mut impl="ToSliceMut<T>\sfor\sFixedLenBufferBurrow<'a,\sT>"
//@ ret r
//@ spec
        ensures r@ == old(self).sv(), final(r)@.len() == r@.len(),
//@ end
//@ extract file=vector/src/vector_types/support_core.rs fn=trade impl="BufferBorrow<S,\sT>\sfor\sFixedLenBufferBurrow<'a,\sT>"
//@ rewrite_sig /fn\s+trade\(self,\s*storage:\s*&mut\s+S\)/
fn trade<S: ToSliceMut<T>>(self, storage: &mut S)
//@ rewrite? /\.to_slice_mut\(\)\s*\.copy_from_slice/
.copy_from_slice
//@ spec
        requires self.sv().len() <= old(storage).sv().len() || self.sv().len() <= old(storage).cap(),
        ensures final(storage).sv().len() >= self.sv().len(),
            forall|i: int| #![trigger final(storage).sv()[i]] 0 <= i < self.sv().len() ==> final(storage).sv()[i] == self.sv()[i],
//@ end
}
}
fn main() {}
