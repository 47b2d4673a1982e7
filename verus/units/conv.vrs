//@ unit-props C11
//@ unit-title circular convolution with an impulse response
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::marker::PhantomData;
use std::slice::IterMut;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include mark contracts
//@ include iters
//@ include enumerated
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include cparts
//@ include changed
//@ include other
//@ include points
//@ include wrapit
//@ include convspec
//@ include fundot
//@ include conviter
//@ include funconv
//@ include convscalar
pub open spec fn rows<TT>(a: Seq<&[TT]>) -> Seq<Seq<TT>> { Seq::new(a.len(), |k: int| a[k]@) }
pub open spec fn views<S: ToSlice<T>, T: RealNumber, N: NumberSpace, D: Domain>(a: Seq<&DspVec<S, T, N, D>>) -> Seq<Seq<T>> { Seq::new(a.len(), |k: int| a[k]@) }
pub open spec fn cviews<S: ToSlice<T>, T: RealNumber, N: NumberSpace, D: Domain>(a: Seq<&DspVec<S, T, N, D>>) -> Seq<Seq<Complex<T>>> { Seq::new(a.len(), |k: int| cseq(a[k]@)) }
pub open spec fn same_len<S: ToSlice<T>, T: RealNumber, N: NumberSpace, D: Domain>(a: Seq<&DspVec<S, T, N, D>>) -> bool { forall|k: int| #![trigger a[k]] 0 <= k < a.len() ==> a[k].vlen() == a[0].vlen() }
/// rows which are all real or all complex like the first of `b`
pub open spec fn all_alike<S: ToSlice<T>, T: RealNumber, N: NumberSpace, D: Domain>(a: Seq<&DspVec<S, T, N, D>>, b: Seq<&DspVec<S, T, N, D>>) -> bool {
    forall|k: int| #![trigger a[k]] 0 <= k < a.len() ==> a[k].wf() && a[k].vlen() <= max_len() && a[k].cplx() == b[0].cplx()
}
/// every point is the sum over the rows of the convolution of the row with its impulse response
pub open spec fn mat_convolved<TT: Ring>(xs: Seq<Seq<TT>>, hs: Seq<Seq<TT>>, y: Seq<TT>) -> bool {
    let n = xs[0].len() as int;
    y.len() == n && forall|i: int| #![trigger y[i]] 0 <= i < n ==> y[i] == mat_dot(xs, Seq::new(hs.len(), |k: int| clip(hs[k], n)), i + ahead(hs[0], n), xs.len(), lesser(hs[0].len() as int, n))
}
/// ASSUMED contract on a dependency (collecting the mapped elements of a slice)
#[verifier::external_body]
fn map_collect<'a, A, B, F: Fn(&'a A) -> B>(a: &'a [A], f: F) -> (r: InlineVector<B>)
    requires forall|k: int| #![trigger a@[k]] 0 <= k < a@.len() ==> call_requires(f, (&a@[k],)),
    ensures r@.len() == a@.len(), forall|k: int| #![trigger r@[k]] 0 <= k < a@.len() ==> call_ensures(f, (&a@[k],), r@[k]),
{ unimplemented!() }
/// the items of an iterator with numbers; ASSUMED to be what zip(0..) does
#[verifier::external_body]
fn counted<A: Iterator>(a: A) -> (r: Counted<A>)
    requires rem(a).len() <= isize::MAX,
    ensures
        lawful(r) == lawful(a), rem(r).len() == rem(a).len(),
        forall|k: int| #![trigger rem(r)[k]] #![trigger rem(a)[k]] 0 <= k < rem(r).len() ==> rem(r)[k].1 == k && rem(r)[k].0 == rem(a)[k],
{ unimplemented!() }
pub struct Counted<A> { a: A }
impl<A: Iterator> vstd::std_specs::iter::IteratorSpecImpl for Counted<A> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { lawful(self.a) }
    #[verifier::prophetic]
    uninterp spec fn remaining(&self) -> Seq<Self::Item>;
    #[verifier::prophetic]
    closed spec fn will_return_none(&self) -> bool { true }
    closed spec fn decrease(&self) -> Option<nat> { None }
    closed spec fn peek(&self, index: int) -> Option<Self::Item> { None }
}
impl<A: Iterator> Iterator for Counted<A> {
    type Item = (A::Item, isize);
    #[verifier::external_body]
    fn next(&mut self) -> Option<(A::Item, isize)> { unimplemented!() }
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/time_freq/mod.rs fn=convolve_mat_iteration impl="impl<S" loops=2
//@ ret r
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite_sig /Zero \+ Clone \+ Copy \+ Add<Output = TT> \+ Mul<Output = TT> \+ Debug/
Ring
//@ rewrite? /TT::zero\(\)/
TT::zero_pt()
//@ rewrite? /(\w+)\.iter\(\)\.zip\((\w+)\.iter\(\)\)/
zip_of(\1.iter(), \2.iter())
//@ rewrite? /(\w+)\.zip\(\*(\w+)\)/
zip_of(\1, \2.iter())
//@ spec
        requires
            ring_ok::<TT>(), imp_resp@.len() == matrix@.len(), -0x4000_0000_0000_0000 <= i <= 0x2000_0000_0000_0000, 0 <= conv_len <= 0x2000_0000_0000_0000,
            forall|k: int| #![trigger matrix@[k]] 0 <= k < matrix@.len() ==> matrix@[k]@.len() > 0,
        ensures r == mat_dot(rows(matrix@), rows(imp_resp@), i + conv_len, matrix@.len(), full_conv_len as nat),
//@ loop 1 iter it
            invariant
                ring_ok::<TT>(), imp_resp@.len() == matrix@.len(), it.seq().len() == matrix@.len(), -0x4000_0000_0000_0000 <= i <= 0x2000_0000_0000_0000, 0 <= conv_len <= 0x2000_0000_0000_0000,
                forall|k: int| #![trigger matrix@[k]] 0 <= k < matrix@.len() ==> matrix@[k]@.len() > 0,
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.seq().len() ==> *(it.seq()[k].0) == matrix@[k] && *(it.seq()[k].1) == imp_resp@[k],
                sum == mat_dot(rows(matrix@), rows(imp_resp@), i + conv_len, it.index() as nat, full_conv_len as nat),
//@ loop_start 1
            let ghost s0 = sum;
            let ghost row = it.index() as int;
            proof { let _ = matrix@[row]; }
//@ loop 2 iter it2
                invariant
                    ring_ok::<TT>(), it2.seq().len() == lesser(full_conv_len as int, other_iter@.len() as int),
                    forall|k: int| #![trigger it2.seq()[k]] 0 <= k < it2.seq().len() ==> it2.seq()[k].0 == data@[wrap(i + conv_len + -1 * (k + 1), data@.len() as int)] && *(it2.seq()[k].1) == other_iter@[k],
                    sum == dot(s0, data@, other_iter@, i + conv_len, it2.index() as nat),
//@ after_loop 2
            proof { assert(rows(matrix@)[row] == data@ && rows(imp_resp@)[row] == other_iter@); }
//@ end
//@ extract file=vector/src/vector_types/time_freq/mod.rs fn=convolve_mat impl="impl<S" loops=4
//@ ret r
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite? /in &(\w+)\[\.\.\]/
in \1.iter()
//@ rewrite? /(\w+)\.iter_mut\(\)\.zip\(0\.\.\)/
counted(\1.iter_mut())
//@ rewrite? /&(\w+)\[\.\.\],/
\1.index_all(..),
//@ rewrite? /(\w+)\s*\.iter\(\)\s*\.map\(\|v\| v\.data\.to_slice\(\)\)\s*\.collect\(\)/
map_collect(\1, |v| -> (r: &[T]) ensures r@ == v.st() { v.data.to_slice() })
//@ rewrite? /(\w+)\s*\.iter\(\)\s*\.map\(\|o\| array_to_complex\(([^()]*)\)\)\s*\.collect\(\)/
map_collect(\1.index_all(..), |o| -> (r: &[Complex<T>]) requires o@.len() >= len && len % 2 == 0 ensures r@ == cseq(o@.subrange(0, len as int)) { array_to_complex(\2) })
//@ rewrite? /(\w+)\s*\.iter\(\)\s*\.map\(\|o\| (&o\[0\.\.len\])\)\s*\.collect\(\)/
map_collect(\1.index_all(..), |o| -> (r: &[T]) requires o@.len() >= len ensures r@ == o@.subrange(0, len as int) { \2 })
//@ rewrite? /(\w+)\s*\.iter\(\)\s*\.map\(\|o\| (&o\[[^\[\]]*\])\)\s*\.collect\(\)/
map_collect(\1.index_all(..), |o| -> (r: &[T]) requires other_start <= other_end <= o@.len() ensures r@ == o@.subrange(other_start as int, other_end as int) { \2 })
//@ rewrite? /(\w+)\s*\.iter\(\)\s*\.map\(\|o\| \{([^{}]*)\}\)\s*\.collect\(\)/
map_collect(\1.index_all(..), |o| -> (r: &[Complex<T>]) requires other_start <= other_end <= hl / 2, hl % 2 == 0, hl <= o@.len(), impulse_response@.len() > 0, impulse_response@[0].vlen() == hl ensures r@ == cseq(o@.subrange(0, hl)).subrange(other_start as int, other_end as int) { \2 })
//@ spec
        requires
            arith::<T>(), all_alike(matrix@, matrix@), all_alike(impulse_response@, matrix@),
            matrix@.len() > 0 ==> old(target)@.len() >= matrix@[0].vlen(),
        ensures
            r == (if impulse_response@.len() == matrix@.len() && matrix@.len() > 0 && same_len(matrix@) && same_len(impulse_response@) { Ok(()) } else { Err::<(), ErrorReason>(ErrorReason::InvalidArgumentLength) }),
            r is Err ==> final(target)@ == old(target)@,
            r is Ok ==> final(target)@.len() == old(target)@.len() && (forall|i: int| #![trigger final(target)@[i]] matrix@[0].vlen() <= i < old(target)@.len() ==> final(target)@[i] == old(target)@[i]),
            r is Ok && !matrix@[0].cplx() ==> mat_convolved(views(matrix@), views(impulse_response@), final(target)@.subrange(0, matrix@[0].vlen() as int)),
            r is Ok && matrix@[0].cplx() ==> mat_convolved(cviews(matrix@), cviews(impulse_response@), cseq(final(target)@.subrange(0, matrix@[0].vlen() as int))),
//@ body_start
        proof { axiom_slice_mut_len(target); }
//@ loop 1 iter it
            invariant it.seq().len() == matrix@.len(), matrix@.len() > 0, expected_len == matrix@[0].vlen(),
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.seq().len() ==> *(it.seq()[k]) == matrix@[k],
                forall|k: int| #![trigger matrix@[k]] 0 <= k < it.index() ==> matrix@[k].vlen() == expected_len,
//@ loop 2 iter it
            invariant it.seq().len() == impulse_response@.len(), impulse_response@.len() > 0, expected_len == impulse_response@[0].vlen(),
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.seq().len() ==> *(it.seq()[k]) == impulse_response@[k],
                forall|k: int| #![trigger impulse_response@[k]] 0 <= k < it.index() ==> impulse_response@[k].vlen() == expected_len,
//@ after_loop 2
        let ghost hl = impulse_response@[0].vlen() as int;
//@ before_loop 3
            let ghost dd = final(dest)@;
            let ghost pts = dest@.len();
            proof {
                assert(data_vecs@.subrange(0, data_vecs@.len() as int) =~= data_vecs@);
                assert(others@.subrange(0, others@.len() as int) =~= others@);
                assert(rows(data_vecs@) =~= cviews(matrix@));
                assert(rows(others@) =~= Seq::new(impulse_response@.len(), |k: int| clip(cviews(impulse_response@)[k], points as int))) by {
                    assert forall|k: int| 0 <= k < impulse_response@.len() implies rows(others@)[k] == clip(cviews(impulse_response@)[k], points as int) by { let _ = impulse_response@[k]; assert(rows(others@)[k] =~= clip(cviews(impulse_response@)[k], points as int)); }
                }
                lemma_cseq_fseq(dd);
            }
//@ loop 3 iter it
                invariant
                    ring_ok::<Complex<T>>(), it.seq().len() == pts, pts <= max_len(), matrix@.len() > 0, 0 <= conv_len <= max_len(), others@.len() == matrix@.len(), data_vecs@.len() == matrix@.len(),
                    forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.seq().len() ==> it.seq()[k].1 == k,
                    forall|k: int| #![trigger data_vecs@[k]] 0 <= k < data_vecs@.len() ==> data_vecs@[k]@.len() == pts,
                    data_vecs@.subrange(0, data_vecs@.len() as int) == data_vecs@, others@.subrange(0, others@.len() as int) == others@,
                    forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> *final(it.seq()[k].0) == mat_dot(rows(data_vecs@), rows(others@), k + conv_len, matrix@.len(), full_conv_len as nat),
//@ after_loop 3
            proof {
                assert(mat_convolved(cviews(matrix@), cviews(impulse_response@), dd));
                assert(target@.subrange(0, len as int) =~= fseq(dd));
            }
//@ before_loop 4
            let ghost dd = final(dest)@;
            let ghost pts = dest@.len();
            proof {
                assert(data_vecs@.subrange(0, data_vecs@.len() as int) =~= data_vecs@);
                assert(others@.subrange(0, others@.len() as int) =~= others@);
                assert(rows(data_vecs@) =~= views(matrix@));
                assert(rows(others@) =~= Seq::new(impulse_response@.len(), |k: int| clip(views(impulse_response@)[k], points as int))) by {
                    assert forall|k: int| 0 <= k < impulse_response@.len() implies rows(others@)[k] == clip(views(impulse_response@)[k], points as int) by { let _ = impulse_response@[k]; assert(rows(others@)[k] =~= clip(views(impulse_response@)[k], points as int)); }
                }
            }
//@ loop 4 iter it
                invariant
                    ring_ok::<T>(), it.seq().len() == pts, pts <= max_len(), matrix@.len() > 0, 0 <= conv_len <= max_len(), others@.len() == matrix@.len(), data_vecs@.len() == matrix@.len(),
                    forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.seq().len() ==> it.seq()[k].1 == k,
                    forall|k: int| #![trigger data_vecs@[k]] 0 <= k < data_vecs@.len() ==> data_vecs@[k]@.len() == pts,
                    data_vecs@.subrange(0, data_vecs@.len() as int) == data_vecs@, others@.subrange(0, others@.len() as int) == others@,
                    forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> *final(it.seq()[k].0) == mat_dot(rows(data_vecs@), rows(others@), k + conv_len, matrix@.len(), full_conv_len as nat),
//@ after_loop 4
            proof {
                assert(mat_convolved(views(matrix@), views(impulse_response@), dd));
                assert(target@.subrange(0, len as int) =~= dd);
            }
//@ end
}
}
fn main() {}
