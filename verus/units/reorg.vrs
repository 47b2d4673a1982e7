//@ unit-props C06
//@ unit-title splitting and merging
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include iters
//@ include enumerated

/// ASSUMED contract on a dependency (the length of a slice behind a mutable reference can not change)
#[verifier::external_body]
proof fn axiom_slice_mut_len<T>(r: &mut [T])
    ensures final(r)@.len() == old(r)@.len(),
{}
pub open spec fn max_len() -> int { 0x1000_0000_0000_0000 }
/// the items after the first of an iterator that hands out no more than `limit`; ASSUMED to be what core::iter::Take and Skip do
#[verifier::external_body]
fn rest_of<A: Iterator>(a: A, limit: usize, from: usize) -> (r: Rest<A>)
    ensures
        lawful(r) == lawful(a), rem(r).len() == least(limit as int, rem(a).len() as int) - least(from as int, least(limit as int, rem(a).len() as int)),
        forall|k: int| #![trigger rem(r)[k]] 0 <= k < rem(r).len() ==> rem(r)[k] == rem(a)[k + from],
{ unimplemented!() }
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
pub struct Rest<A> { a: A }
impl<A: Iterator> vstd::std_specs::iter::IteratorSpecImpl for Rest<A> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { lawful(self.a) }
    #[verifier::prophetic]
    uninterp spec fn remaining(&self) -> Seq<Self::Item>;
    #[verifier::prophetic]
    closed spec fn will_return_none(&self) -> bool { true }
    closed spec fn decrease(&self) -> Option<nat> { None }
    closed spec fn peek(&self, index: int) -> Option<Self::Item> { None }
}
impl<A: Iterator> Iterator for Rest<A> {
    type Item = A::Item;
    #[verifier::external_body]
    fn next(&mut self) -> Option<A::Item> { unimplemented!() }
}
/// the vectors have the same length
pub open spec fn even_lengths<S: ToSliceMut<T>, T: RealNumber, N: NumberSpace, D: Domain>(v: Seq<&DspVec<S, T, N, D>>) -> bool {
    forall|k: int| #![trigger v[k]] 0 <= k < v.len() ==> v[k].vlen() == v[0].vlen()
}
/// point i of the whole is point i / n of part i % n
pub open spec fn interlaced<P>(whole: Seq<P>, parts: Seq<Seq<P>>) -> bool {
    forall|i: int| #![trigger whole[i]] 0 <= i < whole.len() ==> whole[i] == parts[i % (parts.len() as int)][i / (parts.len() as int)]
}
pub open spec fn of_len<P>(parts: Seq<Seq<P>>, len: int) -> bool { forall|k: int| #![trigger parts[k]] 0 <= k < parts.len() ==> parts[k].len() == len }
/// C06: merging what was split gives the vector back, splitting what was merged gives the parts back
proof fn lemma_round_trip<P>(a: Seq<P>, b: Seq<P>, parts: Seq<Seq<P>>)
    requires interlaced(a, parts), interlaced(b, parts), a.len() == b.len(),
    ensures a == b,
{ assert(a =~= b); }
proof fn lemma_round_trip_parts<P>(a: Seq<P>, p: Seq<Seq<P>>, q: Seq<Seq<P>>, len: int)
    requires interlaced(a, p), interlaced(a, q), p.len() == q.len(), p.len() > 0, a.len() == len * p.len(), of_len(p, len), of_len(q, len),
    ensures p == q,
{
    let n = p.len() as int;
    assert forall|k: int| 0 <= k < n implies p[k] == q[k] by {
        assert forall|j: int| 0 <= j < len implies p[k][j] == q[k][j] by {
            let i = n * j + k;
            assert(0 <= i < len * n) by (nonlinear_arith) requires i == n * j + k, 0 <= j < len, 0 <= k < n;
            lemma_fundamental_div_mod_converse(i, n, j, k);
            let _ = a[i];
        }
        assert(p[k] =~= q[k]);
    }
    assert(p =~= q);
}
pub open spec fn views<S: ToSliceMut<T>, T: RealNumber, N: NumberSpace, D: Domain>(v: Seq<&DspVec<S, T, N, D>>) -> Seq<Seq<T>> { Seq::new(v.len(), |k: int| v[k]@) }
pub open spec fn cviews<S: ToSliceMut<T>, T: RealNumber, N: NumberSpace, D: Domain>(v: Seq<&DspVec<S, T, N, D>>) -> Seq<Seq<Complex<T>>> { Seq::new(v.len(), |k: int| cseq(v[k]@)) }
pub open spec fn views_of<S: ToSliceMut<T>, T: RealNumber, N: NumberSpace, D: Domain>(v: Seq<&mut DspVec<S, T, N, D>>) -> Seq<Seq<T>> { Seq::new(v.len(), |k: int| v[k]@) }
pub open spec fn cviews_of<S: ToSliceMut<T>, T: RealNumber, N: NumberSpace, D: Domain>(v: Seq<&mut DspVec<S, T, N, D>>) -> Seq<Seq<Complex<T>>> { Seq::new(v.len(), |k: int| cseq(v[k]@)) }
proof fn lemma_place(i: int, n: int, len: int)
    requires n > 0, 0 <= i < len * n,
    ensures 0 <= i / n < len, 0 <= i % n < n, i == n * (i / n) + i % n,
{
    lemma_fundamental_div_mod(i, n); lemma_mod_bound(i, n);
    let d = i / n;
    assert(d >= 0) by (nonlinear_arith) requires i == n * d + i % n, i >= 0, i % n < n, n >= 1;
    assert(d < len) by (nonlinear_arith) requires i == n * d + i % n, i % n >= 0, i < len * n, n >= 1;
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/general/data_reorganization.rs fn=merge impl="MergeOps\sfor" loops=3
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite? /(\w+)\.iter\(\)\.take\((\w+)\)\.skip\((\w+)\)/
rest_of(\1.iter(), \2, \3)
//@ rewrite? /for \(i, d\) in (\w+)\[0\.\.(\w+)\]\.iter_mut\(\)\.enumerate\(\)/
let part = &mut \1[0..\2]; let ghost fin = final(part)@; proof { axiom_slice_mut_len(part); } for (i, d) in enumerate_of(part.iter_mut())
//@ ret r
//@ spec
        requires old(self).wf(),
            forall|k: int| #![trigger sources@[k]] 0 <= k < sources@.len() ==> sources@[k].wf() && sources@[k].cplx() == old(self).cplx(),
            sources@.len() > 0 ==> sources@[0].vlen() * sources@.len() <= isize::MAX,
        ensures
            final(self).same_meta(old(self)),
            r.is_err() ==> final(self).vlen() == old(self).vlen() && final(self).st() == old(self).st(),
            sources@.len() == 0 || !even_lengths(sources@) ==> r == Err::<(), _>(ErrorReason::InvalidArgumentLength),
            sources@.len() > 0 && even_lengths(sources@) && sources@[0].vlen() * sources@.len() <= old(self).st().len() ==> r.is_ok(),
            r.is_ok() ==> final(self).vlen() == sources@[0].vlen() * sources@.len() && final(self).vlen() <= final(self).st().len(),
            r.is_ok() && !old(self).cplx() ==> interlaced(final(self)@, views(sources@)),
            r.is_ok() && old(self).cplx() ==> interlaced(cseq(final(self)@), cviews(sources@)),
//@ body_start
        let ghost o = *self;
        let ghost len = sources@[0].vlen() as int;
        let ghost n = sources@.len() as int;
//@ loop 1 iter it
                invariant n == sources@.len(), n > 0, it.seq().len() == n - 1,
                    forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.seq().len() ==> *(it.seq()[k]) == sources@[k + 1],
                    forall|k: int| #![trigger sources@[k]] 0 <= k <= it.index() ==> sources@[k].vlen() == sources@[0].vlen(),
//@ loop_start 1
                let ghost at = it.index() as int + 1;
                proof { let _ = it.seq()[it.index() as int]; let _ = sources@[0]; assert(src == sources@[at]); }
//@ before /return Err/ 2
                    proof { assert(sources@[at].vlen() != sources@[0].vlen()); }
//@ before /self\.resize/
            proof { if old(self).cplx() { lemma_mul_mod_noop_left(len, n, 2); assert((len % 2) * n == 0) by (nonlinear_arith) requires len % 2 == 0; } }
//@ before_loop 2
                let ghost z0 = data@;
                let ghost total = data_length as int;
//@ loop 2 iter it
                    invariant
                        n == sources@.len(), n == num_sources, n > 0, len >= 0, total == len * n, data_length == total, total <= isize::MAX, total % 2 == 0, len % 2 == 0, data@.len() == z0.len(), data@.len() >= total, even_lengths(sources@),
                        forall|k: int| #![trigger sources@[k]] 0 <= k < sources@.len() ==> sources@[k].wf() && sources@[k].vlen() == len,
                        forall|k: int| #![trigger cseq(data@.subrange(0, total))[k]] 0 <= k < it.index() ==> cseq(data@.subrange(0, total))[k] == cseq(sources@[k % n]@)[k / n],
//@ loop_start 2
                    let ghost before = data@;
                    proof { 
                        assert(i < (len / 2) * n) by (nonlinear_arith) requires 2 * i + 1 < total, total == len * n, len == 2 * (len / 2);
                        lemma_place(i as int, n, len / 2);
                    }
//@ loop_end 2
                    proof {
                        let v = sources@[i as int % n];
                        assert(cseq(v@)[i as int / n] == Complex { re: v.st()[2 * (i as int / n)], im: v.st()[2 * (i as int / n) + 1] });
                        assert forall|k: int| #![trigger cseq(data@.subrange(0, total))[k]] 0 <= k < i + 1 implies cseq(data@.subrange(0, total))[k] == cseq(sources@[k % n]@)[k / n] by {
                            if k < i { assert(cseq(before.subrange(0, total))[k] == cseq(sources@[k % n]@)[k / n]); }
                        }
                    }
//@ before_loop 3
                let ghost total = data_length as int;
//@ loop 3 iter it
                    invariant
                        n == sources@.len(), n == num_sources, n > 0, len >= 0, total == len * n, it.seq().len() == total, 
                        forall|k: int| #![trigger sources@[k]] 0 <= k < sources@.len() ==> sources@[k].wf() && sources@[k].vlen() == len,
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < total ==> it.seq()[k].0 == k,
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> *final(it.seq()[k].1) == sources@[k % n]@[k / n],
//@ loop_start 3
                    proof { lemma_place(i as int, n, len); }
//@ end
//@ extract file=vector/src/vector_types/general/data_reorganization.rs fn=split_into impl="SplitOps\sfor" loops=3
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite? /(\w+)\[0\.\.(\w+)\]\.iter\(\)\.enumerate\(\)/
enumerate_of(\1[0..\2].iter())
//@ ret r
//@ spec
        requires self.wf(),
            forall|k: int| #![trigger old(targets)@[k]] 0 <= k < old(targets)@.len() ==> old(targets)@[k].wf() && old(targets)@[k].cplx() == self.cplx(),
        ensures
            final(targets)@.len() == old(targets)@.len(),
            old(targets)@.len() == 0 || (self.vlen() as int / self.step()) % (old(targets)@.len() as int) != 0 ==> r == Err::<(), _>(ErrorReason::InvalidArgumentLength) && final(targets)@ == old(targets)@,
            old(targets)@.len() > 0 && (self.vlen() as int / self.step()) % (old(targets)@.len() as int) == 0 && (forall|k: int| #![trigger old(targets)@[k]] 0 <= k < old(targets)@.len() ==> old(targets)@[k].st().len() >= self.vlen()) ==> r.is_ok(),
            r.is_ok() ==> forall|k: int| #![trigger final(targets)@[k]] 0 <= k < old(targets)@.len() ==> final(targets)@[k].vlen() * old(targets)@.len() == self.vlen(),
            r.is_ok() && !self.cplx() ==> interlaced(self@, views_of(final(targets)@)),
            r.is_ok() && self.cplx() ==> interlaced(cseq(self@), cviews_of(final(targets)@)),
//@ body_start
        let ghost t0 = targets@;
        let ghost n = targets@.len() as int;
        let ghost len = self.vlen() as int / (if n == 0 { 1 } else { n });
        let ghost total = self.vlen() as int;
        proof { axiom_slice_mut_len(targets); }
//@ before_loop 1
        proof {
            lemma_fundamental_div_mod(total, n);
            let st = self.step();
            let p = total / st;
            lemma_fundamental_div_mod(p, n);
            let q = p / n;
            assert(total == n * (st * q)) by (nonlinear_arith) requires p == n * q, total == st * p;
            lemma_div_multiples_vanish(st * q, n);
            assert(len == st * q) by { assert(n * (st * q) == (st * q) * n) by (nonlinear_arith); }
            assert(total == len * n) by (nonlinear_arith) requires total == n * (st * q), len == st * q;
            assert(len <= total) by (nonlinear_arith) requires total == len * n, n >= 1, total >= 0;
            assert(p % n == 0);
            if self.cplx() { assert(len == 2 * q); }
        }
//@ loop 1 iter it
            invariant n == t0.len(), n > 0, total == self.vlen(), t0 == old(targets)@, len <= total, (total / self.step()) % n == 0, num_targets == n, data_length == total, it.seq().len() == n, len == total / n, self.cplx() ==> len % 2 == 0,
                forall|k: int| #![trigger t0[k]] 0 <= k < n ==> t0[k].wf() && t0[k].cplx() == self.cplx(),
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < n ==> *(it.seq()[k]) == t0[k],
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> final(it.seq()[k]).vlen() == len && final(it.seq()[k]).vlen() <= final(it.seq()[k]).st().len(),
//@ loop_start 1
                proof { let _ = it.seq()[it.index() as int]; let _ = t0[it.index() as int]; }
//@ before_loop 2
            let ghost v = self@;
//@ loop 2 iter it
                invariant
                    n > 0, num_targets == n, total == len * n, data_length == total, total % 2 == 0, len % 2 == 0, len >= 0, total <= isize::MAX, targets@.len() == n, v == data@.subrange(0, total), v.len() == total, data@.len() >= total,
                    forall|k: int| #![trigger targets@[k]] 0 <= k < n ==> targets@[k].vlen() == len && len <= targets@[k].st().len(),
                    forall|k: int| #![trigger cseq(v)[k]] 0 <= k < it.index() ==> cseq(v)[k] == cseq(targets@[k % n]@)[k / n],
//@ loop_start 2
                let ghost before = targets@;
                proof { 
                    assert(i < (len / 2) * n) by (nonlinear_arith) requires 2 * i + 1 < total, total == len * n, len == 2 * (len / 2);
                    lemma_place(i as int, n, len / 2);
                }
//@ loop_end 2
                proof {
                    assert forall|k: int| #![trigger cseq(v)[k]] 0 <= k < i + 1 implies cseq(v)[k] == cseq(targets@[k % n]@)[k / n] by {
                        assert(k < (len / 2) * n);
                        lemma_place(k, n, len / 2);
                        assert(k < i ==> cseq(v)[k] == cseq(before[k % n]@)[k / n]);
                        assert(k % n == i as int % n && k < i ==> k / n < i as int / n) by (nonlinear_arith)
                            requires k == n * (k / n) + k % n, i == n * (i as int / n) + i as int % n, n > 0;
                    }
                }
//@ before_loop 3
            let ghost v = self@;
//@ loop 3 iter it
                invariant
                    n > 0, num_targets == n, total == len * n, data_length == total, len >= 0, targets@.len() == n, v.len() == total, it.seq().len() == total,
                    forall|k: int| #![trigger it.seq()[k]] 0 <= k < total ==> it.seq()[k].0 == k && *(it.seq()[k].1) == v[k],
                    forall|k: int| #![trigger targets@[k]] 0 <= k < n ==> targets@[k].vlen() == len && len <= targets@[k].st().len(),
                    forall|k: int| #![trigger v[k]] 0 <= k < it.index() ==> v[k] == targets@[k % n]@[k / n],
//@ loop_start 3
                let ghost before = targets@;
                proof { let _ = it.seq()[it.index() as int]; lemma_place(i as int, n, len); }
//@ loop_end 3
                proof {
                    assert forall|k: int| #![trigger v[k]] 0 <= k < i + 1 implies v[k] == targets@[k % n]@[k / n] by {
                        lemma_place(k, n, len);
                        assert(k < i ==> v[k] == before[k % n]@[k / n]);
                        assert(k % n == i as int % n && k < i ==> k / n < i as int / n) by (nonlinear_arith)
                            requires k == n * (k / n) + k % n, i == n * (i as int / n) + i as int % n, n > 0;
                    }
                }
//@ end
}
}
fn main() {}
