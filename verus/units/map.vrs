//@ unit-props C19
//@ unit-title mapping and folding
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include mark contracts
//@ include iters
//@ include inlinevec contracts
//@ include chunkapi contracts
//@ include cparts
pub type ScalarResult<T> = Result<T, ErrorReason>;
//@ include changed
/// `n` is the result of mapping every element of `o`, whose first has number `off`
pub open spec fn mapped_to<E, A, F: Fn(E, usize, A) -> E>(map: &F, o: Seq<E>, n: Seq<E>, off: int, argument: A) -> bool {
    n.len() == o.len() && forall|j: int| #![trigger n[j]] 0 <= j < o.len() ==> call_ensures(*map, (o[j], (off + j) as usize, argument), n[j])
}
pub open spec fn fold_step<R, G: Fn(R, R) -> R>(aggr: &G, a: R, e: R, r: R) -> bool { call_ensures(*aggr, (a, e), r) }
/// left fold of a non-empty sequence
pub open spec fn folded<R, G: Fn(R, R) -> R>(aggr: &G, w: Seq<R>, r: R) -> bool
    decreases w.len()
{
    if w.len() == 0 { false } else if w.len() == 1 { r == w[0] } else { exists|a: R| folded(aggr, w.drop_last(), a) && #[trigger] fold_step(aggr, a, w.last(), r) }
}
/// `e` are the mapped values of all elements of `a`, whose first has number `off`
pub open spec fn values<E, R, A, F: Fn(E, usize, A) -> R>(map: &F, a: Seq<E>, off: int, argument: A, e: Seq<R>) -> bool {
    e.len() == a.len() && forall|j: int| #![trigger e[j]] 0 <= j < a.len() ==> call_ensures(*map, (a[j], (off + j) as usize, argument), e[j])
}
/// the fold of the mapped values of a part, None for an empty part
pub open spec fn part_fold<E, R, A, F: Fn(E, usize, A) -> R, G: Fn(R, R) -> R>(map: &F, aggr: &G, a: Seq<E>, off: int, argument: A, r: Option<R>) -> bool {
    match r { None => a.len() == 0, Some(r) => exists|e: Seq<R>| #[trigger] values(map, a, off, argument, e) && folded(aggr, e, r) }
}
pub open spec fn parts_folded<E, R, A, F: Fn(E, usize, A) -> R, G: Fn(R, R) -> R>(map: &F, aggr: &G, a: Seq<E>, p: Seq<(int, int)>, argument: A, v: Seq<Option<R>>) -> bool {
    v.len() == p.len() && forall|k: int| #![trigger p[k]] #![trigger v[k]] 0 <= k < p.len() ==> part_fold(map, aggr, sub(a, p[k]), p[k].0, argument, v[k])
}
pub open spec fn somes<R>(v: Seq<Option<R>>) -> Seq<R>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { match v.last() { Some(x) => somes(v.drop_last()).push(x), None => somes(v.drop_last()) } }
}
proof fn lemma_somes<R>(v: Seq<Option<R>>, k: int)
    requires 0 <= k < v.len(), v[k] is Some,
    ensures somes(v).len() > 0,
    decreases v.len(),
{ if k < v.len() - 1 { lemma_somes(v.drop_last(), k); } }
proof fn lemma_somes_none<R>(v: Seq<Option<R>>)
    requires forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] is None,
    ensures somes(v).len() == 0,
    decreases v.len(),
{ if v.len() > 0 { assert(forall|k: int| 0 <= k < v.len() - 1 ==> v.drop_last()[k] == v[k]); lemma_somes_none(v.drop_last()); } }
/// pointwise requirements of the two functions
pub open spec fn total<E, R, A, F: Fn(E, usize, A) -> R, G: Fn(R, R) -> R>(map: &F, aggr: &G, n: int, argument: A) -> bool {
    &&& forall|x: E, i: usize| #![trigger call_requires(*map, (x, i, argument))] i < n ==> call_requires(*map, (x, i, argument))
    &&& forall|x: R, y: R| #![trigger call_requires(*aggr, (x, y))] call_requires(*aggr, (x, y))
}
/// The property's form for an associative and commutative `aggregate`: the result does not depend on the parts. Stated without
/// these laws: the result is the fold, over the parts of a division of all points, of the folds of the mapped values of the parts.
pub open spec fn is_aggregate<E, R, A, F: Fn(E, usize, A) -> R, G: Fn(R, R) -> R>(map: &F, aggr: &G, a: Seq<E>, argument: A, r: R) -> bool {
    exists|p: Seq<(int, int)>, v: Seq<Option<R>>| parts_ok(p, a.len() as int, 1) && #[trigger] parts_folded(map, aggr, a, p, argument, v) && folded(aggr, somes(v), r)
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/general/mapping.rs fn=map_inplace impl="MapInplaceOps<T>\sfor\sDspVec" loops=1
//@ rewrite? /move \|array, range, argument\| \{/
move |array: &mut [T], range: Range<usize>, argument: A|
            requires
                range.start + old(array)@.len() == range.end,
                forall|x: T, i: usize| #![trigger call_requires(*map, (x, i, argument))] i < range.end ==> call_requires(*map, (x, i, argument)),
            ensures final(array)@.len() == old(array)@.len(), mapped_to(map, old(array)@, final(array)@, range.start as int, argument),
            {
                let ghost o = array@;
                proof { axiom_slice_mut_len(array); }
//@ rewrite? /for num in array \{/
for num in array.iter_mut() {
//@ spec
        requires
            old(self).wf(), old(self).vlen() <= max_len(),
            forall|x: T, i: usize| #![trigger call_requires(*map, (x, i, argument))] i < old(self).vlen() ==> call_requires(*map, (x, i, argument)),
        ensures
            old(self).cplx() ==> final(self).vlen() == 0 && final(self).dlt().nan_p() && final(self).st() == old(self).st(),
            !old(self).cplx() ==> final(self).only_values_changed(old(self)) && mapped_to(map, old(self)@, final(self)@, 0, argument),
//@ body_start
        let ghost o = self@;
//@ loop 1 iter it
                    invariant
                        it.seq().len() == o.len(), i == range.start + it.index(), range.start + o.len() == range.end,
                        forall|x: T, i: usize| #![trigger call_requires(*map, (x, i, argument))] i < range.end ==> call_requires(*map, (x, i, argument)),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < o.len() ==> *(it.seq()[k]) == o[k],
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> call_ensures(*map, (o[k], (range.start + k) as usize, argument), *final(it.seq()[k])),
//@ body_end
        proof {
            let n = array@.subrange(0, length as int);
            let p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, length as int, 1) && n.len() == length && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> mapped_to(map, sub(o, p[k]), sub(n, p[k]), p[k].0, argument);
            assert forall|i: int| #![trigger n[i]] 0 <= i < length implies call_ensures(*map, (o[i], i as usize, argument), n[i]) by {
                let k = lemma_part(p, length as int, 1, i);
                let _ = p[k];
                assert(sub(n, p[k])[i - p[k].0] == n[i]);
                assert(sub(o, p[k])[i - p[k].0] == o[i]);
            }
        }
//@ end
//@ extract file=vector/src/vector_types/general/mapping.rs fn=map_inplace impl="MapInplaceOps<Complex<T>>\sfor\sDspVec" as=c_map_inplace loops=1
//@ rewrite? /move \|array, range, argument\| \{/
move |array: &mut [T], range: Range<usize>, argument: A|
            requires
                range.start + old(array)@.len() == range.end, range.start % 2 == 0, old(array)@.len() % 2 == 0,
                forall|x: Complex<T>, i: usize| #![trigger call_requires(*map, (x, i, argument))] i < range.end / 2 ==> call_requires(*map, (x, i, argument)),
            ensures final(array)@.len() == old(array)@.len(), mapped_to(map, cseq(old(array)@), cseq(final(array)@), range.start as int / 2, argument),
            {
                let ghost o = cseq(array@);
                proof { axiom_slice_mut_len(array); }
//@ rewrite? /for num in array \{/
for num in array.iter_mut() {
//@ spec
        requires
            old(self).wf(), old(self).vlen() <= max_len(),
            forall|x: Complex<T>, i: usize| #![trigger call_requires(*map, (x, i, argument))] i < old(self).vlen() / 2 ==> call_requires(*map, (x, i, argument)),
        ensures
            !old(self).cplx() ==> final(self).vlen() == 0 && final(self).dlt().nan_p() && final(self).st() == old(self).st(),
            old(self).cplx() ==> final(self).only_values_changed(old(self)) && mapped_to(map, cseq(old(self)@), cseq(final(self)@), 0, argument),
//@ body_start
        let ghost ov = self@;
        let ghost o = cseq(self@);
//@ loop 1 iter it
                    invariant
                        it.seq().len() == o.len(), i == range.start / 2 + it.index(), range.start / 2 + o.len() == range.end / 2,
                        forall|x: Complex<T>, i: usize| #![trigger call_requires(*map, (x, i, argument))] i < range.end / 2 ==> call_requires(*map, (x, i, argument)),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < o.len() ==> *(it.seq()[k]) == o[k],
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> call_ensures(*map, (o[k], (range.start / 2 + k) as usize, argument), *final(it.seq()[k])),
//@ after_loop 1
                    proof {
                        let w = Seq::new(o.len(), |k: int| cseq(fseq(array@))[k]);
                        lemma_cseq_fseq(array@);
                        assert(w =~= array@);
                    }
//@ body_end
        proof {
            let n = array@.subrange(0, length as int);
            let cn = cseq(n);
            let p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, length as int, 2) && n.len() == length && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> mapped_to(map, cseq(sub(ov, p[k])), cseq(sub(n, p[k])), p[k].0 / 2, argument);
            assert forall|i: int| #![trigger cn[i]] 0 <= i < length / 2 implies call_ensures(*map, (o[i], i as usize, argument), cn[i]) by {
                let k = lemma_part(p, length as int, 2, 2 * i);
                let _ = p[k];
                assert(p[k].0 % 2 == 0 && p[k].1 % 2 == 0);
                let q = i - p[k].0 / 2;
                assert(cseq(sub(n, p[k]))[q] == cn[i]);
                assert(cseq(sub(ov, p[k]))[q] == o[i]);
            }
        }
//@ end
//@ extract file=vector/src/vector_types/general/mapping.rs fn=map_aggregate impl="MapAggregateOps<T,\sR>\sfor\sDspVec" loops=3
//@ prefix
#[verifier::rlimit(100)]
//@ ret ret
//@ rewrite_sig? /fn\s+map_aggregate<'a,\s*A,/
fn map_aggregate<'a, R: Send, A,
//@ rewrite? /move \|array, range, argument\| \{/
move |array: &[T], range: Range<usize>, argument: A| -> (res: Option<R>)
            requires
                range.start + array@.len() == range.end,
                total(map, aggregate, range.end as int, argument),
            ensures part_fold(map, aggregate, array@, range.start as int, argument, res),
            {
                let ghost mut es: Seq<R> = Seq::empty();
//@ rewrite? /for num in array \{/
for num in array.iter() {
//@ spec
        requires
            self.wf(), self.vlen() <= max_len(), total(map, aggregate, self.vlen() as int, argument),
        ensures
            self.cplx() ==> ret == Err::<R, _>(ErrorReason::InputMustBeReal),
            !self.cplx() && self.vlen() == 0 ==> ret == Err::<R, _>(ErrorReason::InputMustNotBeEmpty),
            !self.cplx() && self.vlen() > 0 ==> ret.is_ok() && is_aggregate(map, aggregate, self@, argument, ret->Ok_0),
//@ loop 1 iter it
                    invariant
                        it.seq().len() == array@.len(), i == range.start + it.index(), range.start + array@.len() == range.end,
                        total(map, aggregate, range.end as int, argument),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < array@.len() ==> *(it.seq()[k]) == array@[k],
                        values(map, array@.subrange(0, it.index() as int), range.start as int, argument, es),
                        match sum { None => it.index() == 0, Some(s) => it.index() > 0 && folded(aggregate, es, s) },
//@ loop_start 1
                        let ghost s0 = sum;
                        let ghost e0 = es;
//@ after /let res/ 1
                        proof { es = es.push(res); assert(es.drop_last() =~= e0); }
//@ loop_end 1
                        proof {
                            assert(s0 is Some ==> fold_step(aggregate, s0->Some_0, es.last(), sum->Some_0));
                            assert(array@.subrange(0, it.index() + 1).subrange(0, it.index() as int) =~= array@.subrange(0, it.index() as int));
                        }
//@ after_loop 1
                    proof { assert(array@.subrange(0, array@.len() as int) =~= array@); }
//@ before /let mut only_valid_options/ 1
        let ghost a = self@;
        let ghost v = result@;
        let ghost p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, a.len() as int, 1) && v.len() == p.len() && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> part_fold(map, aggregate, sub(a, p[k]), p[k].0, argument, v[k]);
        proof {
            let k = lemma_part(p, a.len() as int, 1, 0);
            let _ = p[k]; assert(sub(a, p[k]).len() > 0); assert(v[k] is Some);
            assert(parts_folded(map, aggregate, a, p, argument, v));
            lemma_somes(v, k);
        }
//@ loop 2 iter it
            invariant
                it.seq().len() == v.len(),
                result@ == v.subrange(0, v.len() - it.index()),
                somes(v) == somes(result@) + only_valid_options@.reverse(),
//@ loop_start 2
            let ghost r0 = result@;
            let ghost o0 = only_valid_options@;
//@ loop_end 2
            proof {
                assert(result@ =~= r0.drop_last());
                match r0.last() { None => {}, Some(e) => { assert(somes(r0) == somes(r0.drop_last()).push(e)); assert(somes(r0) + o0.reverse() =~= somes(result@) + o0.push(e).reverse()); } }
                assert(result@ =~= v.subrange(0, v.len() - it.index() - 1));
            }
//@ after_loop 2
        let ghost w = only_valid_options@;
        let ghost f = somes(v);
        proof { assert(result@ =~= Seq::empty()); assert(f =~= w.reverse()); }
//@ loop 3 iter it
            invariant
                f == w.reverse(), w.len() > 0, it.seq().len() == w.len() - 1,
                only_valid_options@ == w.subrange(0, w.len() - 1 - it.index()),
                folded(aggregate, f.subrange(0, it.index() + 1), aggregated),
                forall|x: R, y: R| #![trigger call_requires(*aggregate, (x, y))] call_requires(*aggregate, (x, y)),
//@ loop_start 3
            let ghost a0 = aggregated;
            let ghost q = it.index() as int;
//@ loop_end 3
            proof {
                assert(f.subrange(0, q + 2).drop_last() =~= f.subrange(0, q + 1));
                assert(f.subrange(0, q + 2).last() == w[w.len() - 2 - q]);
                assert(only_valid_options@ =~= w.subrange(0, w.len() - 2 - q));
                assert(fold_step(aggregate, a0, f.subrange(0, q + 2).last(), aggregated));
            }
//@ after_loop 3
        proof { assert(f.subrange(0, f.len() as int) =~= f); assert(is_aggregate(map, aggregate, a, argument, aggregated)); }
//@ end
//@ extract file=vector/src/vector_types/general/mapping.rs fn=map_aggregate impl="MapAggregateOps<Complex<T>,\sR>\sfor\sDspVec" as=c_map_aggregate loops=3
//@ prefix
#[verifier::rlimit(100)]
//@ ret ret
//@ rewrite_sig? /fn\s+map_aggregate<'a,\s*A,/
fn map_aggregate<'a, R: Send, A,
//@ rewrite? /move \|array, range, argument\| \{/
move |array: &[T], range: Range<usize>, argument: A| -> (res: Option<R>)
            requires
                range.start + array@.len() == range.end, range.start % 2 == 0, array@.len() % 2 == 0,
                total(map, aggregate, range.end as int / 2, argument),
            ensures part_fold(map, aggregate, cseq(array@), range.start as int / 2, argument, res),
            {
                let ghost mut es: Seq<R> = Seq::empty();
//@ rewrite? /for num in array \{/
for num in array.iter() {
//@ spec
        requires
            self.wf(), self.vlen() <= max_len(), total(map, aggregate, self.vlen() as int / 2, argument),
        ensures
            !self.cplx() ==> ret == Err::<R, _>(ErrorReason::InputMustBeComplex),
            self.cplx() && self.vlen() == 0 ==> ret == Err::<R, _>(ErrorReason::InputMustNotBeEmpty),
            self.cplx() && self.vlen() > 0 ==> ret.is_ok() && is_aggregate(map, aggregate, cseq(self@), argument, ret->Ok_0),
//@ loop 1 iter it
                    invariant
                        it.seq().len() == array@.len(), i == range.start / 2 + it.index(), range.start / 2 + array@.len() == range.end / 2,
                        total(map, aggregate, range.end as int / 2, argument),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < array@.len() ==> *(it.seq()[k]) == array@[k],
                        values(map, array@.subrange(0, it.index() as int), range.start as int / 2, argument, es),
                        match sum { None => it.index() == 0, Some(s) => it.index() > 0 && folded(aggregate, es, s) },
//@ loop_start 1
                        let ghost s0 = sum;
                        let ghost e0 = es;
//@ after /let res/ 1
                        proof { es = es.push(res); assert(es.drop_last() =~= e0); }
//@ loop_end 1
                        proof {
                            assert(s0 is Some ==> fold_step(aggregate, s0->Some_0, es.last(), sum->Some_0));
                            assert(array@.subrange(0, it.index() + 1).subrange(0, it.index() as int) =~= array@.subrange(0, it.index() as int));
                        }
//@ after_loop 1
                    proof { assert(array@.subrange(0, array@.len() as int) =~= array@); }
//@ before /let mut only_valid_options/ 1
        let ghost a = cseq(self@);
        let ghost av = self@;
        let ghost v = result@;
        let ghost p2 = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, av.len() as int, 2) && v.len() == p.len() && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> part_fold(map, aggregate, cseq(sub(av, p[k])), p[k].0 / 2, argument, v[k]);
        let ghost p = halves(p2);
        proof {
            lemma_halves(p2, av);
            let k = lemma_part(p, a.len() as int, 1, 0);
            let _ = p[k]; let _ = p2[k]; assert(sub(a, p[k]).len() > 0); assert(v[k] is Some);
            assert forall|k: int| #![trigger p[k]] #![trigger v[k]] 0 <= k < p.len() implies part_fold(map, aggregate, sub(a, p[k]), p[k].0, argument, v[k]) by { let _ = p2[k]; }
            assert(parts_folded(map, aggregate, a, p, argument, v));
            lemma_somes(v, k);
        }
//@ loop 2 iter it
            invariant
                it.seq().len() == v.len(),
                result@ == v.subrange(0, v.len() - it.index()),
                somes(v) == somes(result@) + only_valid_options@.reverse(),
//@ loop_start 2
            let ghost r0 = result@;
            let ghost o0 = only_valid_options@;
//@ loop_end 2
            proof {
                assert(result@ =~= r0.drop_last());
                match r0.last() { None => {}, Some(e) => { assert(somes(r0) == somes(r0.drop_last()).push(e)); assert(somes(r0) + o0.reverse() =~= somes(result@) + o0.push(e).reverse()); } }
                assert(result@ =~= v.subrange(0, v.len() - it.index() - 1));
            }
//@ after_loop 2
        let ghost w = only_valid_options@;
        let ghost f = somes(v);
        proof { assert(result@ =~= Seq::empty()); assert(f =~= w.reverse()); }
//@ loop 3 iter it
            invariant
                f == w.reverse(), w.len() > 0, it.seq().len() == w.len() - 1,
                only_valid_options@ == w.subrange(0, w.len() - 1 - it.index()),
                folded(aggregate, f.subrange(0, it.index() + 1), aggregated),
                forall|x: R, y: R| #![trigger call_requires(*aggregate, (x, y))] call_requires(*aggregate, (x, y)),
//@ loop_start 3
            let ghost a0 = aggregated;
            let ghost q = it.index() as int;
//@ loop_end 3
            proof {
                assert(f.subrange(0, q + 2).drop_last() =~= f.subrange(0, q + 1));
                assert(f.subrange(0, q + 2).last() == w[w.len() - 2 - q]);
                assert(only_valid_options@ =~= w.subrange(0, w.len() - 2 - q));
                assert(fold_step(aggregate, a0, f.subrange(0, q + 2).last(), aggregated));
            }
//@ after_loop 3
        proof { assert(f.subrange(0, f.len() as int) =~= f); assert(is_aggregate(map, aggregate, a, argument, aggregated)); }
//@ end
}
}
fn main() {}
