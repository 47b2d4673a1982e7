//@ unit-props C12 C02
//@ unit-title windows
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include mark contracts
//@ include iters
//@ include inlinevec contracts
//@ include chunkapi contracts
//@ include sympairs contracts
//@ include cparts
//@ include changed
//@ include points
/// `w` is the value of the function at point i of n
pub open spec fn value_at<FA, TT, F: Fn(FA, usize, usize) -> TT>(fun: F, arg: FA, i: int, n: int, w: TT) -> bool { call_ensures(fun, (arg, i as usize, n as usize), w) }
/// `w` is the value of the function at point i of n or, of a function which is declared to be symmetric, at the mirrored point
pub open spec fn weight<FA, TT, F: Fn(FA, usize, usize) -> TT>(fun: F, arg: FA, sym: bool, i: int, n: int, w: TT) -> bool {
    value_at(fun, arg, i, n, w) || sym && value_at(fun, arg, n - 1 - i, n, w)
}
pub open spec fn times_weight<FA, TT: Mul<Output = TT>, F: Fn(FA, usize, usize) -> TT>(fun: F, arg: FA, sym: bool, i: int, n: int, x: TT, y: TT) -> bool {
    exists|w: TT| #[trigger] weight(fun, arg, sym, i, n, w) && y == x.mul_spec(w)
}
/// every point is multiplied by its weight
pub open spec fn windowed<FA, TT: Mul<Output = TT>, F: Fn(FA, usize, usize) -> TT>(fun: F, arg: FA, sym: bool, off: int, points: int, o: Seq<TT>, n: Seq<TT>) -> bool {
    n.len() == o.len() && forall|i: int| #![trigger n[i]] 0 <= i < o.len() ==> times_weight(fun, arg, sym, off + i, points, o[i], n[i])
}
pub open spec fn fun_total<FA, TT, F: Fn(FA, usize, usize) -> TT>(fun: F, arg: FA, points: int) -> bool {
    forall|i: usize| #![trigger call_requires(fun, (arg, i, points as usize))] i < points ==> call_requires(fun, (arg, i, points as usize))
}
//@ include windowapi
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/mod.rs fn=multiply_window_priv impl="impl" loops=3
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite_sig /TT: Zero \+ Mul<Output = TT> \+ Copy \+ Send \+ Sync \+ From<T>/
TT: Point<T>
//@ rewrite? /assert!\(/
asserted(
//@ rewrite? /move \|array, range, arg\| \{/
move |array: &mut [TT], range: Range<usize>, arg: FA|
            requires
                range.start + old(array)@.len() == range.end, range.end <= points, fun_total(fun, arg, points as int), mul_ok::<TT>(),
            ensures windowed(fun, arg, is_symmetric, range.start as int, points as int, old(array)@, final(array)@),
            {
                let ghost o = array@;
                proof { axiom_slice_mut_len(array); }
//@ rewrite? /move \|array1, range, array2, _, arg\| \{/
move |array1: &mut [TT], range: &Range<usize>, array2: &mut [TT], range2: &Range<usize>, arg: FA|
            requires
                is_symmetric, range.end == range.start + old(array1)@.len(), range2.end == range2.start + old(array2)@.len(),
                pair_ok(((range.start as int, range.end as int), (range2.start as int, range2.end as int)), points as int),
                fun_total(fun, arg, points as int), mul_ok::<TT>(),
            ensures
                windowed(fun, arg, is_symmetric, range.start as int, points as int, old(array1)@, final(array1)@),
                windowed(fun, arg, is_symmetric, range2.start as int, points as int, old(array2)@, final(array2)@),
            {
                let ghost o1 = array1@;
                let ghost o2 = array2@;
                let ghost n2 = final(array2)@;
                proof { axiom_slice_mut_len(array1); axiom_slice_mut_len(array2); }
//@ rewrite? /\.iter_mut\(\)\.rev\(\)/
.iter_mut().rev_mut()
//@ rewrite? /(\w+)\.iter_mut\(\)\.rev_mut\(\)/
rev_of(\1.iter_mut())
//@ rewrite? /in (\w+)\.zip\((\w+)\)/
in zip_mut_of(\1, \2)
//@ rewrite? /for num1 in &mut (\w+)\[([^\[\]]*)\]/
for num1 in (&mut \1[\2]).iter_mut()
//@ rewrite? /for num in array \{/
for num in array.iter_mut() {
//@ spec
        requires
            old(self).wf(), old(self).vlen() <= max_len(), TT::width() == old(self).step(), converts(convert_mut), mul_ok::<TT>(),
            fun_total(fun, function_arg, old(self).vlen() as int / TT::width()),
        ensures
            final(self).only_values_changed(old(self)),
            windowed(fun, function_arg, is_symmetric, 0, old(self).vlen() as int / TT::width(), TT::pts(old(self)@), TT::pts(final(self)@)),
//@ body_start
        let ghost o = self@;
        proof { TT::laws(); }
//@ body_end
        proof {
            let n = TT::pts(self@);
            let points = self.vlen() as int / TT::width();
            let op = TT::pts(o);
            if is_symmetric {
                let p = choose|p: Seq<Pair>| #[trigger] pairs_ok(p, points) && n.len() == points && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==>
                    windowed(fun, function_arg, true, p[k].0.0, points, sub(op, p[k].0), sub(n, p[k].0)) && windowed(fun, function_arg, true, p[k].1.0, points, sub(op, p[k].1), sub(n, p[k].1));
                assert forall|i: int| #![trigger n[i]] 0 <= i < points implies times_weight(fun, function_arg, true, i, points, op[i], n[i]) by {
                    let k = lemma_pair(p, points, i);
                    let _ = p[k];
                    if p[k].0.0 <= i < p[k].0.1 { assert(sub(n, p[k].0)[i - p[k].0.0] == n[i]); assert(sub(op, p[k].0)[i - p[k].0.0] == op[i]); }
                    else { assert(sub(n, p[k].1)[i - p[k].1.0] == n[i]); assert(sub(op, p[k].1)[i - p[k].1.0] == op[i]); }
                }
            } else {
                let p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, points, 1) && n.len() == points && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> windowed(fun, function_arg, false, p[k].0, points, sub(op, p[k]), sub(n, p[k]));
                assert forall|i: int| #![trigger n[i]] 0 <= i < points implies times_weight(fun, function_arg, false, i, points, op[i], n[i]) by {
                    let k = lemma_part(p, points, 1, i);
                    let _ = p[k];
                    assert(sub(n, p[k])[i - p[k].0] == n[i]);
                    assert(sub(op, p[k])[i - p[k].0] == op[i]);
                }
            }
        }
//@ loop 1 iter it
                    invariant
                        it.seq().len() == o.len(), j == range.start + it.index(), range.start + o.len() == range.end, range.end <= points, fun_total(fun, arg, points as int), mul_ok::<TT>(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < o.len() ==> *(it.seq()[k]) == o[k],
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> times_weight(fun, arg, is_symmetric, range.start + k, points as int, o[k], *final(it.seq()[k])),
//@ loop_start 1
                        assert forall|w: TT| #![trigger call_ensures(fun, (arg, j, points), w)] call_ensures(fun, (arg, j, points), w) implies weight(fun, arg, is_symmetric, range.start + it.index(), points as int, w) by {}
//@ loop_start 2
                        assert forall|w: TT| #![trigger call_ensures(fun, (arg, j, points), w)] call_ensures(fun, (arg, j, points), w) implies weight(fun, arg, is_symmetric, range.start + it.index(), points as int, w)
                            && weight(fun, arg, is_symmetric, range2.start + o2.len() - 1 - it.index(), points as int, w) by {}
//@ loop_start 3
                        assert forall|w: TT| #![trigger call_ensures(fun, (arg, j, points), w)] call_ensures(fun, (arg, j, points), w) implies weight(fun, arg, is_symmetric, range.start + o2.len() + it.index(), points as int, w) by {}
//@ loop 2 iter it
                    invariant
                        is_symmetric, range.end == range.start + o1.len(), range2.end == range2.start + o2.len(),
                        pair_ok(((range.start as int, range.end as int), (range2.start as int, range2.end as int)), points as int),
                        fun_total(fun, arg, points as int), mul_ok::<TT>(),
                        it.seq().len() == o2.len(), j == range.start + it.index(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < o2.len() ==> *(it.seq()[k].0) == o1[k],
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < o2.len() ==> *(it.seq()[k].1) == o2[o2.len() - 1 - k],
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> times_weight(fun, arg, is_symmetric, range.start + k, points as int, o1[k], *final(it.seq()[k].0)),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> times_weight(fun, arg, is_symmetric, range2.start + o2.len() - 1 - k, points as int, o2[o2.len() - 1 - k], *final(it.seq()[k].1)),
                        forall|k: int| #![trigger it.seq()[k]] #![trigger r2[k]] 0 <= k < o2.len() ==> it.seq()[k].1 == r2[k],
//@ before_loop 2
                            let ghost r2 = rem(iter2);
//@ after_loop 2
                            assert forall|i: int| #![trigger n2[i]] 0 <= i < o2.len() implies times_weight(fun, arg, is_symmetric, range2.start + i, points as int, o2[i], n2[i]) by {
                                let k = o2.len() - 1 - i;
                                assert(*final(r2[k]) == n2[i]);
                            }
//@ loop 3 iter it
                    invariant
                        is_symmetric, range.end == range.start + o1.len(), range2.end == range2.start + o2.len(),
                        pair_ok(((range.start as int, range.end as int), (range2.start as int, range2.end as int)), points as int),
                        fun_total(fun, arg, points as int), mul_ok::<TT>(),
                        it.seq().len() == o1.len() - o2.len(), j == range.start + o2.len() + it.index(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.seq().len() ==> *(it.seq()[k]) == o1[o2.len() + k],
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> times_weight(fun, arg, is_symmetric, range.start + o2.len() + k, points as int, o1[o2.len() + k], *final(it.seq()[k])),
//@ end
}
}
fn main() {}
