//@ unit-props C01 C02
//@ unit-title multiplication with a complex exponential
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include mark contracts
//@ include iters
//@ include inlinevec contracts
//@ include chunkapi contracts
//@ include cparts
//@ include nums
//@ include changed
//@ include turning
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=delta impl="Vector<T>\sfor\sDspVec"
//@ ret r
//@ spec
        ensures r == self.dlt(),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_ops.rs fn=multiply_complex_exponential impl="ComplexOps<T>\sfor\sDspVec" loops=1
//@ expand assert_complex
//@ rewrite? /T::from\(([^()]*)\)\s*\.unwrap\(\)/
num_from::<T>(\1)
//@ rewrite? /move \|array, range, args\| \{/
move |array: &mut [T], range: Range<usize>, args: (T, T)|
            requires
                range.start + old(array)@.len() == range.end, range.start % 2 == 0, old(array)@.len() % 2 == 0, arith::<T>(),
            ensures final(array)@.len() == old(array)@.len(), all_turned(args.0, args.1, range.start as int / 2, cseq(old(array)@), cseq(final(array)@)),
            {
                let ghost o = cseq(array@);
                proof { axiom_slice_mut_len(array); }
//@ rewrite? /for complex in array \{/
for complex in array.iter_mut() {
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures
            !old(self).cplx() ==> final(self).vlen() == 0 && final(self).dlt().nan_p() && !final(self).cplx() && final(self).st() == old(self).st(),
            old(self).cplx() ==> final(self).only_values_changed(old(self)) && all_turned(a.mul_spec(old(self).dlt()), b.mul_spec(old(self).dlt()), 0, cseq(old(self)@), cseq(final(self)@)),
//@ before /let data_length/ 1
        let ghost ov = self@;
        let ghost oc = cseq(self@);
//@ loop 1 iter it
                    invariant
                        it.seq().len() == o.len(), arith::<T>(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < o.len() ==> *(it.seq()[k]) == o[k],
                        exponential == turning(a, b, range.start as int / 2, it.index() as int), increment == polar(T::one_spec(), a),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> turned_since(a, b, range.start as int / 2, range.start as int / 2 + k, o[k], *final(it.seq()[k])),
//@ after_loop 1
                    proof {
                        let w = Seq::new(o.len(), |k: int| cseq(fseq(array@))[k]);
                        lemma_cseq_fseq(array@);
                        assert(w =~= array@);
                    }
//@ body_end
        proof {
            if old(self).cplx() {
            let n = array@.subrange(0, data_length as int);
            let cn = cseq(n);
            let p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, data_length as int, 2) && n.len() == data_length && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> all_turned(a, b, p[k].0 / 2, cseq(sub(ov, p[k])), cseq(sub(n, p[k])));
            assert forall|i: int| #![trigger cn[i]] 0 <= i < data_length / 2 implies phase_turned(a, b, i, oc[i], cn[i]) by {
                let k = lemma_part(p, data_length as int, 2, 2 * i);
                let _ = p[k];
                assert(p[k].0 % 2 == 0 && p[k].1 % 2 == 0);
                let q = i - p[k].0 / 2;
                assert(cseq(sub(n, p[k]))[q] == cn[i]);
                assert(cseq(sub(ov, p[k]))[q] == oc[i]);
            }
            }
        }
//@ end
}
}
fn main() {}
