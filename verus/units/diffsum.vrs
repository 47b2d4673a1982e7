//@ unit-props C09
//@ unit-title differences and cumulative sums
//@ include prelude
//@ include complex

/// differences of floats that are `step` apart
pub open spec fn diffs<T: RealNumber>(a: Seq<T>, step: int) -> Seq<T> {
    Seq::new(if a.len() >= step { (a.len() - step) as nat } else { 0 }, |i: int| a[i + step].sub_spec(a[i]))
}
pub open spec fn diffs_start<T: RealNumber>(a: Seq<T>, step: int) -> Seq<T> {
    Seq::new(a.len(), |i: int| if i < step { a[i] } else { a[i].sub_spec(a[i - step]) })
}
/// running sum at float i
pub open spec fn csum<T: RealNumber>(a: Seq<T>, step: int, i: int) -> T
    decreases i
{
    if i < step || step <= 0 { a[i] } else { a[i].add_spec(csum(a, step, i - step)) }
}
/// where a difference can be added back exactly, the cumulative sum undoes the difference with start value
proof fn lemma_csum_undoes<T: RealNumber>(a: Seq<T>, step: int, i: int)
    requires step == 1 || step == 2, 0 <= i < a.len(),
        forall|x: T, y: T| (#[trigger] x.sub_spec(y)).add_spec(y) == x,
    ensures csum(diffs_start(a, step), step, i) == a[i],
    decreases i
{
    if i >= step { lemma_csum_undoes(a, step, i - step); }
}

impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/general/diff_sum.rs fn=diff impl="DiffSumOps\sfor" loops=2
//@ spec
        requires old(self).wf(), arith::<T>(),
        ensures
            final(self).same_meta(old(self)), final(self).wf(),
            final(self)@ == diffs(old(self)@, old(self).step()),
            final(self).vlen() == if old(self).vlen() >= old(self).step() { old(self).vlen() - old(self).step() } else { 0 },
            forall|i: int| old(self).vlen() <= i < old(self).st().len() ==> #[trigger] final(self).st()[i] == old(self).st()[i],
//@ body_start
        let ghost o = *self;
        let ghost st = self.st();
        proof { if self.vlen() == 0 { assert(o@ =~= diffs(o@, o.step())); } }
//@ before_loop 1
            let ghost c0 = data@;
            let ghost np = len as int / 2;
//@ loop 1 iter it
                invariant
                    arith::<T>(), np == len / 2, len >= 2, len % 2 == 0, data@.len() == np, c0.len() == np,
                    forall|q: int| it.index() <= q < np ==> data@[q] == c0[q],
                    forall|q: int| 0 <= q < it.index() ==> #[trigger] data@[q] == (Complex { re: c0[q + 1].re.sub_spec(c0[q].re), im: c0[q + 1].im.sub_spec(c0[q].im) }),
//@ after_loop 1
            proof {
                assert(fseq(data@).subrange(0, len - 2) =~= diffs(o@, 2)) by {
                    assert forall|i: int| 0 <= i < len - 2 implies fseq(data@)[i] == diffs(o@, 2)[i] by {
                        let q = i / 2;
                        assert(data@[q] == (Complex { re: c0[q + 1].re.sub_spec(c0[q].re), im: c0[q + 1].im.sub_spec(c0[q].im) }));
                        assert(c0[q] == cseq(o@)[q] && c0[q + 1] == cseq(o@)[q + 1]);
                    }
                }
            }
//@ before_loop 2
            let ghost c0 = data@;
//@ loop 2 iter it
                invariant
                    arith::<T>(), len >= 1, data@.len() == c0.len(), c0.len() >= len,
                    forall|q: int| it.index() <= q < c0.len() ==> data@[q] == c0[q],
                    forall|q: int| 0 <= q < it.index() ==> #[trigger] data@[q] == c0[q + 1].sub_spec(c0[q]),
//@ after_loop 2
            proof { assert(data@.subrange(0, len - 1) =~= diffs(o@, 1)); }
//@ end
//@ extract file=vector/src/vector_types/general/diff_sum.rs fn=cum_sum impl="DiffSumOps\sfor" loops=1
//@ spec
        requires old(self).wf(), arith::<T>(),
        ensures
            final(self).same_meta(old(self)), final(self).wf(), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
            forall|i: int| 0 <= i < old(self).vlen() ==> #[trigger] final(self).st()[i] == csum(old(self)@, old(self).step(), i),
            forall|i: int| old(self).vlen() <= i < old(self).st().len() ==> #[trigger] final(self).st()[i] == old(self).st()[i],
//@ body_start
        let ghost o = *self;
        let ghost a = self@;
        let ghost step = self.step();
//@ loop 1
            invariant
                arith::<T>(), step == 1 || step == 2, j == i + step, data_length == a.len(), data_length <= data@.len() <= isize::MAX, data@.len() == o.st().len(),
                a == o.st().subrange(0, data_length as int),
                forall|q: int| 0 <= q < j && q < data_length ==> #[trigger] data@[q] == csum(a, step, q),
                forall|q: int| j <= q < data@.len() || data_length <= q < data@.len() ==> #[trigger] data@[q] == o.st()[q],
            decreases data_length - i
//@ end
//@ extract file=vector/src/vector_types/general/diff_sum.rs fn=diff_with_start impl="DiffSumOps\sfor" loops=2
//@ spec
        requires old(self).wf(), arith::<T>(),
        ensures
            final(self).same_meta(old(self)), final(self).wf(), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
            final(self)@ == diffs_start(old(self)@, old(self).step()),
            forall|i: int| old(self).vlen() <= i < old(self).st().len() ==> #[trigger] final(self).st()[i] == old(self).st()[i],
//@ body_start
        let ghost o = *self;
        let ghost st = self.st();
        proof { if self.vlen() == 0 { assert(o@ =~= diffs_start(o@, o.step())); } }
//@ rewrite /for n in &mut data\[1\.\.len \/ 2\]/
let tail = &mut data[1..len / 2];
            let ghost l1 = final(tail)@;
            for n in tail.iter_mut()
//@ rewrite /for n in &mut data\[1\.\.len\]/
let tail = &mut data[1..len];
            let ghost l1 = final(tail)@;
            for n in tail.iter_mut()
//@ before /let mut temp = data/ 1
            let ghost c0 = data@;
            let ghost np = len as int / 2;
//@ before /let mut temp = data/ 2
            let ghost c0 = data@;
            let ghost np = len as int;
//@ loop 1 iter it
                invariant
                    arith::<T>(), np == len / 2, len >= 2, len % 2 == 0, c0.len() == np, it.seq().len() == np - 1, l1.len() == np - 1,
                    temp == c0[it.index() as int],
                    forall|q: int| #![trigger it.seq()[q]] 0 <= q < np - 1 ==> *it.seq()[q] == c0[q + 1],
                    forall|q: int| #![trigger it.seq()[q]] 0 <= q < np - 1 ==> *final(it.seq()[q]) == l1[q],
                    forall|q: int| #![trigger l1[q]] 0 <= q < it.index() ==> l1[q] == (Complex { re: c0[q + 1].re.sub_spec(c0[q].re), im: c0[q + 1].im.sub_spec(c0[q].im) }),
//@ loop_start 1
                let ghost jj = it.index() as int;
                assert(*it.seq()[jj] == c0[jj + 1]);
                assert(*final(it.seq()[jj]) == l1[jj]);
//@ after_loop 1
            proof {
                assert(data@ =~= seq![c0[0]] + l1);
                assert(fseq(data@) =~= diffs_start(o@, 2)) by {
                    assert forall|i: int| 0 <= i < len implies fseq(data@)[i] == diffs_start(o@, 2)[i] by {
                        let q = i / 2;
                        assert(c0[q] == cseq(o@)[q]);
                        if q > 0 {
                            assert(l1[q - 1] == (Complex { re: c0[q].re.sub_spec(c0[q - 1].re), im: c0[q].im.sub_spec(c0[q - 1].im) }));
                            assert(c0[q - 1] == cseq(o@)[q - 1]);
                        }
                    }
                }
            }
//@ loop 2 iter it
                invariant
                    arith::<T>(), np == len, len >= 1, c0.len() >= np, it.seq().len() == np - 1, l1.len() == np - 1,
                    temp == c0[it.index() as int],
                    forall|q: int| #![trigger it.seq()[q]] 0 <= q < np - 1 ==> *it.seq()[q] == c0[q + 1],
                    forall|q: int| #![trigger it.seq()[q]] 0 <= q < np - 1 ==> *final(it.seq()[q]) == l1[q],
                    forall|q: int| #![trigger l1[q]] 0 <= q < it.index() ==> l1[q] == c0[q + 1].sub_spec(c0[q]),
//@ loop_start 2
                let ghost jj = it.index() as int;
                assert(*it.seq()[jj] == c0[jj + 1]);
                assert(*final(it.seq()[jj]) == l1[jj]);
//@ after_loop 2
            proof {
                assert(data@.subrange(0, len as int) =~= seq![c0[0]] + l1);
                assert(data@.subrange(0, len as int) =~= diffs_start(o@, 1));
            }
//@ end
}
}
fn main() {}
