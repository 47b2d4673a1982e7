//@ unit-props C07 C15
//@ unit-title zero padding in place and with a buffer
//@ include prelude
//@ include memops
//@ include padb
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/general/data_reorganization.rs fn=zero_pad impl="InsertZerosOps<T>\sfor"
//@ ret r
//@ spec
        requires old(self).wf(), points <= isize::MAX / 2,
        ensures
            final(self).same_meta(old(self)),
            old(self).floats(points as int) <= old(self).vlen() ==> r == Err::<(), _>(ErrorReason::InvalidArgumentLength),
            r.is_err() ==> final(self).vlen() == old(self).vlen() && final(self).st() == old(self).st(),
            r.is_ok() ==> final(self).vlen() == old(self).floats(points as int) && final(self).vlen() <= final(self).st().len(),
            r.is_ok() ==> final(self)@ == padded(old(self)@, old(self).floats(points as int), old(self).step(), option),
            old(self).floats(points as int) > old(self).vlen() && old(self).floats(points as int) <= old(self).st().len() ==> r.is_ok(),
//@ body_start
        let ghost o = *self;
        let ghost n = self.vlen() as int;
        let ghost st = self.step();
        let ghost m = self.floats(points as int);
        proof { if st == 2 { assert(points * 2 == m) by (nonlinear_arith) requires m == 2 * points; } }
//@ after /self\.resize/
        let ghost r0 = self.st();
        proof {
            assert(r0.subrange(0, n) =~= o@) by {
                assert(forall|i: int| 0 <= i < n ==> r0.subrange(0, o.st().len() as int)[i] == o@[i]);
            }
            assert(step == st && len == m) by (nonlinear_arith) requires (step == 1 && m == points) || (step == 2 && m == 2 * points), len == points * step, step == st;
            lemma_end(r0, n, m, st);
        }
//@ before /memcpy/ 1
                proof {
                    assert(left == half_up(m - n, st) && right == m - n - left);
                    lemma_moves_nothing(moved(r0, 0, left as int, n), m, m);
                    lemma_surround(r0, n, m, st, left as int, zeroed(zeroed(moved(r0, 0, left as int, n), left + n, m), 0, left as int));
                }
//@ before /if right > 0/ 2
                proof {
                    assert(points_before == if st == 2 { n / 2 } else { n }) by (nonlinear_arith) requires points_before == len_before as int / step as int, step == st, len_before == n, st == 1 || st == 2;
                    assert(left == half_up(n, st) && right == n - left);
                    lemma_moves_nothing(r0, left as int, m);
                    lemma_center(r0, n, m, st, left as int, zeroed(moved(r0, left as int, left + m - n, n - left), left as int, left + m - n));
                }
//@ end
}
}
fn main() {}
