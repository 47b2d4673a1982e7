//@ unit-props C13 C02
//@ unit-title precise statistics and sums
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include iters
//@ include inlinevec contracts
//@ include chunkapi contracts
//@ include cparts
pub type ScalarResult<T> = Result<T, ErrorReason>;
//@ include statspec
//@ include statsapi contracts
//@ include precise

impl<T: RealNumber> PreciseStats<T> for Statistics<T> {
//@ extract file=vector/src/vector_types/general/precise_stats.rs fn=add_prec impl="PreciseStats<T>\sfor\sStatistics<T>"
//@ body_start
        proof { axiom_order::<T>(); }
//@ end
}
impl<T: RealNumber> PreciseStats<Complex<T>> for Statistics<Complex<T>> {
//@ extract file=vector/src/vector_types/general/precise_stats.rs fn=add_prec impl="PreciseStats<Complex<T>>\sfor\sStatistics<Complex<T>>"
//@ body_start
        proof { axiom_order::<T>(); }
//@ end
}

impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSlice<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/general/precise_stats.rs fn=statistics_prec impl="PreciseStatisticsOps<f64>\sfor\sDspVec<S,\sf32" as=w_statistics_prec loops=1
//@ rewrite_sig? /fn (\w+)\(/
fn \1<W: RealNumber>(
//@ rewrite_sig? /\bf64\b/
W
//@ rewrite? /f64::from\(/
widen::<T, W>(
//@ rewrite? /Complex64\b/
Complex::<W>
//@ rewrite? /\bf64\b/
W
//@ rewrite? /= Statistics::<Complex::<W>>::/
= Statistics::<Complex<W>>::
//@ rewrite? /(\w+)\[([^\[\]]*)\]\.add\(/
\1[\2].add(
//@ ret ret
//@ rewrite? /\|array, range, _arg\| \{/
|array: &[T], range: Range<usize>, _arg: ()| -> (res: Statistics<W>)
            requires range.start + array@.len() == range.end, arith::<W>(),
            ensures collected(wide_all::<T, W>(array@), range.start as int, 0, 1, res),
            {
                let ghost d0 = array@; let ghost d = wide_all::<T, W>(array@);
                let ghost off = range.start as int;
//@ rewrite? /for num in array \{/
for num in array.iter() {
//@ rewrite? /Statistics::merge\(&chunks\[\.\.\]\)/
Statistics::merge(chunks.index_all(..))
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<W>(),
        ensures
            self.vlen() == 0 ==> invalid_stats(ret),
            self.vlen() > 0 ==> is_statistics(wide_all::<T, W>(self@), 0, 1, ret) && stats_hold(wide_all::<T, W>(self@), 0, 1, ret) && ret.count == self@.len(),
//@ loop 1 iter it
                    invariant
                        it.seq().len() == d.len(), d == wide_all::<T, W>(d0), d.len() <= usize::MAX, j == off + it.index(), off + d.len() <= usize::MAX, off >= 0, arith::<W>(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < d.len() ==> *(it.seq()[k]) == d0[k],
                        collected(d.subrange(0, it.index() as int), off, 0, 1, stats), stats.count <= it.index(),
//@ loop_start 1
                    let ghost o = stats;
//@ loop_end 1
                    proof {
                        let k = it.index() as int;
                        assert(d.subrange(0, k + 1).drop_last() =~= d.subrange(0, k));
                        assert((off + k) % 1 == 0 && (off + k) / 1 == off + k);
                        assert(added(o, stats, d.subrange(0, k + 1).last(), (off + k) / 1));
                    }
//@ after_loop 1
                proof { assert(d.subrange(0, d.len() as int) =~= d); }
//@ before /Statistics::merge/ 1
        let ghost a = wide_all::<T, W>(self@);
        let ghost p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, a.len() as int, 1) && chunks@.len() == p.len() && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> collected(wide_all::<T, W>(sub(self@, p[k])), p[k].0, 0, 1, chunks@[k]);
        proof {
            lemma_wide_parts::<T, W>(self@, p);
            assert(chunks@.subrange(0, chunks@.len() as int) =~= chunks@);
            assert(ss(chunks@) =~= chunks@);
            assert forall|k: int| #![trigger p[k]] #![trigger chunks@[k]] 0 <= k < p.len() implies collected(sub(a, p[k]), p[k].0, 0, 1, chunks@[k]) by {  }
            assert(part_stats(a, p, 0, 1, chunks@));
            assert forall|k: int| #![trigger counts(chunks@, k)] 0 <= k <= chunks@.len() implies counts(chunks@, k) <= usize::MAX by { lemma_counts(a, p, 0, 1, chunks@, k); }
            lemma_hits(0, a.len() as int, 0, 1);
            if a.len() > 0 { assert forall|r: Statistics<W>| #[trigger] merged(chunks@, r) implies is_statistics(a, 0, 1, r) && stats_hold(a, 0, 1, r) by { lemma_statistics(a, p, 0, 1, chunks@, r); } }
        }
//@ end
//@ extract file=vector/src/vector_types/general/precise_stats.rs fn=statistics_split_prec impl="PreciseStatisticsSplitOps<f64>\sfor\sDspVec<S,\sf32" as=w_statistics_split_prec loops=1
//@ rewrite_sig? /fn (\w+)\(/
fn \1<W: RealNumber>(
//@ rewrite_sig? /\bf64\b/
W
//@ rewrite? /f64::from\(/
widen::<T, W>(
//@ rewrite? /Complex64\b/
Complex::<W>
//@ rewrite? /\bf64\b/
W
//@ rewrite? /= Statistics::<Complex::<W>>::/
= Statistics::<Complex<W>>::
//@ rewrite? /(\w+)\[([^\[\]]*)\]\.add\(/
\1[\2].add(
//@ ret ret
//@ rewrite? /\|array, range, len\| \{/
|array: &[T], range: Range<usize>, len: usize| -> (res: StatsVec<Statistics<W>>)
            requires range.start + array@.len() == range.end, 1 <= len <= 16, arith::<W>(),
            ensures res@.len() == len, forall|k: int| #![trigger res@[k]] 0 <= k < len ==> collected(wide_all::<T, W>(array@), range.start as int, k, len as int, res@[k]),
            {
                let ghost d0 = array@; let ghost d = wide_all::<T, W>(array@);
                let ghost off = range.start as int;
//@ rewrite? /for num in array \{/
for num in array.iter() {
//@ rewrite? /&mut results\[/
&mut results.as_mut_slice()[
//@ rewrite? /Statistics::merge_cols\(&chunks\[\.\.\]\)/
Statistics::merge_cols(chunks.index_all(..))
//@ rewrite? /STATS_VEC_CAPACTIY/
16
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<W>(),
        ensures
            len == 0 ==> ret.is_ok() && ret->Ok_0@.len() == 0,
            len > 16 ==> ret == Err::<StatsVec<Statistics<W>>, _>(ErrorReason::InvalidArgumentLength),
            1 <= len <= 16 ==> ret.is_ok(),
            1 <= len <= 16 && self.vlen() == 0 ==> ret->Ok_0@.len() == 0,
            1 <= len <= 16 && self.vlen() > 0 ==> ret->Ok_0@.len() == len && forall|c: int| #![trigger ret->Ok_0@[c]] 0 <= c < len ==>
                is_statistics(wide_all::<T, W>(self@), c, len as int, ret->Ok_0@[c]) && stats_hold(wide_all::<T, W>(self@), c, len as int, ret->Ok_0@[c]),
//@ loop 1 iter it
                    invariant
                        it.seq().len() == d.len(), d == wide_all::<T, W>(d0), d.len() <= usize::MAX, j == off + it.index(), off + d.len() <= usize::MAX, off >= 0, 1 <= len <= 16, results@.len() == len, arith::<W>(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < d.len() ==> *(it.seq()[k]) == d0[k],
                        forall|c: int| #![trigger results@[c]] 0 <= c < len ==> collected(d.subrange(0, it.index() as int), off, c, len as int, results@[c]) && results@[c].count <= it.index(),
//@ loop_start 1
                    let ghost o = results@;
//@ loop_end 1
                    proof {
                        let k = it.index() as int;
                        assert(d.subrange(0, k + 1).drop_last() =~= d.subrange(0, k));
                        let h = (off + k) % len as int;
                        assert(added(o[h], results@[h], d.subrange(0, k + 1).last(), (off + k) / len as int));
                        assert forall|c: int| #![trigger results@[c]] 0 <= c < len implies collected(d.subrange(0, k + 1), off, c, len as int, results@[c]) && results@[c].count <= k + 1 by {
                            let _ = o[c];
                            if c != h { assert(results@[c] == o[c]); }
                        }
                    }
//@ after_loop 1
                proof { assert(d.subrange(0, d.len() as int) =~= d); }
//@ before /Ok\(Statistics::merge/ 1
        let ghost a = wide_all::<T, W>(self@);
        let ghost p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, a.len() as int, 1) && chunks@.len() == p.len() && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> chunks@[k]@.len() == len && forall|c: int| #![trigger chunks@[k]@[c]] 0 <= c < len ==> collected(wide_all::<T, W>(sub(self@, p[k])), p[k].0, c, len as int, chunks@[k]@[c]);
        proof {
            lemma_wide_parts::<T, W>(self@, p);
            let v = chunks@;
            assert(v.subrange(0, v.len() as int) =~= v);
            assert forall|k: int| #![trigger v[k]] 0 <= k < v.len() implies v[k]@.len() == len by { let _ = p[k]; }
            assert forall|c: int| #![trigger cols(v, c)] 0 <= c < len implies part_stats(a, p, c, len as int, ss(cols(v, c))) by {
                let s = ss(cols(v, c));
                assert forall|k: int| #![trigger p[k]] #![trigger s[k]] 0 <= k < p.len() implies collected(sub(a, p[k]), p[k].0, c, len as int, s[k]) by { let _ = p[k]; let _ = v[k]@[c]; }
            }
            assert forall|i: int, k: int| #![trigger counts(ss(cols(v, i)), k)] v.len() > 0 && 0 <= i < v[0]@.len() && 0 <= k <= v.len() implies counts(ss(cols(v, i)), k) <= usize::MAX by {
                lemma_counts(a, p, i, len as int, ss(cols(v, i)), k);
            }
            if a.len() > 0 {
                assert forall|c: int, r: Statistics<W>| #[trigger] merged(ss(cols(v, c)), r) && 0 <= c < len implies is_statistics(a, c, len as int, r) && stats_hold(a, c, len as int, r) by { lemma_statistics(a, p, c, len as int, ss(cols(v, c)), r); }
            }
        }
//@ end
//@ extract file=vector/src/vector_types/general/precise_stats.rs fn=statistics_prec impl="PreciseStatisticsOps<Complex<f64>>\sfor\sDspVec<S,\sf32" as=w_c_statistics_prec loops=1
//@ rewrite_sig? /fn (\w+)\(/
fn \1<W: RealNumber>(
//@ rewrite_sig? /\bf64\b/
W
//@ rewrite? /f64::from\(/
widen::<T, W>(
//@ rewrite? /Complex64\b/
Complex::<W>
//@ rewrite? /\bf64\b/
W
//@ rewrite? /= Statistics::<Complex::<W>>::/
= Statistics::<Complex<W>>::
//@ rewrite? /(\w+)\[([^\[\]]*)\]\.add\(/
\1[\2].add(
//@ ret ret
//@ rewrite? /\|array, range, _arg\| \{/
|array: &[T], range: Range<usize>, _arg: ()| -> (res: Statistics<Complex<W>>)
            requires range.start + array@.len() == range.end, range.start % 2 == 0, array@.len() % 2 == 0, arith::<W>(),
            ensures collected(wpts::<T, W>(cseq(array@)), range.start as int / 2, 0, 1, res),
            {
                let ghost d0 = cseq(array@); let ghost d = wpts::<T, W>(cseq(array@));
                let ghost off = range.start as int / 2;
//@ rewrite? /for num in array \{/
for num in array.iter() {
//@ rewrite? /Statistics::merge\(&chunks\[\.\.\]\)/
Statistics::merge(chunks.index_all(..))
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<W>(), self.cplx(),
        ensures
            self.vlen() == 0 ==> invalid_stats(ret),
            self.vlen() > 0 ==> is_statistics(wpts::<T, W>(cseq(self@)), 0, 1, ret) && stats_hold(wpts::<T, W>(cseq(self@)), 0, 1, ret) && ret.count == wpts::<T, W>(cseq(self@)).len(),
//@ loop 1 iter it
                    invariant
                        it.seq().len() == d.len(), d == wpts::<T, W>(d0), d.len() <= usize::MAX, j == off + it.index(), off + d.len() <= usize::MAX, off >= 0, arith::<W>(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < d.len() ==> *(it.seq()[k]) == d0[k],
                        collected(d.subrange(0, it.index() as int), off, 0, 1, stat), stat.count <= it.index(),
//@ loop_start 1
                    let ghost o = stat;
//@ loop_end 1
                    proof {
                        let k = it.index() as int;
                        assert(d.subrange(0, k + 1).drop_last() =~= d.subrange(0, k));
                        assert((off + k) % 1 == 0 && (off + k) / 1 == off + k);
                        assert(added(o, stat, d.subrange(0, k + 1).last(), (off + k) / 1));
                    }
//@ after_loop 1
                proof { assert(d.subrange(0, d.len() as int) =~= d); }
//@ before /Statistics::merge/ 1
        let ghost a = wpts::<T, W>(cseq(self@));
        let ghost av = self@;
        let ghost p2 = choose|p2: Seq<(int, int)>| #[trigger] parts_ok(p2, av.len() as int, 2) && chunks@.len() == p2.len() && forall|k: int| #![trigger p2[k]] 0 <= k < p2.len() ==> collected(wpts::<T, W>(cseq(sub(av, p2[k]))), p2[k].0 / 2, 0, 1, chunks@[k]);
        let ghost p = halves(p2);
        proof { lemma_halves(p2, av); lemma_wpts_parts::<T, W>(cseq(av), p); }
        proof {
            assert(chunks@.subrange(0, chunks@.len() as int) =~= chunks@);
            assert(ss(chunks@) =~= chunks@);
            assert forall|k: int| #![trigger p[k]] #![trigger chunks@[k]] 0 <= k < p.len() implies collected(sub(a, p[k]), p[k].0, 0, 1, chunks@[k]) by { let _ = p2[k]; }
            assert(part_stats(a, p, 0, 1, chunks@));
            assert forall|k: int| #![trigger counts(chunks@, k)] 0 <= k <= chunks@.len() implies counts(chunks@, k) <= usize::MAX by { lemma_counts(a, p, 0, 1, chunks@, k); }
            lemma_hits(0, a.len() as int, 0, 1);
            if a.len() > 0 { assert forall|r: Statistics<Complex<W>>| #[trigger] merged(chunks@, r) implies is_statistics(a, 0, 1, r) && stats_hold(a, 0, 1, r) by { lemma_statistics(a, p, 0, 1, chunks@, r); } }
        }
//@ end
//@ extract file=vector/src/vector_types/general/precise_stats.rs fn=statistics_split_prec impl="PreciseStatisticsSplitOps<Complex<f64>>\sfor\sDspVec<S,\sf32" as=w_c_statistics_split_prec loops=1
//@ rewrite_sig? /fn (\w+)\(/
fn \1<W: RealNumber>(
//@ rewrite_sig? /\bf64\b/
W
//@ rewrite? /f64::from\(/
widen::<T, W>(
//@ rewrite? /Complex64\b/
Complex::<W>
//@ rewrite? /\bf64\b/
W
//@ rewrite? /= Statistics::<Complex::<W>>::/
= Statistics::<Complex<W>>::
//@ rewrite? /(\w+)\[([^\[\]]*)\]\.add\(/
\1[\2].add(
//@ ret ret
//@ rewrite? /\|array, range, len\| \{/
|array: &[T], range: Range<usize>, len: usize| -> (res: StatsVec<Statistics<Complex<W>>>)
            requires range.start + array@.len() == range.end, range.start % 2 == 0, array@.len() % 2 == 0, 1 <= len <= 16, arith::<W>(),
            ensures res@.len() == len, forall|k: int| #![trigger res@[k]] 0 <= k < len ==> collected(wpts::<T, W>(cseq(array@)), range.start as int / 2, k, len as int, res@[k]),
            {
                let ghost d0 = cseq(array@); let ghost d = wpts::<T, W>(cseq(array@));
                let ghost off = range.start as int / 2;
//@ rewrite? /for num in array \{/
for num in array.iter() {
//@ rewrite? /&mut results\[/
&mut results.as_mut_slice()[
//@ rewrite? /Statistics::merge_cols\(&chunks\[\.\.\]\)/
Statistics::merge_cols(chunks.index_all(..))
//@ rewrite? /STATS_VEC_CAPACTIY/
16
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<W>(), self.cplx(),
        ensures
            len == 0 ==> ret.is_ok() && ret->Ok_0@.len() == 0,
            len > 16 ==> ret == Err::<StatsVec<Statistics<Complex<W>>>, _>(ErrorReason::InvalidArgumentLength),
            1 <= len <= 16 ==> ret.is_ok(),
            1 <= len <= 16 && self.vlen() == 0 ==> ret->Ok_0@.len() == 0,
            1 <= len <= 16 && self.vlen() > 0 ==> ret->Ok_0@.len() == len && forall|c: int| #![trigger ret->Ok_0@[c]] 0 <= c < len ==>
                is_statistics(wpts::<T, W>(cseq(self@)), c, len as int, ret->Ok_0@[c]) && stats_hold(wpts::<T, W>(cseq(self@)), c, len as int, ret->Ok_0@[c]),
//@ loop 1 iter it
                    invariant
                        it.seq().len() == d.len(), d == wpts::<T, W>(d0), d.len() <= usize::MAX, j == off + it.index(), off + d.len() <= usize::MAX, off >= 0, 1 <= len <= 16, results@.len() == len, arith::<W>(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < d.len() ==> *(it.seq()[k]) == d0[k],
                        forall|c: int| #![trigger results@[c]] 0 <= c < len ==> collected(d.subrange(0, it.index() as int), off, c, len as int, results@[c]) && results@[c].count <= it.index(),
//@ loop_start 1
                    let ghost o = results@;
//@ loop_end 1
                    proof {
                        let k = it.index() as int;
                        assert(d.subrange(0, k + 1).drop_last() =~= d.subrange(0, k));
                        let h = (off + k) % len as int;
                        assert(added(o[h], results@[h], d.subrange(0, k + 1).last(), (off + k) / len as int));
                        assert forall|c: int| #![trigger results@[c]] 0 <= c < len implies collected(d.subrange(0, k + 1), off, c, len as int, results@[c]) && results@[c].count <= k + 1 by {
                            let _ = o[c];
                            if c != h { assert(results@[c] == o[c]); }
                        }
                    }
//@ after_loop 1
                proof { assert(d.subrange(0, d.len() as int) =~= d); }
//@ before /Ok\(Statistics::merge/ 1
        let ghost a = wpts::<T, W>(cseq(self@));
        let ghost av = self@;
        let ghost p2 = choose|p2: Seq<(int, int)>| #[trigger] parts_ok(p2, av.len() as int, 2) && chunks@.len() == p2.len() && forall|k: int| #![trigger p2[k]] 0 <= k < p2.len() ==> chunks@[k]@.len() == len && forall|c: int| #![trigger chunks@[k]@[c]] 0 <= c < len ==> collected(wpts::<T, W>(cseq(sub(av, p2[k]))), p2[k].0 / 2, c, len as int, chunks@[k]@[c]);
        let ghost p = halves(p2);
        proof { lemma_halves(p2, av); lemma_wpts_parts::<T, W>(cseq(av), p); }
        proof {
            let v = chunks@;
            assert(v.subrange(0, v.len() as int) =~= v);
            assert forall|k: int| #![trigger v[k]] 0 <= k < v.len() implies v[k]@.len() == len by { let _ = p2[k]; }
            assert forall|c: int| #![trigger cols(v, c)] 0 <= c < len implies part_stats(a, p, c, len as int, ss(cols(v, c))) by {
                let s = ss(cols(v, c));
                assert forall|k: int| #![trigger p[k]] #![trigger s[k]] 0 <= k < p.len() implies collected(sub(a, p[k]), p[k].0, c, len as int, s[k]) by { let _ = p2[k]; let _ = v[k]@[c]; }
            }
            assert forall|i: int, k: int| #![trigger counts(ss(cols(v, i)), k)] v.len() > 0 && 0 <= i < v[0]@.len() && 0 <= k <= v.len() implies counts(ss(cols(v, i)), k) <= usize::MAX by {
                lemma_counts(a, p, i, len as int, ss(cols(v, i)), k);
            }
            if a.len() > 0 {
                assert forall|c: int, r: Statistics<Complex<W>>| #[trigger] merged(ss(cols(v, c)), r) && 0 <= c < len implies is_statistics(a, c, len as int, r) && stats_hold(a, c, len as int, r) by { lemma_statistics(a, p, c, len as int, ss(cols(v, c)), r); }
            }
        }
//@ end
//@ extract file=vector/src/vector_types/general/precise_stats.rs fn=statistics_prec impl="PreciseStatisticsOps<f64>\sfor\sDspVec<S,\sf64" as=statistics_prec loops=1
//@ rewrite_sig? /\bf64\b/
T
//@ rewrite? /\b0\.0\b/
T::zero()
//@ rewrite? /Complex64::/
Complex::<T>::
//@ rewrite? /\bComplex64\b/
Complex<T>
//@ rewrite? /\bf64\b/
T
//@ rewrite? /(\w+)\[([^\[\]]*)\]\.add_prec\(/
\1[\2].add_prec(
//@ ret ret
//@ rewrite? /\|array, range, _arg\| \{/
|array: &[T], range: Range<usize>, _arg: ()| -> (res: Statistics<T>)
            requires range.start + array@.len() == range.end, arith::<T>(),
            ensures prec_collected(array@, range.start as int, 0, 1, res),
            {
                let ghost d = array@;
                let ghost off = range.start as int;
//@ rewrite? /for num in array \{/
for num in array.iter() {
//@ rewrite? /Statistics::merge\(&chunks\[\.\.\]\)/
Statistics::merge(chunks.index_all(..))
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(),
        ensures
            self.vlen() == 0 ==> invalid_stats(ret),
            self.vlen() > 0 ==> is_statistics_prec(self@, 0, 1, ret) && stats_hold(self@, 0, 1, ret) && ret.count == self@.len(),
//@ loop 1 iter it
                    invariant
                        it.seq().len() == d.len(), d.len() <= usize::MAX, j == off + it.index(), off + d.len() <= usize::MAX, off >= 0, arith::<T>(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < d.len() ==> *(it.seq()[k]) == d[k],
                        collected_prec(d.subrange(0, it.index() as int), off, 0, 1, stats, sumc, rmsc), stats.count <= it.index(),
//@ loop_start 1
                    let ghost o = stats; let ghost os = sumc; let ghost or = rmsc;
//@ loop_end 1
                    proof {
                        let k = it.index() as int;
                        assert(d.subrange(0, k + 1).drop_last() =~= d.subrange(0, k));
                        assert((off + k) % 1 == 0 && (off + k) / 1 == off + k);
                        assert(added_prec(o, os, or, stats, sumc, rmsc, d.subrange(0, k + 1).last(), (off + k) / 1));
                    }
//@ after_loop 1
                proof { assert(d.subrange(0, d.len() as int) =~= d); let _ = sumc; let _ = rmsc; assert(collected_prec(d, off, 0, 1, stats, sumc, rmsc)); }
//@ before /Statistics::merge/ 1
        let ghost a = self@;
        let ghost p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, a.len() as int, 1) && chunks@.len() == p.len() && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> prec_collected(sub(a, p[k]), p[k].0, 0, 1, chunks@[k]);
        proof {
            assert(chunks@.subrange(0, chunks@.len() as int) =~= chunks@);
            assert(ss(chunks@) =~= chunks@);
            assert forall|k: int| #![trigger p[k]] #![trigger chunks@[k]] 0 <= k < p.len() implies prec_collected(sub(a, p[k]), p[k].0, 0, 1, chunks@[k]) by {  }
            assert(part_stats_prec(a, p, 0, 1, chunks@));
            assert forall|k: int| #![trigger counts(chunks@, k)] 0 <= k <= chunks@.len() implies counts(chunks@, k) <= usize::MAX by { lemma_counts_prec(a, p, 0, 1, chunks@, k); }
            lemma_hits(0, a.len() as int, 0, 1);
            if a.len() > 0 { assert forall|r: Statistics<T>| #[trigger] merged(chunks@, r) implies is_statistics_prec(a, 0, 1, r) && stats_hold(a, 0, 1, r) by { lemma_statistics_prec(a, p, 0, 1, chunks@, r); } }
        }
//@ end
//@ extract file=vector/src/vector_types/general/precise_stats.rs fn=statistics_split_prec impl="PreciseStatisticsSplitOps<f64>\sfor\sDspVec<S,\sf64" as=statistics_split_prec loops=1
//@ rewrite_sig? /\bf64\b/
T
//@ rewrite? /\b0\.0\b/
T::zero()
//@ rewrite? /Complex64::/
Complex::<T>::
//@ rewrite? /\bComplex64\b/
Complex<T>
//@ rewrite? /\bf64\b/
T
//@ rewrite? /(\w+)\[([^\[\]]*)\]\.add_prec\(/
\1[\2].add_prec(
//@ ret ret
//@ rewrite? /\|array, range, len\| \{/
|array: &[T], range: Range<usize>, len: usize| -> (res: StatsVec<Statistics<T>>)
            requires range.start + array@.len() == range.end, 1 <= len <= 16, arith::<T>(),
            ensures res@.len() == len, forall|k: int| #![trigger res@[k]] 0 <= k < len ==> prec_collected(array@, range.start as int, k, len as int, res@[k]),
            {
                let ghost d = array@;
                let ghost off = range.start as int;
//@ rewrite? /for num in array \{/
for num in array.iter() {
//@ rewrite? /&mut results\[/
&mut results.as_mut_slice()[
//@ rewrite? /Statistics::merge_cols\(&chunks\[\.\.\]\)/
Statistics::merge_cols(chunks.index_all(..))
//@ rewrite? /STATS_VEC_CAPACTIY/
16
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(),
        ensures
            len == 0 ==> ret.is_ok() && ret->Ok_0@.len() == 0,
            len > 16 ==> ret == Err::<StatsVec<Statistics<T>>, _>(ErrorReason::InvalidArgumentLength),
            1 <= len <= 16 ==> ret.is_ok(),
            1 <= len <= 16 && self.vlen() == 0 ==> ret->Ok_0@.len() == 0,
            1 <= len <= 16 && self.vlen() > 0 ==> ret->Ok_0@.len() == len && forall|c: int| #![trigger ret->Ok_0@[c]] 0 <= c < len ==>
                is_statistics_prec(self@, c, len as int, ret->Ok_0@[c]) && stats_hold(self@, c, len as int, ret->Ok_0@[c]),
//@ loop 1 iter it
                    invariant
                        it.seq().len() == d.len(), d.len() <= usize::MAX, j == off + it.index(), off + d.len() <= usize::MAX, off >= 0, 1 <= len <= 16, results@.len() == len, sumc@.len() == 16, rmsc@.len() == 16, arith::<T>(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < d.len() ==> *(it.seq()[k]) == d[k],
                        forall|c: int| #![trigger results@[c]] 0 <= c < len ==> collected_prec(d.subrange(0, it.index() as int), off, c, len as int, results@[c], sumc@[c], rmsc@[c]) && results@[c].count <= it.index(),
//@ loop_start 1
                    let ghost o = results@; let ghost os = sumc@; let ghost or = rmsc@;
//@ loop_end 1
                    proof {
                        let k = it.index() as int;
                        assert(d.subrange(0, k + 1).drop_last() =~= d.subrange(0, k));
                        let h = (off + k) % len as int;
                        assert(added_prec(o[h], os[h], or[h], results@[h], sumc@[h], rmsc@[h], d.subrange(0, k + 1).last(), (off + k) / len as int));
                        assert forall|c: int| #![trigger results@[c]] 0 <= c < len implies collected_prec(d.subrange(0, k + 1), off, c, len as int, results@[c], sumc@[c], rmsc@[c]) && results@[c].count <= k + 1 by {
                            let _ = o[c];
                            if c != h { assert(results@[c] == o[c] && sumc@[c] == os[c] && rmsc@[c] == or[c]); }
                        }
                    }
//@ after_loop 1
                proof { assert(d.subrange(0, d.len() as int) =~= d); assert forall|c: int| #![trigger results@[c]] 0 <= c < len implies prec_collected(d, off, c, len as int, results@[c]) by { assert(collected_prec(d, off, c, len as int, results@[c], sumc@[c], rmsc@[c])); } }
//@ before /Ok\(Statistics::merge/ 1
        let ghost a = self@;
        let ghost p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, a.len() as int, 1) && chunks@.len() == p.len() && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> chunks@[k]@.len() == len && forall|c: int| #![trigger chunks@[k]@[c]] 0 <= c < len ==> prec_collected(sub(a, p[k]), p[k].0, c, len as int, chunks@[k]@[c]);
        proof {
            let v = chunks@;
            assert(v.subrange(0, v.len() as int) =~= v);
            assert forall|k: int| #![trigger v[k]] 0 <= k < v.len() implies v[k]@.len() == len by { let _ = p[k]; }
            assert forall|c: int| #![trigger cols(v, c)] 0 <= c < len implies part_stats_prec(a, p, c, len as int, ss(cols(v, c))) by {
                let s = ss(cols(v, c));
                assert forall|k: int| #![trigger p[k]] #![trigger s[k]] 0 <= k < p.len() implies prec_collected(sub(a, p[k]), p[k].0, c, len as int, s[k]) by { let _ = p[k]; let _ = v[k]@[c]; }
            }
            assert forall|i: int, k: int| #![trigger counts(ss(cols(v, i)), k)] v.len() > 0 && 0 <= i < v[0]@.len() && 0 <= k <= v.len() implies counts(ss(cols(v, i)), k) <= usize::MAX by {
                lemma_counts_prec(a, p, i, len as int, ss(cols(v, i)), k);
            }
            if a.len() > 0 {
                assert forall|c: int, r: Statistics<T>| #[trigger] merged(ss(cols(v, c)), r) && 0 <= c < len implies is_statistics_prec(a, c, len as int, r) && stats_hold(a, c, len as int, r) by { lemma_statistics_prec(a, p, c, len as int, ss(cols(v, c)), r); }
            }
        }
//@ end
//@ extract file=vector/src/vector_types/general/precise_stats.rs fn=statistics_prec impl="PreciseStatisticsOps<Complex<f64>>\sfor\sDspVec<S,\sf64" as=c_statistics_prec loops=1
//@ rewrite_sig? /\bf64\b/
T
//@ rewrite? /\b0\.0\b/
T::zero()
//@ rewrite? /Complex64::/
Complex::<T>::
//@ rewrite? /\bComplex64\b/
Complex<T>
//@ rewrite? /\bf64\b/
T
//@ rewrite? /(\w+)\[([^\[\]]*)\]\.add_prec\(/
\1[\2].add_prec(
//@ ret ret
//@ rewrite? /\|array, range, _arg\| \{/
|array: &[T], range: Range<usize>, _arg: ()| -> (res: Statistics<Complex<T>>)
            requires range.start + array@.len() == range.end, range.start % 2 == 0, array@.len() % 2 == 0, arith::<T>(),
            ensures prec_collected(cseq(array@), range.start as int / 2, 0, 1, res),
            {
                let ghost d = cseq(array@);
                let ghost off = range.start as int / 2;
//@ rewrite? /for num in array \{/
for num in array.iter() {
//@ rewrite? /Statistics::merge\(&chunks\[\.\.\]\)/
Statistics::merge(chunks.index_all(..))
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(), self.cplx(),
        ensures
            self.vlen() == 0 ==> invalid_stats(ret),
            self.vlen() > 0 ==> is_statistics_prec(cseq(self@), 0, 1, ret) && stats_hold(cseq(self@), 0, 1, ret) && ret.count == cseq(self@).len(),
//@ loop 1 iter it
                    invariant
                        it.seq().len() == d.len(), d.len() <= usize::MAX, j == off + it.index(), off + d.len() <= usize::MAX, off >= 0, arith::<T>(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < d.len() ==> *(it.seq()[k]) == d[k],
                        collected_prec(d.subrange(0, it.index() as int), off, 0, 1, stat, sumc, rmsc), stat.count <= it.index(),
//@ loop_start 1
                    let ghost o = stat; let ghost os = sumc; let ghost or = rmsc;
//@ loop_end 1
                    proof {
                        let k = it.index() as int;
                        assert(d.subrange(0, k + 1).drop_last() =~= d.subrange(0, k));
                        assert((off + k) % 1 == 0 && (off + k) / 1 == off + k);
                        assert(added_prec(o, os, or, stat, sumc, rmsc, d.subrange(0, k + 1).last(), (off + k) / 1));
                    }
//@ after_loop 1
                proof { assert(d.subrange(0, d.len() as int) =~= d); let _ = sumc; let _ = rmsc; assert(collected_prec(d, off, 0, 1, stat, sumc, rmsc)); }
//@ before /Statistics::merge/ 1
        let ghost a = cseq(self@);
        let ghost av = self@;
        let ghost p2 = choose|p2: Seq<(int, int)>| #[trigger] parts_ok(p2, av.len() as int, 2) && chunks@.len() == p2.len() && forall|k: int| #![trigger p2[k]] 0 <= k < p2.len() ==> prec_collected(cseq(sub(av, p2[k])), p2[k].0 / 2, 0, 1, chunks@[k]);
        let ghost p = halves(p2);
        proof { lemma_halves(p2, av); }
        proof {
            assert(chunks@.subrange(0, chunks@.len() as int) =~= chunks@);
            assert(ss(chunks@) =~= chunks@);
            assert forall|k: int| #![trigger p[k]] #![trigger chunks@[k]] 0 <= k < p.len() implies prec_collected(sub(a, p[k]), p[k].0, 0, 1, chunks@[k]) by { let _ = p2[k]; }
            assert(part_stats_prec(a, p, 0, 1, chunks@));
            assert forall|k: int| #![trigger counts(chunks@, k)] 0 <= k <= chunks@.len() implies counts(chunks@, k) <= usize::MAX by { lemma_counts_prec(a, p, 0, 1, chunks@, k); }
            lemma_hits(0, a.len() as int, 0, 1);
            if a.len() > 0 { assert forall|r: Statistics<Complex<T>>| #[trigger] merged(chunks@, r) implies is_statistics_prec(a, 0, 1, r) && stats_hold(a, 0, 1, r) by { lemma_statistics_prec(a, p, 0, 1, chunks@, r); } }
        }
//@ end
//@ extract file=vector/src/vector_types/general/precise_stats.rs fn=statistics_split_prec impl="PreciseStatisticsSplitOps<Complex<f64>>\sfor\sDspVec<S,\sf64" as=c_statistics_split_prec loops=1
//@ rewrite_sig? /\bf64\b/
T
//@ rewrite? /\b0\.0\b/
T::zero()
//@ rewrite? /Complex64::/
Complex::<T>::
//@ rewrite? /\bComplex64\b/
Complex<T>
//@ rewrite? /\bf64\b/
T
//@ rewrite? /(\w+)\[([^\[\]]*)\]\.add_prec\(/
\1[\2].add_prec(
//@ ret ret
//@ rewrite? /\|array, range, len\| \{/
|array: &[T], range: Range<usize>, len: usize| -> (res: StatsVec<Statistics<Complex<T>>>)
            requires range.start + array@.len() == range.end, range.start % 2 == 0, array@.len() % 2 == 0, 1 <= len <= 16, arith::<T>(),
            ensures res@.len() == len, forall|k: int| #![trigger res@[k]] 0 <= k < len ==> prec_collected(cseq(array@), range.start as int / 2, k, len as int, res@[k]),
            {
                let ghost d = cseq(array@);
                let ghost off = range.start as int / 2;
//@ rewrite? /for num in array \{/
for num in array.iter() {
//@ rewrite? /&mut results\[/
&mut results.as_mut_slice()[
//@ rewrite? /Statistics::merge_cols\(&chunks\[\.\.\]\)/
Statistics::merge_cols(chunks.index_all(..))
//@ rewrite? /STATS_VEC_CAPACTIY/
16
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(), self.cplx(),
        ensures
            len == 0 ==> ret.is_ok() && ret->Ok_0@.len() == 0,
            len > 16 ==> ret == Err::<StatsVec<Statistics<Complex<T>>>, _>(ErrorReason::InvalidArgumentLength),
            1 <= len <= 16 ==> ret.is_ok(),
            1 <= len <= 16 && self.vlen() == 0 ==> ret->Ok_0@.len() == 0,
            1 <= len <= 16 && self.vlen() > 0 ==> ret->Ok_0@.len() == len && forall|c: int| #![trigger ret->Ok_0@[c]] 0 <= c < len ==>
                is_statistics_prec(cseq(self@), c, len as int, ret->Ok_0@[c]) && stats_hold(cseq(self@), c, len as int, ret->Ok_0@[c]),
//@ loop 1 iter it
                    invariant
                        it.seq().len() == d.len(), d.len() <= usize::MAX, j == off + it.index(), off + d.len() <= usize::MAX, off >= 0, 1 <= len <= 16, results@.len() == len, sumc@.len() == 16, rmsc@.len() == 16, arith::<T>(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < d.len() ==> *(it.seq()[k]) == d[k],
                        forall|c: int| #![trigger results@[c]] 0 <= c < len ==> collected_prec(d.subrange(0, it.index() as int), off, c, len as int, results@[c], sumc@[c], rmsc@[c]) && results@[c].count <= it.index(),
//@ loop_start 1
                    let ghost o = results@; let ghost os = sumc@; let ghost or = rmsc@;
//@ loop_end 1
                    proof {
                        let k = it.index() as int;
                        assert(d.subrange(0, k + 1).drop_last() =~= d.subrange(0, k));
                        let h = (off + k) % len as int;
                        assert(added_prec(o[h], os[h], or[h], results@[h], sumc@[h], rmsc@[h], d.subrange(0, k + 1).last(), (off + k) / len as int));
                        assert forall|c: int| #![trigger results@[c]] 0 <= c < len implies collected_prec(d.subrange(0, k + 1), off, c, len as int, results@[c], sumc@[c], rmsc@[c]) && results@[c].count <= k + 1 by {
                            let _ = o[c];
                            if c != h { assert(results@[c] == o[c] && sumc@[c] == os[c] && rmsc@[c] == or[c]); }
                        }
                    }
//@ after_loop 1
                proof { assert(d.subrange(0, d.len() as int) =~= d); assert forall|c: int| #![trigger results@[c]] 0 <= c < len implies prec_collected(d, off, c, len as int, results@[c]) by { assert(collected_prec(d, off, c, len as int, results@[c], sumc@[c], rmsc@[c])); } }
//@ before /Ok\(Statistics::merge/ 1
        let ghost a = cseq(self@);
        let ghost av = self@;
        let ghost p2 = choose|p2: Seq<(int, int)>| #[trigger] parts_ok(p2, av.len() as int, 2) && chunks@.len() == p2.len() && forall|k: int| #![trigger p2[k]] 0 <= k < p2.len() ==> chunks@[k]@.len() == len && forall|c: int| #![trigger chunks@[k]@[c]] 0 <= c < len ==> prec_collected(cseq(sub(av, p2[k])), p2[k].0 / 2, c, len as int, chunks@[k]@[c]);
        let ghost p = halves(p2);
        proof { lemma_halves(p2, av); }
        proof {
            let v = chunks@;
            assert(v.subrange(0, v.len() as int) =~= v);
            assert forall|k: int| #![trigger v[k]] 0 <= k < v.len() implies v[k]@.len() == len by { let _ = p2[k]; }
            assert forall|c: int| #![trigger cols(v, c)] 0 <= c < len implies part_stats_prec(a, p, c, len as int, ss(cols(v, c))) by {
                let s = ss(cols(v, c));
                assert forall|k: int| #![trigger p[k]] #![trigger s[k]] 0 <= k < p.len() implies prec_collected(sub(a, p[k]), p[k].0, c, len as int, s[k]) by { let _ = p2[k]; let _ = v[k]@[c]; }
            }
            assert forall|i: int, k: int| #![trigger counts(ss(cols(v, i)), k)] v.len() > 0 && 0 <= i < v[0]@.len() && 0 <= k <= v.len() implies counts(ss(cols(v, i)), k) <= usize::MAX by {
                lemma_counts_prec(a, p, i, len as int, ss(cols(v, i)), k);
            }
            if a.len() > 0 {
                assert forall|c: int, r: Statistics<Complex<T>>| #[trigger] merged(ss(cols(v, c)), r) && 0 <= c < len implies is_statistics_prec(a, c, len as int, r) && stats_hold(a, c, len as int, r) by { lemma_statistics_prec(a, p, c, len as int, ss(cols(v, c)), r); }
            }
        }
//@ end
}
}
fn main() {}
