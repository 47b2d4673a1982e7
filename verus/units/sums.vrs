//@ unit-props C13 C02 C03
//@ unit-title sums, sums of squares and dot products
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::slice::IterMut;
use std::marker::PhantomData;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include iters
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include cparts
//@ include simdgen
//@ include changed
//@ include mark
//@ include other
//@ include points
pub type ScalarResult<T> = Result<T, ErrorReason>;
//@ include wrapit contracts
//@ include convspec
//@ include summed
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSlice<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ for fn E half second at = |
//@| sum_real | T | 1 | None | (*\5)
//@| sum_sq_real | T | 1 | Some(m) | (*\5).mul_spec(*\5)
//@| sum_complex | Complex<T> | 2 | None | (*\5)
//@| sum_sq_complex | Complex<T> | 2 | Some(m) | (*\5).mul_spec(*\5)
//@ extract file=vector/src/vector_types/general/statistics.rs fn=@fn@ impl="impl<S,\sT,\sN,\sD>\sDspVec" loops=1
//@ ret r
//@ rewrite_sig? /\b_: RegType/
_reg: RegType
//@ rewrite? /move \|array, _, _\| \{/
move |array: &[T], _range: Range<usize>, _arg: ()| -> (out: Reg)
                requires array@.len() % (Reg::rlen() as nat) == 0, arith::<T>(),
                ensures
                    // the points of the register are the sums of the columns
                    col_sums(vals::<T, @E@>({ let m = array@; Values { a: m, b: @second@ } }), Reg::rlen() / @half@, array@.len() as int / Reg::rlen(), <@E@ as Point<T>>::pts(out.lanes())),
                {
                    let ghost m = array@;
                    let ghost x = vals::<T, @E@>(Values { a: m, b: @second@ });
//@ rewrite? /for (\w+) in (\w+) \{/
let ghost regs = \2@; for \1 in \2.iter() {
//@ rewrite? /\(&chunks\[\.\.\]\)\s*\.iter\(\)\s*\.map\(\|(\w+)\| (\w+\.\w+\(\))\)\s*\.fold\(\s*(.*?),\s*\|(\w+), (\w+)\| ([^()]*)\)/
let total_of = |\1: &Reg| -> (q: @E@) ensures q == <@E@ as SumPoint<T>>::total(\1.lanes()) { \2 }; let plus = |\4: @E@, \5: @E@| -> (q: @E@) requires arith::<T>() ensures q == \4.add_spec(\5) { \6 }; let items = chunks.index_all(..).iter();
                let ghost m = center;
                let ghost v = Values { a: m, b: @second@ };
                let ghost p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, m.len() as int, Reg::rlen()) && chunks@.len() == p.len() && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> col_sums(vals::<T, @E@>({ let m = sub(m, p[k]); Values { a: m, b: @second@ } }), Reg::rlen() / @half@, sub(m, p[k]).len() as int / Reg::rlen(), <@E@ as Point<T>>::pts(chunks@[k].lanes()));
                proof {
                    assert(chunks@.subrange(0, chunks@.len() as int) =~= chunks@);
                    assert forall|k: int| #![trigger p[k]] 0 <= k < p.len() implies col_sums(vals::<T, @E@>(vsub(v, p[k])), Reg::rlen() / @half@, sub(m, p[k]).len() as int / Reg::rlen(), <@E@ as Point<T>>::pts(chunks@[k].lanes())) by { }
                    lemma_folded_regs::<T, @E@, Reg, _, _>(v, p, chunks@, rem(items), total_of, plus);
                }
                folded_map(items, total_of, \3, plus)
//@ rewrite? /partition\s*\.(c?edge_iter)\(((?:[^()]|\([^()]*\))*)\)\s*\.fold\(\s*(.*?),\s*\|(\w+), (\w+)\| ([^()]*)\)/
{
            let items = partition.\1(\2);
            let plus = |\4: @E@, \5: &@E@| -> (q: @E@) requires arith::<T>() ensures q == \4.add_spec(@at@) { \6 };
            proof {
                let m = self@;
                let x = vals::<T, @E@>(Values { a: m, b: @second@ });
                lemma_folded_items::<@E@, &@E@, _>(plus, rem(items), edges(x, partition.lo() / @half@, partition.hi() / @half@));
            }
            folded(items, \3, plus)
        }
//@ rewrite? /Complex::<T>::zero\(\)/
<Complex<T> as Ring>::zero_pt()
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(), self.vlen() % @half@ == 0,
        ensures sum_all(vals::<T, @E@>({ let m = self@; Values { a: m, b: @second@ } }), r),
//@ after /let partition/ 1
        let ghost center = self@.subrange(partition.lo(), partition.hi());
        proof {
            Reg::laws();
            assert(array@.subrange(partition.lo(), partition.hi()) =~= center);
            let m = self@;
            lemma_center::<T, @E@>(Values { a: m, b: @second@ }, partition.lo(), partition.hi());
            lemma_whole_regs::<T, Reg>(center.len() as int);
        }
//@ loop 1 iter it
                    invariant
                        it.seq().len() == regs.len(), arith::<T>(), uregs(regs) == m,
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < regs.len() ==> *(it.seq()[k]) == regs[k],
                        x == vals::<T, @E@>(Values { a: m, b: @second@ }),
                        col_sums(x, Reg::rlen() / @half@, it.index() as int, <@E@ as Point<T>>::pts(sum.lanes())),
//@ before_loop 1
                    proof { lemma_reg_start::<T, @E@, Reg>(x, sum); }
//@ after_loop 1
                    proof { lemma_reg_count::<T, Reg>(m.len() as int, regs.len() as int); }
//@ loop_start 1
                    let ghost o = sum;
                    let ghost k = it.index() as int;
                    proof {
                        laws_arith::<T, Reg>(); Reg::laws();
                        lemma_reg_pts::<T, @E@, Reg>(regs, k);
                    }
//@ loop_end 1
                    proof {
                        assert forall|t: Reg| #![trigger o.add_spec(t)] sum == o.add_spec(t) && block(x, k * (Reg::rlen() / @half@), <@E@ as Point<T>>::pts(t.lanes())) implies col_sums(x, Reg::rlen() / @half@, k + 1, <@E@ as Point<T>>::pts(sum.lanes())) by {
                            Reg::law(t);
                            assert(<@E@ as Point<T>>::pts(t.lanes()) =~= x.subrange(k * (Reg::rlen() / @half@), (k + 1) * (Reg::rlen() / @half@)));
                            lemma_reg_step::<T, @E@, Reg>(x, k, o, t.lanes(), sum);
                        }
                    }
//@ end
//@ endfor
//@ for fn E half wrong kind = |
//@| dot_product_real | T | 1 | self.cplx() | InputMustBeReal
//@| dot_product_complex | Complex<T> | 2 | !self.cplx() | InputMustBeComplex
//@ extract file=vector/src/vector_types/general/dot_products.rs fn=@fn@ impl="impl<S,\sT,\sN,\sD>\sDspVec" loops=1
//@ ret r
//@ rewrite_sig? /\b_: RegType/
_reg: RegType
//@ rewrite_sig? / \+ GetMetaData<T, NO, DO>/

//@ rewrite? /\|original, range, target\| \{/
|original: &[T], range: Range<usize>, target: &[T]| -> (out: @E@)
                requires target@.len() % (Reg::rlen() as nat) == 0, range.start + target@.len() <= original@.len(), original@.len() <= max_len(), arith::<T>(),
                ensures sum_all(vals::<T, @E@>(Values { a: target@, b: Some(original@.subrange(range.start as int, range.start + target@.len())) }), out),
                {
                    let ghost m = target@;
                    let ghost b = original@.subrange(range.start as int, range.start + m.len());
                    let ghost v = Values { a: m, b: Some(b) };
                    let ghost x = vals::<T, @E@>(v);
//@ rewrite? /Reg::array_to_regs\(&(\w+)\[\.\.\]\)/
Reg::array_to_regs(\1)
//@ rewrite? /for (\w+) in (\w+) \{/
let ghost regs = \2@; for \1 in \2.iter() {
//@ rewrite? /\|(\w+), (\w+)\| \1 \+ \2\)/
|\1, \2| \1 + *\2)
//@ rewrite? /\(&chunks\[\.\.\]\)\s*\.iter\(\)\s*\.fold\(\s*(.*?),\s*\|(\w+), (\w+)\| ([^()]*)\)/
{
            let items = chunks.index_all(..).iter();
            let plus = |\2: @E@, \3: &@E@| -> (q: @E@) requires arith::<T>() ensures q == \2.add_spec(*\3) { \4 };
            proof {
                let v = Values { a: center, b: Some(ocenter) };
                let s = chunks@;
                assert(s.subrange(0, s.len() as int) =~= s);
                let p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, np, 1) && s.len() == p.len() && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> sum_all(vals::<T, @E@>(Values { a: sub(center, times(p[k], Reg::rlen())), b: Some(ocenter.subrange(p[k].0 * Reg::rlen(), p[k].0 * Reg::rlen() + sub(center, times(p[k], Reg::rlen())).len())) }), s[k]);
                lemma_times_all(p, np, Reg::rlen());
                assert(zip_sums(v, p, Reg::rlen(), s)) by {
                    assert forall|k: int| #![trigger p[k]] #![trigger s[k]] 0 <= k < p.len() implies sum_all(vals::<T, @E@>(vsub(v, times(p[k], Reg::rlen()))), s[k]) by {
                        let q = times(p[k], Reg::rlen());
                        assert(part_ok(q, np * Reg::rlen(), Reg::rlen()));
                        assert(ocenter.subrange(q.0, q.0 + sub(center, q).len()) =~= sub(ocenter, q));
                    }
                }
                lemma_folded_items::<@E@, &@E@, _>(plus, rem(items), s);
                assert forall|t: @E@| #[trigger] sum_all(s, t) implies sum_all(vals::<T, @E@>(v), t) by { lemma_zip_sums::<T, @E@, Reg>(v, np, p, s, t); }
            }
            folded(items, \1, plus)
        }
//@ rewrite? /partition\s*\.(c?edge_iter)\(((?:[^()]|\([^()]*\))*)\)\s*\.zip\(partition\.(c?edge_iter)\(((?:[^()]|\([^()]*\))*)\)\)\s*\.fold\(\s*(.*?),\s*\|(\w+), \((\w+), (\w+)\)\| ([^()]*)\)/
{
            let items = zip_of(partition.\1(\2), partition.\3(\4));
            let plus = |\6: @E@, pair: (&@E@, &@E@)| -> (q: @E@) requires arith::<T>() ensures q == \6.add_spec((*pair.0).mul_spec(*pair.1)) { let (\7, \8) = pair; \9 };
            proof {
                let x = vals::<T, @E@>(Values { a: self@, b: Some(factor.ov()) });
                lemma_folded_items::<@E@, (&@E@, &@E@), _>(plus, rem(items), edges(x, partition.lo() / @half@, partition.hi() / @half@));
            }
            folded(items, \5, plus)
        }
//@ rewrite? /Complex::<T>::zero\(\)/
<Complex<T> as Ring>::zero_pt()
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(), owf(factor),
        ensures
            // the operands have to fit, and the first reason why they do not is reported
            @wrong@ ==> r == Err::<@E@, ErrorReason>(ErrorReason::@kind@),
            !(@wrong@) && (factor.ocplx() != self.cplx() || self.freq() != factor.ofreq()) ==> r == Err::<@E@, ErrorReason>(ErrorReason::InputMetaDataMustAgree),
            !(@wrong@) && factor.ocplx() == self.cplx() && self.freq() == factor.ofreq() && self.vlen() != factor.ov().len() ==> r == Err::<@E@, ErrorReason>(ErrorReason::InputMustHaveTheSameSize),
            !(@wrong@) && factor.ocplx() == self.cplx() && self.freq() == factor.ofreq() && self.vlen() == factor.ov().len() ==>
                r.is_ok() && sum_all(vals::<T, @E@>(Values { a: self@, b: Some(factor.ov()) }), r->Ok_0),
//@ after /let other/ 1
        let ghost center = self@.subrange(partition.lo(), partition.hi());
        let ghost ocenter = other@.subrange(partition.lo(), partition.hi());
        let ghost np = center.len() as int / Reg::rlen();
        proof {
            Reg::laws();
            assert(array@.subrange(partition.lo(), partition.hi()) =~= center);
            lemma_center::<T, @E@>(Values { a: self@, b: Some(other@) }, partition.lo(), partition.hi());
            lemma_fundamental_div_mod(center.len() as int, Reg::rlen());
            assert(Reg::rlen() * np == np * Reg::rlen()) by (nonlinear_arith);
            assert(np >= 0) by { lemma_div_pos_is_pos(center.len() as int, Reg::rlen()); }
            assert forall|q: (int, int)| #[trigger] part_ok(q, np, 1) implies 0 <= q.0 * Reg::rlen() <= q.1 * Reg::rlen() <= np * Reg::rlen() && (q.1 * Reg::rlen() - q.0 * Reg::rlen()) % Reg::rlen() == 0 by {
                let l = Reg::rlen();
                assert(0 <= q.0 * l <= q.1 * l <= np * l && q.1 * l - q.0 * l == (q.1 - q.0) * l) by (nonlinear_arith) requires 0 <= q.0 <= q.1 <= np, l >= 1;
                lemma_mod_multiples_basic(q.1 - q.0, l);
            }
        }
//@ loop 1 iter it
                    invariant
                        it.seq().len() == regs.len(), arith::<T>(), uregs(regs) == m, regs.len() * Reg::rlen() == m.len(), range.start + m.len() <= original@.len(), original@.len() <= max_len(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < regs.len() ==> *(it.seq()[k]) == regs[k],
                        b == original@.subrange(range.start as int, range.start + m.len()), v == (Values { a: m, b: Some(b) }), x == vals::<T, @E@>(v), i == range.start + it.index() * Reg::rlen(),
                        col_sums(x, Reg::rlen() / @half@, it.index() as int, <@E@ as Point<T>>::pts(result.lanes())),
//@ before_loop 1
                    proof { lemma_reg_start::<T, @E@, Reg>(x, result); assert(0 * Reg::rlen() == 0); }
//@ after_loop 1
                    proof { lemma_reg_count::<T, Reg>(m.len() as int, regs.len() as int); lemma_total::<T, @E@, Reg>(v, result); }
//@ loop_start 1
                    let ghost o = result;
                    let ghost k = it.index() as int;
                    proof {
                        laws_arith::<T, Reg>(); Reg::laws();
                        lemma_reg_pts::<T, @E@, Reg>(regs, k);
                        lemma_lanes(regs, k);
                        let l = Reg::rlen();
                        assert((k + 1) * l == k * l + l) by (nonlinear_arith);
                        assert(original@.subrange(i as int, i + l) =~= b.subrange(k * l, (k + 1) * l));
                        lemma_mod_multiples_basic(k, l); lemma_mod_multiples_basic(k + 1, l);
                        lemma_mod_mod_s::<Reg, T>(k * l, @half@); lemma_mod_mod_s::<Reg, T>((k + 1) * l, @half@); lemma_mod_mod_s::<Reg, T>(l, @half@);
                        <@E@ as SumPoint<T>>::law_part(b, k * l, (k + 1) * l);
                        <@E@ as SumPoint<T>>::law_part(m, k * l, (k + 1) * l);
                        assert((k * l) / @half@ == k * (l / @half@)) by { if @half@ == 2 { let h = l / 2; assert(l == 2 * h); assert(k * l == 2 * (k * h)) by (nonlinear_arith) requires l == 2 * h; } }
                    }
//@ loop_end 1
                    proof {
                        assert forall|t: Reg| #![trigger o.add_spec(t)] result == o.add_spec(t) && block(x, k * (Reg::rlen() / @half@), <@E@ as Point<T>>::pts(t.lanes())) implies col_sums(x, Reg::rlen() / @half@, k + 1, <@E@ as Point<T>>::pts(result.lanes())) by {
                            Reg::law(t);
                            assert(<@E@ as Point<T>>::pts(t.lanes()) =~= x.subrange(k * (Reg::rlen() / @half@), (k + 1) * (Reg::rlen() / @half@)));
                            lemma_reg_step::<T, @E@, Reg>(x, k, o, t.lanes(), result);
                        }
                    }
//@ end
//@ endfor
}
}
fn main() {}
