//@ unit-props C01 C02 C03
//@ unit-title operations between two vectors: checks, register path, edges
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::slice::IterMut;
use std::marker::PhantomData;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include iters
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include cparts
//@ include simdgen
//@ include changed
//@ include mark
//@ include other
/// part k of the registers, as elements
proof fn lemma_lane_part(p: (int, int), np: int, l: int)
    requires part_ok(p, np, 1), l >= 1,
    ensures 0 <= p.0 * l <= p.1 * l <= np * l, (p.1 * l - p.0 * l) % l == 0, 
{
    assert(0 <= p.0 * l <= p.1 * l <= np * l && p.1 * l - p.0 * l == (p.1 - p.0) * l) by (nonlinear_arith) requires 0 <= p.0 <= p.1 <= np, l >= 1;
    lemma_mod_multiples_basic(p.1 - p.0, l);
}
/// the part which holds element i of np registers
proof fn lemma_reg_part(p: Seq<(int, int)>, np: int, l: int, i: int) -> (k: int)
    requires parts_ok(p, np, 1), l >= 1, 0 <= i < np * l,
    ensures 0 <= k < p.len(), p[k].0 * l <= i < p[k].1 * l, 0 <= p[k].0 * l <= p[k].1 * l <= np * l,
{
    let q = i / l;
    lemma_fundamental_div_mod(i, l);
    assert(0 <= q < np) by (nonlinear_arith) requires i == l * q + i % l, 0 <= i % l < l, 0 <= i < np * l, l >= 1;
    let k = lemma_part(p, np, 1, q);
    lemma_lane_part(p[k], np, l);
    let pk = p[k];
    assert(pk.0 * l <= i < pk.1 * l) by (nonlinear_arith) requires i == l * q + i % l, 0 <= i % l < l, pk.0 <= q < pk.1, l >= 1;
    k
}
proof fn lemma_even(x: int, l: int)
    requires l >= 2, l % 2 == 0, x % l == 0,
    ensures x % 2 == 0,
{
    lemma_fundamental_div_mod(x, l); let q = x / l; let h = l / 2; assert(l == 2 * h);
    assert(x == 2 * (h * q)) by (nonlinear_arith) requires x == l * q, l == 2 * h;
}
/// an operation on complex numbers in registers
proof fn lemma_cbin_regs<T: RealNumber, Reg: SimdGeneric<T>>(f: spec_fn(Complex<T>, Complex<T>) -> Complex<T>, o: Seq<Reg>, n: Seq<Reg>, rg: Seq<T>)
    requires
        n.len() == o.len(), rg.len() == o.len() * Reg::rlen(),
        forall|k: int, j: int| #![trigger cseq(n[k].lanes())[j]] 0 <= k < o.len() && 0 <= j < Reg::rlen() / 2 ==> cseq(n[k].lanes())[j] == f(cseq(o[k].lanes())[j], cseq(rg.subrange(k * Reg::rlen(), k * Reg::rlen() + Reg::rlen()))[j]),
    ensures
        forall|e: int| #![trigger cseq(uregs(n))[e]] 0 <= e < rg.len() / 2 ==> cseq(uregs(n))[e] == f(cseq(uregs(o))[e], cseq(rg)[e]),
{
    Reg::laws();
    let l = Reg::rlen();
    assert forall|e: int| #![trigger cseq(uregs(n))[e]] 0 <= e < rg.len() / 2 implies cseq(uregs(n))[e] == f(cseq(uregs(o))[e], cseq(rg)[e]) by {
        lemma_creg(o, e); lemma_creg(n, e);
        let k = (2 * e) / l; let j = ((2 * e) % l) / 2;
        assert(l * k == k * l) by (nonlinear_arith);
        assert(k * l + l <= o.len() * l && k * l >= 0) by (nonlinear_arith) requires 0 <= k, k + 1 <= o.len(), l >= 1;
        let w = rg.subrange(k * l, k * l + l);
        assert(2 * e == k * l + 2 * j);
        assert(w[2 * j] == rg[2 * e] && w[2 * j + 1] == rg[2 * e + 1]);
        assert(cseq(w)[j] == cseq(rg)[e]);
        assert(cseq(n[k].lanes())[j] == f(cseq(o[k].lanes())[j], cseq(w)[j]));
    }
}
/// an operation on complex numbers in parts of np registers
proof fn lemma_cbin_parts<T: RealNumber>(f: spec_fn(Complex<T>, Complex<T>) -> Complex<T>, oc: Seq<T>, nc: Seq<T>, rc: Seq<T>, p: Seq<(int, int)>, np: int, l: int)
    requires
        l >= 2, l % 2 == 0, parts_ok(p, np, 1), oc.len() == np * l, nc.len() == oc.len(), rc.len() == oc.len(),
        forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> ({
            let a = sub(oc, times(p[k], l)); let b = sub(nc, times(p[k], l)); let c = rc.subrange(p[k].0 * l, p[k].1 * l);
            forall|e: int| #![trigger cseq(b)[e]] 0 <= e < a.len() / 2 ==> cseq(b)[e] == f(cseq(a)[e], cseq(c)[e]) }),
    ensures
        forall|e: int| #![trigger cseq(nc)[e]] 0 <= e < oc.len() / 2 ==> cseq(nc)[e] == f(cseq(oc)[e], cseq(rc)[e]),
{
    assert forall|e: int| #![trigger cseq(nc)[e]] 0 <= e < oc.len() / 2 implies cseq(nc)[e] == f(cseq(oc)[e], cseq(rc)[e]) by {
        let k = lemma_reg_part(p, np, l, 2 * e);
        lemma_lane_part(p[k], np, l);
        assert(part_ok(p[k], np, 1));
        lemma_mod_multiples_basic(p[k].0, l); lemma_mod_multiples_basic(p[k].1, l);
        lemma_even(p[k].0 * l, l); lemma_even(p[k].1 * l, l);
        let q = times(p[k], l);
        let b = sub(nc, q); let j = e - q.0 / 2;
        assert(cseq(b)[j] == cseq(nc)[e]);
        assert(cseq(sub(oc, q))[j] == cseq(oc)[e]);
        assert(cseq(sub(rc, q))[j] == cseq(rc)[e]);
    }
}
/// position in an operand which is repeated
#[verifier::opaque]
pub open spec fn wrapped(i: int, n: int) -> int { i % n }
/// center and edges
proof fn lemma_cbin_edges<T: RealNumber>(f: spec_fn(Complex<T>, Complex<T>) -> Complex<T>, o: Seq<T>, r: Seq<T>, nc: Seq<T>, m: Seq<Complex<T>>, fin: Seq<Complex<T>>, lo: int, hi: int)
    requires
        o.len() % 2 == 0, r.len() == o.len(), lo % 2 == 0, hi % 2 == 0, 0 <= lo <= hi <= o.len(), nc.len() == hi - lo, fin.len() == o.len() / 2, m.len() == fin.len(),
        forall|e: int| #![trigger cseq(nc)[e]] 0 <= e < (hi - lo) / 2 ==> cseq(nc)[e] == f(cseq(sub(o, (lo, hi)))[e], cseq(sub(r, (lo, hi)))[e]),
        m == cseq(o.subrange(0, lo) + nc + o.subrange(hi, o.len() as int)),
        forall|i: int| #![trigger fin[i]] 0 <= i < fin.len() ==> fin[i] == if lo / 2 <= i < hi / 2 { m[i] } else { f(m[i], cseq(r)[i]) },
    ensures
        forall|i: int| #![trigger fin[i]] 0 <= i < fin.len() ==> fin[i] == f(cseq(o)[i], cseq(r)[i]),
{
    let am = o.subrange(0, lo) + nc + o.subrange(hi, o.len() as int);
    assert forall|i: int| #![trigger fin[i]] 0 <= i < fin.len() implies fin[i] == f(cseq(o)[i], cseq(r)[i]) by {
        if lo / 2 <= i < hi / 2 {
            let e = i - lo / 2;
            assert(nc[2 * e] == am[2 * i] && nc[2 * e + 1] == am[2 * i + 1]);
            assert(cseq(nc)[e] == m[i]); assert(cseq(sub(o, (lo, hi)))[e] == cseq(o)[i] && cseq(sub(r, (lo, hi)))[e] == cseq(r)[i]);
        } else { assert(am[2 * i] == o[2 * i] && am[2 * i + 1] == o[2 * i + 1]); }
    }
}
/// the pairs of elements at the edges
#[verifier::prophetic]
pub open spec fn edge_pairs<T>(s: Seq<(&mut T, &T)>, m: Seq<T>, other: Seq<T>, fin: Seq<T>, len: int, left: int, right: int, lo: int, hi: int) -> bool {
    &&& s.len() == left + right
    &&& forall|i: int| #![trigger fin.subrange(0, len)[i]] 0 <= i < len && !(lo <= i < hi) ==> ({
            let e = edge_pos(len, left, right, i);
            0 <= e < s.len() && *(s[e].0) == m[i] && *(s[e].1) == other[i] && *final(s[e].0) == fin.subrange(0, len)[i] })
    &&& forall|i: int| #![trigger fin.subrange(0, len)[i]] lo <= i < hi ==> fin.subrange(0, len)[i] == m[i]
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ for m arg op = add_inter:summand:add sub_inter:subtrahend:sub mul_real:factor:mul div_real:divisor:div
//@ extract file=vector/src/vector_types/general/elementary.rs fn=@m@ via=impl_binary_vector_operation loops=2
//@ expand reject_if assert_meta_data
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite_sig? /\b_: RegType/
_reg: RegType
//@ rewrite? /(\w+) > T::from\(1\.1\)\.unwrap\(\)/
exceeds(\1)
//@ rewrite? /(\w+) < T::from\(0\.9\)\.unwrap\(\)/
falls_below(\1)
//@ rewrite? /\|original, range, target, _arg\| \{/
|original: &[T], range: Range<usize>, target: &mut [T], _arg: ()|
            requires range.start <= range.end <= original@.len(), original@.len() <= max_len(), old(target)@.len() == range.end - range.start, (range.end - range.start) % Reg::rlen() == 0,
            ensures final(target)@.len() == old(target)@.len(), forall|k: int| #![trigger final(target)@[k]] 0 <= k < old(target)@.len() ==> final(target)@[k] == old(target)@[k].@op@_spec(original@[range.start + k]),
            {
                let ghost t0 = target@;
                let ghost src = original@;
                proof { axiom_slice_mut_len(target); Reg::laws(); laws_arith::<T, Reg>(); }
//@ rewrite? /for dst in &mut target\[\.\.\] \{/
let ghost o = target@; let ghost l = Reg::rlen(); proof { assert(0 * l == 0); } for dst in target.iter_mut() {
//@ rewrite? /Chunk::from_src_to_dest\((.*?)partition\.center_mut\(array\)/
let center = partition.center_mut(array); let ghost nc = final(center)@; Chunk::from_src_to_dest(\1center
//@ rewrite? /for \(n, o\) in partition\.edge_iter_mut\(array\)\.zip\(partition\.edge_iter\(other\)\) \{/
let slice = &mut *array; let ghost m = slice@; let ghost fin = final(slice)@; proof { axiom_slice_mut_len(slice); } for (n, o) in zip_of(partition.edge_iter_mut({ slice }), partition.edge_iter(other)) {
//@ ret r
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), owf(@arg@), arith::<T>(),
        ensures
            r.is_err() ==> *final(self) == *old(self),
            r == checked(old(self), @arg@),
            r.is_ok() ==> final(self).only_values_changed(old(self)) && forall|i: int| #![trigger final(self)@[i]] 0 <= i < old(self).vlen() ==> final(self)@[i] == old(self)@[i].@op@_spec(@arg@.ov()[i]),
//@ body_start
        let ghost o0 = self@;
        let ghost s0 = self.st();
        proof { Reg::laws(); }
//@ before /Chunk::from_src_to_dest/ 1
            let ghost l = Reg::rlen();
            let ghost lo = partition.lo(); let ghost hi = partition.hi();
            let ghost np = (hi - lo) / l;
            proof {
                lemma_fundamental_div_mod(hi - lo, l);
                assert(np * l == hi - lo) by (nonlinear_arith) requires hi - lo == l * np;
                assert forall|p: (int, int)| #[trigger] part_ok(p, np, 1) implies 0 <= p.0 * l <= p.1 * l <= hi - lo && (p.1 * l - p.0 * l) % l == 0 by { lemma_lane_part(p, np, l); }
            }
//@ loop 1 iter it
                            invariant
                                Reg::LEN == l, l == Reg::rlen(), l >= 2, i == range.start + it.index() * l, it.seq().len() == o.len(), original@ == src,
                                range.end <= src.len(), range.end - range.start == o.len() * l, src.len() <= max_len(),
                                reg_arith::<T, Reg>(),
                                forall|k: int| #![trigger it.seq()[k]] 0 <= k < o.len() ==> *(it.seq()[k]) == o[k],
                                forall|k: int, j: int| #![trigger (*final(it.seq()[k])).lanes()[j]] 0 <= k < it.index() && 0 <= j < l ==> (*final(it.seq()[k])).lanes()[j] == o[k].lanes()[j].@op@_spec(src[range.start + k * l + j]),
//@ loop_start 1
                            let ghost k = it.index() as int;
                            proof { assert(k * l + l == (k + 1) * l && (k + 1) * l <= o.len() * l && k * l >= 0) by (nonlinear_arith) requires 0 <= k, k + 1 <= o.len(), l >= 1; }
//@ after_loop 1
                        proof {
                            let n = target@;
                            assert forall|e: int| #![trigger uregs(n)[e]] 0 <= e < t0.len() implies uregs(n)[e] == t0[e].@op@_spec(src[range.start + e]) by {
                                lemma_reg(o, e); lemma_reg(n, e);
                                let k = e / l; let j = e % l;
                                assert(n[k].lanes()[j] == o[k].lanes()[j].@op@_spec(src[range.start + k * l + j]));
                                assert(l * k == k * l) by (nonlinear_arith);
                            }
                        }
//@ after /Chunk::from_src_to_dest/ 1
                let ghost oc = sub(o0, (lo, hi)); let ghost rc = sub(other@, (lo, hi)); 
                proof {
                    assert(oc =~= s0.subrange(lo, hi));
                    let p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, np, 1) && nc.len() == oc.len() && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> ({
                        let a = sub(oc, times(p[k], l)); let b = sub(nc, times(p[k], l));
                        b.len() == a.len() && forall|e: int| #![trigger b[e]] 0 <= e < a.len() ==> b[e] == a[e].@op@_spec(rc[p[k].0 * l + e])
                    });
                    assert forall|e: int| #![trigger nc[e]] 0 <= e < hi - lo implies nc[e] == oc[e].@op@_spec(rc[e]) by {
                        let k = lemma_reg_part(p, np, l, e);
                        let b = sub(nc, times(p[k], l));
                        let j = e - p[k].0 * l;
                        assert(b[j] == nc[e]);
                    }
                }
//@ loop 2 iter it
                invariant
                    partition.wf(), partition.len == data_length, partition.lo() == lo, partition.hi() == hi, m.len() == fin.len(), m.len() >= data_length, other@.len() == data_length, arith::<T>(),
                    edge_pairs(it.seq(), m, other@, fin, data_length as int, partition.left as int, partition.right as int, lo, hi),
                    forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> *final(it.seq()[k].0) == (*(it.seq()[k].0)).@op@_spec(*(it.seq()[k].1)),
//@ after_loop 2
                proof {
                    let n = array@;
                    assert forall|i: int| #![trigger n[i]] 0 <= i < data_length implies n[i] == o0[i].@op@_spec(other@[i]) by {
                        assert(n.subrange(0, data_length as int)[i] == n[i]);
                        if lo <= i < hi { assert(nc[i - lo] == m[i]); assert(oc[i - lo] == o0[i] && rc[i - lo] == other@[i]); } else { assert(n == fin); assert(m[i] == s0[i]); assert(o0[i] == s0[i]); }
                    }
                }
//@ end
//@ endfor
//@ for m arg op = mul_complex:factor:mul div_complex:divisor:div
//@ extract file=vector/src/vector_types/general/elementary.rs fn=@m@ via=impl_binary_complex_vector_operation loops=2
//@ expand reject_if assert_meta_data
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite_sig? /\b_: RegType/
_reg: RegType
//@ rewrite? /(\w+) > T::from\(1\.1\)\.unwrap\(\)/
exceeds(\1)
//@ rewrite? /(\w+) < T::from\(0\.9\)\.unwrap\(\)/
falls_below(\1)
//@ rewrite? /\|original, range, target, _arg\| \{/
|original: &[T], range: Range<usize>, target: &mut [T], _arg: ()|
            requires range.start <= range.end <= original@.len(), original@.len() <= max_len(), old(target)@.len() == range.end - range.start, (range.end - range.start) % Reg::rlen() == 0,
            ensures final(target)@.len() == old(target)@.len(), forall|k: int| #![trigger cseq(final(target)@)[k]] 0 <= k < old(target)@.len() / 2 ==> cseq(final(target)@)[k] == cseq(old(target)@)[k].@op@_spec(cseq(original@.subrange(range.start as int, range.end as int))[k]),
            {
                let ghost t0 = target@;
                let ghost src = original@;
                proof { axiom_slice_mut_len(target); Reg::laws(); }
//@ rewrite? /for dst in &mut target\[\.\.\] \{/
let ghost o = target@; let ghost l = Reg::rlen(); proof { assert(0 * l == 0); } for dst in target.iter_mut() {
//@ rewrite? /Chunk::from_src_to_dest\((.*?)partition\.center_mut\(array\)/
let center = partition.center_mut(array); let ghost nc = final(center)@; Chunk::from_src_to_dest(\1center
//@ rewrite? /for \(n, o\) in partition\.cedge_iter_mut\((.*?)\)\.zip\(partition\.cedge_iter\(array_to_complex\(other\)\)\) \{/
let slice = \1; let ghost m = slice@; let ghost fin = final(slice)@; let other = array_to_complex(other); let ghost dl = data_length as int / 2; proof { axiom_slice_mut_len(slice); assert(m.subrange(0, dl) =~= m); assert(fin.subrange(0, dl) =~= fin); } for (n, o) in zip_of(partition.cedge_iter_mut({ slice }), partition.cedge_iter(other)) {
//@ ret r
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), old(self).cplx(), owf(@arg@), arith::<T>(),
        ensures
            r.is_err() ==> *final(self) == *old(self),
            r == checked(old(self), @arg@),
            r.is_ok() ==> final(self).only_values_changed(old(self)) && forall|i: int| #![trigger cseq(final(self)@)[i]] 0 <= i < old(self).vlen() / 2 ==> cseq(final(self)@)[i] == cseq(old(self)@)[i].@op@_spec(cseq(@arg@.ov())[i]),
//@ body_start
        let ghost o0 = self@;
        let ghost s0 = self.st();
        proof { Reg::laws(); }
//@ before /Chunk::from_src_to_dest/ 1
            let ghost l = Reg::rlen();
            let ghost lo = partition.lo(); let ghost hi = partition.hi();
            let ghost np = (hi - lo) / l;
            proof {
                lemma_fundamental_div_mod(hi - lo, l);
                assert(np * l == hi - lo) by (nonlinear_arith) requires hi - lo == l * np;
                assert forall|p: (int, int)| #[trigger] part_ok(p, np, 1) implies 0 <= p.0 * l <= p.1 * l <= hi - lo && (p.1 * l - p.0 * l) % l == 0 by { lemma_lane_part(p, np, l); }
            }
//@ loop 1 iter it
                            invariant
                                Reg::LEN == l, l == Reg::rlen(), l >= 2, i == range.start + it.index() * l, it.seq().len() == o.len(), original@ == src,
                                range.end <= src.len(), range.end - range.start == o.len() * l, src.len() <= max_len(),
                                forall|k: int| #![trigger it.seq()[k]] 0 <= k < o.len() ==> *(it.seq()[k]) == o[k],
                                forall|k: int, j: int| #![trigger cseq((*final(it.seq()[k])).lanes())[j]] 0 <= k < it.index() && 0 <= j < l / 2 ==> cseq((*final(it.seq()[k])).lanes())[j] == cseq(o[k].lanes())[j].@op@_spec(cseq(src.subrange(range.start + k * l, range.start + k * l + l))[j]),
//@ loop_start 1
                            let ghost k = it.index() as int;
                            proof { assert(k * l + l == (k + 1) * l && (k + 1) * l <= o.len() * l && k * l >= 0) by (nonlinear_arith) requires 0 <= k, k + 1 <= o.len(), l >= 1; }
//@ after_loop 1
                        proof {
                            let n = target@;
                            let rg = src.subrange(range.start as int, range.end as int);
                            assert(uregs(n).len() == t0.len());
                            let f = |x: Complex<T>, y: Complex<T>| x.@op@_spec(y);
                            assert forall|k: int, j: int| #![trigger cseq(n[k].lanes())[j]] 0 <= k < o.len() && 0 <= j < l / 2 implies cseq(n[k].lanes())[j] == f(cseq(o[k].lanes())[j], cseq(rg.subrange(k * l, k * l + l))[j]) by {
                                assert(k * l + l <= o.len() * l && k * l >= 0) by (nonlinear_arith) requires 0 <= k, k + 1 <= o.len(), l >= 1;
                                assert(rg.subrange(k * l, k * l + l) =~= src.subrange(range.start + k * l, range.start + k * l + l));
                            }
                            lemma_cbin_regs(f, o, n, rg);
                        }
//@ after /Chunk::from_src_to_dest/ 1
                let ghost oc = sub(o0, (lo, hi)); let ghost rc = sub(other@, (lo, hi)); let ghost of = other@; proof { assert(array@.subrange(0, data_length as int) =~= o0.subrange(0, lo) + nc + o0.subrange(hi, data_length as int)); }
                proof {
                    assert(oc =~= s0.subrange(lo, hi));
                    lemma_even(hi - lo, l);
                    let p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, np, 1) && nc.len() == oc.len() && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> ({
                        let a = sub(oc, times(p[k], l)); let b = sub(nc, times(p[k], l)); let c = rc.subrange(p[k].0 * l, p[k].1 * l);
                        b.len() == a.len() && forall|e: int| #![trigger cseq(b)[e]] 0 <= e < a.len() / 2 ==> cseq(b)[e] == cseq(a)[e].@op@_spec(cseq(c)[e])
                    });
                    lemma_cbin_parts(|x: Complex<T>, y: Complex<T>| x.@op@_spec(y), oc, nc, rc, p, np, l);
                }
//@ loop 2 iter it
                invariant
                    edge_pairs(it.seq(), m, other@, fin, dl, partition.left as int / 2, partition.right as int / 2, lo / 2, hi / 2), arith::<T>(),
                    forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> *final(it.seq()[k].0) == (*(it.seq()[k].0)).@op@_spec(*(it.seq()[k].1)),
//@ after_loop 2
                proof {
                    let n = array@.subrange(0, data_length as int);
                    assert(n =~= fseq(fin));
                    lemma_cseq_fseq(fin);
                    assert forall|i: int| #![trigger fin[i]] 0 <= i < dl implies fin[i] == if lo / 2 <= i < hi / 2 { m[i] } else { m[i].@op@_spec(cseq(of)[i]) } by { assert(fin.subrange(0, dl)[i] == fin[i]); }
                    lemma_cbin_edges(|x: Complex<T>, y: Complex<T>| x.@op@_spec(y), o0, of, nc, m, fin, lo, hi);
                }
//@ end
//@ endfor
//@ for m arg op = add_smaller_inter:summand:add sub_smaller_inter:subtrahend:sub mul_smaller_real:factor:mul div_smaller_real:divisor:div
//@ extract file=vector/src/vector_types/general/elementary.rs fn=@m@ via=impl_binary_smaller_vector_operation loops=1
//@ expand reject_if assert_meta_data
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite_sig? /\b_: RegType/
_reg: RegType
//@ rewrite? /(\w+) > T::from\(1\.1\)\.unwrap\(\)/
exceeds(\1)
//@ rewrite? /(\w+) < T::from\(0\.9\)\.unwrap\(\)/
falls_below(\1)
//@ rewrite? /\|operand, range, target, _arg\| \{/
|operand: &[T], range: Range<usize>, target: &mut [T], _arg: ()|
            requires arith::<T>(), range.start + old(target)@.len() <= max_len(), operand@.len() > 0, 
            ensures final(target)@.len() == old(target)@.len(), forall|k: int| #![trigger final(target)@[k]] 0 <= k < old(target)@.len() ==> final(target)@[k] == old(target)@[k].@op@_spec(operand@[(range.start + k) % (operand@.len() as int)]),
            {
                proof { axiom_slice_mut_len(target); }
//@ rewrite? /for n in &mut target\[\.\.\] \{/
let ghost t0 = target@; for n in target.iter_mut() {
//@ rewrite? /Chunk::from_src_to_dest\((.*?)&mut array\[0\.\.data_length\]/
let part = &mut array[0..data_length]; let ghost nc = final(part)@; Chunk::from_src_to_dest(\1part
//@ rewrite? /&other,/
other,
//@ ret r
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), owf(@arg@), arith::<T>(),
        ensures
            r.is_err() ==> *final(self) == *old(self),
            r == checked_smaller(old(self), @arg@),
            r.is_ok() ==> final(self).only_values_changed(old(self)) && forall|i: int| #![trigger final(self)@[i]] 0 <= i < old(self).vlen() ==> final(self)@[i] == old(self)@[i].@op@_spec(@arg@.ov()[i % (@arg@.ov().len() as int)]),
//@ body_start
        let ghost o0 = self@;
        proof { Reg::laws(); }
//@ loop 1 iter it
                            invariant
                                arith::<T>(), i == range.start + it.index(), it.seq().len() == t0.len(), range.start + t0.len() <= max_len(), operand@.len() > 0,
                                forall|k: int| #![trigger it.seq()[k]] 0 <= k < t0.len() ==> *(it.seq()[k]) == t0[k],
                                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> *final(it.seq()[k]) == t0[k].@op@_spec(operand@[(range.start + k) % (operand@.len() as int)]),
//@ after /Chunk::from_src_to_dest/ 1
                proof {
                    assert forall|i: int| #![trigger array@.subrange(0, data_length as int)[i]] 0 <= i < data_length implies array@.subrange(0, data_length as int)[i] == o0[i].@op@_spec(other@[i % (other@.len() as int)]) by { assert(nc[i] == array@[i]); }
                }
//@ end
//@ endfor
//@ for m arg op = mul_smaller_complex:factor:mul div_smaller_complex:divisor:div
//@ extract file=vector/src/vector_types/general/elementary.rs fn=@m@ via=impl_binary_smaller_complex_vector_ops loops=1
//@ expand reject_if assert_meta_data
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite_sig? /\b_: RegType/
_reg: RegType
//@ rewrite? /(\w+) > T::from\(1\.1\)\.unwrap\(\)/
exceeds(\1)
//@ rewrite? /(\w+) < T::from\(0\.9\)\.unwrap\(\)/
falls_below(\1)
//@ rewrite? /\|operand, range, target, _arg\| \{/
|operand: &[T], range: Range<usize>, target: &mut [T], _arg: ()|
            requires arith::<T>(), range.start + old(target)@.len() <= max_len(), operand@.len() > 0, operand@.len() % 2 == 0, old(target)@.len() % 2 == 0,
            ensures final(target)@.len() == old(target)@.len(), forall|k: int| #![trigger cseq(final(target)@)[k]] 0 <= k < old(target)@.len() / 2 ==> cseq(final(target)@)[k] == cseq(old(target)@)[k].@op@_spec(cseq(operand@)[wrapped(range.start + k, operand@.len() as int / 2)]),
            {
                let ghost c0 = cseq(target@); let ghost r0 = cseq(operand@); let ghost d0 = operand@.len() as int / 2;
                proof { axiom_slice_mut_len(target); }
//@ rewrite? /for n in &mut target\[\.\.\] \{/
let ghost t0 = target@; proof { axiom_slice_mut_len(target); } for n in target.iter_mut() {
//@ rewrite? /Chunk::from_src_to_dest\((.*?)&mut array\[0\.\.data_length\]/
let part = &mut array[0..data_length]; let ghost nc = final(part)@; Chunk::from_src_to_dest(\1part
//@ rewrite? /&other,/
other,
//@ ret r
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), old(self).cplx(), owf(@arg@), arith::<T>(),
        ensures
            r.is_err() ==> *final(self) == *old(self),
            r == checked_smaller(old(self), @arg@),
            r.is_ok() ==> final(self).only_values_changed(old(self)) && forall|i: int| #![trigger cseq(final(self)@)[i]] 0 <= i < old(self).vlen() / 2 ==> cseq(final(self)@)[i] == cseq(old(self)@)[i].@op@_spec(cseq(@arg@.ov())[wrapped(i, @arg@.ov().len() as int / 2)]),
//@ body_start
        let ghost o0 = self@;
        proof { Reg::laws(); }
//@ loop 1 iter it
                            invariant
                                arith::<T>(), i == range.start + it.index(), it.seq().len() == t0.len(), range.start + t0.len() <= max_len(), operand@.len() > 0,
                                forall|k: int| #![trigger it.seq()[k]] 0 <= k < t0.len() ==> *(it.seq()[k]) == t0[k],
                                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> *final(it.seq()[k]) == t0[k].@op@_spec(operand@[wrapped(range.start + k, operand@.len() as int)]),
//@ loop_start 1
                            proof { reveal(wrapped); }
//@ after_loop 1
                        proof {
                            lemma_cseq_fseq(target@);
                            assert(t0 == c0 && operand@ == r0 && operand@.len() == d0);
                            assert forall|k: int| #![trigger target@[k]] 0 <= k < t0.len() implies target@[k] == c0[k].@op@_spec(r0[wrapped(range.start + k, d0)]) by { }
                        }
//@ after /Chunk::from_src_to_dest/ 1
                proof {
                    assert(array@.subrange(0, data_length as int) =~= nc);
                    assert forall|i: int| #![trigger cseq(nc)[i]] 0 <= i < data_length / 2 implies cseq(nc)[i] == cseq(o0)[i].@op@_spec(cseq(other@)[wrapped(i, other@.len() as int / 2)]) by { }
                }
//@ end
//@ endfor
//@ for m arg op = add:summand:add sub:subtrahend:sub
//@ extract file=vector/src/vector_types/general/elementary.rs fn=@m@ impl="ElementaryOps<O,\sT,\sNO,\sDO>\sfor\sDspVec" as=elem_@m@ loops=0
//@ rewrite_sig /fn @m@\(/
fn @m@<Reg: SimdGeneric<T>, O: Vector<T>>(
//@ rewrite? /sel_reg!\(\s*self\.(\w+)::<T>\((.*?)\)\s*\)/
self.\1(RegType::<Reg>::new(), \2)
//@ ret r
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), owf(@arg@), arith::<T>(),
        ensures
            r.is_err() ==> *final(self) == *old(self),
            r == checked(old(self), @arg@),
            r.is_ok() ==> final(self).only_values_changed(old(self)) && forall|i: int| #![trigger final(self)@[i]] 0 <= i < old(self).vlen() ==> final(self)@[i] == old(self)@[i].@op@_spec(@arg@.ov()[i]),
//@ end
//@ endfor
//@ for m arg op = mul:factor:mul div:divisor:div
//@ extract file=vector/src/vector_types/general/elementary.rs fn=@m@ impl="ElementaryOps<O,\sT,\sNO,\sDO>\sfor\sDspVec" as=elem_@m@ loops=0
//@ expand reject_if assert_meta_data
//@ rewrite? /(\w+) > T::from\(1\.1\)\.unwrap\(\)/
exceeds(\1)
//@ rewrite? /(\w+) < T::from\(0\.9\)\.unwrap\(\)/
falls_below(\1)
//@ rewrite_sig /fn @m@\(/
fn @m@<Reg: SimdGeneric<T>, O: Vector<T>>(
//@ rewrite? /sel_reg!\(\s*self\.(\w+)::<T>\((.*?)\)\s*\)/
self.\1(RegType::<Reg>::new(), \2)
//@ ret r
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), owf(@arg@), arith::<T>(),
        ensures
            r.is_err() ==> *final(self) == *old(self),
            r == checked(old(self), @arg@),
            r.is_ok() ==> final(self).only_values_changed(old(self)),
            r.is_ok() && !old(self).cplx() ==> forall|i: int| #![trigger final(self)@[i]] 0 <= i < old(self).vlen() ==> final(self)@[i] == old(self)@[i].@op@_spec(@arg@.ov()[i]),
            r.is_ok() && old(self).cplx() ==> forall|i: int| #![trigger cseq(final(self)@)[i]] 0 <= i < old(self).vlen() / 2 ==> cseq(final(self)@)[i] == cseq(old(self)@)[i].@op@_spec(cseq(@arg@.ov())[i]),
//@ end
//@ endfor
//@ for m arg op = add_smaller:summand:add sub_smaller:subtrahend:sub
//@ extract file=vector/src/vector_types/general/elementary.rs fn=@m@ impl="ElementaryWrapAroundOps<O,\sT,\sNO,\sDO>\sfor\sDspVec" as=elem_@m@ loops=0
//@ rewrite_sig /fn @m@\(/
fn @m@<Reg: SimdGeneric<T>, O: Vector<T>>(
//@ rewrite? /sel_reg!\(\s*self\.(\w+)::<T>\((.*?)\)\s*\)/
self.\1(RegType::<Reg>::new(), \2)
//@ ret r
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), owf(@arg@), arith::<T>(),
        ensures
            r.is_err() ==> *final(self) == *old(self),
            r == checked_smaller(old(self), @arg@),
            r.is_ok() ==> final(self).only_values_changed(old(self)) && forall|i: int| #![trigger final(self)@[i]] 0 <= i < old(self).vlen() ==> final(self)@[i] == old(self)@[i].@op@_spec(@arg@.ov()[i % (@arg@.ov().len() as int)]),
//@ end
//@ endfor
//@ for m arg op = mul_smaller:factor:mul div_smaller:divisor:div
//@ extract file=vector/src/vector_types/general/elementary.rs fn=@m@ impl="ElementaryWrapAroundOps<O,\sT,\sNO,\sDO>\sfor\sDspVec" as=elem_@m@ loops=0
//@ expand reject_if assert_meta_data
//@ rewrite? /(\w+) > T::from\(1\.1\)\.unwrap\(\)/
exceeds(\1)
//@ rewrite? /(\w+) < T::from\(0\.9\)\.unwrap\(\)/
falls_below(\1)
//@ rewrite_sig /fn @m@\(/
fn @m@<Reg: SimdGeneric<T>, O: Vector<T>>(
//@ rewrite? /sel_reg!\(\s*self\.(\w+)::<T>\((.*?)\)\s*\)/
self.\1(RegType::<Reg>::new(), \2)
//@ ret r
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), owf(@arg@), arith::<T>(),
        ensures
            r.is_err() ==> *final(self) == *old(self),
            r == checked_smaller(old(self), @arg@),
            r.is_ok() ==> final(self).only_values_changed(old(self)),
            r.is_ok() && !old(self).cplx() ==> forall|i: int| #![trigger final(self)@[i]] 0 <= i < old(self).vlen() ==> final(self)@[i] == old(self)@[i].@op@_spec(@arg@.ov()[i % (@arg@.ov().len() as int)]),
            r.is_ok() && old(self).cplx() ==> forall|i: int| #![trigger cseq(final(self)@)[i]] 0 <= i < old(self).vlen() / 2 ==> cseq(final(self)@)[i] == cseq(old(self)@)[i].@op@_spec(cseq(@arg@.ov())[wrapped(i, @arg@.ov().len() as int / 2)]),
//@ end
//@ endfor
}
}
fn main() {}
