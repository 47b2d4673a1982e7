//@ unit-props C14 C01 C02
//@ unit-title complex vectors and their components: getters, setters, conversions
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::slice::IterMut;
use std::marker::PhantomData;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include iters
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include cparts
//@ include simdgen
//@ include changed
//@ include mark contracts
//@ include elemspec
//@ include elemapi contracts
//@ include enumerated
/// contract of the traits Vector, ResizeOps, GetMetaData, FloatIndex and FloatIndexMut for the other vectors; discharged for DspVec in unit vecops
pub trait Target<T: RealNumber>: Sized {
    spec fn ov(&self) -> Seq<T>;
    spec fn ocplx(&self) -> bool;
    spec fn odlt(&self) -> T;
    /// the number of elements for which there is room
    spec fn room(&self) -> nat;
    fn len(&self) -> (r: usize) ensures r == self.ov().len();
    fn is_complex(&self) -> (r: bool) ensures r == self.ocplx();
    fn resize(&mut self, len: usize) -> (r: VoidResult)
        ensures
            final(self).ocplx() == old(self).ocplx(), final(self).odlt() == old(self).odlt(),
            r.is_ok() ==> final(self).ov().len() == len,
            (len <= old(self).room() || len == 0) && (old(self).ocplx() ==> len % 2 == 0) ==> r.is_ok();
    fn set_delta(&mut self, delta: T)
        ensures final(self).ocplx() == old(self).ocplx(), final(self).odlt() == delta, final(self).ov() == old(self).ov();
    fn data_mut(&mut self, range: Range<usize>) -> (r: &mut [T])
        requires range.start == 0, range.end == old(self).ov().len(),
        ensures r@ == old(self).ov(), final(self).ov() == final(r)@, final(r)@.len() == r@.len(), final(self).ocplx() == old(self).ocplx(), final(self).odlt() == old(self).odlt();
    fn data(&self, range: Range<usize>) -> (r: &[T])
        requires range.start == 0, range.end == self.ov().len(),
        ensures r@ == self.ov();
}
pub open spec fn halfwise1<T: RealNumber, Reg: SimdGeneric<T>, F: Fn(Reg) -> Reg, G: Fn(Complex<T>) -> T>(f: F, g: G, rel: spec_fn(Complex<T>, T) -> bool) -> bool {
    &&& forall|r: Reg, q: Reg, i: int| #![trigger call_ensures(f, (r,), q), q.lanes()[i]] call_ensures(f, (r,), q) && 0 <= i < Reg::rlen() / 2 ==> rel(cseq(r.lanes())[i], q.lanes()[i])
    &&& forall|x: Complex<T>, y: T| #![trigger call_ensures(g, (x,), y)] call_ensures(g, (x,), y) ==> rel(x, y)
}
pub open spec fn houtcome1<T: RealNumber, Reg: SimdGeneric<T>, F: Fn(Reg) -> Reg, G: Fn(Complex<T>) -> T>(f: F, g: G, o: Seq<Complex<T>>, n: Seq<T>) -> bool {
    forall|rel: spec_fn(Complex<T>, T) -> bool| #[trigger] halfwise1(f, g, rel) ==> related(rel, o, n)
}
pub open spec fn callable1<E, R, F: Fn(E) -> R>(f: F) -> bool { forall|x: E| #![trigger call_requires(f, (x,))] call_requires(f, (x,)) }
/// the norm, or the root of the sum of the squares
pub open spec fn is_norm<T: RealNumber>(x: Complex<T>, y: T) -> bool { y == norm_of(x) || y == math(Fun::Sqrt, norm_sqr(x)) }
/// every element is f of the point
pub open spec fn mapping<E, R>(f: spec_fn(E) -> R, o: Seq<E>, n: Seq<R>) -> bool { n.len() == o.len() && forall|i: int| #![trigger n[i]] 0 <= i < o.len() ==> n[i] == f(o[i]) }
/// the points with the given components
pub open spec fn joined<T: RealNumber>(a: Seq<T>, b: Seq<T>, f: spec_fn(T, T) -> Complex<T>) -> Seq<Complex<T>> { Seq::new(a.len(), |i: int| f(a[i], b[i])) }
/// what was read from a complex vector and written back is the vector
proof fn lemma_read_write<T: RealNumber>(o: Seq<Complex<T>>, re: Seq<T>, im: Seq<T>)
    requires mapping(|c: Complex<T>| c.re, o, re), mapping(|c: Complex<T>| c.im, o, im),
    ensures joined(re, im, |x: T, y: T| Complex { re: x, im: y }) == o,
{ assert(joined(re, im, |x: T, y: T| Complex { re: x, im: y }) =~= o); }
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSlice<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
    /// the part of every point, in order
    pub open spec fn read_into<V: Target<T>>(&self, o: &V, n: &V, rel: spec_fn(Complex<T>, T) -> bool) -> bool {
        &&& n.ocplx() == o.ocplx()
        &&& if !self.cplx() || o.ocplx() { n.ov().len() == 0 } else { related(rel, cseq(self@), n.ov()) && n.odlt() == self.dlt() }
    }
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=pure_complex_into_real_target_operation impl="impl<S,\sT,\sN,\sD>\sDspVec" loops=1
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite_sig /V: Vector<T>.*$/
V: Target<T>,
//@ rewrite? /move \|original, range, target, argument\| \{/
move |original: &[T], range: Range<usize>, target: &mut [T], argument: A|
                requires callable(op, argument), range.start <= range.end <= original@.len(), range.start % 2 == 0, (range.end - range.start) % 2 == 0, old(target)@.len() == (range.end - range.start) / 2, original@.len() <= max_len(),
                ensures each(op, cseq(original@.subrange(range.start as int, range.end as int)), final(target)@, argument),
                {
                proof { axiom_slice_mut_len(target); }
                let ghost a = original@.subrange(range.start as int, range.end as int);
//@ rewrite? /let mut j = 0;/
let mut j: usize = 0;
//@ rewrite? /Complex::<T>::new/
Complex::new
//@ spec
        requires self.wf(), self.vlen() % 2 == 0, self.vlen() <= max_len(), callable(op, argument), !old(destination).ocplx(), old(destination).room() >= self.vlen() / 2,
        ensures
            each(op, cseq(self@), final(destination).ov(), argument), final(destination).odlt() == self.dlt(), final(destination).ocplx() == old(destination).ocplx(),
//@ loop 1
                    invariant
                        callable(op, argument), 0 <= j <= target@.len(), target@.len() == a.len() / 2, a.len() % 2 == 0, i == range.start + 2 * j, range.start + a.len() <= original@.len() <= max_len(), a == original@.subrange(range.start as int, range.start + a.len()),
                        forall|k: int| #![trigger target@[k]] 0 <= k < j ==> call_ensures(op, (cseq(a)[k], argument), target@[k]),
//@ loop_start 1
                    assert(original@[i as int] == a[2 * j as int] && original@[i + 1] == a[2 * j as int + 1]);
//@ rewrite? /Chunk::from_src_to_dest\((.*)\);/
let ghost fin = final(array)@; Chunk::from_src_to_dest(\1); proof {
            let o = self@; let np = len as int / 2; assert(source@.subrange(0, len as int) =~= o);
            let p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, np, 1) && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> each(op, cseq(o.subrange(2 * p[k].0, 2 * p[k].1)), sub(fin, p[k]), argument);
            assert forall|k: int| #![trigger p[k]] 0 <= k < p.len() implies each(op, sub(cseq(o), p[k]), sub(fin, p[k]), argument) by { assert(part_ok(p[k], np, 1)); assert(sub(cseq(o), p[k]) =~= cseq(o.subrange(2 * p[k].0, 2 * p[k].1))); }
            lemma_each_parts(op, cseq(o), fin, argument, p, 1);
        }
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=simd_complex_into_real_target_operation impl="impl<S,\sT,\sN,\sD>\sDspVec" loops=2
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite_sig? /\b_: RegType/
_reg: RegType
//@ rewrite_sig /V: Vector<T>.*$/
V: Target<T>,
//@ rewrite? /move \|array, range, target, _arg\| \{/
move |array: &[T], range: Range<usize>, target: &mut [T], _arg: ()|
                requires callable1(op_simd), range.start <= range.end <= array@.len(), (range.end - range.start) % Reg::rlen() == 0, old(target)@.len() == (range.end - range.start) / 2, array@.len() <= max_len(),
                ensures final(target)@.len() == old(target)@.len(), houtcome1(op_simd, op, cseq(array@.subrange(range.start as int, range.end as int)), final(target)@),
                {
                let ghost h = Reg::rlen() / 2;
                proof { axiom_slice_mut_len(target); Reg::laws(); lemma_even(range.end - range.start, Reg::rlen()); }
//@ rewrite? /for n in array \{/
let ghost tl = target@.len(); let ghost r = array@; proof { assert(0 * h == 0); lemma_len(r); assert(tl == r.len() * h) by (nonlinear_arith) requires r.len() * Reg::rlen() == 2 * tl, Reg::rlen() == 2 * h; } for n in array.iter() {
//@ rewrite? /let mut i = 0;/
let mut i: usize = 0;
//@ rewrite? /Chunk::from_src_to_dest\((.*?)partition\.rcenter_mut\(temp\)(.*?\})\s*,?\s*\);/
let center = partition.rcenter_mut(temp); let ghost nc = final(center)@; Chunk::from_src_to_dest(\1center\2);
//@ rewrite? /for \(dest, src\) in partition\s*\.redge_iter_mut\(temp\)\s*\.zip\(partition\s*\.cedge_iter\(array_to_complex\(array\)\)\)\s*\{/
let slice = &mut *temp; let ghost fin = final(slice)@; proof { axiom_slice_mut_len(slice); } let points = array_to_complex(array); for (dest, src) in zip_of(partition.redge_iter_mut({ slice }), partition.cedge_iter(points)) {
//@ spec
        requires self.wf(), self.vlen() % 2 == 0, self.vlen() <= max_len(), callable1(op_simd), callable1(op), !old(destination).ocplx(), old(destination).room() >= self.vlen() / 2,
        ensures
            houtcome1(op_simd, op, cseq(self@), final(destination).ov()), final(destination).odlt() == self.dlt(), final(destination).ocplx() == old(destination).ocplx(),
//@ body_start
        let ghost o = self@;
        proof { Reg::laws(); }
//@ before /Chunk::from_src_to_dest/ 1
        let ghost l = Reg::rlen();
        let ghost lo = partition.lo(); let ghost hi = partition.hi();
        let ghost np = (hi - lo) / l;
        proof {
            lemma_fundamental_div_mod(hi - lo, l);
            let h = l / 2; assert(l == 2 * h);
            assert(hi / 2 - lo / 2 == np * h && np * l == hi - lo) by (nonlinear_arith) requires hi - lo == l * np, l == 2 * h, hi % 2 == 0, lo % 2 == 0;
            assert forall|p: (int, int)| #[trigger] part_ok(p, np, 1) implies p.0 * l <= p.1 * l <= hi - lo && p.0 * l >= 0 && (p.1 * l - p.0 * l) % l == 0 && p.1 * h - p.0 * h == (p.1 * l - p.0 * l) / 2 && 0 <= p.0 * h <= p.1 * h <= hi / 2 - lo / 2 by { lemma_scaled_part(p, np, l); }
        }
//@ loop 1 iter it
                    invariant
                        callable1(op_simd), it.seq().len() == r.len(), i == it.index() * h, h == Reg::rlen() / 2, Reg::rlen() >= 2, Reg::rlen() % 2 == 0, Reg::LEN == Reg::rlen(), target@.len() == tl, tl == r.len() * h, tl <= max_len(),
                        forall|k: int| #![trigger it.seq()[k]] 0 <= k < r.len() ==> *(it.seq()[k]) == r[k],
                        forall|rel: spec_fn(Complex<T>, T) -> bool, e: int| #![trigger halfwise1(op_simd, op, rel), target@[e]] halfwise1(op_simd, op, rel) && 0 <= e < i ==> rel(cseq(uregs(r))[e], target@[e]),
//@ loop_start 1
                    let ghost t0 = target@;
                    let ghost k = it.index() as int;
                    proof { assert((k + 1) * h == k * h + h && (k + 1) * h <= r.len() * h) by (nonlinear_arith) requires k + 1 <= r.len(), h >= 1; }
//@ loop_end 1
                    proof {
                        assert forall|rel: spec_fn(Complex<T>, T) -> bool, e: int| #![trigger halfwise1(op_simd, op, rel), target@[e]] halfwise1(op_simd, op, rel) && 0 <= e < i implies rel(cseq(uregs(r))[e], target@[e]) by {
                            if e >= k * h { lemma_clanes(r, k, e - k * h); } else { assert(target@[e] == t0[e]); }
                        }
                    }
//@ after /Chunk::from_src_to_dest/ 1
        let ghost oc = sub(o, (lo, hi));
        let ghost m = temp@;
        let ghost dl = data_length as int;
        proof {
            let p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, np, 1) && nc.len() == hi / 2 - lo / 2 && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> (houtcome1(op_simd, op, cseq(oc.subrange(p[k].0 * l, p[k].1 * l)), sub(nc, (p[k].0 * (l / 2), p[k].1 * (l / 2)))));
            let h = l / 2;
            let co = cseq(oc);
            assert forall|rel: spec_fn(Complex<T>, T) -> bool| #[trigger] halfwise1(op_simd, op, rel) implies related(rel, co, nc) by {
                assert forall|i: int| #![trigger nc[i]] 0 <= i < nc.len() implies rel(co[i], nc[i]) by {
                    let q = i / h;
                    lemma_fundamental_div_mod(i, h);
                    assert(0 <= q < np) by (nonlinear_arith) requires i == h * q + i % h, 0 <= i % h < h, 0 <= i < np * h, h >= 1;
                    let k = lemma_part(p, np, 1, q);
                    let pk = p[k];
                    lemma_scaled_part(pk, np, l);
                    assert(pk.0 * h <= i < pk.1 * h) by (nonlinear_arith) requires i == h * q + i % h, 0 <= i % h < h, pk.0 <= q < pk.1, h >= 1;
                    let e = i - pk.0 * h;
                    assert(sub(nc, (pk.0 * h, pk.1 * h))[e] == nc[i]);
                    assert(cseq(oc.subrange(pk.0 * l, pk.1 * l))[e] == co[i]);
                }
            }
            assert(houtcome1(op_simd, op, co, nc));
            assert(nc =~= sub(m, (lo / 2, hi / 2)));
        }
//@ loop 2 iter it
            invariant
                callable1(op), partition.cwf(), partition.len == dl, points@ == cseq(o), o.len() == dl, m.len() == dl / 2, fin.len() == m.len(),
                it.seq().len() == partition.left / 2 + partition.right / 2,
                forall|i: int| #![trigger fin[i]] 0 <= i < dl / 2 && !(partition.lo() / 2 <= i < partition.hi() / 2) ==> ({
                    let e = edge_pos(dl / 2, partition.left as int / 2, partition.right as int / 2, i);
                    0 <= e < it.seq().len() && *(it.seq()[e].1) == points@[i] && *final(it.seq()[e].0) == fin[i] }),
                forall|i: int| #![trigger fin[i]] partition.lo() / 2 <= i < partition.hi() / 2 ==> fin[i] == m[i],
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> call_ensures(op, (*(it.seq()[k].1),), *final(it.seq()[k].0)),
//@ before_loop 2
        proof { assert(fin =~= fin.subrange(0, dl / 2)); assert(m =~= m.subrange(0, dl / 2)); }
//@ after_loop 2
        proof {
            let n = fin;
            assert forall|rel: spec_fn(Complex<T>, T) -> bool| #[trigger] halfwise1(op_simd, op, rel) implies related(rel, cseq(o), n) by {
                assert forall|i: int| #![trigger n[i]] 0 <= i < dl / 2 implies rel(cseq(o)[i], n[i]) by {
                    if lo / 2 <= i < hi / 2 { assert(nc[i - lo / 2] == m[i]); assert(cseq(oc)[i - lo / 2] == cseq(o)[i]); }
                }
            }
            assert(houtcome1(op_simd, op, cseq(o), n));
        }
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=get_real impl="ComplexToRealGetterOps" loops=0
//@ expand assert_self_complex_and_target_real
//@ rewrite_sig /fn get_real\(/
fn get_real<O: Target<T>>(
//@ rewrite? /self\.pure_complex_into_real_target_operation\(\s*destination,\s*\|(\w+), (\w+)\| (.*?),\s*\(\),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: T) requires arith::<T>() ensures q == \1.re { \3 }; self.pure_complex_into_real_target_operation(destination, f, (), \4)
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(), old(destination).room() >= self.vlen() / 2,
        ensures self.read_into(old(destination), final(destination), |x: Complex<T>, y: T| y == x.re),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=get_imag impl="ComplexToRealGetterOps" loops=0
//@ expand assert_self_complex_and_target_real
//@ rewrite_sig /fn get_imag\(/
fn get_imag<O: Target<T>>(
//@ rewrite? /self\.pure_complex_into_real_target_operation\(\s*destination,\s*\|(\w+), (\w+)\| (.*?),\s*\(\),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: T) requires arith::<T>() ensures q == \1.im { \3 }; self.pure_complex_into_real_target_operation(destination, f, (), \4)
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(), old(destination).room() >= self.vlen() / 2,
        ensures self.read_into(old(destination), final(destination), |x: Complex<T>, y: T| y == x.im),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=get_phase impl="ComplexToRealGetterOps" loops=0
//@ expand assert_self_complex_and_target_real
//@ rewrite_sig /fn get_phase\(/
fn get_phase<O: Target<T>>(
//@ rewrite? /self\.pure_complex_into_real_target_operation\(\s*destination,\s*\|(\w+), (\w+)\| (.*?),\s*\(\),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: T) requires arith::<T>() ensures q == arg_of(\1) { \3 }; self.pure_complex_into_real_target_operation(destination, f, (), \4)
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(), old(destination).room() >= self.vlen() / 2,
        ensures self.read_into(old(destination), final(destination), |x: Complex<T>, y: T| y == arg_of(x)),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=get_magnitude impl="ComplexToRealGetterOps" loops=0
//@ expand assert_self_complex_and_target_real
//@ rewrite_sig /fn get_magnitude\(/
fn get_magnitude<Reg: SimdGeneric<T>, O: Target<T>>(
//@ rewrite? /sel_reg!\(\s*self\.simd_complex_into_real_target_operation::<T>\(\s*destination,\s*\|(\w+)\| (.*?),\s*\|(\w+)\| (.*?),\s*(\w+(?:::\w+)?),?\s*\)\s*\)/
let f = |\1: Reg| -> (q: Reg) requires arith::<T>() ensures forall|i: int| #![trigger q.lanes()[i]] 0 <= i < Reg::rlen() / 2 ==> q.lanes()[i] == math(Fun::Sqrt, norm_sqr(cseq(\1.lanes())[i])) { \2 }; let g = |\3: Complex<T>| -> (q: T) requires arith::<T>() ensures q == norm_of(\3) { \4 }; assert(halfwise1(f, g, |x: Complex<T>, y: T| is_norm(x, y))); self.simd_complex_into_real_target_operation(RegType::<Reg>::new(), destination, f, g, \5)
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(), old(destination).room() >= self.vlen() / 2,
        ensures self.read_into(old(destination), final(destination), |x: Complex<T>, y: T| is_norm(x, y)),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=get_magnitude_squared impl="ComplexToRealGetterOps" loops=0
//@ expand assert_self_complex_and_target_real
//@ rewrite_sig /fn get_magnitude_squared\(/
fn get_magnitude_squared<Reg: SimdGeneric<T>, O: Target<T>>(
//@ rewrite? /sel_reg!\(\s*self\.simd_complex_into_real_target_operation::<T>\(\s*destination,\s*\|(\w+)\| (.*?),\s*\|(\w+)\| (.*?),\s*(\w+(?:::\w+)?),?\s*\)\s*\)/
let f = |\1: Reg| -> (q: Reg) requires arith::<T>() ensures forall|i: int| #![trigger q.lanes()[i]] 0 <= i < Reg::rlen() / 2 ==> q.lanes()[i] == norm_sqr(cseq(\1.lanes())[i]) { \2 }; let g = |\3: Complex<T>| -> (q: T) requires arith::<T>() ensures q == norm_sqr(\3) { \4 }; assert(halfwise1(f, g, |x: Complex<T>, y: T| y == norm_sqr(x))); self.simd_complex_into_real_target_operation(RegType::<Reg>::new(), destination, f, g, \5)
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(), old(destination).room() >= self.vlen() / 2,
        ensures self.read_into(old(destination), final(destination), |x: Complex<T>, y: T| y == norm_sqr(x)),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=get_real_imag impl="ComplexToRealGetterOps" loops=1
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ expand assert_self_complex_and_targets_real
//@ rewrite_sig /fn get_real_imag\(/
fn get_real_imag<O: Target<T>>(
//@ rewrite_sig /\breal\b/
real_part
//@ rewrite? /\breal\b/
real_part
//@ rewrite? /\(&data\[0\.\.data_length\]\)\.iter\(\)\.enumerate\(\)/
enumerate_of((&data[0..data_length]).iter())
//@ loop 1 iter it
            invariant
                it.seq().len() == data_length, data_length == self@.len(), data_length % 2 == 0, data_length <= data@.len(), self@ == data@.subrange(0, data_length as int), real_part@.len() == data_length / 2, imag@.len() == data_length / 2,
                forall|k: int| #![trigger it.seq()[k]] 0 <= k < data_length ==> it.seq()[k].0 == k && *(it.seq()[k].1) == self@[k],
                forall|k: int| #![trigger real_part@[k]] 0 <= 2 * k < it.index() ==> real_part@[k] == self@[2 * k],
                forall|k: int| #![trigger imag@[k]] 0 <= 2 * k + 1 < it.index() ==> imag@[k] == self@[2 * k + 1],
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(), old(real_part).room() >= self.vlen() / 2, old(imag).room() >= self.vlen() / 2,
        ensures
            final(real_part).ocplx() == old(real_part).ocplx(), final(imag).ocplx() == old(imag).ocplx(),
            !self.cplx() || old(real_part).ocplx() || old(imag).ocplx() ==> final(real_part).ov().len() == 0 && final(imag).ov().len() == 0,
            self.cplx() && !old(real_part).ocplx() && !old(imag).ocplx() ==> mapping(|c: Complex<T>| c.re, cseq(self@), final(real_part).ov()) && mapping(|c: Complex<T>| c.im, cseq(self@), final(imag).ov())
                && final(real_part).odlt() == self.dlt() && final(imag).odlt() == self.dlt(),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=get_mag_phase impl="ComplexToRealGetterOps" loops=1
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ expand assert_self_complex_and_targets_real
//@ rewrite_sig /fn get_mag_phase\(/
fn get_mag_phase<O: Target<T>>(
//@ rewrite? /Complex::<T>::new/
Complex::new
//@ loop 1
            invariant
                i <= data_length, i % 2 == 0, data_length == self@.len(), data_length % 2 == 0, data_length <= data@.len(), data_length <= max_len(), self@ == data@.subrange(0, data_length as int), mag@.len() == data_length / 2, phase@.len() == data_length / 2,
                forall|k: int| #![trigger mag@[k]] 0 <= 2 * k < i ==> mag@[k] == norm_of(cseq(self@)[k]),
                forall|k: int| #![trigger phase@[k]] 0 <= 2 * k < i ==> phase@[k] == arg_of(cseq(self@)[k]),
//@ loop_start 1
            proof { assert(data@[i as int] == self@[i as int] && data@[i + 1] == self@[i + 1]); assert(cseq(self@)[i as int / 2] == (Complex { re: data@[i as int], im: data@[i + 1] })); }
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(), old(mag).room() >= self.vlen() / 2, old(phase).room() >= self.vlen() / 2,
        ensures
            final(mag).ocplx() == old(mag).ocplx(), final(phase).ocplx() == old(phase).ocplx(),
            !self.cplx() || old(mag).ocplx() || old(phase).ocplx() ==> final(mag).ov().len() == 0 && final(phase).ov().len() == 0,
            self.cplx() && !old(mag).ocplx() && !old(phase).ocplx() ==> mapping(|c: Complex<T>| norm_of(c), cseq(self@), final(mag).ov()) && mapping(|c: Complex<T>| arg_of(c), cseq(self@), final(phase).ov())
                && final(mag).odlt() == self.dlt() && final(phase).odlt() == self.dlt(),
//@ end
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
    /// the part of every point, in order
    pub open spec fn read_from(&self, o: &Self, rel: spec_fn(Complex<T>, T) -> bool) -> bool {
        &&& N::runtime() ==> !self.cplx()
        &&& self.freq() == o.freq()
        &&& if !o.cplx() { self.vlen() == 0 && self.dlt().nan_p() } else { related(rel, cseq(o@), self@) && self.dlt() == o.dlt() }
        &&& self.vlen() <= self.st().len()
    }
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=magnitude impl="ComplexToRealTransformsOps<T>\sfor" as=conv_magnitude loops=0
//@ expand assert_complex
//@ rewrite_sig /mut self/
self
//@ rewrite_sig /-> Self::RealResult/
-> Self
//@ rewrite_sig? /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::RealResult::rededicate_from_force\(self\)/
self
//@ ret r
//@ rewrite? /self\.pure_complex_to_real_operation_inplace\(\s*\|(\w+), (\w+)\| (.*?),\s*\(\),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: T) requires arith::<T>() ensures q == norm_of(\1) { \3 }; self.pure_complex_to_real_operation_inplace(f, ())
//@ rewrite? /\bself\b/
this
//@ body_start
        let mut this = self;
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(),
        ensures r.read_from(&self, |x: Complex<T>, y: T| y == norm_of(x)),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=magnitude_squared impl="ComplexToRealTransformsOps<T>\sfor" as=conv_magnitude_squared loops=0
//@ expand assert_complex
//@ rewrite_sig /mut self/
self
//@ rewrite_sig /-> Self::RealResult/
-> Self
//@ rewrite_sig? /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::RealResult::rededicate_from_force\(self\)/
self
//@ ret r
//@ rewrite? /self\.pure_complex_to_real_operation_inplace\(\s*\|(\w+), (\w+)\| (.*?),\s*\(\),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: T) requires arith::<T>() ensures q == norm_sqr(\1) { \3 }; self.pure_complex_to_real_operation_inplace(f, ())
//@ rewrite? /\bself\b/
this
//@ body_start
        let mut this = self;
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(),
        ensures r.read_from(&self, |x: Complex<T>, y: T| y == norm_sqr(x)),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=to_real impl="ComplexToRealTransformsOps<T>\sfor" as=conv_to_real loops=0
//@ expand assert_complex
//@ rewrite_sig /mut self/
self
//@ rewrite_sig /-> Self::RealResult/
-> Self
//@ rewrite_sig? /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::RealResult::rededicate_from_force\(self\)/
self
//@ ret r
//@ rewrite? /self\.pure_complex_to_real_operation_inplace\(\s*\|(\w+), (\w+)\| (.*?),\s*\(\),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: T) requires arith::<T>() ensures q == \1.re { \3 }; self.pure_complex_to_real_operation_inplace(f, ())
//@ rewrite? /\bself\b/
this
//@ body_start
        let mut this = self;
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(),
        ensures r.read_from(&self, |x: Complex<T>, y: T| y == x.re),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=to_real_b impl="ComplexToRealTransformsOpsBuffered" as=conv_to_real_b loops=0
//@ expand assert_complex
//@ rewrite_sig /mut self/
self
//@ rewrite_sig /-> Self::RealResult/
-> Self
//@ rewrite_sig? /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::RealResult::rededicate_from_force\(self\)/
self
//@ ret r
//@ rewrite? /self\.pure_complex_to_real_operation\(\s*buffer,\s*\|(\w+), (\w+)\| (.*?),\s*\(\),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: T) requires arith::<T>() ensures q == \1.re { \3 }; self.pure_complex_to_real_operation(buffer, f, (), \4)
//@ rewrite? /\bself\b/
this
//@ body_start
        let mut this = self;
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(),
        ensures r.read_from(&self, |x: Complex<T>, y: T| y == x.re),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=to_imag impl="ComplexToRealTransformsOps<T>\sfor" as=conv_to_imag loops=0
//@ expand assert_complex
//@ rewrite_sig /mut self/
self
//@ rewrite_sig /-> Self::RealResult/
-> Self
//@ rewrite_sig? /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::RealResult::rededicate_from_force\(self\)/
self
//@ ret r
//@ rewrite? /self\.pure_complex_to_real_operation_inplace\(\s*\|(\w+), (\w+)\| (.*?),\s*\(\),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: T) requires arith::<T>() ensures q == \1.im { \3 }; self.pure_complex_to_real_operation_inplace(f, ())
//@ rewrite? /\bself\b/
this
//@ body_start
        let mut this = self;
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(),
        ensures r.read_from(&self, |x: Complex<T>, y: T| y == x.im),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=to_imag_b impl="ComplexToRealTransformsOpsBuffered" as=conv_to_imag_b loops=0
//@ expand assert_complex
//@ rewrite_sig /mut self/
self
//@ rewrite_sig /-> Self::RealResult/
-> Self
//@ rewrite_sig? /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::RealResult::rededicate_from_force\(self\)/
self
//@ ret r
//@ rewrite? /self\.pure_complex_to_real_operation\(\s*buffer,\s*\|(\w+), (\w+)\| (.*?),\s*\(\),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: T) requires arith::<T>() ensures q == \1.im { \3 }; self.pure_complex_to_real_operation(buffer, f, (), \4)
//@ rewrite? /\bself\b/
this
//@ body_start
        let mut this = self;
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(),
        ensures r.read_from(&self, |x: Complex<T>, y: T| y == x.im),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=phase impl="ComplexToRealTransformsOps<T>\sfor" as=conv_phase loops=0
//@ expand assert_complex
//@ rewrite_sig /mut self/
self
//@ rewrite_sig /-> Self::RealResult/
-> Self
//@ rewrite_sig? /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::RealResult::rededicate_from_force\(self\)/
self
//@ ret r
//@ rewrite? /self\.pure_complex_to_real_operation_inplace\(\s*\|(\w+), (\w+)\| (.*?),\s*\(\),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: T) requires arith::<T>() ensures q == arg_of(\1) { \3 }; self.pure_complex_to_real_operation_inplace(f, ())
//@ rewrite? /\bself\b/
this
//@ body_start
        let mut this = self;
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(),
        ensures r.read_from(&self, |x: Complex<T>, y: T| y == arg_of(x)),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=phase_b impl="ComplexToRealTransformsOpsBuffered" as=conv_phase_b loops=0
//@ expand assert_complex
//@ rewrite_sig /mut self/
self
//@ rewrite_sig /-> Self::RealResult/
-> Self
//@ rewrite_sig? /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::RealResult::rededicate_from_force\(self\)/
self
//@ ret r
//@ rewrite? /self\.pure_complex_to_real_operation\(\s*buffer,\s*\|(\w+), (\w+)\| (.*?),\s*\(\),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: T) requires arith::<T>() ensures q == arg_of(\1) { \3 }; self.pure_complex_to_real_operation(buffer, f, (), \4)
//@ rewrite? /\bself\b/
this
//@ body_start
        let mut this = self;
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(),
        ensures r.read_from(&self, |x: Complex<T>, y: T| y == arg_of(x)),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=magnitude_b impl="ComplexToRealTransformsOpsBuffered" as=conv_magnitude_b loops=0
//@ expand assert_complex
//@ rewrite_sig /fn magnitude_b<B>/
fn magnitude_b<Reg: SimdGeneric<T>, B>
//@ rewrite_sig /mut self/
self
//@ rewrite_sig /-> Self::RealResult/
-> Self
//@ rewrite_sig? /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::RealResult::rededicate_from_force\(self\)/
self
//@ ret r
//@ rewrite? /sel_reg!\(\s*self\.simd_complex_to_real_operation::<T>\(\s*buffer,\s*\|(\w+), (\w+)\| (.*?),\s*\|(\w+), (\w+)\| (.*?),\s*\(\),\s*(\w+(?:::\w+)?),?\s*\)\s*\)/
let f = |\1: Reg, \2: ()| -> (q: Reg) requires arith::<T>() ensures forall|i: int| #![trigger q.lanes()[i]] 0 <= i < Reg::rlen() / 2 ==> q.lanes()[i] == math(Fun::Sqrt, norm_sqr(cseq(\1.lanes())[i])) { \3 }; let g = |\4: Complex<T>, \5: ()| -> (q: T) requires arith::<T>() ensures q == norm_of(\4) { \6 }; assert(halfwise(f, g, (), |x: Complex<T>, y: T| is_norm(x, y))); self.simd_complex_to_real_operation(RegType::<Reg>::new(), buffer, f, g, (), \7)
//@ rewrite? /\bself\b/
this
//@ body_start
        let mut this = self;
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(),
        ensures r.read_from(&self, |x: Complex<T>, y: T| is_norm(x, y)),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=magnitude_squared_b impl="ComplexToRealTransformsOpsBuffered" as=conv_magnitude_squared_b loops=0
//@ expand assert_complex
//@ rewrite_sig /fn magnitude_squared_b<B>/
fn magnitude_squared_b<Reg: SimdGeneric<T>, B>
//@ rewrite_sig /mut self/
self
//@ rewrite_sig /-> Self::RealResult/
-> Self
//@ rewrite_sig? /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::RealResult::rededicate_from_force\(self\)/
self
//@ ret r
//@ rewrite? /sel_reg!\(\s*self\.simd_complex_to_real_operation::<T>\(\s*buffer,\s*\|(\w+), (\w+)\| (.*?),\s*\|(\w+), (\w+)\| (.*?),\s*\(\),\s*(\w+(?:::\w+)?),?\s*\)\s*\)/
let f = |\1: Reg, \2: ()| -> (q: Reg) requires arith::<T>() ensures forall|i: int| #![trigger q.lanes()[i]] 0 <= i < Reg::rlen() / 2 ==> q.lanes()[i] == norm_sqr(cseq(\1.lanes())[i]) { \3 }; let g = |\4: Complex<T>, \5: ()| -> (q: T) requires arith::<T>() ensures q == norm_sqr(\4) { \6 }; assert(halfwise(f, g, (), |x: Complex<T>, y: T| y == norm_sqr(x))); self.simd_complex_to_real_operation(RegType::<Reg>::new(), buffer, f, g, (), \7)
//@ rewrite? /\bself\b/
this
//@ body_start
        let mut this = self;
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(),
        ensures r.read_from(&self, |x: Complex<T>, y: T| y == norm_sqr(x)),
//@ end
}
/// contract of the trait Resize (requirements.rs)
pub trait Resize<T>: ToSlice<T> {
    fn resize(&mut self, len: usize) ensures final(self).sv().len() >= len;
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T> + Resize<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=set_real_imag impl="ComplexToRealSetterOps" loops=1
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite_sig /fn set_real_imag\(/
fn set_real_imag<O: Target<T>>(
//@ ret r
//@ rewrite_sig /\breal\b/
real_part
//@ rewrite? /\breal\b/
real_part
//@ rewrite? /\(&mut data\[0\.\.data_length\]\)\.iter_mut\(\)\.enumerate\(\)/
enumerate_of((&mut data[0..data_length]).iter_mut())
//@ loop 1 iter it
                invariant
                    it.seq().len() == data_length, data_length == 2 * real_part@.len(), imag@.len() == real_part@.len(),
                    forall|k: int| #![trigger it.seq()[k]] 0 <= k < data_length ==> it.seq()[k].0 == k,
                    forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> *final(it.seq()[k].1) == if k % 2 == 0 { real_part@[k / 2] } else { imag@[k / 2] },
//@ after_loop 1
            assert(forall|k: int| #![trigger data@[k]] 0 <= k < data_length ==> data@[k] == if k % 2 == 0 { real_part@[k / 2] } else { imag@[k / 2] });
//@ before /Ok\(\(\)\)/ 1
        proof {
            assert(forall|k: int| #![trigger self@[k]] 0 <= k < 2 * real_part.ov().len() ==> self@[k] == if k % 2 == 0 { real_part.ov()[k / 2] } else { imag.ov()[k / 2] });
            assert(cseq(self@) =~= joined(real_part.ov(), imag.ov(), |x: T, y: T| Complex { re: x, im: y }));
        }
//@ spec
        requires old(self).wf(), real_part.ov().len() <= max_len(), imag.ov().len() <= max_len(), arith::<T>(),
        ensures
            final(self).same_meta(old(self)),
            !old(self).cplx() ==> r == Err::<(), _>(ErrorReason::InputMustBeComplex),
            old(self).cplx() && (real_part.ocplx() || imag.ocplx()) ==> r == Err::<(), _>(ErrorReason::InputMustBeReal),
            old(self).cplx() && !(real_part.ocplx() || imag.ocplx()) && real_part.ov().len() != imag.ov().len() ==> r == Err::<(), _>(ErrorReason::InvalidArgumentLength),
            r.is_err() ==> final(self).vlen() == old(self).vlen() && final(self).st() == old(self).st(),
            old(self).cplx() && !(real_part.ocplx() || imag.ocplx()) && real_part.ov().len() == imag.ov().len() ==> r.is_ok() && final(self).vlen() == 2 * real_part.ov().len() && final(self).vlen() <= final(self).st().len() && final(self).cplx()
                && cseq(final(self)@) == joined(real_part.ov(), imag.ov(), |x: T, y: T| Complex { re: x, im: y }),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_to_real.rs fn=set_mag_phase impl="ComplexToRealSetterOps" loops=1
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite_sig /fn set_mag_phase\(/
fn set_mag_phase<O: Target<T>>(
//@ ret r
//@ rewrite? /Complex::<T>::from_polar/
Complex::from_polar
//@ loop 1
                invariant
                    i <= data_length, i % 2 == 0, data_length == 2 * mag@.len(), phase@.len() == mag@.len(), data@.len() >= data_length, data_length <= 2 * max_len(),
                    forall|k: int| #![trigger data@[k]] 0 <= k < i ==> data@[k] == if k % 2 == 0 { polar(mag@[k / 2], phase@[k / 2]).re } else { polar(mag@[k / 2], phase@[k / 2]).im },
//@ before /Ok\(\(\)\)/ 1
        proof { assert(cseq(self@) =~= joined(mag.ov(), phase.ov(), |x: T, y: T| polar(x, y))); }
//@ spec
        requires old(self).wf(), mag.ov().len() <= max_len(), phase.ov().len() <= max_len(), arith::<T>(),
        ensures
            final(self).same_meta(old(self)),
            !old(self).cplx() ==> r == Err::<(), _>(ErrorReason::InputMustBeComplex),
            old(self).cplx() && (mag.ocplx() || phase.ocplx()) ==> r == Err::<(), _>(ErrorReason::InputMustBeReal),
            old(self).cplx() && !(mag.ocplx() || phase.ocplx()) && mag.ov().len() != phase.ov().len() ==> r == Err::<(), _>(ErrorReason::InvalidArgumentLength),
            r.is_err() ==> final(self).vlen() == old(self).vlen() && final(self).st() == old(self).st(),
            old(self).cplx() && !(mag.ocplx() || phase.ocplx()) && mag.ov().len() == phase.ov().len() ==> r.is_ok() && final(self).vlen() == 2 * mag.ov().len() && final(self).vlen() <= final(self).st().len() && final(self).cplx()
                && cseq(final(self)@) == joined(mag.ov(), phase.ov(), |x: T, y: T| polar(x, y)),
//@ end
}
}
fn main() {}
