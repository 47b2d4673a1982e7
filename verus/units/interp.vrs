//@ unit-props C23
//@ unit-title interpolation
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::marker::PhantomData;
use std::slice::IterMut;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include mark contracts
//@ include memops
//@ include iters
//@ include enumerated
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include cparts
//@ include simdgen
//@ include changed
//@ include elemspec
//@ include elemapi contracts
//@ include opdone
//@ include scale contracts
//@ include other
//@ include points
//@ include wrapit contracts
//@ include convspec
//@ include fundot
//@ include conviter contracts
//@ include shifted contracts
//@ include simdconv contracts
//@ include impresp
//@ include interpreg contracts
fn least(a: usize, b: usize) -> (r: usize) ensures r == lesser(a as int, b as int) { if a < b { a } else { b } }
/// the float of a literal
pub uninterp spec fn lit_of<T>(x: f64) -> T;
/// ASSUMED contract on a dependency (NumCast::from of a literal and of an isize succeed)
#[verifier::external_body]
fn lit_from<T: RealNumber>(x: f64) -> (r: T) ensures r == lit_of::<T>(x) { unimplemented!() }
#[verifier::external_body]
fn num_from_isize<T: RealNumber>(x: isize) -> (r: T) ensures r == num_of::<T>(x as int) { unimplemented!() }
/// ASSUMED of the floats: a number between zero and that of k, rounded down, is an index up to k. True of IEEE floats as long as k has an exact float, that is up to 2^24 for f32 and up to 2^53 for f64
#[verifier::external_body]
proof fn axiom_clamped<T: RealNumber>(x: T, k: int)
    requires 0 <= k <= max_len(),
    ensures match whole(math(Fun::Floor, clamped(x, k))) { Some(n) => 0 <= n <= k, None => false },
{}
pub open spec fn clamped<T: RealNumber>(x: T, k: int) -> T { math2(Fun::Min, math2(Fun::Max, x, T::zero_spec()), num_of::<T>(k)) }
/// 0, 1, 2, ... counted in floats
pub open spec fn count<T: RealNumber>(k: int) -> T
    decreases k
{ if k <= 0 { T::zero_spec() } else { count::<T>(k - 1).add_spec(T::one_spec()) } }
/// the position of point k of the result in a signal of n points, within the signal
pub open spec fn place<T: RealNumber>(k: int, n: int, factor: T, delay: T) -> T { clamped(count::<T>(k).div_spec(factor).add_spec(delay), n - 1) }
/// the index of the last point which is not behind the position
pub open spec fn before_of<T: RealNumber>(p: T) -> int { whole(math(Fun::Floor, p)).unwrap() }
/// number of points of the result, without the last
pub open spec fn new_points<T: RealNumber>(n: int, factor: T) -> Option<int> { whole(math(Fun::Round, num_of::<T>(n - 1).mul_spec(factor))) }
/// on the line between the two neighbors
pub open spec fn linear<T: RealNumber>(x: Seq<T>, p: T) -> T {
    let b = before_of(p);
    let next = if b + 1 < x.len() - 1 { b + 1 } else { x.len() - 1 };
    x[b].add_spec(x[next].sub_spec(x[b]).mul_spec(p.sub_spec(math(Fun::Floor, p))))
}
/// the neighbors of the position; missing ones are extrapolated
pub open spec fn y1_of<T: RealNumber>(x: Seq<T>, b: int) -> T { x[b] }
pub open spec fn y2_of<T: RealNumber>(x: Seq<T>, b: int) -> T { if b + 1 < x.len() { x[b + 1] } else if b > 0 { x[b].add_spec(x[b].sub_spec(x[b - 1])) } else { x[b] } }
pub open spec fn y0_of<T: RealNumber>(x: Seq<T>, b: int) -> T { if b > 0 { x[b - 1] } else { x[b].sub_spec(y2_of(x, b).sub_spec(x[b])) } }
pub open spec fn y3_of<T: RealNumber>(x: Seq<T>, b: int) -> T { if b + 2 < x.len() { x[b + 2] } else { y2_of(x, b).add_spec(y2_of(x, b).sub_spec(x[b])) } }
/// the cubic of Hermite through four points
pub open spec fn cubic<T: RealNumber>(y0: T, y1: T, y2: T, y3: T, x: T) -> T {
    let half = lit_of::<T>(0.5f64); let one_half = lit_of::<T>(1.5f64); let two = lit_of::<T>(2.0f64); let two_half = lit_of::<T>(2.5f64);
    let a0 = half.neg_spec().mul_spec(y0).add_spec(one_half.mul_spec(y1)).sub_spec(one_half.mul_spec(y2)).add_spec(half.mul_spec(y3));
    let a1 = y0.sub_spec(two_half.mul_spec(y1)).add_spec(two.mul_spec(y2)).sub_spec(half.mul_spec(y3));
    let a2 = half.neg_spec().mul_spec(y0).add_spec(half.mul_spec(y2));
    let x2 = x.mul_spec(x);
    a0.mul_spec(x).mul_spec(x2).add_spec(a1.mul_spec(x2)).add_spec(a2.mul_spec(x)).add_spec(y1)
}
pub open spec fn hermite<T: RealNumber>(x: Seq<T>, p: T) -> T {
    let b = before_of(p);
    cubic(y0_of(x, b), y1_of(x, b), y2_of(x, b), y3_of(x, b), p.sub_spec(math(Fun::Floor, p)))
}
/// the position of point i in the signal
pub open spec fn center_of<T: RealNumber>(i: int, factor: T) -> T { num_of::<T>(i).div_spec(factor) }
pub open spec fn left_of<T: RealNumber>(i: int, factor: T) -> int { whole(math(Fun::Floor, center_of(i, factor))).unwrap() }
/// the positions of all points are finite and not further away than a signal can be long
pub open spec fn placed<T: RealNumber>(n: int, factor: T) -> bool {
    forall|i: int| #![trigger center_of::<T>(i, factor)] 0 <= i < n ==> match whole(math(Fun::Floor, center_of(i, factor))) { Some(p) => -max_len() <= p <= max_len(), None => false }
}
/// the values of the function at the distances to the neighbors
pub open spec fn weights<T: RealNumber, TT: Point<T>>(f: &dyn RealImpulseResponse<T>, i: int, factor: T, delay: T, l: int) -> Seq<TT> {
    let c = center_of(i, factor);
    let start = num_of::<T>(l).neg_spec().sub_spec(c.sub_spec(math(Fun::Floor, c))).add_spec(delay);
    Seq::new((2 * l + 1) as nat, |k: int| TT::scalar(f.value(ticks(start, k))))
}
/// point i: the sum over the 2 l + 1 neighbors around its position, which wrap around
pub open spec fn interpolated_point<T: RealNumber, TT: Ring + Point<T>>(f: &dyn RealImpulseResponse<T>, x: Seq<TT>, i: int, factor: T, delay: T, l: int) -> TT {
    fun_dot(x, weights::<T, TT>(f, i, factor, delay, l), left_of(i, factor) - l, (2 * l + 1) as nat)
}
pub open spec fn interpolated_part<T: RealNumber, TT: Ring + Point<T>>(f: &dyn RealImpulseResponse<T>, x: Seq<TT>, y: Seq<TT>, off: int, factor: T, delay: T, l: int) -> bool {
    forall|j: int| #![trigger y[j]] 0 <= j < y.len() ==> y[j] == interpolated_point(f, x, off + j, factor, delay, l)
}
//@ extract file=vector/src/vector_types/time_freq/interpolation.rs fn=interpolate_priv_scalar loops=2
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ rewrite_sig /TT: Zero \+ Mul<Output = TT> \+ Copy \+ Send \+ Sync \+ From<T> \+ Add<Output = TT>/
TT: Point<T> + Ring
//@ rewrite? /TT::zero\(\)/
TT::zero_pt()
//@ rewrite? /TT::from\(function/
TT::of(function
//@ rewrite? /T::from\(i\)\s*\.unwrap\(\)/
num_from_isize::<T>(i)
//@ rewrite? /T::from\(([^()]*)\)\s*\.unwrap\(\)/
num_from::<T>(\1)
//@ rewrite? /for num in dest_range/
for num in dest_range.iter_mut()
//@ rewrite? /move \|dest_range, range, data\| \{/
move |dest_range: &mut [TT], range: Range<usize>, data: &[TT]|
            requires
                range.start + old(dest_range)@.len() == range.end, range.end <= max_len(), data@.len() > 0 || old(dest_range)@.len() == 0, ring_ok::<TT>(), arith::<T>(),
                conv_len <= max_len(), placed::<T>(range.end as int, interpolation_factor),
            ensures interpolated_part(function, data@, final(dest_range)@, range.start as int, interpolation_factor, delay, conv_len as int),
        {
            let ghost r0 = range.start;
            proof { axiom_slice_mut_len(dest_range); }
//@ spec
    requires
        data@.len() > 0 || old(temp)@.len() == 0, ring_ok::<TT>(), arith::<T>(), conv_len <= max_len(), old(temp)@.len() <= max_len(), placed::<T>(old(temp)@.len() as int, interpolation_factor),
    ensures final(temp)@.len() == old(temp)@.len(), interpolated_part(function, data@, final(temp)@, 0, interpolation_factor, delay, conv_len as int),
//@ body_start
    proof { axiom_slice_mut_len(temp); }
//@ before_loop 1
            let ghost dd = final(dest_range)@;
//@ loop 1 iter it
                invariant
                    ring_ok::<TT>(), arith::<T>(), conv_len <= max_len(), r0 + it.seq().len() <= max_len(), data@.len() > 0 || it.seq().len() == 0, i == r0 + it.index(),
                    placed::<T>(r0 + it.seq().len(), interpolation_factor),
                    forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> *final(it.seq()[k]) == interpolated_point(function, data@, r0 + k, interpolation_factor, delay, conv_len as int),
//@ loop_start 1
                let ghost ii = i as int;
                proof { let _ = center_of::<T>(ii, interpolation_factor); }
//@ before_loop 2
                let ghost w = weights::<T, TT>(function, ii, interpolation_factor, delay, conv_len as int);
                let ghost p0 = left_of(ii, interpolation_factor) - conv_len;
                let ghost j0 = j;
//@ loop 2 iter it2
                    invariant
                        it2.seq().len() == 2 * conv_len + 1, w.len() == 2 * conv_len + 1, ring_ok::<TT>(), arith::<T>(), conv_len <= max_len(), data@.len() > 0,
                        forall|k: int| #![trigger it2.seq()[k]] 0 <= k < it2.seq().len() ==> it2.seq()[k] == data@[wrap(p0 - 1 + 1 * (k + 1), data@.len() as int)],
                        forall|k: int| #![trigger w[k]] 0 <= k < w.len() ==> w[k] == TT::scalar(function.value(ticks(j0, k))),
                        j == ticks(j0, it2.index() as int),
                        sum == fun_dot(data@, w, p0, it2.index() as nat),
//@ after /Chunk::execute_with_range/ 1
    proof {
        let n = temp@;
        let p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, n.len() as int, 1) && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> interpolated_part(function, data@, sub(n, p[k]), p[k].0, interpolation_factor, delay, conv_len as int);
        assert forall|i: int| #![trigger n[i]] 0 <= i < n.len() implies n[i] == interpolated_point(function, data@, 0 + i, interpolation_factor, delay, conv_len as int) by {
            let k = lemma_part(p, n.len() as int, 1, i);
            let _ = p[k];
            assert(sub(n, p[k])[i - p[k].0] == n[i]);
        }
    }
//@ end
/// ASSUMED: the comparison with the literal 1e-6
pub uninterp spec fn negligible_p<T>(x: T) -> bool;
#[verifier::external_body]
fn negligible<T: RealNumber>(x: T) -> (r: bool) ensures r == negligible_p(x) { unimplemented!() }
/// number of floats of the result
pub open spec fn new_floats<T: RealNumber>(n: int, factor: T) -> Option<int> { whole(math(Fun::Round, num_of::<T>(n).mul_spec(factor))) }
pub open spec fn paired(n: int, complex: bool) -> int { if complex { n + n % 2 } else { n } }
/// ASSUMED: the comparison with the literal 1e-2
pub uninterp spec fn below_percent_p<T>(x: T) -> bool;
#[verifier::external_body]
fn below_percent<T: RealNumber>(x: T) -> (r: bool) ensures r == below_percent_p(x) { unimplemented!() }
/// only long results with a whole factor take the register path
pub open spec fn in_registers<T: RealNumber>(l: int, n: int, m: int, factor: T) -> bool { l <= 202 && m >= 2000 && nearly_whole(n, factor) }
/// rounding the factor does not move the end of the vector
pub open spec fn nearly_whole<T: RealNumber>(n: int, factor: T) -> bool {
    let d = math(Fun::Abs, math(Fun::Round, factor).sub_spec(factor));
    negligible_p(d) && below_percent_p(d.mul_spec(num_of::<T>(n)))
}
/// ASSUMED of the floats: then the number of floats is a multiple, and the factor is not rounded to zero. True of IEEE floats as long as both numbers of floats have an exact float
#[verifier::external_body]
proof fn axiom_nearly_whole<T: RealNumber>(n: int, factor: T)
    requires nearly_whole(n, factor), n > 0, match new_floats(n, factor) { Some(m) => 0 < m < max_len(), None => false },
    ensures match whole(math(Fun::Round, factor)) { Some(k) => 0 < k <= max_len() && new_floats(n, factor) == Some(n * k), None => false },
{}
/// the m bins of the lowest frequencies: zero and positive ones first, then the negative ones
pub open spec fn inner_bins<TT>(x: Seq<TT>, m: int) -> Seq<TT> {
    Seq::new(m as nat, |i: int| if i < m - m / 2 { x[i] } else { x[x.len() - m + i] })
}
/// the floats of the kept points
proof fn lemma_inner<T: RealNumber>(o: Seq<T>, s: Seq<T>, m: int)
    requires
        0 <= m, o.len() % 2 == 0, 2 * m <= o.len(), s.len() == 2 * m,
        forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (if i < 2 * (m - m / 2) { o[i] } else { o[o.len() - 2 * (m / 2) + (i - 2 * (m - m / 2))] }),
    ensures s == fseq(inner_bins(cseq(o), m)),
{
    let b = inner_bins(cseq(o), m);
    let n2 = o.len() as int / 2; let neg = m / 2; let pos = m - neg;
    assert forall|h: int| 0 <= h < m implies s[2 * h] == (#[trigger] b[h]).re && s[2 * h + 1] == b[h].im by {
        let g = if h < pos { h } else { n2 - m + h };
        assert(b[h] == cseq(o)[g]);
        assert(cseq(o)[g].re == o[2 * g] && cseq(o)[g].im == o[2 * g + 1]);
        assert(s[2 * h] == o[2 * g]);
        assert(s[2 * h + 1] == o[2 * g + 1]);
    }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == fseq(b)[i] by {
        let h = i / 2;
        assert(0 <= h < m);
        assert(s[2 * h] == b[h].re && s[2 * h + 1] == b[h].im);
    }
    assert(s =~= fseq(b));
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
    /// refused: a vector without points and spacing
    pub open spec fn refused(&self, o: &Self) -> bool { self.vlen() == 0 && self.dlt().nan_p() && self.cplx() == o.cplx() && self.freq() == o.freq() && self.st() == o.st() }
    pub closed spec fn same_kind(&self, o: &Self) -> bool { self.domain == o.domain && self.number_space == o.number_space && self.multicore_settings == o.multicore_settings }
//@ extract file=vector/src/vector_types/time_freq/real_interpolation.rs fn=interpolate_lin impl="RealInterpolationOps" loops=1
//@ rewrite_sig? /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /T::from\(([^()]*)\)\s*\.unwrap\(\)/
num_from::<T>(\1)
//@ rewrite? /in &mut (\w+)\[([^\[\]]*)\]/
in \1[\2].iter_mut()
//@ rewrite? /\((\w+) \+ 1\)\.min\(([^()]*)\)/
least(\1 + 1, \2)
//@ spec
        requires
            old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
            // a factor for which the number of points is defined
            !old(self).cplx() && old(self).vlen() > 0 ==> match new_points(old(self).vlen() as int, interpolation_factor) { Some(m) => 0 <= m <= max_len(), None => false },
        ensures
            old(self).cplx() ==> final(self).refused(old(self)),
            !old(self).cplx() && old(self).vlen() == 0 ==> *final(self) == *old(self),
            !old(self).cplx() && old(self).vlen() > 0 ==> {
                let n = old(self).vlen() as int;
                &&& final(self).same_kind(old(self)) && final(self).dlt() == old(self).dlt().div_spec(interpolation_factor)
                &&& final(self).vlen() == new_points(n, interpolation_factor).unwrap() + 1 && final(self).vlen() <= final(self).st().len()
                &&& forall|k: int| #![trigger final(self)@[k]] 0 <= k < final(self).vlen() ==> final(self)@[k] == linear(old(self)@, place(k, n, interpolation_factor, delay))
            },
//@ body_start
        let ghost o = self@;
//@ before_loop 1
            let ghost dd = final(dest)@;
            let ghost m = dest@.len() as int;
            proof { assert(data@ =~= o); }
//@ loop 1 iter it
                invariant
                    it.seq().len() == m, data_len == o.len(), data@ == o, 0 < data_len <= max_len(), arith::<T>(),
                    i == count::<T>(it.index() as int),
                    forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> *final(it.seq()[k]) == linear(o, place(k, data_len as int, interpolation_factor, delay)),
//@ loop_start 1
                proof { axiom_clamped(i.div_spec(interpolation_factor).add_spec(delay), data_len - 1); }
//@ after_loop 1
            proof { assert(dd =~= dd.subrange(0, m)); }
//@ before /temp\.trade/ 1
        let ghost n = temp.sv().subrange(0, dest_len as int);
//@ after /temp\.trade/ 1
        proof { assert(self@ =~= n); }
//@ end
//@ extract file=vector/src/vector_types/time_freq/real_interpolation.rs fn=interpolate_hermite impl="RealInterpolationOps" loops=1
//@ rewrite_sig? /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /T::from\(([0-9.]+)\)\s*\.unwrap\(\)/
lit_from::<T>(\1f64)
//@ rewrite? /T::from\(([^()]*)\)\s*\.unwrap\(\)/
num_from::<T>(\1)
//@ rewrite? /in &mut (\w+)\[([^\[\]]*)\]/
in \1[\2].iter_mut()
//@ spec
        requires
            old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
            // a factor for which the number of points is defined
            !old(self).cplx() && old(self).vlen() > 0 ==> match new_points(old(self).vlen() as int, interpolation_factor) { Some(m) => 0 <= m <= max_len(), None => false },
        ensures
            old(self).cplx() ==> final(self).refused(old(self)),
            !old(self).cplx() && old(self).vlen() == 0 ==> *final(self) == *old(self),
            !old(self).cplx() && old(self).vlen() > 0 ==> {
                let n = old(self).vlen() as int;
                &&& final(self).same_kind(old(self)) && final(self).dlt() == old(self).dlt().div_spec(interpolation_factor)
                &&& final(self).vlen() == new_points(n, interpolation_factor).unwrap() + 1 && final(self).vlen() <= final(self).st().len()
                &&& forall|k: int| #![trigger final(self)@[k]] 0 <= k < final(self).vlen() ==> final(self)@[k] == hermite(old(self)@, place(k, n, interpolation_factor, delay))
            },
//@ body_start
        let ghost o = self@;
//@ before_loop 1
            let ghost dd = final(dest)@;
            let ghost m = dest@.len() as int;
            proof { assert(data@ =~= o); }
//@ loop 1 iter it
                invariant
                    it.seq().len() == m, data_len == o.len(), data@ == o, 0 < data_len <= max_len(), arith::<T>(),
                    half == lit_of::<T>(0.5f64), one_point_five == lit_of::<T>(1.5f64), two == lit_of::<T>(2.0f64), two_point_five == lit_of::<T>(2.5f64),
                    i == count::<T>(it.index() as int),
                    forall|k: int| #![trigger it.seq()[k]] 0 <= k < it.index() ==> *final(it.seq()[k]) == hermite(o, place(k, data_len as int, interpolation_factor, delay)),
//@ loop_start 1
                proof { axiom_clamped(i.div_spec(interpolation_factor).add_spec(delay), data_len - 1); }
//@ after_loop 1
            proof { assert(dd =~= dd.subrange(0, m)); }
//@ before /temp\.trade/ 1
        let ghost n = temp.sv().subrange(0, dest_len as int);
//@ after /temp\.trade/ 1
        proof { assert(self@ =~= n); }
//@ end
//@ extract file=vector/src/vector_types/time_freq/interpolation.rs fn=interpolate_downsample impl="impl<S"
//@ rewrite_sig /fn interpolate_downsample\(/
fn interpolate_downsample<Reg: SimdGeneric<T>>(
//@ rewrite? /T::from\(([^()]*(?:\([^()]*\)[^()]*)*)\)\s*\.unwrap\(\)/
num_from::<T>(\1)
//@ rewrite? /self\.scale\(/
self.elem_scale::<Reg>(
//@ rewrite? /\.expect\("[^"]*"\)/
.unwrap()
//@ spec
        requires old(self).wf(), old(self).cplx(), old(self).vlen() <= max_len(), arith::<T>(), 2 * dest_points <= old(self).vlen(),
        ensures
            final(self).same_meta(old(self)), final(self).vlen() == 2 * dest_points, final(self).st().len() == old(self).st().len(),
            // the outermost frequencies of both signs are dropped
            applied(|x: T| x.mul_spec(num_of::<T>(2 * dest_points).div_spec(num_of::<T>(old(self).vlen() as int))), fseq(inner_bins(cseq(old(self)@), dest_points as int)), final(self)@),
//@ body_start
        let ghost o = self@;

//@ before /self\.elem_scale/ 1
        proof {
            assert forall|i: int| 0 <= i < self@.len() implies #[trigger] self@[i] == (if i < 2 * (dest_points - dest_points / 2) { o[i] } else { o[o.len() - 2 * (dest_points / 2) + (i - 2 * (dest_points - dest_points / 2))] }) by {}
            lemma_inner(o, self@, dest_points as int);
        }
//@ end
//@ extract file=vector/src/vector_types/time_freq/interpolation.rs fn=interpolatef impl="InterpolationOps<S,\sT>\sfor"
//@ rewrite_sig? /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite_sig? /fn interpolatef<B>/
fn interpolatef<Reg: SimdGeneric<T>, B>
//@ rewrite? /&& (\([^&]*?) < T::from\(1e-6\)\.unwrap\(\)/
&& negligible(\1)
//@ rewrite? /&& (\([^&]*?) < T::from\(1e-2\)\.unwrap\(\)/
&& below_percent(\1)
//@ rewrite? /new_len,\s*\|(\w+)\| (array[^|]*?),\s*\|(\w+)\| ([^|]*?),\s*\|(\w+), (\w+)\| ([^|]*?),\s*\|(\w+)\| ([^|]*?),?\s*\n\s*\)/
new_len,
                |\1: &[T]| -> (r: &[Complex<T>]) requires \1@.len() % 2 == 0 ensures r@ == cseq(\1@) { \2 },
                |\3: &mut [T]| -> (r: &mut [Complex<T>]) requires old(\3)@.len() % 2 == 0 ensures r@ == cseq(old(\3)@), final(\3)@ == fseq(final(r)@) { \4 },
                |\5: Reg, \6: Reg| -> (r: Reg) ensures r.lanes() == <Complex<T> as RegPoint<T>>::lane_mul(\5.lanes(), \6.lanes()) { proof { laws_arith::<T, Reg>(); Reg::law(\5); Reg::law(\6); } let r = \7; proof { Reg::law(r); Reg::laws(); lemma_fseq_cseq(r.lanes()); assert(cseq(r.lanes()) =~= Seq::new(cseq(\5.lanes()).len(), |i: int| cseq(\5.lanes())[i].mul_spec(cseq(\6.lanes())[i]))); Reg::laws(); assert(r.lanes() =~= <Complex<T> as RegPoint<T>>::lane_mul(\5.lanes(), \6.lanes())); } r },
                |\8: Reg| -> (r: Complex<T>) ensures r == <Complex<T> as RegPoint<T>>::lane_sum(\8.lanes()) { \9 })
//@ rewrite? /new_len,\s*\|(\w+)\| ([^|]*?),\s*\|(\w+)\| ([^|]*?),\s*\|(\w+), (\w+)\| ([^|]*?),\s*\|(\w+)\| ([^|]*?),?\s*\n\s*\)/
new_len,
                |\1: &[T]| -> (r: &[T])  ensures r@ == \1@ { \2 },
                |\3: &mut [T]| -> (r: &mut [T])  ensures r@ == old(\3)@, final(\3)@ == final(r)@ { \4 },
                |\5: Reg, \6: Reg| -> (r: Reg) ensures r.lanes() == <T as RegPoint<T>>::lane_mul(\5.lanes(), \6.lanes()) { proof { laws_arith::<T, Reg>(); Reg::law(\5); Reg::law(\6); } let r = \7; proof { Reg::law(r); assert(r.lanes() =~= <T as RegPoint<T>>::lane_mul(\5.lanes(), \6.lanes())); } r },
                |\8: Reg| -> (r: T) ensures r == <T as RegPoint<T>>::lane_sum(\8.lanes()) { \9 })
//@ rewrite? /sel_reg!\(\s*self\.interpolate_priv_simd::<T>\((.*?\})\)\s*\)\s*;/
self.interpolate_priv_simd(RegType::<Reg>::new(), \1);
//@ rewrite? /T::from\(([^()]*)\)\s*\.unwrap\(\)/
num_from::<T>(\1)
//@ spec
        requires
            old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(), conv_len <= max_len(),
            // a factor for which the number of points and their positions are defined
            match new_floats(old(self).vlen() as int, interpolation_factor) { Some(m) => 0 <= m < max_len() && placed::<T>(m + 1, interpolation_factor) && (old(self).vlen() == 0 ==> m == 0), None => false },
        ensures
            final(self).same_kind(old(self)), final(self).dlt() == old(self).dlt().div_spec(interpolation_factor),
            final(self).vlen() == paired(new_floats(old(self).vlen() as int, interpolation_factor).unwrap(), old(self).cplx()), final(self).vlen() <= final(self).st().len(),
            ({
                let points = if old(self).cplx() { old(self).vlen() as int / 2 } else { old(self).vlen() as int };
                let l = if conv_len > points / 2 { points / 2 } else { conv_len as int };
                let d = delay.div_spec(old(self).dlt());
                &&& !in_registers(l, old(self).vlen() as int, final(self).vlen() as int, interpolation_factor) && old(self).cplx() ==> interpolated_part(function, cseq(old(self)@), cseq(final(self)@), 0, interpolation_factor, d, l)
                &&& !in_registers(l, old(self).vlen() as int, final(self).vlen() as int, interpolation_factor) && !old(self).cplx() ==> interpolated_part(function, old(self)@, final(self)@, 0, interpolation_factor, d, l)
                &&& in_registers(l, old(self).vlen() as int, final(self).vlen() as int, interpolation_factor) && old(self).cplx() ==> reg_interpolated::<T, Complex<T>>(old(self)@, function, whole(math(Fun::Round, interpolation_factor)).unwrap(), d, l, Reg::rlen(), final(self)@)
                &&& in_registers(l, old(self).vlen() as int, final(self).vlen() as int, interpolation_factor) && !old(self).cplx() ==> reg_interpolated::<T, T>(old(self)@, function, whole(math(Fun::Round, interpolation_factor)).unwrap(), d, l, Reg::rlen(), final(self)@)
            }),
//@ body_start
        let ghost o = self@;
//@ before /if conv_len <= 202/ 1
        proof { if nearly_whole(len as int, interpolation_factor) && new_len >= 2000 { axiom_nearly_whole(len as int, interpolation_factor); let k = whole(math(Fun::Round, interpolation_factor)).unwrap(); assert(is_complex ==> (len * k) % 2 == 0) by { if is_complex { assert(len * k == 2 * ((len as int / 2) * k)) by (nonlinear_arith) requires len == 2 * (len as int / 2); } } } }
//@ before /interpolate_priv_scalar/ 1
                let ghost dd = final(temp)@;
                proof {
                    assert(data@ =~= cseq(o));
                    lemma_cseq_fseq(dd); assert(fseq(dd).subrange(0, fseq(dd).len() as int) =~= fseq(dd));
                }
//@ before /interpolate_priv_scalar/ 2
                proof { assert(data@ =~= o); }
//@ before /temp\.trade/ 1
            let ghost n = temp.sv().subrange(0, new_len as int);
//@ after /temp\.trade/ 1
            proof { assert(self.data.sv().subrange(0, new_len as int) =~= n); }
//@ before /temp\.trade/ 2
            let ghost n = temp.sv().subrange(0, new_len as int);
//@ after /temp\.trade/ 2
            proof { assert(self.data.sv().subrange(0, new_len as int) =~= n); }
//@ end
}
}
fn main() {}
