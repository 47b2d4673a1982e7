//@ unit-props C10
//@ unit-title decimation
//@ include prelude
//@ include complex
use vstd::arithmetic::div_mod::*;
// ASSUMED usize has 64 bit
global size_of usize == 8;
pub uninterp spec fn num_of<T>(x: int) -> T;
/// ASSUMED contract on a dependency (NumCast::from of a small integer succeeds)
#[verifier::external_body]
fn num_from<T: RealNumber>(x: u32) -> (r: T) ensures r == num_of::<T>(x as int) { unimplemented!() }

/// number of points d, d + k, d + 2k, ... below n
pub open spec fn every_cnt(n: int, k: int, d: int) -> int { if d >= n { 0 } else { (n - d + k - 1) / k } }
pub open spec fn every<E>(a: Seq<E>, k: int, d: int) -> Seq<E> { Seq::new(every_cnt(a.len() as int, k, d) as nat, |j: int| a[d + j * k]) }
proof fn lemma_cnt(n: int, k: int, d: int, j: int)
    requires k >= 1, d >= 0, j >= 0, n >= 0, d + j * k >= n, j == 0 || d + (j - 1) * k < n,
    ensures every_cnt(n, k, d) == j,
{
    if d < n {
        let x = n - d + k - 1;
        lemma_fundamental_div_mod(x, k); lemma_mod_bound(x, k);
        let q = x / k; let r = x % k;
        assert(j >= 1) by { assert(0 * k == 0); }
        assert(q == j) by (nonlinear_arith) requires x == k * q + r, 0 <= r < k, x == n - d + k - 1, d + j * k >= n, d + (j - 1) * k < n, k >= 1;
    } else {
        if j != 0 { assert((j - 1) * k >= 0) by (nonlinear_arith) requires j >= 1, k >= 1; }
    }
}
/// the property's form: exactly the points d, d + k, ... below n are kept, in that order
proof fn lemma_every<E>(a: Seq<E>, k: int, d: int, j: int)
    requires k >= 1, d >= 0,
    ensures
        0 <= j < every(a, k, d).len() ==> d + j * k < a.len() && every(a, k, d)[j] == a[d + j * k],
        0 <= j && d + j * k < a.len() ==> j < every(a, k, d).len(),
{
    let n = a.len() as int; let c = every_cnt(n, k, d);
    if d < n {
        let x = n - d + k - 1;
        lemma_fundamental_div_mod(x, k); lemma_mod_bound(x, k);
        assert(c >= 1 && d + c * k >= n && d + (c - 1) * k < n) by (nonlinear_arith) requires x == k * c + x % k, 0 <= x % k < k, x == n - d + k - 1, k >= 1, d < n;
        if j <= c - 1 { assert(j * k <= (c - 1) * k) by (nonlinear_arith) requires j <= c - 1, k >= 1; }
        else { assert(j * k >= c * k) by (nonlinear_arith) requires j >= c, k >= 1; }
    } else if j >= 0 { assert(j * k >= 0) by (nonlinear_arith) requires j >= 0, k >= 1; }
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
    pub open spec fn decimate_spec(&self, k: int, d: int) -> Seq<T> {
        if self.cplx() { fseq(every(cseq(self@), k, d)) } else { every(self@, k, d) }
    }
//@ extract file=vector/src/vector_types/time_freq/interpolation.rs fn=decimatei impl="InterpolationOps.*for\sDspVec" loops=2
//@ rewrite? /T::from\(decimation_factor\)\.unwrap\(\)/
num_from(decimation_factor)
//@ rewrite? /let mut j = 0;/
let mut j: usize = 0;
//@ spec
        requires old(self).wf(), decimation_factor >= 1, arith::<T>(),
        ensures
            final(self)@ == old(self).decimate_spec(decimation_factor as int, delay as int),
            final(self).vlen() == old(self).decimate_spec(decimation_factor as int, delay as int).len(),
            final(self).wf(), final(self).cplx() == old(self).cplx(), final(self).st().len() == old(self).st().len(),
            final(self).delta == old(self).delta.mul_spec(num_of::<T>(decimation_factor as int)),
            final(self).domain == old(self).domain,
            // nothing behind the old valid length is touched
            forall|x: int| #![trigger final(self).st()[x]] old(self).vlen() <= x < old(self).st().len() ==> final(self).st()[x] == old(self).st()[x],
//@ body_start
        let ghost o = *self;
        let ghost ov = self@;
        let ghost k = decimation_factor as int;
        let ghost d = delay as int;
        let ghost df = decimation_factor;
        proof { assert(0 * k == 0); }
//@ before_loop 1
            let ghost c0 = data@;
            proof { assert(c0 =~= cseq(ov)); }
//@ loop 1
                invariant
                    c0 == cseq(ov), data@.len() == c0.len(), points == c0.len(), points <= isize::MAX, k == decimation_factor, 1 <= k <= u32::MAX, d == delay, 0 <= d,
                    i == d + j * k, j <= i, j == 0 || d + (j - 1) * k < points, j <= points,
                    forall|q: int| 0 <= q < j ==> #[trigger] data@[q] == c0[d + q * k],
                    forall|q: int| j <= q < points ==> #[trigger] data@[q] == c0[q],
                decreases points + k - i,
//@ loop_start 1
                proof { assert(d + (j + 1) * k == i + k) by (nonlinear_arith) requires i == d + j * k; assert(j <= i) ; }
//@ after_loop 1
            proof {
                lemma_cnt(points as int, k, d, j as int);
                assert(data@.subrange(0, j as int) =~= every(c0, k, d));
                let w = data@;
                assert(fseq(w).subrange(0, 2 * j) =~= fseq(every(c0, k, d))) by {
                    assert forall|q: int| 0 <= q < 2 * j implies fseq(w)[q] == fseq(every(c0, k, d))[q] by { assert(w[q / 2] == every(c0, k, d)[q / 2]); }
                }
            }
//@ before_loop 2
            let ghost c0 = data@;
            proof { assert(c0 =~= ov); }
//@ loop 2
                invariant
                    c0 == ov, data@.len() == c0.len(), len == c0.len(), len <= isize::MAX, k == decimation_factor, 1 <= k <= u32::MAX, d == delay, 0 <= d,
                    i == d + j * k, j <= i, j == 0 || d + (j - 1) * k < len, j <= len,
                    forall|q: int| 0 <= q < j ==> #[trigger] data@[q] == c0[d + q * k],
                    forall|q: int| j <= q < len ==> #[trigger] data@[q] == c0[q],
                decreases len + k - i,
//@ loop_start 2
                proof { assert(d + (j + 1) * k == i + k) by (nonlinear_arith) requires i == d + j * k; assert(j <= i); }
//@ after_loop 2
            proof {
                lemma_cnt(len as int, k, d, j as int);
                assert(data@.subrange(0, j as int) =~= every(c0, k, d));
            }
//@ end
}
}
fn main() {}
