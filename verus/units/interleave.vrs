//@ unit-props C08 C14 C15
//@ unit-title zero interleaving, conversion of real vectors to complex ones
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::slice::IterMut;
use std::marker::PhantomData;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include memops
//@ include iters
//@ include inlinevec contracts
//@ include chunkapi contracts
//@ include mark contracts

//@ include zib


impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/general/data_reorganization.rs fn=zero_interleave impl="InsertZerosOps<T>\sfor" loops=2
//@ ret r
//@ rewrite? /Complex::<T>::new/
Complex::new
//@ spec
        requires old(self).wf(), old(self).vlen() * factor <= isize::MAX,
        ensures
            final(self).same_meta(old(self)),
            factor == 0 && old(self).vlen() > 0 ==> r.is_ok() && final(self).vlen() == old(self).vlen() && final(self).st() == old(self).st(),
            r.is_err() ==> final(self).vlen() == old(self).vlen() && final(self).st() == old(self).st(),
            r.is_ok() && factor >= 1 ==> final(self)@ == old(self).interleave_spec(factor as int) && final(self).vlen() == old(self).vlen() * factor,
            r.is_ok() ==> final(self).vlen() <= final(self).st().len(),
//@ body_start
        let ghost o = *self;
        let ghost n = self.vlen() as int;
        let ghost k = factor as int;
        proof {
            assert(k >= 1 ==> n * k >= n) by (nonlinear_arith) requires n >= 0;
            assert(k == 0 ==> n * k == 0);
        }
//@ after /self\.resize/
        let ghost r0 = self.st();
        proof {
            assert(r0.subrange(0, n) =~= o@) by {
                assert(forall|i: int| 0 <= i < n ==> r0.subrange(0, o.st().len() as int)[i] == o@[i]);
            }
            if o.cplx() { assert((n * k) % 2 == 0) by { lemma_mul_mod_noop_left(n, k, 2); assert((n % 2) * k == 0) by (nonlinear_arith) requires n % 2 == 0; } }
        }
//@ before_loop 1
            let ghost c0 = data@;
            let ghost cv = cseq(o@);
            let ghost np = n / 2;
            proof {
                assert(n == 2 * np);
                assert(n * k == 2 * (np * k)) by (nonlinear_arith) requires n == 2 * np;
                assert(len / 2 == np * k);
                assert(forall|i: int| 0 <= i < np ==> c0[i] == cv[i]) by {
                    assert(forall|i: int| 0 <= i < n ==> r0.subrange(0, n)[i] == o@[i]);
                }
            }
//@ loop 1 iter it
                invariant
                    n == 2 * np, np >= 0, np * k == len / 2, factor == k, k >= 1 || len == 0, data@.len() == len / 2, cv.len() == np,
                    forall|q: int| 0 <= q < np ==> q < len / 2 - it.index() ==> data@[q] == cv[q],
                    forall|q: int| len / 2 - it.index() <= q < len / 2 ==> #[trigger] data@[q] == (if q % k == 0 { cv[q / k] } else { Complex { re: T::zero_spec(), im: T::zero_spec() } }),
//@ loop_start 1
                proof { let q = len / 2 - 1 - j; lemma_div_is(q as int, k, np); }
//@ after_loop 1
            proof {
                assert(data@ =~= interleaved(cv, k, Complex { re: T::zero_spec(), im: T::zero_spec() }));
            }
//@ before_loop 2
            let ghost c0 = data@;
//@ loop 2 iter it
                invariant
                    n >= 0, n * k == len, factor == k, k >= 1 || len == 0, data@.len() >= len, o@.len() == n,
                    forall|q: int| 0 <= q < n ==> q < len - it.index() ==> data@[q] == o@[q],
                    forall|q: int| len - it.index() <= q < len ==> #[trigger] data@[q] == (if q % k == 0 { o@[q / k] } else { T::zero_spec() }),
//@ loop_start 2
                proof { let q = len - 1 - j; lemma_div_is(q as int, k, n); }
//@ after_loop 2
            proof {
                assert(data@.subrange(0, n * k) =~= interleaved(o@, k, T::zero_spec()));
            }
//@ end
}
/// q/k lies at or below q and below n
proof fn lemma_div_is(q: int, k: int, n: int)
    requires k >= 1, 0 <= q < n * k, n >= 0,
    ensures 0 <= q / k <= q, q / k < n, (q > 0 && k > 1) ==> q / k < q,
{
    lemma_fundamental_div_mod(q, k); lemma_mod_bound(q, k);
    let d = q / k;
    assert(d >= 0) by (nonlinear_arith) requires q == k * d + q % k, q >= 0, q % k < k, k >= 1;
    assert(d <= q) by (nonlinear_arith) requires q == k * d + q % k, q % k >= 0, d >= 0, k >= 1;
    assert(d < n) by (nonlinear_arith) requires q == k * d + q % k, q % k >= 0, q < n * k, k >= 1;
    assert((q > 0 && k > 1) ==> d < q) by (nonlinear_arith) requires q == k * d + q % k, q % k >= 0, d >= 0, k >= 1;
}
pub type TransRes<T> = Result<T, (ErrorReason, T)>;
/// contracts of rededicate_from_force and rededicate_with_runtime_data: data, length and spacing are kept; discharged in unit vecops
#[verifier::external_body]
fn rededicate_from_force<S: ToSliceMut<T>, T: RealNumber, N: NumberSpace, D: Domain, NC: NumberSpace>(v: DspVec<S, T, N, D>) -> (r: DspVec<S, T, NC, D>)
    ensures r.st() == v.st(), r.vlen() == v.vlen(), r.dlt() == v.dlt(),
{ unimplemented!() }
#[verifier::external_body]
fn rededicate_with_runtime_data<S: ToSliceMut<T>, T: RealNumber, N: NumberSpace, D: Domain, NC: NumberSpace>(v: DspVec<S, T, N, D>, is_complex: bool, domain: DataDomain) -> (r: DspVec<S, T, NC, D>)
    ensures r.st() == v.st(), r.vlen() == v.vlen(), r.dlt() == v.dlt(),
{ unimplemented!() }
//@ include realpoints
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=domain impl="MetaData\sfor\sDspVec"
//@ ret r
//@ spec
        ensures r == if self.freq() { DataDomain::Frequency } else { DataDomain::Time },
//@ end
//@ extract file=vector/src/vector_types/real/real_to_complex.rs fn=to_complex impl="RealToComplexTransformsOps<T>\sfor" loops=0
//@ rewrite_sig /fn to_complex\(mut self\) -> TransRes<Self::ComplexResult>/
fn to_complex<NC: NumberSpace>(self) -> TransRes<DspVec<S, T, NC, D>>
//@ rewrite? /Self::ComplexResult::rededicate/
rededicate
//@ rewrite? /\bself\b/
this
//@ ret r
//@ spec
        requires self.wf(), self.vlen() <= max_len(),
        ensures
            self.cplx() ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustBeReal && r->Err_0.1.st() == self.st(),
            !self.cplx() && r.is_ok() ==> cseq(r->Ok_0@) == real_points(self@) && r->Ok_0.vlen() == 2 * self.vlen() && r->Ok_0.dlt() == self.dlt(),
            !self.cplx() && r.is_err() ==> r->Err_0.1.vlen() == 0,
//@ body_start
        let mut this = self;
        proof { lemma_real_points(self@); }
//@ end
//@ extract file=vector/src/vector_types/real/real_to_complex.rs fn=to_complex_b impl="RealToComplexTransformsOpsBuffered<S,\sT>\sfor" loops=0
//@ rewrite_sig /fn to_complex_b<B>\(mut self, buffer: &mut B\) -> Self::ComplexResult/
fn to_complex_b<NC: NumberSpace, B>(self, buffer: &mut B) -> DspVec<S, T, NC, D>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::ComplexResult::rededicate/
rededicate
//@ rewrite? /\bself\b/
this
//@ ret r
//@ spec
        requires self.wf(), self.vlen() * 2 <= max_len(),
        ensures
            self.cplx() ==> r.vlen() == 0,
            !self.cplx() ==> cseq(r@) == real_points(self@) && r.vlen() == 2 * self.vlen() && r.dlt() == self.dlt(),
//@ body_start
        let mut this = self;
        proof { lemma_real_points(self@); }
//@ end
}
}
fn main() {}
