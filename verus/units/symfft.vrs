//@ unit-props C18 C15 C20 C12
//@ unit-title mirroring of spectra and the plumbing around the Fourier transform
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::slice::IterMut;
use std::marker::PhantomData;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include memops
//@ include iters
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include mark contracts
//@ include cparts
//@ include simdgen
//@ include changed
//@ include elemspec
//@ include elemapi contracts
//@ include opdone
//@ include scale contracts
//@ include shiftspec
//@ include shiftapi contracts
//@ include zib contracts
//@ include realpoints
//@ include nums
//@ include rustfft
//@ include windowapi contracts
/// a spectrum from the half of it which starts at 0 Hz
pub open spec fn mirrored<T: RealNumber>(c: Seq<Complex<T>>) -> Seq<Complex<T>> {
    Seq::new((2 * c.len() - 1) as nat, |i: int| if i < c.len() { c[i] } else { conj_of(c[2 * c.len() - 1 - i]) })
}
/// the property's form: the first n points are the given ones, point 2n-1-i is the conjugate of point i
proof fn lemma_mirrored<T: RealNumber>(c: Seq<Complex<T>>, i: int)
    requires c.len() > 0, 0 <= i < c.len(),
    ensures mirrored(c).len() == 2 * c.len() - 1, mirrored(c)[i] == c[i], i >= 1 ==> mirrored(c)[2 * c.len() - 1 - i] == conj_of(c[i]),
{}
pub type TransRes<T> = Result<T, (ErrorReason, T)>;
/// ASSUMED of the language: no slice has more than isize::MAX elements
#[verifier::external_body]
proof fn axiom_storage<S: ToSlice<T>, T: RealNumber, N: NumberSpace, D: Domain>(v: &DspVec<S, T, N, D>)
    ensures v.st().len() <= isize::MAX,
{}
/// the contracts of rededicate_from_force for results in complex number space: data, length and spacing are kept, the number space is that of the result's
/// type or, for a type which knows it at run time, that of the vector; discharged for every type in unit vecops
pub trait ComplexNumberSpace: NumberSpace {}
pub trait RealNumberSpace: NumberSpace {}
#[verifier::external_body]
fn rededicate_complex<S: ToSliceMut<T>, T: RealNumber, N: NumberSpace, D: Domain, NC: ComplexNumberSpace, DC: Domain>(v: DspVec<S, T, N, D>) -> (r: DspVec<S, T, NC, DC>)
    requires NC::runtime() == N::runtime(),
    ensures r.st() == v.st(), r.vlen() == v.vlen(), r.dlt() == v.dlt(), r.cplx() == if NC::runtime() { v.cplx() } else { true },
{ unimplemented!() }
#[verifier::external_body]
fn rededicate_real<S: ToSliceMut<T>, T: RealNumber, N: NumberSpace, D: Domain, NR: RealNumberSpace, DC: Domain>(v: DspVec<S, T, N, D>) -> (r: DspVec<S, T, NR, DC>)
    requires NR::runtime() == N::runtime(),
    ensures r.st() == v.st(), r.vlen() == v.vlen(), r.dlt() == v.dlt(), r.cplx() == if NR::runtime() { v.cplx() } else { false },
{ unimplemented!() }
/// the imaginary part of the bin at 0 Hz is not zero; how much rounding is let through is left open
pub uninterp spec fn not_real<T>(a: Seq<T>) -> bool;
#[verifier::external_body]
fn beyond_tolerance<T>(data: &[T], len: usize) -> (r: bool) requires 2 <= len <= data@.len() ensures r == not_real(data@.subrange(0, len as int)) { unimplemented!() }
pub open spec fn scaled<T: RealNumber>(o: Seq<T>, factor: T, n: Seq<T>) -> bool { applied(|q: T| q.mul_spec(factor), o, n) }
pub open spec fn cscaled<T: RealNumber>(o: Seq<Complex<T>>, factor: Complex<T>, n: Seq<Complex<T>>) -> bool { related(|x: Complex<T>, y: Complex<T>| y == x.mul_spec(factor), o, n) }
pub open spec fn reals<T>(c: Seq<Complex<T>>) -> Seq<T> { Seq::new(c.len(), |i: int| c[i].re) }
//@ extract file=vector/src/vector_types/time_freq/mod.rs fn=fft loops=0
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /T::from\((\w+)\)\.unwrap\(\)/
num_from::<T>(\1)
//@ rewrite? /T::has_gpu_support/
has_gpu_support
//@ rewrite? /T::is_supported_fft_len/
is_supported_fft_len
//@ rewrite? /T::fft\(/
gpu_fft(
//@ spec
    requires old(vec).vlen() <= old(vec).st().len(), old(vec).vlen() % 2 == 0, arith::<T>(),
    ensures
        final(vec).same_but_delta(old(vec)),
        cseq(final(vec)@) == dft(direction, cseq(old(vec)@)),
        final(vec).dlt() == num_of::<T>(old(vec).vlen() as int / 2).mul_spec(old(vec).dlt()),
//@ body_start
    let ghost o = vec@;
//@ body_end
    proof { lemma_cseq_fseq(dft(direction, cseq(o))); assert(vec@ =~= fseq(dft(direction, cseq(o)))); }
//@ end
/// conjugate symmetric: what the spectrum of real numbers is
pub open spec fn symmetric<T: RealNumber>(c: Seq<Complex<T>>) -> bool {
    forall|i: int| #![trigger c[i]] 1 <= i < c.len() ==> c[c.len() - i] == conj_of(c[i])
}
/// mirroring the non-redundant half of a symmetric spectrum of an odd number of points gives the spectrum
proof fn lemma_half_suffices<T: RealNumber>(c: Seq<Complex<T>>)
    requires symmetric(c), c.len() % 2 == 1,
    ensures mirrored(c.subrange(0, (c.len() as int + 1) / 2)) == c,
{
    let h = c.subrange(0, (c.len() as int + 1) / 2);
    assert forall|i: int| 0 <= i < c.len() implies mirrored(h)[i] == c[i] by { if i >= h.len() { let j = c.len() - i; let _ = c[j]; } }
    assert(mirrored(h) =~= c);
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
    pub closed spec fn same_but_delta(&self, o: &Self) -> bool {
        &&& self.domain == o.domain && self.number_space == o.number_space && self.multicore_settings == o.multicore_settings
        &&& self.vlen() == o.vlen() && self.st().len() == o.st().len()
        &&& forall|i: int| o.vlen() <= i < o.st().len() ==> #[trigger] self.st()[i] == o.st()[i]
    }
    /// 1/(2n - 1) for n points
    pub open spec fn one_full(&self) -> Complex<T> { Complex { re: T::one_spec().div_spec(num_of::<T>(if self.vlen() == 0 { 0 } else { self.vlen() as int - 1 })), im: T::zero_spec() } }
    /// 1/n for n points
    pub open spec fn one_nth(&self) -> T { T::one_spec().div_spec(num_of::<T>(if self.cplx() { self.vlen() as int / 2 } else { self.vlen() as int })) }
    /// the points, of a real vector with zero imaginary parts
    pub open spec fn points_spec(&self) -> Seq<Complex<T>> { if self.cplx() { cseq(self@) } else { real_points(self@) } }
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=domain impl="MetaData\sfor\sDspVec"
//@ ret r
//@ spec
        ensures r == if self.freq() { DataDomain::Frequency } else { DataDomain::Time },
//@ end
//@ extract file=vector/src/vector_types/time_freq/freq.rs fn=mirror impl="FrequencyDomainOperations<S,\sT>\sfor\sDspVec" loops=1
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /clone_from_slice/
copy_from_slice
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures
            !old(self).cplx() || !old(self).freq() ==> final(self).vlen() == 0 && final(self).dlt().nan_p() && final(self).st() == old(self).st() && final(self).cplx() == old(self).cplx() && final(self).wf(),
            old(self).cplx() && old(self).freq() ==> {
                &&& final(self).same_meta(old(self)) && final(self).vlen() <= final(self).st().len()
                &&& old(self).vlen() == 0 ==> final(self).vlen() == 0
                &&& old(self).vlen() > 0 ==> final(self).vlen() == 2 * old(self).vlen() - 2 && cseq(final(self)@) == mirrored(cseq(old(self)@))
            },
//@ body_start
        let ghost o = self@;
        let ghost n = self.vlen() as int;
        let ghost want = mirrored(cseq(o));
//@ before_loop 1
            let ghost mut m: int = 0;
            proof {
                assert(forall|q: int| #![trigger temp@[q]] 0 <= q < n ==> temp@[q] == o[q]);
            }
//@ loop 1
                invariant
                    n % 2 == 0, n >= 2, n == o.len(), len == n, temp_len == 2 * n - 2, temp@.len() >= temp_len, n <= max_len(), data@.len() >= n, o == data@.subrange(0, n), arith::<T>(),
                    0 <= m <= n / 2 - 1, i == temp_len - 1 - 2 * m, j == 3 + 2 * m,
                    forall|q: int| #![trigger temp@[q]] 0 <= q < n ==> temp@[q] == o[q],
                    forall|q: int| #![trigger temp@[q]] i < q < temp_len ==> temp@[q] == (if q % 2 == 0 { o[2 * n - 2 - q] } else { o[2 * n - q].neg_spec() }),
                decreases n / 2 - m,
//@ loop_end 1
                proof { m = m + 1; }
//@ body_end
        proof {
            assert(self@.len() == 2 * n - 2);
            let c = cseq(self@);
            assert forall|i: int| 0 <= i < want.len() implies c[i] == want[i] by {
                let a = self@[2 * i]; let b = self@[2 * i + 1];
                assert((2 * i) % 2 == 0 && (2 * i + 1) % 2 == 1);
            }
            assert(c =~= want);
        }
//@ end
//@ extract file=vector/src/vector_types/time_freq/time_to_freq.rs fn=plain_fft impl="TimeToFrequencyDomainOperations<S,\sT>\sfor\sDspVec" loops=0
//@ rewrite_sig /fn plain_fft<B>\(mut self, buffer: &mut B\) -> Self::FreqResult/
fn plain_fft<NC: ComplexNumberSpace, DC: Domain, B>(self, buffer: &mut B) -> DspVec<S, T, NC, DC>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::FreqResult::rededicate_from_force/
rededicate_complex
//@ rewrite? /\bself\b/
this
//@ ret r
//@ spec
        requires self.wf(), self.vlen() * 2 <= max_len(), arith::<T>(), NC::runtime() == N::runtime(),
        ensures
            r.cplx(),
            self.freq() ==> r.vlen() == 0 && r.dlt().nan_p(),
            !self.freq() ==> {
                &&& cseq(r@) == dft(FftDirection::Forward, self.points_spec())
                &&& r.vlen() == 2 * self.points_spec().len() && r.vlen() <= r.st().len()
                &&& r.dlt() == num_of::<T>(self.points_spec().len() as int).mul_spec(self.dlt())
            },
//@ body_start
        let mut this = self;
        proof { lemma_real_points(self@); }
//@ end
//@ extract file=vector/src/vector_types/time_freq/time_to_freq.rs fn=fft impl="impl<S,\sT,\sN,\sD>\sTimeToFrequencyDomainOperations<S,\sT>\sfor\sDspVec" loops=0
//@ rewrite_sig /fn fft<B>\(self, buffer: &mut B\) -> Self::FreqResult/
fn fft<NC: ComplexNumberSpace, DC: Domain, B>(self, buffer: &mut B) -> DspVec<S, T, NC, DC>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /let mut result = self\.plain_fft\(/
let mut result: DspVec<S, T, NC, DC> = self.plain_fft(
//@ ret r
//@ spec
        requires self.wf(), self.vlen() * 2 <= max_len(), arith::<T>(), NC::runtime() == N::runtime(),
        ensures
            r.cplx(),
            self.freq() ==> r.vlen() == 0 && r.dlt().nan_p(),
            !self.freq() ==> is_shift(dft(FftDirection::Forward, self.points_spec()), cseq(r@), true),
//@ after /let mut result/ 1
        proof { axiom_storage(&result); }
        let ghost before = result;
//@ end
//@ extract file=vector/src/vector_types/time_freq/time_to_freq.rs fn=plain_sfft impl="SymmetricTimeToFrequencyDomainOperations<S,\sT>\sfor\sDspVec" loops=0
//@ expand unmirror
//@ rewrite_sig /fn plain_sfft<B>\(mut self, buffer: &mut B\) -> TransRes<Self::FreqResult>/
fn plain_sfft<NC: ComplexNumberSpace, DC: Domain, B>(self, buffer: &mut B) -> TransRes<DspVec<S, T, NC, DC>>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::FreqResult::rededicate_from_force/
rededicate_complex
//@ rewrite? /\bself\b/
this
//@ rewrite? /let mut result = this\.plain_fft\(/
let mut result: DspVec<S, T, NC, DC> = this.plain_fft(
//@ ret r
//@ spec
        requires self.wf(), self.vlen() * 2 <= max_len(), arith::<T>(), NC::runtime() == N::runtime(),
        ensures
            self.cplx() ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustBeReal,
            !self.cplx() && self.freq() ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustBeInTimeDomain,
            !self.cplx() && !self.freq() && self.vlen() % 2 == 0 ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustHaveAnOddLength,
            r.is_err() ==> r->Err_0.1.vlen() == 0 && r->Err_0.1.dlt().nan_p(),
            !self.cplx() && !self.freq() && self.vlen() % 2 == 1 ==> {
                &&& r.is_ok() && r->Ok_0.cplx() && r->Ok_0.vlen() == self.vlen() + 1 && r->Ok_0.vlen() <= r->Ok_0.st().len()
                // the non-redundant half of the transform
                &&& cseq(r->Ok_0@) == dft(FftDirection::Forward, real_points(self@)).subrange(0, (self.vlen() as int + 1) / 2)
            },
//@ body_start
        let mut this = self;
//@ after /let mut result/ 1
        let ghost full = result@;
        let ghost fst = result.st();
        proof { assert(cseq(full) == dft(FftDirection::Forward, real_points(self@))); }
//@ before /Ok\(result\)/
        proof {
            let n = self.vlen() as int;
            assert(result.st().subrange(0, n + 1) =~= full.subrange(0, n + 1)) by {
                assert forall|i: int| 0 <= i < n + 1 implies result.st()[i] == full[i] by { assert(result.st().subrange(0, fst.len() as int)[i] == fst[i]); }
            }
            assert(cseq(result@) =~= cseq(full).subrange(0, (n + 1) / 2));
        }
//@ end
//@ extract file=vector/src/vector_types/time_freq/time_to_freq.rs fn=sfft impl="SymmetricTimeToFrequencyDomainOperations<S,\sT>\sfor\sDspVec" loops=0
//@ expand unmirror
//@ rewrite_sig /fn sfft<B>\(mut self, buffer: &mut B\) -> TransRes<Self::FreqResult>/
fn sfft<NC: ComplexNumberSpace, DC: Domain, B>(self, buffer: &mut B) -> TransRes<DspVec<S, T, NC, DC>>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::FreqResult::rededicate_from_force/
rededicate_complex
//@ rewrite? /\bself\b/
this
//@ rewrite? /let mut result = this\.plain_fft\(/
let mut result: DspVec<S, T, NC, DC> = this.plain_fft(
//@ ret r
//@ spec
        requires self.wf(), self.vlen() * 2 <= max_len(), arith::<T>(), NC::runtime() == N::runtime(),
        ensures
            self.cplx() ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustBeReal,
            !self.cplx() && self.freq() ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustBeInTimeDomain,
            !self.cplx() && !self.freq() && self.vlen() % 2 == 0 ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustHaveAnOddLength,
            r.is_err() ==> r->Err_0.1.vlen() == 0 && r->Err_0.1.dlt().nan_p(),
            !self.cplx() && !self.freq() && self.vlen() % 2 == 1 ==> {
                &&& r.is_ok() && r->Ok_0.cplx() && r->Ok_0.vlen() == self.vlen() + 1 && r->Ok_0.vlen() <= r->Ok_0.st().len()
                // the non-redundant half of the transform
                &&& cseq(r->Ok_0@) == dft(FftDirection::Forward, real_points(self@)).subrange(0, (self.vlen() as int + 1) / 2)
            },
//@ body_start
        let mut this = self;
//@ after /let mut result/ 1
        let ghost full = result@;
        let ghost fst = result.st();
        proof { assert(cseq(full) == dft(FftDirection::Forward, real_points(self@))); }
//@ before /Ok\(result\)/
        proof {
            let n = self.vlen() as int;
            assert(result.st().subrange(0, n + 1) =~= full.subrange(0, n + 1)) by {
                assert forall|i: int| 0 <= i < n + 1 implies result.st()[i] == full[i] by { assert(result.st().subrange(0, fst.len() as int)[i] == fst[i]); }
            }
            assert(cseq(result@) =~= cseq(full).subrange(0, (n + 1) / 2));
        }
//@ end
//@ extract file=vector/src/vector_types/time_freq/freq_to_time.rs fn=plain_ifft impl="FrequencyToTimeDomainOperations<S,\sT>\sfor\sDspVec" loops=0
//@ rewrite_sig /fn plain_ifft<B>\(mut self, buffer: &mut B\) -> Self::TimeResult/
fn plain_ifft<NC: ComplexNumberSpace, DC: Domain, B>(self, buffer: &mut B) -> DspVec<S, T, NC, DC>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::TimeResult::rededicate_from_force/
rededicate_complex
//@ rewrite? /\bself\b/
this
//@ ret r
//@ spec
        requires self.wf(), self.vlen() * 2 <= max_len(), arith::<T>(), NC::runtime() == N::runtime(),
        ensures
            r.cplx(), r.wf(), r.vlen() <= 2 * self.vlen(),
            !self.freq() ==> r.vlen() == 0 && r.dlt().nan_p(),
            self.freq() ==> {
                &&& cseq(r@) == dft(FftDirection::Inverse, self.points_spec())
                &&& r.vlen() == 2 * self.points_spec().len() && r.vlen() <= r.st().len()
                &&& r.dlt() == num_of::<T>(self.points_spec().len() as int).mul_spec(self.dlt())
            },
//@ body_start
        let mut this = self;
        proof { lemma_real_points(self@); }
//@ after /this\.domain\.to_time/ 2
        proof { axiom_storage(&this); }
//@ end
//@ extract file=vector/src/vector_types/time_freq/freq_to_time.rs fn=ifft impl="FrequencyToTimeDomainOperations<S,\sT>\sfor\sDspVec" loops=0
//@ rewrite_sig /fn ifft<B>\(mut self, buffer: &mut B\) -> Self::TimeResult/
fn ifft<NC: ComplexNumberSpace, DC: Domain, Reg: SimdGeneric<T>, B>(self, buffer: &mut B) -> DspVec<S, T, NC, DC>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /T::from\((\w+)\)\.unwrap\(\)/
num_from::<T>(\1)
//@ rewrite? /self\.scale\(/
self.elem_scale::<Reg>(
//@ rewrite? /\bself\b/
this
//@ ret r
//@ spec
        requires self.wf(), self.vlen() * 2 <= max_len(), arith::<T>(), NC::runtime() == N::runtime(),
        ensures
            r.cplx(), r.wf(), r.vlen() <= 2 * self.vlen(),
            !self.freq() ==> r.vlen() == 0 && r.dlt().nan_p(),
            // the inverse transform of the scaled points in their order without the shift
            self.freq() && self.cplx() ==> exists|x: Seq<T>, y: Seq<Complex<T>>| #[trigger] scaled(self@, self.one_nth(), x) && #[trigger] is_shift(cseq(x), y, false) && cseq(r@) == dft(FftDirection::Inverse, y),
            self.freq() && !self.cplx() ==> exists|x: Seq<T>, y: Seq<T>| #[trigger] scaled(self@, self.one_nth(), x) && #[trigger] is_shift(x, y, false) && cseq(r@) == dft(FftDirection::Inverse, real_points(y)),
//@ body_start
        let mut this = self;
//@ after /this\.elem_scale/ 1
        let ghost x = this@;
        proof { axiom_storage(&this); assert(scaled(self@, self.one_nth(), x)); }
//@ after /this\.ifft_shift/ 1
        let ghost y = this@;
        proof { assert(self.cplx() ==> is_shift(cseq(x), cseq(y), false)); assert(!self.cplx() ==> is_shift(x, y, false)); }
//@ end
//@ extract file=vector/src/vector_types/time_freq/freq_to_time.rs fn=plain_sifft impl="SymmetricFrequencyToTimeDomainOperations<S,\sT>\sfor\sDspVec" loops=0
//@ rewrite_sig /fn plain_sifft<B>\(mut self, buffer: &mut B\) -> TransRes<Self::RealTimeResult>/
fn plain_sifft<NR: RealNumberSpace, DC: Domain, B>(self, buffer: &mut B) -> TransRes<DspVec<S, T, NR, DC>>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /let largest = [^;]*;\s*let tolerance = [^;]*;/

//@ rewrite? /self\.data\(1\)\.abs\(\) > tolerance/
beyond_tolerance(self.data.to_slice(), self.valid_len)
//@ rewrite? /\|x, _arg\| x\.re/
|x: Complex<T>, _arg: ()| -> (q: T) ensures q == x.re { x.re }
//@ rewrite? /Self::RealTimeResult::rededicate_from_force/
rededicate_real
//@ rewrite? /\bself\b/
this
//@ ret r
//@ spec
        requires self.wf(), self.vlen() * 2 <= max_len(), arith::<T>(), NR::runtime() == N::runtime(),
        ensures
            !self.cplx() ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustBeComplex,
            self.cplx() && !self.freq() ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustBeInFrequencyDomain,
            r.is_err() ==> r->Err_0.1.vlen() == 0 && r->Err_0.1.dlt().nan_p(),
            r.is_ok() ==> r->Ok_0.wf() && !r->Ok_0.cplx(),
            self.cplx() && self.freq() ==> {
                &&& r.is_err() <==> self.vlen() > 0 && not_real(self@)
                &&& r.is_err() ==> r->Err_0.0 == ErrorReason::InputMustBeConjSymmetric
                &&& r.is_ok() && self.vlen() == 0 ==> r->Ok_0.vlen() == 0
                // the real parts of the inverse transform of the mirrored spectrum
                &&& r.is_ok() && self.vlen() > 0 ==> r->Ok_0@ =~= reals(dft(FftDirection::Inverse, mirrored(cseq(self@)))) && r->Ok_0.vlen() == self.vlen() - 1
            },
//@ body_start
        let mut this = self;
//@ before /this\.pure_complex_to_real_operation/
        proof { axiom_storage(&this); }
        let ghost spectrum = this@;
//@ before /this\.number_space\.to_real\(\);\s*Ok/
        proof { axiom_storage(&this); }
//@ end
//@ extract file=vector/src/vector_types/time_freq/freq_to_time.rs fn=sifft impl="SymmetricFrequencyToTimeDomainOperations<S,\sT>\sfor\sDspVec" loops=0
//@ rewrite_sig /fn sifft<B>\(mut self, buffer: &mut B\) -> TransRes<Self::RealTimeResult>/
fn sifft<NR: RealNumberSpace, DC: Domain, Reg: SimdGeneric<T>, B>(self, buffer: &mut B) -> TransRes<DspVec<S, T, NR, DC>>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /T::from\((\w+)\)\.unwrap\(\)/
num_from::<T>(\1)
//@ rewrite? /Complex::<T>::new/
Complex::new
//@ rewrite? /self\.scale\(/
self.elem_scale_c::<Reg>(
//@ rewrite? /\bself\b/
this
//@ ret r
//@ spec
        requires self.wf(), self.vlen() * 2 <= max_len(), arith::<T>(), NR::runtime() == N::runtime(),
        ensures
            !self.cplx() ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustBeComplex,
            self.cplx() && !self.freq() ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustBeInFrequencyDomain,
            r.is_err() ==> r->Err_0.1.vlen() == 0 && r->Err_0.1.dlt().nan_p(),
            r.is_ok() ==> r->Ok_0.wf() && !r->Ok_0.cplx(),
            self.cplx() && self.freq() ==> exists|x: Seq<T>| {
                // the half spectrum scaled by the number of points of the result
                &&& #[trigger] cscaled(cseq(self@), self.one_full(), cseq(x)) && x.len() == self.vlen()
                &&& r.is_err() <==> self.vlen() > 0 && not_real(x)
                &&& r.is_err() ==> r->Err_0.0 == ErrorReason::InputMustBeConjSymmetric
                &&& r.is_ok() && self.vlen() == 0 ==> r->Ok_0.vlen() == 0
                &&& r.is_ok() && self.vlen() > 0 ==> r->Ok_0@ =~= reals(dft(FftDirection::Inverse, mirrored(cseq(x)))) && r->Ok_0.vlen() == self.vlen() - 1
            },
//@ body_start
        let mut this = self;
//@ after /this\.elem_scale_c/ 1
        proof { axiom_storage(&this); if self.cplx() { assert(cscaled(cseq(self@), self.one_full(), cseq(this@))); } }
//@ end
//@ extract file=vector/src/vector_types/time_freq/time_to_freq.rs fn=windowed_fft impl="impl<S,\sT,\sN,\sD>\sTimeToFrequencyDomainOperations<S,\sT>\sfor\sDspVec" loops=0
//@ rewrite_sig /fn windowed_fft<B>\(mut self,(.*?)\) -> Self::FreqResult/
fn windowed_fft<NC: ComplexNumberSpace, DC: Domain, B>(self,\1) -> DspVec<S, T, NC, DC>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /let mut result = self\.plain_fft\(/
let mut result: DspVec<S, T, NC, DC> = self.plain_fft(
//@ rewrite? /\bself\b/
this
//@ ret r
//@ spec
        requires self.wf(), self.vlen() * 2 <= max_len(), arith::<T>(), NC::runtime() == N::runtime(),
        ensures
            r.cplx(),
            self.freq() ==> r.vlen() == 0 && r.dlt().nan_p(),
            // the shifted transform of the windowed points
            !self.freq() ==> exists|x: Seq<T>| #[trigger] in_window(window, self.cplx(), self@, x) && x.len() == self.vlen() && is_shift(dft(FftDirection::Forward, if self.cplx() { cseq(x) } else { real_points(x) }), cseq(r@), true),
//@ body_start
        let mut this = self;
//@ after /let mut result/ 1
        proof { axiom_storage(&result); assert(in_window(window, self.cplx(), self@, this@)); }
//@ end
//@ extract file=vector/src/vector_types/time_freq/time_to_freq.rs fn=windowed_sfft impl="SymmetricTimeToFrequencyDomainOperations<S,\sT>\sfor\sDspVec" loops=0
//@ expand unmirror
//@ rewrite_sig /fn windowed_sfft<B>\(\s*mut self,(.*?)\) -> TransRes<Self::FreqResult>/
fn windowed_sfft<NC: ComplexNumberSpace, DC: Domain, B>(self,\1) -> TransRes<DspVec<S, T, NC, DC>>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /Self::FreqResult::rededicate_from_force/
rededicate_complex
//@ rewrite? /\bself\b/
this
//@ rewrite? /let mut result = this\.plain_fft\(/
let mut result: DspVec<S, T, NC, DC> = this.plain_fft(
//@ ret r
//@ spec
        requires self.wf(), self.vlen() * 2 <= max_len(), arith::<T>(), NC::runtime() == N::runtime(),
        ensures
            self.cplx() ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustBeReal,
            !self.cplx() && self.freq() ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustBeInTimeDomain,
            !self.cplx() && !self.freq() && self.vlen() % 2 == 0 ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustHaveAnOddLength,
            r.is_err() ==> r->Err_0.1.vlen() == 0 && r->Err_0.1.dlt().nan_p(),
            !self.cplx() && !self.freq() && self.vlen() % 2 == 1 ==> {
                &&& r.is_ok() && r->Ok_0.cplx() && r->Ok_0.vlen() == self.vlen() + 1 && r->Ok_0.vlen() <= r->Ok_0.st().len()
                // the non-redundant half of the transform of the windowed points
                &&& exists|x: Seq<T>| #[trigger] in_window(window, false, self@, x) && x.len() == self.vlen() && cseq(r->Ok_0@) == dft(FftDirection::Forward, real_points(x)).subrange(0, (self.vlen() as int + 1) / 2)
            },
//@ body_start
        let mut this = self;
//@ after /let mut result/ 1
        let ghost full = result@;
        let ghost fst = result.st();
        let ghost x = this@;
        proof { assert(in_window(window, false, self@, x)); assert(cseq(full) == dft(FftDirection::Forward, real_points(x))); }
//@ before /Ok\(result\)/
        proof {
            let n = self.vlen() as int;
            assert(result.st().subrange(0, n + 1) =~= full.subrange(0, n + 1)) by {
                assert forall|i: int| 0 <= i < n + 1 implies result.st()[i] == full[i] by { assert(result.st().subrange(0, fst.len() as int)[i] == fst[i]); }
            }
            assert(cseq(result@) =~= cseq(full).subrange(0, (n + 1) / 2));
        }
//@ end
//@ extract file=vector/src/vector_types/time_freq/freq_to_time.rs fn=windowed_ifft impl="FrequencyToTimeDomainOperations<S,\sT>\sfor\sDspVec" loops=0
//@ rewrite_sig /fn windowed_ifft<B>\((.*?)\) -> Self::TimeResult/
fn windowed_ifft<NC: ComplexNumberSpace, DC: Domain, Reg: SimdGeneric<T>, B>(\1) -> DspVec<S, T, NC, DC>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /let mut result = self\.ifft\(/
let mut result: DspVec<S, T, NC, DC> = self.ifft::<NC, DC, Reg, B>(
//@ ret r
//@ spec
        requires self.wf(), self.vlen() * 2 <= max_len(), arith::<T>(), NC::runtime() == N::runtime(),
        ensures
            r.cplx(),
            !self.freq() ==> r.vlen() == 0 && r.dlt().nan_p(),
            // the window is removed from the inverse transform of the scaled points in their order without the shift
            self.freq() && self.cplx() ==> exists|x: Seq<T>, y: Seq<Complex<T>>, z: Seq<T>| #[trigger] scaled(self@, self.one_nth(), x) && #[trigger] is_shift(cseq(x), y, false) && cseq(z) == dft(FftDirection::Inverse, y) && #[trigger] out_of_window(window, true, z, r@),
            self.freq() && !self.cplx() ==> exists|x: Seq<T>, y: Seq<T>, z: Seq<T>| #[trigger] scaled(self@, self.one_nth(), x) && #[trigger] is_shift(x, y, false) && cseq(z) == dft(FftDirection::Inverse, real_points(y)) && #[trigger] out_of_window(window, true, z, r@),
//@ after /let mut result/ 1
        let ghost z = result@;
        proof { axiom_storage(&result); }
//@ end
//@ extract file=vector/src/vector_types/time_freq/freq_to_time.rs fn=windowed_sifft impl="SymmetricFrequencyToTimeDomainOperations<S,\sT>\sfor\sDspVec" loops=0
//@ rewrite_sig /fn windowed_sifft<B>\((.*?)\) -> TransRes<Self::RealTimeResult>/
fn windowed_sifft<NR: RealNumberSpace, DC: Domain, Reg: SimdGeneric<T>, B>(\1) -> TransRes<DspVec<S, T, NR, DC>>
//@ rewrite_sig /for<'a> Buffer<'a, S, T>/
Buffer<S, T>
//@ rewrite? /let mut result = self\.sifft\((.*?)\)\?;/
let mut result: DspVec<S, T, NR, DC> = match self.sifft::<NR, DC, Reg, B>(\1) { Ok(value) => value, Err(refusal) => return Err(refusal) };
//@ ret r
//@ spec
        requires self.wf(), self.vlen() * 2 <= max_len(), arith::<T>(), NR::runtime() == N::runtime(),
        ensures
            !self.cplx() ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustBeComplex,
            self.cplx() && !self.freq() ==> r.is_err() && r->Err_0.0 == ErrorReason::InputMustBeInFrequencyDomain,
            r.is_err() ==> r->Err_0.1.vlen() == 0 && r->Err_0.1.dlt().nan_p(),
            self.cplx() && self.freq() ==> exists|x: Seq<T>| {
                &&& #[trigger] cscaled(cseq(self@), self.one_full(), cseq(x)) && x.len() == self.vlen()
                &&& r.is_err() <==> self.vlen() > 0 && not_real(x)
                &&& r.is_err() ==> r->Err_0.0 == ErrorReason::InputMustBeConjSymmetric
                &&& r.is_ok() && self.vlen() == 0 ==> r->Ok_0.vlen() == 0
                // the window is removed from the real parts of the inverse transform
                &&& r.is_ok() && self.vlen() > 0 ==> r->Ok_0.vlen() == self.vlen() - 1 && out_of_window(window, false, reals(dft(FftDirection::Inverse, mirrored(cseq(x)))), r->Ok_0@)
            },
//@ after /let mut result/ 1
        proof { axiom_storage(&result); }
//@ end
}
}
fn main() {}
