//@ unit-props C04 C16 C20
//@ unit-title construction, accessors and kinds of a vector
//@ include prelude
//@ include complex
//@ include mark

// ---------------- number space and domain markers (meta.rs) ----------------
pub mod meta {
use super::*;
#[derive(PartialEq, Eq)]
pub struct Real;
#[derive(PartialEq, Eq)]
pub struct Complex;
#[derive(PartialEq, Eq)]
pub struct Time;
#[derive(PartialEq, Eq)]
pub struct Freq;
//@ extract file=vector/src/meta.rs item=struct:RealOrComplex
//@ prefix
#[derive(PartialEq, Eq)]
pub
//@ end
//@ extract file=vector/src/meta.rs item=struct:TimeOrFreq
//@ prefix
#[derive(PartialEq, Eq)]
pub
//@ end
impl NumberSpace for Real {
    open spec fn cplx(&self) -> bool { false }
    open spec fn runtime() -> bool { false }
//@ extract file=vector/src/meta.rs fn=is_complex impl="NumberSpace\sfor\sReal\s"
//@ ret r
//@ end
//@ extract file=vector/src/meta.rs fn=to_complex impl="NumberSpace\sfor\sReal\s"
//@ end
//@ extract file=vector/src/meta.rs fn=to_real impl="NumberSpace\sfor\sReal\s"
//@ end
    /// derived
    fn clone(&self) -> (r: Self) { Real }
}
impl NumberSpace for Complex {
    open spec fn cplx(&self) -> bool { true }
    open spec fn runtime() -> bool { false }
//@ extract file=vector/src/meta.rs fn=is_complex impl="NumberSpace\sfor\sComplex\s"
//@ ret r
//@ end
//@ extract file=vector/src/meta.rs fn=to_complex impl="NumberSpace\sfor\sComplex\s"
//@ end
//@ extract file=vector/src/meta.rs fn=to_real impl="NumberSpace\sfor\sComplex\s"
//@ end
    /// derived
    fn clone(&self) -> (r: Self) { Complex }
}
impl NumberSpace for RealOrComplex {
    open spec fn cplx(&self) -> bool { self.is_complex_current }
    open spec fn runtime() -> bool { true }
//@ extract file=vector/src/meta.rs fn=is_complex impl="NumberSpace\sfor\sRealOrComplex\s"
//@ ret r
//@ end
//@ extract file=vector/src/meta.rs fn=to_complex impl="NumberSpace\sfor\sRealOrComplex\s"
//@ end
//@ extract file=vector/src/meta.rs fn=to_real impl="NumberSpace\sfor\sRealOrComplex\s"
//@ end
    /// derived
    fn clone(&self) -> (r: Self) { RealOrComplex { is_complex_current: self.is_complex_current } }
}
impl Domain for Time {
    open spec fn is_freq(&self) -> bool { false }
    open spec fn runtime() -> bool { false }
//@ extract file=vector/src/meta.rs fn=domain impl="Domain\sfor\sTime\s"
//@ ret r
//@ end
//@ extract file=vector/src/meta.rs fn=to_freq impl="Domain\sfor\sTime\s"
//@ end
//@ extract file=vector/src/meta.rs fn=to_time impl="Domain\sfor\sTime\s"
//@ end
    /// derived
    fn clone(&self) -> (r: Self) { Time }
}
impl Domain for Freq {
    open spec fn is_freq(&self) -> bool { true }
    open spec fn runtime() -> bool { false }
//@ extract file=vector/src/meta.rs fn=domain impl="Domain\sfor\sFreq\s"
//@ ret r
//@ end
//@ extract file=vector/src/meta.rs fn=to_freq impl="Domain\sfor\sFreq\s"
//@ end
//@ extract file=vector/src/meta.rs fn=to_time impl="Domain\sfor\sFreq\s"
//@ end
    /// derived
    fn clone(&self) -> (r: Self) { Freq }
}
impl Domain for TimeOrFreq {
    open spec fn is_freq(&self) -> bool { self.domain_current == DataDomain::Frequency }
    open spec fn runtime() -> bool { true }
//@ extract file=vector/src/meta.rs fn=domain impl="Domain\sfor\sTimeOrFreq\s"
//@ ret r
//@ end
//@ extract file=vector/src/meta.rs fn=to_freq impl="Domain\sfor\sTimeOrFreq\s"
//@ end
//@ extract file=vector/src/meta.rs fn=to_time impl="Domain\sfor\sTimeOrFreq\s"
//@ end
    /// derived
    fn clone(&self) -> (r: Self) { TimeOrFreq { domain_current: self.domain_current } }
}
}
pub type RealTimeVec<S, T> = DspVec<S, T, meta::Real, meta::Time>;
pub type RealFreqVec<S, T> = DspVec<S, T, meta::Real, meta::Freq>;
pub type ComplexTimeVec<S, T> = DspVec<S, T, meta::Complex, meta::Time>;
pub type ComplexFreqVec<S, T> = DspVec<S, T, meta::Complex, meta::Freq>;
pub type GenDspVec<S, T> = DspVec<S, T, meta::RealOrComplex, meta::TimeOrFreq>;
impl MultiCoreSettings {
    #[verifier::external_body]
    pub fn default() -> (r: MultiCoreSettings) { unimplemented!() }
}
pub struct TypeMetaData<T, N, D> { delta: T, domain: D, number_space: N, multicore_settings: MultiCoreSettings }

impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSlice<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
    pub closed spec fn storage(&self) -> S { self.data }
    pub closed spec fn mcs(&self) -> MultiCoreSettings { self.multicore_settings }
    /// all elements and all meta data
    pub open spec fn same<N2: NumberSpace, D2: Domain>(&self, o: &DspVec<S, T, N2, D2>) -> bool {
        self.storage() == o.storage() && self.vlen() == o.vlen() && self.dlt() == o.dlt() && self.mcs() == o.mcs()
    }
    pub closed spec fn describes(&self, m: &TypeMetaData<T, N, D>) -> bool {
        self.delta == m.delta && self.domain == m.domain && self.number_space == m.number_space && self.multicore_settings == m.multicore_settings
    }
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=domain impl="MetaData\sfor\sDspVec"
//@ ret r
//@ spec
        ensures r == if self.freq() { DataDomain::Frequency } else { DataDomain::Time },
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=delta impl="Vector<T>\sfor\sDspVec"
//@ ret r
//@ spec
        ensures r == self.dlt(),
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=set_delta impl="Vector<T>\sfor\sDspVec"
//@ spec
        ensures final(self).dlt() == delta, final(self).st() == old(self).st(), final(self).vlen() == old(self).vlen(), final(self).cplx() == old(self).cplx(), final(self).freq() == old(self).freq(),
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=is_empty impl="Vector<T>\sfor\sDspVec"
//@ ret r
//@ spec
        ensures r <==> self.vlen() == 0,
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=get_meta_data impl="GetMetaData<T,\sN,\sD>\sfor\sDspVec"
//@ ret r
//@ spec
        ensures self.describes(&r),
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=data impl="FloatIndex<usize>\sfor\sDspVec" as=data_idx
//@ ret r
//@ spec
        requires self.wf(), index < self.vlen(),
        ensures
            *r == self@[index as int],
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=datac impl="ComplexIndex<usize>\sfor\sDspVec" as=datac_idx
//@ ret r
//@ spec
        requires self.wf(), self.vlen() % 2 == 0, index < self.vlen() / 2,
        ensures
            *r == cseq(self@)[index as int],
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=data impl="FloatIndex<RangeFull>\sfor\sDspVec" as=data_full
//@ ret r
//@ spec
        requires self.wf(), true,
        ensures
            r@ == self@.subrange(0, self.vlen() as int),
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=datac impl="ComplexIndex<RangeFull>\sfor\sDspVec" as=datac_full
//@ ret r
//@ spec
        requires self.wf(), self.vlen() % 2 == 0, true,
        ensures
            r@ == cseq(self@).subrange(0, (self.vlen() / 2) as int),
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=data impl="FloatIndex<RangeFrom<usize>>\sfor\sDspVec" as=data_from
//@ ret r
//@ spec
        requires self.wf(), index.start <= self.vlen(),
        ensures
            r@ == self@.subrange(index.start as int, self.vlen() as int),
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=datac impl="ComplexIndex<RangeFrom<usize>>\sfor\sDspVec" as=datac_from
//@ ret r
//@ spec
        requires self.wf(), self.vlen() % 2 == 0, index.start <= self.vlen() / 2,
        ensures
            r@ == cseq(self@).subrange(index.start as int, (self.vlen() / 2) as int),
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=data impl="FloatIndex<RangeTo<usize>>\sfor\sDspVec" as=data_to
//@ ret r
//@ spec
        requires self.wf(), index.end <= self.vlen(),
        ensures
            r@ == self@.subrange(0, index.end as int),
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=datac impl="ComplexIndex<RangeTo<usize>>\sfor\sDspVec" as=datac_to
//@ ret r
//@ spec
        requires self.wf(), self.vlen() % 2 == 0, index.end <= self.vlen() / 2,
        ensures
            r@ == cseq(self@).subrange(0, index.end as int),
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=data impl="FloatIndex<Range<usize>>\sfor\sDspVec" as=data_range
//@ ret r
//@ spec
        requires self.wf(), index.start <= index.end <= self.vlen(),
        ensures
            r@ == self@.subrange(index.start as int, index.end as int),
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=datac impl="ComplexIndex<Range<usize>>\sfor\sDspVec" as=datac_range
//@ ret r
//@ spec
        requires self.wf(), self.vlen() % 2 == 0, index.start <= index.end <= self.vlen() / 2,
        ensures
            r@ == cseq(self@).subrange(index.start as int, index.end as int),
//@ end
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=data_mut impl="FloatIndexMut<usize>\sfor\sDspVec" as=data_mut_idx
//@ ret r
//@ spec
        requires old(self).wf(), index < old(self).vlen(),
        ensures
            final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
            forall|i: int| old(self).vlen() <= i < old(self).st().len() ==> #[trigger] final(self).st()[i] == old(self).st()[i],
            *r == old(self)@[index as int],
            final(self)@ == old(self)@.update(index as int, *final(r)),
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=datac_mut impl="ComplexIndexMut<usize>\sfor\sDspVec" as=datac_mut_idx
//@ ret r
//@ spec
        requires old(self).wf(), old(self).vlen() % 2 == 0, index < old(self).vlen() / 2,
        ensures
            final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
            forall|i: int| old(self).vlen() <= i < old(self).st().len() ==> #[trigger] final(self).st()[i] == old(self).st()[i],
            *r == cseq(old(self)@)[index as int],
            cseq(final(self)@) == cseq(old(self)@).update(index as int, *final(r)),
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=data_mut impl="FloatIndexMut<RangeFull>\sfor\sDspVec" as=data_mut_full
//@ ret r
//@ spec
        requires old(self).wf(), true,
        ensures
            final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
            forall|i: int| old(self).vlen() <= i < old(self).st().len() ==> #[trigger] final(self).st()[i] == old(self).st()[i],
            r@ == old(self)@.subrange(0, old(self).vlen() as int), final(r)@.len() == r@.len(),
            forall|i: int| 0 <= i < final(self)@.len() ==> #[trigger] final(self)@[i] == if 0 <= i < old(self).vlen() as int { final(r)@[i - (0)] } else { old(self)@[i] },
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=datac_mut impl="ComplexIndexMut<RangeFull>\sfor\sDspVec" as=datac_mut_full
//@ ret r
//@ spec
        requires old(self).wf(), old(self).vlen() % 2 == 0, true,
        ensures
            final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
            forall|i: int| old(self).vlen() <= i < old(self).st().len() ==> #[trigger] final(self).st()[i] == old(self).st()[i],
            r@ == cseq(old(self)@).subrange(0, (old(self).vlen() / 2) as int), final(r)@.len() == r@.len(),
            forall|i: int| 0 <= i < cseq(final(self)@).len() ==> #[trigger] cseq(final(self)@)[i] == if 0 <= i < (old(self).vlen() / 2) as int { final(r)@[i - (0)] } else { cseq(old(self)@)[i] },
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=data_mut impl="FloatIndexMut<RangeFrom<usize>>\sfor\sDspVec" as=data_mut_from
//@ ret r
//@ spec
        requires old(self).wf(), index.start <= old(self).vlen(),
        ensures
            final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
            forall|i: int| old(self).vlen() <= i < old(self).st().len() ==> #[trigger] final(self).st()[i] == old(self).st()[i],
            r@ == old(self)@.subrange(index.start as int, old(self).vlen() as int), final(r)@.len() == r@.len(),
            forall|i: int| 0 <= i < final(self)@.len() ==> #[trigger] final(self)@[i] == if index.start as int <= i < old(self).vlen() as int { final(r)@[i - (index.start as int)] } else { old(self)@[i] },
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=datac_mut impl="ComplexIndexMut<RangeFrom<usize>>\sfor\sDspVec" as=datac_mut_from
//@ ret r
//@ spec
        requires old(self).wf(), old(self).vlen() % 2 == 0, index.start <= old(self).vlen() / 2,
        ensures
            final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
            forall|i: int| old(self).vlen() <= i < old(self).st().len() ==> #[trigger] final(self).st()[i] == old(self).st()[i],
            r@ == cseq(old(self)@).subrange(index.start as int, (old(self).vlen() / 2) as int), final(r)@.len() == r@.len(),
            forall|i: int| 0 <= i < cseq(final(self)@).len() ==> #[trigger] cseq(final(self)@)[i] == if index.start as int <= i < (old(self).vlen() / 2) as int { final(r)@[i - (index.start as int)] } else { cseq(old(self)@)[i] },
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=data_mut impl="FloatIndexMut<RangeTo<usize>>\sfor\sDspVec" as=data_mut_to
//@ ret r
//@ spec
        requires old(self).wf(), index.end <= old(self).vlen(),
        ensures
            final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
            forall|i: int| old(self).vlen() <= i < old(self).st().len() ==> #[trigger] final(self).st()[i] == old(self).st()[i],
            r@ == old(self)@.subrange(0, index.end as int), final(r)@.len() == r@.len(),
            forall|i: int| 0 <= i < final(self)@.len() ==> #[trigger] final(self)@[i] == if 0 <= i < index.end as int { final(r)@[i - (0)] } else { old(self)@[i] },
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=datac_mut impl="ComplexIndexMut<RangeTo<usize>>\sfor\sDspVec" as=datac_mut_to
//@ ret r
//@ spec
        requires old(self).wf(), old(self).vlen() % 2 == 0, index.end <= old(self).vlen() / 2,
        ensures
            final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
            forall|i: int| old(self).vlen() <= i < old(self).st().len() ==> #[trigger] final(self).st()[i] == old(self).st()[i],
            r@ == cseq(old(self)@).subrange(0, index.end as int), final(r)@.len() == r@.len(),
            forall|i: int| 0 <= i < cseq(final(self)@).len() ==> #[trigger] cseq(final(self)@)[i] == if 0 <= i < index.end as int { final(r)@[i - (0)] } else { cseq(old(self)@)[i] },
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=data_mut impl="FloatIndexMut<Range<usize>>\sfor\sDspVec" as=data_mut_range
//@ ret r
//@ spec
        requires old(self).wf(), index.start <= index.end <= old(self).vlen(),
        ensures
            final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
            forall|i: int| old(self).vlen() <= i < old(self).st().len() ==> #[trigger] final(self).st()[i] == old(self).st()[i],
            r@ == old(self)@.subrange(index.start as int, index.end as int), final(r)@.len() == r@.len(),
            forall|i: int| 0 <= i < final(self)@.len() ==> #[trigger] final(self)@[i] == if index.start as int <= i < index.end as int { final(r)@[i - (index.start as int)] } else { old(self)@[i] },
//@ end
//@ extract file=vector/src/vector_types/vec_impl_and_indexers.rs fn=datac_mut impl="ComplexIndexMut<Range<usize>>\sfor\sDspVec" as=datac_mut_range
//@ ret r
//@ spec
        requires old(self).wf(), old(self).vlen() % 2 == 0, index.start <= index.end <= old(self).vlen() / 2,
        ensures
            final(self).same_meta(old(self)), final(self).vlen() == old(self).vlen(), final(self).st().len() == old(self).st().len(),
            forall|i: int| old(self).vlen() <= i < old(self).st().len() ==> #[trigger] final(self).st()[i] == old(self).st()[i],
            r@ == cseq(old(self)@).subrange(index.start as int, index.end as int), final(r)@.len() == r@.len(),
            forall|i: int| 0 <= i < cseq(final(self)@).len() ==> #[trigger] cseq(final(self)@)[i] == if index.start as int <= i < index.end as int { final(r)@[i - (index.start as int)] } else { cseq(old(self)@)[i] },
//@ end
}
impl<S: ToSliceMut<T>, T: RealNumber> GenDspVec<S, T> {
//@ extract file=vector/src/vector_types/mod.rs fn=is_erroneous
//@ ret r
//@ spec
        ensures r <==> (self.vlen() == 0 && self.dlt().nan_p()),
//@ end
}
// ---------------- constructors and destructors ----------------
impl<S: ToSlice<T>, T: RealNumber> RealTimeVec<S, T> {
//@ extract file=vector/src/vector_types/to_from_vec_conversions.rs fn=from impl="From<S>\sfor\sRealTimeVec<S,\sT>" as=from_RealTimeVec
//@ rewrite_sig /mut\s+data/
data
//@ ret r
//@ spec
        ensures
            r.vlen() == data.sv().len(),
            r.cplx() == false, r.freq() == false, r.dlt() == T::one_spec(), r.vlen() <= r.st().len(), r.cplx() ==> r.vlen() % 2 == 0,
            r.st().len() >= data.cap(),
            // all elements of the storage are kept in place
            r.st().subrange(0, data.sv().len() as int) == data.sv(),
//@ body_start
        let mut data = data;
//@ end
}
impl<S: ToSlice<T>, T: RealNumber> ComplexTimeVec<S, T> {
//@ extract file=vector/src/vector_types/to_from_vec_conversions.rs fn=from impl="From<S>\sfor\sComplexTimeVec<S,\sT>" as=from_ComplexTimeVec
//@ rewrite_sig /mut\s+data/
data
//@ ret r
//@ spec
        ensures
            r.vlen() == if data.sv().len() % 2 == 0 { data.sv().len() } else { 0 },
            r.cplx() == true, r.freq() == false, r.dlt() == T::one_spec(), r.vlen() <= r.st().len(), r.cplx() ==> r.vlen() % 2 == 0,
            r.st().len() >= data.cap(),
            // all elements of the storage are kept in place
            r.st().subrange(0, data.sv().len() as int) == data.sv(),
//@ body_start
        let mut data = data;
//@ end
}
impl<S: ToSlice<T>, T: RealNumber> RealFreqVec<S, T> {
//@ extract file=vector/src/vector_types/to_from_vec_conversions.rs fn=from impl="From<S>\sfor\sRealFreqVec<S,\sT>" as=from_RealFreqVec
//@ rewrite_sig /mut\s+data/
data
//@ ret r
//@ spec
        ensures
            r.vlen() == data.sv().len(),
            r.cplx() == false, r.freq() == true, r.dlt() == T::one_spec(), r.vlen() <= r.st().len(), r.cplx() ==> r.vlen() % 2 == 0,
            r.st().len() >= data.cap(),
            // all elements of the storage are kept in place
            r.st().subrange(0, data.sv().len() as int) == data.sv(),
//@ body_start
        let mut data = data;
//@ end
}
impl<S: ToSlice<T>, T: RealNumber> ComplexFreqVec<S, T> {
//@ extract file=vector/src/vector_types/to_from_vec_conversions.rs fn=from impl="From<S>\sfor\sComplexFreqVec<S,\sT>" as=from_ComplexFreqVec
//@ rewrite_sig /mut\s+data/
data
//@ ret r
//@ spec
        ensures
            r.vlen() == if data.sv().len() % 2 == 0 { data.sv().len() } else { 0 },
            r.cplx() == true, r.freq() == true, r.dlt() == T::one_spec(), r.vlen() <= r.st().len(), r.cplx() ==> r.vlen() % 2 == 0,
            r.st().len() >= data.cap(),
            // all elements of the storage are kept in place
            r.st().subrange(0, data.sv().len() as int) == data.sv(),
//@ body_start
        let mut data = data;
//@ end
}
impl<S: ToSlice<T>, T: RealNumber> RealTimeVec<S, T> {
//@ extract file=vector/src/vector_types/rededicate_and_relations.rs fn=rededicate_from_force impl="RededicateForceOps<DspVec<S,\sT,\sN,\sD>>\sfor\sRealTimeVec<S,\sT>" as=force_RealTimeVec
//@ rewrite_sig /fn\s+\w+\s*\(origin: DspVec<S, T, N, D>\)/
fn force_RealTimeVec<N: NumberSpace, D: Domain>(origin: DspVec<S, T, N, D>)
//@ ret r
//@ spec
        ensures r.same(&origin), r.cplx() == false, r.freq() == false,
//@ end
//@ extract file=vector/src/vector_types/rededicate_and_relations.rs fn=rededicate_with_runtime_data impl="RededicateForceOps<DspVec<S,\sT,\sN,\sD>>\sfor\sRealTimeVec<S,\sT>" as=runtime_RealTimeVec
//@ rewrite_sig /fn\s+\w+\s*\(/
fn runtime_RealTimeVec<N: NumberSpace, D: Domain>(
//@ rewrite_sig? /_: bool,\s*_: DataDomain/
is_complex: bool, domain: DataDomain
//@ rewrite /rededicate_from_force/
force_RealTimeVec
//@ ret r
//@ spec
        ensures r.same(&origin), r.cplx() == false, r.freq() == false,
//@ end
}
impl<S: ToSlice<T>, T: RealNumber> RealFreqVec<S, T> {
//@ extract file=vector/src/vector_types/rededicate_and_relations.rs fn=rededicate_from_force impl="RededicateForceOps<DspVec<S,\sT,\sN,\sD>>\sfor\sRealFreqVec<S,\sT>" as=force_RealFreqVec
//@ rewrite_sig /fn\s+\w+\s*\(origin: DspVec<S, T, N, D>\)/
fn force_RealFreqVec<N: NumberSpace, D: Domain>(origin: DspVec<S, T, N, D>)
//@ ret r
//@ spec
        ensures r.same(&origin), r.cplx() == false, r.freq() == true,
//@ end
//@ extract file=vector/src/vector_types/rededicate_and_relations.rs fn=rededicate_with_runtime_data impl="RededicateForceOps<DspVec<S,\sT,\sN,\sD>>\sfor\sRealFreqVec<S,\sT>" as=runtime_RealFreqVec
//@ rewrite_sig /fn\s+\w+\s*\(/
fn runtime_RealFreqVec<N: NumberSpace, D: Domain>(
//@ rewrite_sig? /_: bool,\s*_: DataDomain/
is_complex: bool, domain: DataDomain
//@ rewrite /rededicate_from_force/
force_RealFreqVec
//@ ret r
//@ spec
        ensures r.same(&origin), r.cplx() == false, r.freq() == true,
//@ end
}
impl<S: ToSlice<T>, T: RealNumber> ComplexTimeVec<S, T> {
//@ extract file=vector/src/vector_types/rededicate_and_relations.rs fn=rededicate_from_force impl="RededicateForceOps<DspVec<S,\sT,\sN,\sD>>\sfor\sComplexTimeVec<S,\sT>" as=force_ComplexTimeVec
//@ rewrite_sig /fn\s+\w+\s*\(origin: DspVec<S, T, N, D>\)/
fn force_ComplexTimeVec<N: NumberSpace, D: Domain>(origin: DspVec<S, T, N, D>)
//@ ret r
//@ spec
        ensures r.same(&origin), r.cplx() == true, r.freq() == false,
//@ end
//@ extract file=vector/src/vector_types/rededicate_and_relations.rs fn=rededicate_with_runtime_data impl="RededicateForceOps<DspVec<S,\sT,\sN,\sD>>\sfor\sComplexTimeVec<S,\sT>" as=runtime_ComplexTimeVec
//@ rewrite_sig /fn\s+\w+\s*\(/
fn runtime_ComplexTimeVec<N: NumberSpace, D: Domain>(
//@ rewrite_sig? /_: bool,\s*_: DataDomain/
is_complex: bool, domain: DataDomain
//@ rewrite /rededicate_from_force/
force_ComplexTimeVec
//@ ret r
//@ spec
        ensures r.same(&origin), r.cplx() == true, r.freq() == false,
//@ end
}
impl<S: ToSlice<T>, T: RealNumber> ComplexFreqVec<S, T> {
//@ extract file=vector/src/vector_types/rededicate_and_relations.rs fn=rededicate_from_force impl="RededicateForceOps<DspVec<S,\sT,\sN,\sD>>\sfor\sComplexFreqVec<S,\sT>" as=force_ComplexFreqVec
//@ rewrite_sig /fn\s+\w+\s*\(origin: DspVec<S, T, N, D>\)/
fn force_ComplexFreqVec<N: NumberSpace, D: Domain>(origin: DspVec<S, T, N, D>)
//@ ret r
//@ spec
        ensures r.same(&origin), r.cplx() == true, r.freq() == true,
//@ end
//@ extract file=vector/src/vector_types/rededicate_and_relations.rs fn=rededicate_with_runtime_data impl="RededicateForceOps<DspVec<S,\sT,\sN,\sD>>\sfor\sComplexFreqVec<S,\sT>" as=runtime_ComplexFreqVec
//@ rewrite_sig /fn\s+\w+\s*\(/
fn runtime_ComplexFreqVec<N: NumberSpace, D: Domain>(
//@ rewrite_sig? /_: bool,\s*_: DataDomain/
is_complex: bool, domain: DataDomain
//@ rewrite /rededicate_from_force/
force_ComplexFreqVec
//@ ret r
//@ spec
        ensures r.same(&origin), r.cplx() == true, r.freq() == true,
//@ end
}
impl<S: ToSlice<T>, T: RealNumber> GenDspVec<S, T> {
//@ extract file=vector/src/vector_types/rededicate_and_relations.rs fn=rededicate_from_force impl="RededicateForceOps<DspVec<S,\sT,\sN,\sD>>\sfor\sGenDspVec<S,\sT>" as=force_GenDspVec
//@ rewrite_sig /fn\s+\w+\s*\(origin: DspVec<S, T, N, D>\)/
fn force_GenDspVec<N: NumberSpace, D: Domain>(origin: DspVec<S, T, N, D>)
//@ ret r
//@ spec
        ensures r.same(&origin), r.cplx() == origin.cplx(), r.freq() == origin.freq(),
//@ end
//@ extract file=vector/src/vector_types/rededicate_and_relations.rs fn=rededicate_with_runtime_data impl="RededicateForceOps<DspVec<S,\sT,\sN,\sD>>\sfor\sGenDspVec<S,\sT>" as=runtime_GenDspVec
//@ rewrite_sig /fn\s+\w+\s*\(/
fn runtime_GenDspVec<N: NumberSpace, D: Domain>(
//@ rewrite_sig? /_: bool,\s*_: DataDomain/
is_complex: bool, domain: DataDomain
//@ rewrite /rededicate_from_force/
force_GenDspVec
//@ ret r
//@ spec
        ensures r.same(&origin), r.cplx() == is_complex, r.freq() == (domain == DataDomain::Frequency),
//@ end
}
impl<S: ToSlice<T>, T: RealNumber, N: NumberSpace, D: Domain> DspVec<S, T, N, D> {
//@ extract file=vector/src/vector_types/to_from_vec_conversions.rs fn=getf impl="FromVectorFloat<T>\sfor\sDspVec"
//@ rewrite_sig /Self::Output/
S
//@ ret r
//@ spec
        ensures r.0 == self.storage(), r.1 == self.vlen(),
//@ end
//@ extract file=vector/src/vector_types/to_from_vec_conversions.rs fn=get impl="FromVector<T>\sfor\sDspVec<S,\sT,\smeta::Real,\sD>" as=get_real
//@ rewrite_sig /Self::Output/
S
//@ ret r
//@ spec
        ensures r.0 == self.storage(), r.1 == self.vlen(),
//@ end
}
/// What rededicate_from needs of its source: the meta data of the vector trait.
pub trait VectorMeta: Sized {
    spec fn v_cplx(&self) -> bool;
    spec fn v_freq(&self) -> bool;
    fn is_complex(&self) -> (r: bool) ensures r == self.v_cplx();
    fn domain(&self) -> (r: DataDomain) ensures r == if self.v_freq() { DataDomain::Frequency } else { DataDomain::Time };
}
pub trait RededicateForceOps<O>: Sized {
    spec fn forced(origin: O) -> Self;
    fn rededicate_from_force(origin: O) -> (r: Self) ensures r == Self::forced(origin);
}
impl<S: ToSlice<T>, T: RealNumber, N: NumberSpace, D: Domain> DspVec<S, T, N, D> {
//@ extract file=vector/src/vector_types/rededicate_and_relations.rs fn=rededicate_from impl="RededicateOps<O>\sfor\sDspVec"
//@ rewrite_sig /fn\s+rededicate_from\(origin: O\)/
fn rededicate_from<O: VectorMeta>(origin: O)
//@ rewrite_sig /->\s*Self/
-> Self where DspVec<S, T, N, D>: RededicateForceOps<O>
//@ ret r
//@ spec
        ensures
            // the data is only handed on to a vector of the declared kind
            r.vlen() != 0 ==> r.cplx() == origin.v_cplx() && r.freq() == origin.v_freq(),
            ({ let f = <Self as RededicateForceOps<O>>::forced(origin);
               if f.cplx() == origin.v_cplx() && f.freq() == origin.v_freq() { r == f } else { r.vlen() == 0 && r.st() == f.st() && r.same_meta(&f) } }),
//@ end
}
/// ASSUMED contract on a dependency (Clone of the storage: an equal storage)
pub trait CloneStorage: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
impl<S: ToSlice<T> + CloneStorage, T: RealNumber, N: NumberSpace, D: Domain> DspVec<S, T, N, D> {
//@ extract file=vector/src/vector_types/to_from_vec_conversions.rs fn=clone impl="Clone\sfor\sDspVec" as=clone_vec
//@ ret r
//@ spec
        ensures r == *self,
//@ end
//@ extract file=vector/src/vector_types/to_from_vec_conversions.rs fn=clone_from impl="Clone\sfor\sDspVec" as=clone_from_vec
//@ spec
        ensures *final(self) == *source,
//@ end
}
}
fn main() {}
