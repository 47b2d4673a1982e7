//@ unit-props C01 C11 C13 C23
//@ unit-title the registers of the portable build do lane by lane what the contracts of registers promise
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::slice::IterMut;
use std::marker::PhantomData;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include iters
//@ include simdpart contracts
//@ include simdgen
/// ASSUMED of the float types: they meet the contract of numbers (see the prelude) and their operators are total functions
//@ for F = f32 f64
impl RealNumber for @F@ {
    uninterp spec fn zero_spec() -> Self;
    #[verifier::external_body] fn zero() -> (r: Self) { unimplemented!() }
    uninterp spec fn one_spec() -> Self;
    #[verifier::external_body] fn one() -> (r: Self) { unimplemented!() }
    uninterp spec fn nan_p(self) -> bool;
    #[verifier::external_body] fn nan() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn is_nan(self) -> (r: bool) { unimplemented!() }
//@ for f = sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh sqrt ln exp abs floor round
    #[verifier::external_body] fn @f@(self) -> (r: Self) { unimplemented!() }
//@ endfor
//@ for f = powf log max min
    #[verifier::external_body] fn @f@(self, y: Self) -> (r: Self) { unimplemented!() }
//@ endfor
    #[verifier::external_body] fn to_usize(self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn to_isize(self) -> (r: Option<isize>) { unimplemented!() }
}
//@ endfor
#[verifier::external_body]
proof fn axiom_floats()
    ensures
        arith::<f32>(), arith::<f64>(),
        <f32 as AddSpec>::obeys_add_spec(), (forall|a: f32, b: f32| #[trigger] a.add_req(b)),
        <f32 as SubSpec>::obeys_sub_spec(), (forall|a: f32, b: f32| #[trigger] a.sub_req(b)),
        <f32 as MulSpec>::obeys_mul_spec(), (forall|a: f32, b: f32| #[trigger] a.mul_req(b)),
        <f32 as DivSpec>::obeys_div_spec(), (forall|a: f32, b: f32| #[trigger] a.div_req(b)),
        <f64 as AddSpec>::obeys_add_spec(), (forall|a: f64, b: f64| #[trigger] a.add_req(b)),
        <f64 as SubSpec>::obeys_sub_spec(), (forall|a: f64, b: f64| #[trigger] a.sub_req(b)),
        <f64 as MulSpec>::obeys_mul_spec(), (forall|a: f64, b: f64| #[trigger] a.mul_req(b)),
        <f64 as DivSpec>::obeys_div_spec(), (forall|a: f64, b: f64| #[trigger] a.div_req(b)),
{}
/// the sums of a register are added in this order; nothing else is assumed of them elsewhere
#[verifier::external_body]
proof fn axiom_sums<T: RealNumber>(a: Seq<T>, c: Seq<Complex<T>>)
    ensures
        a.len() == 4 ==> lanes_sum(a) == a[0].add_spec(a[1]).add_spec(a[2]).add_spec(a[3]),
        a.len() == 2 ==> lanes_sum(a) == a[0].add_spec(a[1]),
        c.len() == 2 ==> clanes_sum(c) == (Complex { re: c[0].re.add_spec(c[1].re), im: c[0].im.add_spec(c[1].im) }),
        c.len() == 1 ==> clanes_sum(c) == c[0],
{}

/// ASSUMED: the address of a slice is a multiple of the size of its elements; a register is 16 bytes
pub uninterp spec fn address<T>(a: &[T]) -> int;
pub uninterp spec fn size_of_one<T>() -> int;
#[verifier::external_body]
fn address_of<T>(a: &[T]) -> (r: usize) ensures r == address(a), address(a) % size_of_one::<T>() == 0 { unimplemented!() }
#[verifier::external_body]
proof fn axiom_sizes() ensures size_of_one::<f32>() == 4, size_of_one::<f64>() == 8 {}
#[verifier::external_body]
fn register_size<Reg>() -> (r: usize) ensures r == 16 { unimplemented!() }
//@ extract file=vector/src/simd_extensions/mod.rs fn=get_alignment_offset
//@ ret r
//@ spec
        requires reg_len != 0,
        ensures r == addr % reg_len,
//@ end

//@ extract file=vector/src/simd_extensions/fallback.rs item=struct:f32x4
//@ prefix
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
pub
//@ end
impl Lanes<f32> for f32x4 {
    open spec fn rlen() -> int { 4 }
    open spec fn lanes(self) -> Seq<f32> { Seq::new(4 as nat, |i: int| lane_f32x4(self, i)) }
}
pub closed spec fn lane_f32x4(r: f32x4, i: int) -> f32 { if i == 0 { r.0 } else if i == 1 { r.1 } else if i == 2 { r.2 } else { r.3 } }

#[verifier::external_body]
proof fn axiom_pair_f32(a: f32, b: f32) ensures a.add_req(b), a.sub_req(b), a.mul_req(b), a.div_req(b) {}
proof fn total_f32x4(a: f32x4, b: f32x4)
    ensures a.0.add_req(b.0), a.0.sub_req(b.0), a.0.mul_req(b.0), a.0.div_req(b.0), a.1.add_req(b.1), a.1.sub_req(b.1), a.1.mul_req(b.1), a.1.div_req(b.1), a.2.add_req(b.2), a.2.sub_req(b.2), a.2.mul_req(b.2), a.2.div_req(b.2), a.3.add_req(b.3), a.3.sub_req(b.3), a.3.mul_req(b.3), a.3.div_req(b.3), a.0.add_req(a.0), a.0.sub_req(a.0), a.0.mul_req(a.0), a.0.div_req(a.0), a.0.add_req(a.1), a.0.sub_req(a.1), a.0.mul_req(a.1), a.0.div_req(a.1), a.0.add_req(a.2), a.0.sub_req(a.2), a.0.mul_req(a.2), a.0.div_req(a.2), a.0.add_req(a.3), a.0.sub_req(a.3), a.0.mul_req(a.3), a.0.div_req(a.3), a.1.add_req(a.1), a.1.sub_req(a.1), a.1.mul_req(a.1), a.1.div_req(a.1), a.1.add_req(a.2), a.1.sub_req(a.2), a.1.mul_req(a.2), a.1.div_req(a.2), a.1.add_req(a.3), a.1.sub_req(a.3), a.1.mul_req(a.3), a.1.div_req(a.3), a.2.add_req(a.2), a.2.sub_req(a.2), a.2.mul_req(a.2), a.2.div_req(a.2), a.2.add_req(a.3), a.2.sub_req(a.3), a.2.mul_req(a.3), a.2.div_req(a.3), a.3.add_req(a.3), a.3.sub_req(a.3), a.3.mul_req(a.3), a.3.div_req(a.3), <f32 as AddSpec>::obeys_add_spec(), <f32 as SubSpec>::obeys_sub_spec(), <f32 as MulSpec>::obeys_mul_spec(), <f32 as DivSpec>::obeys_div_spec(),
{ axiom_floats(); axiom_pair_f32(a.0, b.0); axiom_pair_f32(a.1, b.1); axiom_pair_f32(a.2, b.2); axiom_pair_f32(a.3, b.3); axiom_pair_f32(a.0, a.0); axiom_pair_f32(a.0, a.1); axiom_pair_f32(a.0, a.2); axiom_pair_f32(a.0, a.3); axiom_pair_f32(a.1, a.1); axiom_pair_f32(a.1, a.2); axiom_pair_f32(a.1, a.3); axiom_pair_f32(a.2, a.2); axiom_pair_f32(a.2, a.3); axiom_pair_f32(a.3, a.3); }
impl f32x4 {
//@ extract file=vector/src/simd_extensions/fallback.rs fn=new impl="impl\sf32x4" 
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ spec
        ensures r.lanes() =~= seq![v1, v2, v3, v4], r.0 == v1, r.1 == v2, r.2 == v3, r.3 == v4,
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=splat impl="impl\sf32x4" 
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{  let out = {\1}; proof { assert(out.lanes() =~= Seq::new(4 as nat, |i: int| value)); } out }
//@ spec
        ensures r.lanes() == Seq::new(4 as nat, |i: int| value),
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=from_slice_unaligned impl="impl\sf32x4" 
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{  let out = {\1}; proof { assert(out.lanes() =~= array@.subrange(0, 4)); } out }
//@ spec
        requires array@.len() >= 4,
        ensures r.lanes() == array@.subrange(0, 4),
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=extract impl="impl\sf32x4" 
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite? /panic!\([^()]*\)/
vstd::pervasive::unreached()
//@ spec
        requires index < 4,
        ensures r == self.lanes()[index as int],
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=write_to_slice_unaligned impl="impl\sf32x4" 
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ spec
        requires old(array)@.len() >= 4,
        ensures final(array)@.len() == old(array)@.len(), forall|i: int| #![trigger final(array)@[i]] 0 <= i < old(array)@.len() ==> final(array)@[i] == if i < 4 { self.lanes()[i] } else { old(array)@[i] },
//@ end
}
impl vstd::std_specs::ops::AddSpecImpl for f32x4 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: f32x4) -> bool { true }
    closed spec fn add_spec(self, o: f32x4) -> f32x4 { f32x4(self.0.add_spec(o.0), self.1.add_spec(o.1), self.2.add_spec(o.2), self.3.add_spec(o.3)) }
}
impl Add for f32x4 {
    type Output = Self;
//@ extract file=vector/src/simd_extensions/fallback.rs fn=add impl="impl\sAdd\sfor\sf32x4" noprobe=1
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ body_start
proof { axiom_floats(); total_f32x4(self, x); }
//@ end
}
impl vstd::std_specs::ops::SubSpecImpl for f32x4 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: f32x4) -> bool { true }
    closed spec fn sub_spec(self, o: f32x4) -> f32x4 { f32x4(self.0.sub_spec(o.0), self.1.sub_spec(o.1), self.2.sub_spec(o.2), self.3.sub_spec(o.3)) }
}
impl Sub for f32x4 {
    type Output = Self;
//@ extract file=vector/src/simd_extensions/fallback.rs fn=sub impl="impl\sSub\sfor\sf32x4" noprobe=1
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ body_start
proof { axiom_floats(); total_f32x4(self, x); }
//@ end
}
impl vstd::std_specs::ops::MulSpecImpl for f32x4 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: f32x4) -> bool { true }
    closed spec fn mul_spec(self, o: f32x4) -> f32x4 { f32x4(self.0.mul_spec(o.0), self.1.mul_spec(o.1), self.2.mul_spec(o.2), self.3.mul_spec(o.3)) }
}
impl Mul for f32x4 {
    type Output = Self;
//@ extract file=vector/src/simd_extensions/fallback.rs fn=mul impl="impl\sMul\sfor\sf32x4" noprobe=1
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ body_start
proof { axiom_floats(); total_f32x4(self, x); }
//@ end
}
impl vstd::std_specs::ops::DivSpecImpl for f32x4 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: f32x4) -> bool { true }
    closed spec fn div_spec(self, o: f32x4) -> f32x4 { f32x4(self.0.div_spec(o.0), self.1.div_spec(o.1), self.2.div_spec(o.2), self.3.div_spec(o.3)) }
}
impl Div for f32x4 {
    type Output = Self;
//@ extract file=vector/src/simd_extensions/fallback.rs fn=div impl="impl\sDiv\sfor\sf32x4" noprobe=1
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ body_start
proof { axiom_floats(); total_f32x4(self, x); }
//@ end
}
proof fn lemma_arith_f32x4()
    ensures
        forall|a: f32x4, b: f32x4| (#[trigger] a.add_spec(b)).lanes() == Seq::new(4, |i: int| a.lanes()[i].add_spec(b.lanes()[i])),
        forall|a: f32x4, b: f32x4| (#[trigger] a.sub_spec(b)).lanes() == Seq::new(4, |i: int| a.lanes()[i].sub_spec(b.lanes()[i])),
        forall|a: f32x4, b: f32x4| (#[trigger] a.mul_spec(b)).lanes() == Seq::new(4, |i: int| a.lanes()[i].mul_spec(b.lanes()[i])),
        forall|a: f32x4, b: f32x4| (#[trigger] a.div_spec(b)).lanes() == Seq::new(4, |i: int| a.lanes()[i].div_spec(b.lanes()[i])),
{
    assert forall|a: f32x4, b: f32x4| (#[trigger] a.add_spec(b)).lanes() == Seq::new(4, |i: int| a.lanes()[i].add_spec(b.lanes()[i])) by { assert(a.add_spec(b).lanes() =~= Seq::new(4, |i: int| a.lanes()[i].add_spec(b.lanes()[i]))); }
    assert forall|a: f32x4, b: f32x4| (#[trigger] a.sub_spec(b)).lanes() == Seq::new(4, |i: int| a.lanes()[i].sub_spec(b.lanes()[i])) by { assert(a.sub_spec(b).lanes() =~= Seq::new(4, |i: int| a.lanes()[i].sub_spec(b.lanes()[i]))); }
    assert forall|a: f32x4, b: f32x4| (#[trigger] a.mul_spec(b)).lanes() == Seq::new(4, |i: int| a.lanes()[i].mul_spec(b.lanes()[i])) by { assert(a.mul_spec(b).lanes() =~= Seq::new(4, |i: int| a.lanes()[i].mul_spec(b.lanes()[i]))); }
    assert forall|a: f32x4, b: f32x4| (#[trigger] a.div_spec(b)).lanes() == Seq::new(4, |i: int| a.lanes()[i].div_spec(b.lanes()[i])) by { assert(a.div_spec(b).lanes() =~= Seq::new(4, |i: int| a.lanes()[i].div_spec(b.lanes()[i]))); }
}
impl SimdGeneric<f32> for f32x4 {
    const LEN: usize = 4;
    proof fn laws() {}
    proof fn law(r: Self) {}
    proof fn law_arith(a: Self, b: Self) {
        assert(a.add_spec(b).lanes() =~= Seq::new(Self::rlen() as nat, |i: int| a.lanes()[i].add_spec(b.lanes()[i])));
        assert(a.sub_spec(b).lanes() =~= Seq::new(Self::rlen() as nat, |i: int| a.lanes()[i].sub_spec(b.lanes()[i])));
        assert(a.mul_spec(b).lanes() =~= Seq::new(Self::rlen() as nat, |i: int| a.lanes()[i].mul_spec(b.lanes()[i])));
        assert(a.div_spec(b).lanes() =~= Seq::new(Self::rlen() as nat, |i: int| a.lanes()[i].div_spec(b.lanes()[i])));
    }
//@ extract file=vector/src/simd_extensions/fallback.rs fn=from_complex impl="impl\sSimd<f32>\sfor\sf32x4" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); } let out = {\1}; proof { assert(out.lanes() =~= Seq::new(Self::rlen() as nat, |i: int| if i % 2 == 0 { value.re } else { value.im })); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=add_real impl="impl\sSimd<f32>\sfor\sf32x4" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f32x4(self, self); } proof { lemma_arith_f32x4(); } let out = {\1}; proof { assert(out.lanes() =~= Seq::new(Self::rlen() as nat, |i: int| self.lanes()[i].add_spec(value))); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=scale_real impl="impl\sSimd<f32>\sfor\sf32x4" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f32x4(self, self); } proof { lemma_arith_f32x4(); } let out = {\1}; proof { assert(out.lanes() =~= Seq::new(Self::rlen() as nat, |i: int| self.lanes()[i].mul_spec(value))); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=scale_complex impl="impl\sSimd<f32>\sfor\sf32x4" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f32x4(self, self); } let out = {\1}; proof { assert(cseq(out.lanes()) =~= Seq::new((Self::rlen() / 2) as nat, |i: int| cseq(self.lanes())[i].mul_spec(value))); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=mul_complex impl="impl\sSimd<f32>\sfor\sf32x4" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f32x4(self, self); } let out = {\1}; proof { assert(cseq(out.lanes()) =~= Seq::new((Self::rlen() / 2) as nat, |i: int| cseq(self.lanes())[i].mul_spec(cseq(value.lanes())[i]))); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=div_complex impl="impl\sSimd<f32>\sfor\sf32x4" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f32x4(self, self); } let out = {\1}; proof { assert(cseq(out.lanes()) =~= Seq::new((Self::rlen() / 2) as nat, |i: int| cseq(self.lanes())[i].div_spec(cseq(value.lanes())[i]))); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=sqrt impl="impl\sSimd<f32>\sfor\sf32x4" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f32x4(self, self); } let out = {\1}; proof { assert(out.lanes() =~= Seq::new(Self::rlen() as nat, |i: int| math(Fun::Sqrt, self.lanes()[i]))); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=complex_abs impl="impl\sSimd<f32>\sfor\sf32x4" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite? /let squared = self \* self;/
let squared = self * self; proof { total_f32x4(squared, squared); }
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f32x4(self, self); } let out = {\1}; proof { assert(cseq(self.lanes())[0] == (Complex { re: self.0, im: self.1 })); assert(cseq(self.lanes())[1] == (Complex { re: self.2, im: self.3 })); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=complex_abs_squared impl="impl\sSimd<f32>\sfor\sf32x4" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite? /let squared = self \* self;/
let squared = self * self; proof { total_f32x4(squared, squared); }
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f32x4(self, self); } let out = {\1}; proof { assert(cseq(self.lanes())[0] == (Complex { re: self.0, im: self.1 })); assert(cseq(self.lanes())[1] == (Complex { re: self.2, im: self.3 })); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=store_half impl="impl\sSimd<f32>\sfor\sf32x4" noprobe=1
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=sum_real impl="impl\sSimd<f32>\sfor\sf32x4" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ body_start
proof { axiom_floats(); total_f32x4(*self, *self); } proof { axiom_floats(); axiom_sums::<f32>(self.lanes(), seq![]); }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=sum_complex impl="impl\sSimd<f32>\sfor\sf32x4" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f32x4(*self, *self); } proof { axiom_floats(); axiom_sums::<f32>(seq![], cseq(self.lanes())); } let out = {\1}; proof { assert(cseq(self.lanes())[0] == (Complex { re: self.0, im: self.1 })); assert(cseq(self.lanes())[1] == (Complex { re: self.2, im: self.3 })); } out }
//@ end
//@ extract file=vector/src/simd_extensions/mod.rs fn=load  via=simd_generic_impl nth=7 noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite? /fallback::f32x4/
f32x4
//@ body_start
proof { let n = array.len(); assert(array@.len() == n); }
//@ end
//@ extract file=vector/src/simd_extensions/mod.rs fn=extract  via=simd_generic_impl nth=7 noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite? /fallback::f32x4/
f32x4
//@ end
//@ extract file=vector/src/simd_extensions/mod.rs fn=splat  via=simd_generic_impl nth=7 noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite? /fallback::f32x4/
f32x4
//@ end
//@ extract file=vector/src/simd_extensions/mod.rs fn=calc_data_alignment_reqs  via=simd_generic_impl nth=7 noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f32
//@ rewrite? /Complex::new/
Complex::<f32>::new
//@ rewrite? /mem::size_of::<Self>\(\)/
register_size::<Self>()
//@ rewrite? /mem::size_of::<f32>\(\)/
4usize
//@ rewrite /array\.as_ptr\(\)/
address_of(array)
//@ body_start
proof { axiom_sizes(); }
//@ spec
        ensures r.left < array@.len() ==> (address(array) + r.left * 4) % 16 == 0,
//@ end
    #[verifier::external_body]
    fn array_to_regs(array: &[f32]) -> (r: &[Self]) { unimplemented!() }
    #[verifier::external_body]
    fn array_to_regs_mut(array: &mut [f32]) -> (r: &mut [Self]) { unimplemented!() }
}
//@ extract file=vector/src/simd_extensions/fallback.rs item=struct:f64x2
//@ prefix
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
pub
//@ end
impl Lanes<f64> for f64x2 {
    open spec fn rlen() -> int { 2 }
    open spec fn lanes(self) -> Seq<f64> { Seq::new(2 as nat, |i: int| lane_f64x2(self, i)) }
}
pub closed spec fn lane_f64x2(r: f64x2, i: int) -> f64 { if i == 0 { r.0 } else { r.1 } }

#[verifier::external_body]
proof fn axiom_pair_f64(a: f64, b: f64) ensures a.add_req(b), a.sub_req(b), a.mul_req(b), a.div_req(b) {}
proof fn total_f64x2(a: f64x2, b: f64x2)
    ensures a.0.add_req(b.0), a.0.sub_req(b.0), a.0.mul_req(b.0), a.0.div_req(b.0), a.1.add_req(b.1), a.1.sub_req(b.1), a.1.mul_req(b.1), a.1.div_req(b.1), a.0.add_req(a.0), a.0.sub_req(a.0), a.0.mul_req(a.0), a.0.div_req(a.0), a.0.add_req(a.1), a.0.sub_req(a.1), a.0.mul_req(a.1), a.0.div_req(a.1), a.1.add_req(a.1), a.1.sub_req(a.1), a.1.mul_req(a.1), a.1.div_req(a.1), <f64 as AddSpec>::obeys_add_spec(), <f64 as SubSpec>::obeys_sub_spec(), <f64 as MulSpec>::obeys_mul_spec(), <f64 as DivSpec>::obeys_div_spec(),
{ axiom_floats(); axiom_pair_f64(a.0, b.0); axiom_pair_f64(a.1, b.1); axiom_pair_f64(a.0, a.0); axiom_pair_f64(a.0, a.1); axiom_pair_f64(a.1, a.1); }
impl f64x2 {
//@ extract file=vector/src/simd_extensions/fallback.rs fn=new impl="impl\sf64x2" 
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ spec
        ensures r.lanes() =~= seq![v1, v2], r.0 == v1, r.1 == v2,
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=splat impl="impl\sf64x2" 
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{  let out = {\1}; proof { assert(out.lanes() =~= Seq::new(2 as nat, |i: int| value)); } out }
//@ spec
        ensures r.lanes() == Seq::new(2 as nat, |i: int| value),
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=from_slice_unaligned impl="impl\sf64x2" 
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{  let out = {\1}; proof { assert(out.lanes() =~= array@.subrange(0, 2)); } out }
//@ spec
        requires array@.len() >= 2,
        ensures r.lanes() == array@.subrange(0, 2),
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=extract impl="impl\sf64x2" 
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite? /panic!\([^()]*\)/
vstd::pervasive::unreached()
//@ spec
        requires index < 2,
        ensures r == self.lanes()[index as int],
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=write_to_slice_unaligned impl="impl\sf64x2" 
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ spec
        requires old(array)@.len() >= 2,
        ensures final(array)@.len() == old(array)@.len(), forall|i: int| #![trigger final(array)@[i]] 0 <= i < old(array)@.len() ==> final(array)@[i] == if i < 2 { self.lanes()[i] } else { old(array)@[i] },
//@ end
}
impl vstd::std_specs::ops::AddSpecImpl for f64x2 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: f64x2) -> bool { true }
    closed spec fn add_spec(self, o: f64x2) -> f64x2 { f64x2(self.0.add_spec(o.0), self.1.add_spec(o.1)) }
}
impl Add for f64x2 {
    type Output = Self;
//@ extract file=vector/src/simd_extensions/fallback.rs fn=add impl="impl\sAdd\sfor\sf64x2" noprobe=1
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ body_start
proof { axiom_floats(); total_f64x2(self, x); }
//@ end
}
impl vstd::std_specs::ops::SubSpecImpl for f64x2 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: f64x2) -> bool { true }
    closed spec fn sub_spec(self, o: f64x2) -> f64x2 { f64x2(self.0.sub_spec(o.0), self.1.sub_spec(o.1)) }
}
impl Sub for f64x2 {
    type Output = Self;
//@ extract file=vector/src/simd_extensions/fallback.rs fn=sub impl="impl\sSub\sfor\sf64x2" noprobe=1
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ body_start
proof { axiom_floats(); total_f64x2(self, x); }
//@ end
}
impl vstd::std_specs::ops::MulSpecImpl for f64x2 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: f64x2) -> bool { true }
    closed spec fn mul_spec(self, o: f64x2) -> f64x2 { f64x2(self.0.mul_spec(o.0), self.1.mul_spec(o.1)) }
}
impl Mul for f64x2 {
    type Output = Self;
//@ extract file=vector/src/simd_extensions/fallback.rs fn=mul impl="impl\sMul\sfor\sf64x2" noprobe=1
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ body_start
proof { axiom_floats(); total_f64x2(self, x); }
//@ end
}
impl vstd::std_specs::ops::DivSpecImpl for f64x2 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: f64x2) -> bool { true }
    closed spec fn div_spec(self, o: f64x2) -> f64x2 { f64x2(self.0.div_spec(o.0), self.1.div_spec(o.1)) }
}
impl Div for f64x2 {
    type Output = Self;
//@ extract file=vector/src/simd_extensions/fallback.rs fn=div impl="impl\sDiv\sfor\sf64x2" noprobe=1
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ body_start
proof { axiom_floats(); total_f64x2(self, x); }
//@ end
}
proof fn lemma_arith_f64x2()
    ensures
        forall|a: f64x2, b: f64x2| (#[trigger] a.add_spec(b)).lanes() == Seq::new(2, |i: int| a.lanes()[i].add_spec(b.lanes()[i])),
        forall|a: f64x2, b: f64x2| (#[trigger] a.sub_spec(b)).lanes() == Seq::new(2, |i: int| a.lanes()[i].sub_spec(b.lanes()[i])),
        forall|a: f64x2, b: f64x2| (#[trigger] a.mul_spec(b)).lanes() == Seq::new(2, |i: int| a.lanes()[i].mul_spec(b.lanes()[i])),
        forall|a: f64x2, b: f64x2| (#[trigger] a.div_spec(b)).lanes() == Seq::new(2, |i: int| a.lanes()[i].div_spec(b.lanes()[i])),
{
    assert forall|a: f64x2, b: f64x2| (#[trigger] a.add_spec(b)).lanes() == Seq::new(2, |i: int| a.lanes()[i].add_spec(b.lanes()[i])) by { assert(a.add_spec(b).lanes() =~= Seq::new(2, |i: int| a.lanes()[i].add_spec(b.lanes()[i]))); }
    assert forall|a: f64x2, b: f64x2| (#[trigger] a.sub_spec(b)).lanes() == Seq::new(2, |i: int| a.lanes()[i].sub_spec(b.lanes()[i])) by { assert(a.sub_spec(b).lanes() =~= Seq::new(2, |i: int| a.lanes()[i].sub_spec(b.lanes()[i]))); }
    assert forall|a: f64x2, b: f64x2| (#[trigger] a.mul_spec(b)).lanes() == Seq::new(2, |i: int| a.lanes()[i].mul_spec(b.lanes()[i])) by { assert(a.mul_spec(b).lanes() =~= Seq::new(2, |i: int| a.lanes()[i].mul_spec(b.lanes()[i]))); }
    assert forall|a: f64x2, b: f64x2| (#[trigger] a.div_spec(b)).lanes() == Seq::new(2, |i: int| a.lanes()[i].div_spec(b.lanes()[i])) by { assert(a.div_spec(b).lanes() =~= Seq::new(2, |i: int| a.lanes()[i].div_spec(b.lanes()[i]))); }
}
impl SimdGeneric<f64> for f64x2 {
    const LEN: usize = 2;
    proof fn laws() {}
    proof fn law(r: Self) {}
    proof fn law_arith(a: Self, b: Self) {
        assert(a.add_spec(b).lanes() =~= Seq::new(Self::rlen() as nat, |i: int| a.lanes()[i].add_spec(b.lanes()[i])));
        assert(a.sub_spec(b).lanes() =~= Seq::new(Self::rlen() as nat, |i: int| a.lanes()[i].sub_spec(b.lanes()[i])));
        assert(a.mul_spec(b).lanes() =~= Seq::new(Self::rlen() as nat, |i: int| a.lanes()[i].mul_spec(b.lanes()[i])));
        assert(a.div_spec(b).lanes() =~= Seq::new(Self::rlen() as nat, |i: int| a.lanes()[i].div_spec(b.lanes()[i])));
    }
//@ extract file=vector/src/simd_extensions/fallback.rs fn=from_complex impl="impl\sSimd<f64>\sfor\sf64x2" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); } let out = {\1}; proof { assert(out.lanes() =~= Seq::new(Self::rlen() as nat, |i: int| if i % 2 == 0 { value.re } else { value.im })); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=add_real impl="impl\sSimd<f64>\sfor\sf64x2" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f64x2(self, self); } proof { lemma_arith_f64x2(); } let out = {\1}; proof { assert(out.lanes() =~= Seq::new(Self::rlen() as nat, |i: int| self.lanes()[i].add_spec(value))); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=scale_real impl="impl\sSimd<f64>\sfor\sf64x2" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f64x2(self, self); } proof { lemma_arith_f64x2(); } let out = {\1}; proof { assert(out.lanes() =~= Seq::new(Self::rlen() as nat, |i: int| self.lanes()[i].mul_spec(value))); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=scale_complex impl="impl\sSimd<f64>\sfor\sf64x2" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f64x2(self, self); } let out = {\1}; proof { assert(cseq(out.lanes()) =~= Seq::new((Self::rlen() / 2) as nat, |i: int| cseq(self.lanes())[i].mul_spec(value))); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=mul_complex impl="impl\sSimd<f64>\sfor\sf64x2" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f64x2(self, self); } let out = {\1}; proof { assert(cseq(out.lanes()) =~= Seq::new((Self::rlen() / 2) as nat, |i: int| cseq(self.lanes())[i].mul_spec(cseq(value.lanes())[i]))); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=div_complex impl="impl\sSimd<f64>\sfor\sf64x2" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f64x2(self, self); } let out = {\1}; proof { assert(cseq(out.lanes()) =~= Seq::new((Self::rlen() / 2) as nat, |i: int| cseq(self.lanes())[i].div_spec(cseq(value.lanes())[i]))); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=sqrt impl="impl\sSimd<f64>\sfor\sf64x2" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f64x2(self, self); } let out = {\1}; proof { assert(out.lanes() =~= Seq::new(Self::rlen() as nat, |i: int| math(Fun::Sqrt, self.lanes()[i]))); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=complex_abs impl="impl\sSimd<f64>\sfor\sf64x2" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite? /let squared = self \* self;/
let squared = self * self; proof { total_f64x2(squared, squared); }
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f64x2(self, self); } let out = {\1}; proof { assert(cseq(self.lanes())[0] == (Complex { re: self.0, im: self.1 })); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=complex_abs_squared impl="impl\sSimd<f64>\sfor\sf64x2" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite? /let squared = self \* self;/
let squared = self * self; proof { total_f64x2(squared, squared); }
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f64x2(self, self); } let out = {\1}; proof { assert(cseq(self.lanes())[0] == (Complex { re: self.0, im: self.1 })); } out }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=store_half impl="impl\sSimd<f64>\sfor\sf64x2" noprobe=1
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=sum_real impl="impl\sSimd<f64>\sfor\sf64x2" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ body_start
proof { axiom_floats(); total_f64x2(*self, *self); } proof { axiom_floats(); axiom_sums::<f64>(self.lanes(), seq![]); }
//@ end
//@ extract file=vector/src/simd_extensions/fallback.rs fn=sum_complex impl="impl\sSimd<f64>\sfor\sf64x2" noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite /\A\s*\{(.*)\}\s*\Z/
{ proof { axiom_floats(); total_f64x2(*self, *self); } proof { axiom_floats(); axiom_sums::<f64>(seq![], cseq(self.lanes())); } let out = {\1}; proof { assert(cseq(self.lanes())[0] == (Complex { re: self.0, im: self.1 })); } out }
//@ end
//@ extract file=vector/src/simd_extensions/mod.rs fn=load  via=simd_generic_impl nth=8 noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite? /fallback::f64x2/
f64x2
//@ body_start
proof { let n = array.len(); assert(array@.len() == n); }
//@ end
//@ extract file=vector/src/simd_extensions/mod.rs fn=extract  via=simd_generic_impl nth=8 noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite? /fallback::f64x2/
f64x2
//@ end
//@ extract file=vector/src/simd_extensions/mod.rs fn=splat  via=simd_generic_impl nth=8 noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite? /fallback::f64x2/
f64x2
//@ end
//@ extract file=vector/src/simd_extensions/mod.rs fn=calc_data_alignment_reqs  via=simd_generic_impl nth=8 noprobe=1
//@ ret r
//@ rewrite? /\(([^()]*)\)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /(self\.\d)\.sqrt\(\)/
RealNumber::sqrt(\1)
//@ rewrite? /\b0\.0\b/
0.0f64
//@ rewrite? /Complex::new/
Complex::<f64>::new
//@ rewrite? /mem::size_of::<Self>\(\)/
register_size::<Self>()
//@ rewrite? /mem::size_of::<f64>\(\)/
8usize
//@ rewrite /array\.as_ptr\(\)/
address_of(array)
//@ body_start
proof { axiom_sizes(); }
//@ spec
        ensures r.left < array@.len() ==> (address(array) + r.left * 8) % 16 == 0,
//@ end
    #[verifier::external_body]
    fn array_to_regs(array: &[f64]) -> (r: &[Self]) { unimplemented!() }
    #[verifier::external_body]
    fn array_to_regs_mut(array: &mut [f64]) -> (r: &mut [Self]) { unimplemented!() }
}
}
fn main() {}
