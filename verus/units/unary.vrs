//@ unit-props C01 C02 C20
//@ unit-title element-wise operations: every operation applies its own function to every element
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::slice::IterMut;
use std::marker::PhantomData;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include iters
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include cparts
//@ include simdgen
//@ include changed
//@ include mark contracts
//@ include elemspec
//@ include elemapi contracts
//@ include opdone
/// the absolute value, or the root of the square
pub open spec fn is_abs<T: RealNumber>(x: T, y: T) -> bool { y == math(Fun::Abs, x) || y == math(Fun::Sqrt, x.mul_spec(x)) }
/// the conjugate, or the components multiplied by 1 and -1
pub open spec fn is_conj<T: RealNumber>(x: Complex<T>, y: Complex<T>) -> bool { y == conj_of(x) || y == (Complex { re: x.re.mul_spec(T::one_spec()), im: x.im.mul_spec(T::one_spec().neg_spec()) }) }
proof fn lemma_add_lanes<T: RealNumber, Reg: SimdGeneric<T>, F: Fn(Reg, Reg) -> Reg, G: Fn(Complex<T>, Reg) -> Complex<T>>(f: F, g: G, a: Reg, arg: Complex<T>)
    requires
        a.lanes() == Seq::new(Reg::rlen() as nat, |i: int| if i % 2 == 0 { arg.re } else { arg.im }),
        forall|x: Reg, y: Reg, q: Reg| #[trigger] call_ensures(f, (x, y), q) ==> q.lanes() == Seq::new(Reg::rlen() as nat, |i: int| x.lanes()[i].add_spec(y.lanes()[i])),
        forall|x: Complex<T>, y: Reg, q: Complex<T>| #[trigger] call_ensures(g, (x, y), q) ==> q == x.add_spec(Complex { re: y.lanes()[0], im: y.lanes()[1] }),
    ensures clanewise(f, g, a, |x: Complex<T>, y: Complex<T>| y == x.add_spec(arg)),
{
    Reg::laws();
    assert forall|r: Reg, q: Reg, i: int| #![trigger call_ensures(f, (r, a), q), cseq(q.lanes())[i]] call_ensures(f, (r, a), q) && 0 <= i < Reg::rlen() / 2 implies cseq(q.lanes())[i] == cseq(r.lanes())[i].add_spec(arg) by { Reg::law(r); Reg::law(q); }
}
proof fn lemma_conj_lanes<T: RealNumber, Reg: SimdGeneric<T>, F: Fn(Reg, Reg) -> Reg, G: Fn(Complex<T>, Reg) -> Complex<T>>(f: F, g: G, a: Reg, arg: Complex<T>)
    requires
        a.lanes() == Seq::new(Reg::rlen() as nat, |i: int| if i % 2 == 0 { arg.re } else { arg.im }),
        arg == (Complex { re: T::one_spec(), im: T::one_spec().neg_spec() }),
        forall|x: Reg, y: Reg, q: Reg| #[trigger] call_ensures(f, (x, y), q) ==> q.lanes() == Seq::new(Reg::rlen() as nat, |i: int| x.lanes()[i].mul_spec(y.lanes()[i])),
        forall|x: Complex<T>, y: Reg, q: Complex<T>| #[trigger] call_ensures(g, (x, y), q) ==> q == conj_of(x),
    ensures clanewise(f, g, a, |x: Complex<T>, y: Complex<T>| is_conj(x, y)),
{
    Reg::laws();
    assert forall|r: Reg, q: Reg, i: int| #![trigger call_ensures(f, (r, a), q), cseq(q.lanes())[i]] call_ensures(f, (r, a), q) && 0 <= i < Reg::rlen() / 2 implies is_conj(cseq(r.lanes())[i], cseq(q.lanes())[i]) by { Reg::law(r); Reg::law(q); }
}
//@ include scale
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ for m F impl = sin:Sin:TrigOps cos:Cos:TrigOps tan:Tan:TrigOps asin:Asin:TrigOps acos:Acos:TrigOps atan:Atan:TrigOps sinh:Sinh:TrigOps cosh:Cosh:TrigOps tanh:Tanh:TrigOps asinh:Asinh:TrigOps acosh:Acosh:TrigOps atanh:Atanh:TrigOps ln:Ln:PowerOps<T> exp:Exp:PowerOps<T>
//@ extract file=vector/src/vector_types/general/trigonometry_and_powers.rs fn=@m@ impl="@impl@\sfor\sDspVec" as=elem_@m@ loops=0
//@ rewrite? /\|(\w+), _\|/
|\1, ignored|
//@ rewrite? /self\.pure_complex_operation\(\s*\|(\w+), (\w+)\| (.*?), (\(\)|[a-z]\w*),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: Complex<T>) requires arith::<T>() ensures q == cmath(Fun::@F@, \1) { \3 }; self.pure_complex_operation(f, \4, \5)
//@ rewrite? /self\.pure_real_operation\(\s*\|(\w+), (\w+)\| (.*?), (\(\)|[a-z]\w*),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: T, \2: ()| -> (q: T) requires arith::<T>() ensures q == math(Fun::@F@, \1) { \3 }; self.pure_real_operation(f, \4, \5)
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures final(self).op_done(old(self), |x: T| math(Fun::@F@, x), |x: Complex<T>| cmath(Fun::@F@, x)),
//@ end
//@ endfor
//@ for m F arg = powf:Powf:exponent log:Log:base
//@ extract file=vector/src/vector_types/general/trigonometry_and_powers.rs fn=@m@ impl="PowerOps<T>\sfor\sDspVec" as=elem_@m@ loops=0
//@ rewrite? /\|(\w+), _\|/
|\1, ignored|
//@ rewrite? /self\.pure_complex_operation\(\s*\|(\w+), (\w+)\| (.*?), (\(\)|[a-z]\w*),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: Complex<T>, \2: T| -> (q: Complex<T>) requires arith::<T>() ensures q == cmath2(Fun::@F@, \1, \2) { \3 }; self.pure_complex_operation(f, \4, \5)
//@ rewrite? /self\.pure_real_operation\(\s*\|(\w+), (\w+)\| (.*?), (\(\)|[a-z]\w*),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: T, \2: T| -> (q: T) requires arith::<T>() ensures q == math2(Fun::@F@, \1, \2) { \3 }; self.pure_real_operation(f, \4, \5)
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures final(self).op_done(old(self), |x: T| math2(Fun::@F@, x, @arg@), |x: Complex<T>| cmath2(Fun::@F@, x, @arg@)),
//@ end
//@ endfor
//@ extract file=vector/src/vector_types/general/trigonometry_and_powers.rs fn=expf impl="PowerOps<T>\sfor\sDspVec" as=elem_expf loops=0
//@ rewrite? /\|(\w+), _\|/
|\1, ignored|
//@ rewrite? /self\.pure_complex_operation\(\s*\|(\w+), (\w+)\| (.*?), (\(\)|[a-z]\w*),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: Complex<T>, \2: T| -> (q: Complex<T>) requires arith::<T>() ensures q == cmath2(Fun::Expf, \1, \2) { \3 }; self.pure_complex_operation(f, \4, \5)
//@ rewrite? /self\.pure_real_operation\(\s*\|(\w+), (\w+)\| (.*?), (\(\)|[a-z]\w*),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: T, \2: T| -> (q: T) requires arith::<T>() ensures q == math2(Fun::Powf, \2, \1) { \3 }; self.pure_real_operation(f, \4, \5)
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures final(self).op_done(old(self), |x: T| math2(Fun::Powf, base, x), |x: Complex<T>| cmath2(Fun::Expf, x, base)),
//@ end
//@ extract file=vector/src/vector_types/general/trigonometry_and_powers.rs fn=root impl="PowerOps<T>\sfor\sDspVec" as=elem_root loops=0
//@ rewrite? /\|(\w+), _\|/
|\1, ignored|
//@ rewrite? /self\.powf\(/
self.elem_powf(
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures final(self).op_done(old(self), |x: T| math2(Fun::Powf, x, T::one_spec().div_spec(degree)), |x: Complex<T>| cmath2(Fun::Powf, x, T::one_spec().div_spec(degree))),
//@ end
//@ extract file=vector/src/vector_types/general/trigonometry_and_powers.rs fn=sqrt impl="PowerOps<T>\sfor\sDspVec" as=elem_sqrt loops=0
//@ rewrite? /\|(\w+), _\|/
|\1, ignored|
//@ rewrite_sig /fn sqrt\(/
fn sqrt<Reg: SimdGeneric<T>>(
//@ rewrite? /self\.pure_complex_operation\(\s*\|(\w+), (\w+)\| (.*?), (\(\)|[a-z]\w*),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: Complex<T>) requires arith::<T>() ensures q == cmath(Fun::Sqrt, \1) { \3 }; self.pure_complex_operation(f, \4, \5)
//@ rewrite? /sel_reg!\(\s*self\.simd_real_operation::<T>\(\s*\|(\w+), (\w+)\| (.*?),\s*\|(\w+), (\w+)\| (.*?),\s*(\(\)|[a-z]\w*|Complex::new\([^()]*(?:\(\))?\)),\s*(\w+(?:::\w+)?),?\s*\)\s*\)/
let f = |\1: Reg, \2: ()| -> (q: Reg) requires arith::<T>() ensures q.lanes() == Seq::new(Reg::rlen() as nat, |i: int| math(Fun::Sqrt, \1.lanes()[i])) {  \3 }; let g = |\4: T, \5: ()| -> (q: T) requires arith::<T>() ensures q == math(Fun::Sqrt, \4) {  \6 }; let arg = \7; assert(lanewise(f, g, arg, |x: T, y: T| y == math(Fun::Sqrt, x))); self.simd_real_operation(RegType::<Reg>::new(), f, g, arg, \8)
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures final(self).op_done(old(self), |x: T| math(Fun::Sqrt, x), |x: Complex<T>| cmath(Fun::Sqrt, x)),
//@ end
//@ extract file=vector/src/vector_types/general/trigonometry_and_powers.rs fn=square impl="PowerOps<T>\sfor\sDspVec" as=elem_square loops=0
//@ rewrite? /\|(\w+), _\|/
|\1, ignored|
//@ rewrite_sig /fn square\(/
fn square<Reg: SimdGeneric<T>>(
//@ rewrite? /self\.pure_complex_operation\(\s*\|(\w+), (\w+)\| (.*?), (\(\)|[a-z]\w*),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: Complex<T>, \2: ()| -> (q: Complex<T>) requires arith::<T>() ensures q == cmul(\1, \1) { \3 }; self.pure_complex_operation(f, \4, \5)
//@ rewrite? /sel_reg!\(\s*self\.simd_real_operation::<T>\(\s*\|(\w+), (\w+)\| (.*?),\s*\|(\w+), (\w+)\| (.*?),\s*(\(\)|[a-z]\w*|Complex::new\([^()]*(?:\(\))?\)),\s*(\w+(?:::\w+)?),?\s*\)\s*\)/
let f = |\1: Reg, \2: ()| -> (q: Reg) requires arith::<T>() ensures q.lanes() == Seq::new(Reg::rlen() as nat, |i: int| \1.lanes()[i].mul_spec(\1.lanes()[i])) { proof { Reg::laws(); Reg::law(\1); laws_arith::<T, Reg>(); } \3 }; let g = |\4: T, \5: ()| -> (q: T) requires arith::<T>() ensures q == \4.mul_spec(\4) {  \6 }; let arg = \7; assert(lanewise(f, g, arg, |x: T, y: T| y == x.mul_spec(x))); self.simd_real_operation(RegType::<Reg>::new(), f, g, arg, \8)
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures final(self).op_done(old(self), |x: T| x.mul_spec(x), |x: Complex<T>| cmul(x, x)),
//@ end
//@ extract file=vector/src/vector_types/general/elementary.rs fn=offset impl="OffsetOps<T>\sfor\sDspVec" as=elem_offset loops=0
//@ rewrite? /\|(\w+), _\|/
|\1, ignored|
//@ rewrite_sig /fn offset\(/
fn offset<Reg: SimdGeneric<T>>(
//@ rewrite? /sel_reg!\(\s*self\.simd_complex_operationf::<T>\(\s*\|(\w+), (\w+)\| (.*?),\s*\|(\w+), (\w+)\| (.*?),\s*(\(\)|[a-z]\w*|Complex::new\([^()]*(?:\(\))?\)),\s*(\w+(?:::\w+)?),?\s*\)\s*\)/
let f = |\1: Reg, \2: Reg| -> (q: Reg) requires arith::<T>() ensures q.lanes() == Seq::new(Reg::rlen() as nat, |i: int| \1.lanes()[i].add_spec(\2.lanes()[i])) { proof { Reg::laws(); Reg::law(\1); laws_arith::<T, Reg>(); } \3 }; let g = |\4: Complex<T>, \5: Reg| -> (q: Complex<T>) requires arith::<T>() ensures q == \4.add_spec(Complex { re: \5.lanes()[0], im: \5.lanes()[1] }) { proof { Reg::laws(); Reg::law(\5); } \6 }; let arg = \7; let ghost rel = |x: Complex<T>, y: Complex<T>| y == x.add_spec(arg); proof { assert forall|a: Reg| a.lanes() == Seq::new(Reg::rlen() as nat, |i: int| if i % 2 == 0 { arg.re } else { arg.im }) && #[trigger] splat_reg(a) implies clanewise(f, g, a, rel) by { lemma_add_lanes(f, g, a, arg); } } let ghost mid = *self; self.simd_complex_operationf(RegType::<Reg>::new(), f, g, arg, \8); assert(related(rel, cseq(mid@), cseq(self@)))
//@ rewrite? /sel_reg!\(\s*self\.simd_real_operation::<T>\(\s*\|(\w+), (\w+)\| (.*?),\s*\|(\w+), (\w+)\| (.*?),\s*(\(\)|[a-z]\w*|Complex::new\([^()]*(?:\(\))?\)),\s*(\w+(?:::\w+)?),?\s*\)\s*\)/
let f = |\1: Reg, \2: T| -> (q: Reg) requires arith::<T>() ensures q.lanes() == Seq::new(Reg::rlen() as nat, |i: int| \1.lanes()[i].add_spec(\2)) {  \3 }; let g = |\4: T, \5: T| -> (q: T) requires arith::<T>() ensures q == \4.add_spec(\5) {  \6 }; let arg = \7; assert(lanewise(f, g, arg, |x: T, y: T| y == x.add_spec(arg))); self.simd_real_operation(RegType::<Reg>::new(), f, g, arg, \8)
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures final(self).op_done(old(self), |x: T| x.add_spec(offset), |x: Complex<T>| x.add_spec(Complex { re: offset, im: T::zero_spec() })),
//@ end
//@ extract file=vector/src/vector_types/general/elementary.rs fn=offset impl="OffsetOps<Complex<T>>\sfor\sDspVec" as=elem_offset_c loops=0
//@ rewrite? /\|(\w+), _\|/
|\1, ignored|
//@ expand assert_complex
//@ rewrite_sig /fn offset\(/
fn offset<Reg: SimdGeneric<T>>(
//@ rewrite? /sel_reg!\(\s*self\.simd_complex_operationf::<T>\(\s*\|(\w+), (\w+)\| (.*?),\s*\|(\w+), (\w+)\| (.*?),\s*(\(\)|[a-z]\w*|Complex::new\([^()]*(?:\(\))?\)),\s*(\w+(?:::\w+)?),?\s*\)\s*\)/
let f = |\1: Reg, \2: Reg| -> (q: Reg) requires arith::<T>() ensures q.lanes() == Seq::new(Reg::rlen() as nat, |i: int| \1.lanes()[i].add_spec(\2.lanes()[i])) { proof { Reg::laws(); Reg::law(\1); laws_arith::<T, Reg>(); } \3 }; let g = |\4: Complex<T>, \5: Reg| -> (q: Complex<T>) requires arith::<T>() ensures q == \4.add_spec(Complex { re: \5.lanes()[0], im: \5.lanes()[1] }) { proof { Reg::laws(); Reg::law(\5); } \6 }; let arg = \7; let ghost rel = |x: Complex<T>, y: Complex<T>| y == x.add_spec(arg); proof { assert forall|a: Reg| a.lanes() == Seq::new(Reg::rlen() as nat, |i: int| if i % 2 == 0 { arg.re } else { arg.im }) && #[trigger] splat_reg(a) implies clanewise(f, g, a, rel) by { lemma_add_lanes(f, g, a, arg); } } let ghost mid = *self; self.simd_complex_operationf(RegType::<Reg>::new(), f, g, arg, \8); assert(related(rel, cseq(mid@), cseq(self@)))
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures final(self).cplx_op_done(old(self), |x: Complex<T>, y: Complex<T>| y == x.add_spec(offset)),
//@ end
//@ extract file=vector/src/vector_types/real/real_ops.rs fn=abs impl="RealOps\sfor\sDspVec" as=elem_abs loops=0
//@ rewrite? /\|(\w+), _\|/
|\1, ignored|
//@ expand assert_real
//@ rewrite_sig /fn abs\(/
fn abs<Reg: SimdGeneric<T>>(
//@ rewrite? /sel_reg!\(\s*self\.simd_real_operation::<T>\(\s*\|(\w+), (\w+)\| (.*?),\s*\|(\w+), (\w+)\| (.*?),\s*(\(\)|[a-z]\w*|Complex::new\([^()]*(?:\(\))?\)),\s*(\w+(?:::\w+)?),?\s*\)\s*\)/
let f = |\1: Reg, \2: ()| -> (q: Reg) requires arith::<T>() ensures q.lanes() =~= Seq::new(Reg::rlen() as nat, |i: int| math(Fun::Sqrt, \1.lanes()[i].mul_spec(\1.lanes()[i]))) { proof { Reg::laws(); Reg::law(\1); laws_arith::<T, Reg>(); } \3 }; let g = |\4: T, \5: ()| -> (q: T) requires arith::<T>() ensures q == math(Fun::Abs, \4) {  \6 }; let arg = \7; assert(lanewise(f, g, arg, |x: T, y: T| is_abs(x, y))); self.simd_real_operation(RegType::<Reg>::new(), f, g, arg, \8)
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures final(self).real_op_done(old(self), |x: T, y: T| is_abs(x, y)),
//@ end
//@ extract file=vector/src/vector_types/real/real_ops.rs fn=wrap impl="ModuloOps<T>\sfor\sDspVec" as=elem_wrap loops=0
//@ rewrite? /\|(\w+), _\|/
|\1, ignored|
//@ expand assert_real
//@ rewrite? /self\.pure_real_operation\(\s*\|(\w+), (\w+)\| (.*?), (\(\)|[a-z]\w*),\s*(\w+(?:::\w+)?),?\s*\)/
let f = |\1: T, \2: T| -> (q: T) requires arith::<T>() ensures q == \1.rem_spec(\2) { \3 }; self.pure_real_operation(f, \4, \5)
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures final(self).real_op_done(old(self), |x: T, y: T| y == x.rem_spec(divisor)),
//@ end
//@ extract file=vector/src/vector_types/complex/complex_ops.rs fn=conj impl="ComplexOps<T>\sfor\sDspVec" as=elem_conj loops=0
//@ rewrite? /\|(\w+), _\|/
|\1, ignored|
//@ expand assert_complex
//@ rewrite_sig /fn conj\(/
fn conj<Reg: SimdGeneric<T>>(
//@ rewrite? /sel_reg!\(\s*self\.simd_complex_operationf::<T>\(\s*\|(\w+), (\w+)\| (.*?),\s*\|(\w+), (\w+)\| (.*?),\s*(\(\)|[a-z]\w*|Complex::new\([^()]*(?:\(\))?\)),\s*(\w+(?:::\w+)?),?\s*\)\s*\)/
let f = |\1: Reg, \2: Reg| -> (q: Reg) requires arith::<T>() ensures q.lanes() == Seq::new(Reg::rlen() as nat, |i: int| \1.lanes()[i].mul_spec(\2.lanes()[i])) { proof { Reg::laws(); Reg::law(\1); laws_arith::<T, Reg>(); } \3 }; let g = |\4: Complex<T>, \5: Reg| -> (q: Complex<T>) requires arith::<T>() ensures q == conj_of(\4) {  \6 }; let arg = \7; let ghost rel = |x: Complex<T>, y: Complex<T>| is_conj(x, y); proof { assert forall|a: Reg| a.lanes() == Seq::new(Reg::rlen() as nat, |i: int| if i % 2 == 0 { arg.re } else { arg.im }) && #[trigger] splat_reg(a) implies clanewise(f, g, a, rel) by { lemma_conj_lanes(f, g, a, arg); } } let ghost mid = *self; assert(!old(self).cplx() ==> self.vlen() == 0 && self.dlt().nan_p() && !self.cplx()); self.simd_complex_operationf(RegType::<Reg>::new(), f, g, arg, \8); assert(self.only_values_changed(&mid)); assert(related(rel, cseq(mid@), cseq(self@))); assert(old(self).cplx() ==> self.only_values_changed(old(self)) && mid@ == old(self)@); assert(!old(self).cplx() ==> self.st() == old(self).st() && self.vlen() == 0 && self.dlt().nan_p() && !self.cplx())
//@ spec
        requires old(self).wf(), old(self).vlen() <= max_len(), arith::<T>(),
        ensures final(self).cplx_op_done(old(self), |x: Complex<T>, y: Complex<T>| is_conj(x, y)),
//@ end
}
}
fn main() {}
