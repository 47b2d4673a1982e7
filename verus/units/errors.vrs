//@ unit-props C21
//@ unit-title result codes of the C interface
//@ include prelude

//@ extract file=vector/src/vector_types/general/data_reorganization.rs item=enum:PaddingOption
//@ prefix
#[derive(Copy, Clone, PartialEq, Eq)]
pub
//@ end
/// the documented codes (13 and 14 are defined by the code only)
pub open spec fn code(e: ErrorReason) -> int {
    match e {
        ErrorReason::InputMustHaveTheSameSize => 1, ErrorReason::InputMetaDataMustAgree => 2, ErrorReason::InputMustBeComplex => 3,
        ErrorReason::InputMustBeReal => 4, ErrorReason::InputMustBeInTimeDomain => 5, ErrorReason::InputMustBeInFrequencyDomain => 6,
        ErrorReason::InvalidArgumentLength => 7, ErrorReason::InputMustBeConjSymmetric => 8, ErrorReason::InputMustHaveAnOddLength => 9,
        ErrorReason::ArgumentFunctionMustBeSymmetric => 10, ErrorReason::InvalidNumberOfArgumentsForCombinedOp => 11,
        ErrorReason::InputMustNotBeEmpty => 12, ErrorReason::InputMustHaveAnEvenLength => 13, ErrorReason::TypeCanNotResize => 14,
    }
}
/// reasons can be told apart by their codes, and from success and from an erroneous vector
proof fn lemma_codes()
    ensures
        forall|e: ErrorReason| #[trigger] code(e) > 0,
        forall|a: ErrorReason, b: ErrorReason| #[trigger] code(a) == #[trigger] code(b) ==> a == b,
{}
pub open spec fn void_code(r: VoidResult) -> int { match r { Ok(()) => 0, Err(e) => code(e) } }
proof fn lemma_void_codes()
    ensures forall|r: VoidResult| (#[trigger] void_code(r) == 0) <==> r.is_ok(),
        forall|a: VoidResult, b: VoidResult| #[trigger] void_code(a) == #[trigger] void_code(b) ==> a == b,
{
    lemma_codes();
    assert forall|a: VoidResult, b: VoidResult| #[trigger] void_code(a) == #[trigger] void_code(b) implies a == b by {
        match (a, b) { (Err(x), Err(y)) => { assert(code(x) == code(y)); } (Ok(u), Ok(v)) => { assert(u == v); } _ => {} }
    }
}

//@ extract file=interop/src/lib.rs fn=translate_error
//@ ret r
//@ spec
        ensures r == code(reason),
//@ end
//@ extract file=interop/src/lib.rs fn=convert_void
//@ ret r
//@ spec
        ensures r == void_code(result), (r == 0) <==> result.is_ok(),
//@ body_start
        proof { lemma_void_codes(); }
//@ end
//@ extract file=interop/src/lib.rs fn=translate_to_padding_option
//@ ret r
//@ spec
        ensures
            value == 0 ==> r == PaddingOption::End,
            value == 1 ==> r == PaddingOption::Surround,
            value != 0 && value != 1 ==> r == PaddingOption::Center,
//@ end

// ---- handing the result of an operation to the caller
/// ASSUMED contract on a dependency (GenDspVec is opaque here; the marker of an erroneous vector is decided in unit vecops)
#[verifier::external_body] #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(T)]
pub struct GenDspVec<S, T> { s: S, t: T }
impl<S, T> GenDspVec<S, T> {
    pub uninterp spec fn erroneous(&self) -> bool;
    #[verifier::external_body]
    fn is_erroneous(&self) -> (r: bool) ensures r == self.erroneous() { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct SingleBuffer<T> { t: T }
pub type TransRes<T> = Result<T, (ErrorReason, T)>;
pub type ScalarResult<T> = Result<T, ErrorReason>;

//@ extract file=interop/src/lib.rs item=struct:InteropVec
//@ prefix
#[verifier::reject_recursive_types(T)]
pub
//@ end
//@ extract file=interop/src/lib.rs item=struct:VectorInteropResult
//@ prefix
pub
//@ end
//@ extract file=interop/src/lib.rs item=struct:ScalarInteropResult
//@ prefix
pub
//@ end
impl<T: RealNumber> InteropVec<T> {
    pub closed spec fn v(&self) -> GenDspVec<Vec<T>, T> { self.vec }
    pub closed spec fn b(&self) -> SingleBuffer<T> { self.buffer }
    /// the code which is reported if the operation itself succeeds
    pub closed spec fn marker(&self) -> int { if self.vec.erroneous() { -1 } else { 0 } }
//@ extract file=interop/src/lib.rs fn=trans_vec impl="impl<T>\sInteropVec<T>"
//@ ret r
//@ spec
        requires forall|b: &mut SingleBuffer<T>| #[trigger] op.requires((self.v(), b)),
        ensures
            exists|b: &mut SingleBuffer<T>, q: TransRes<GenDspVec<Vec<T>, T>>| #[trigger] op.ensures((self.v(), b), q) && match q {
                Ok(v) => r.vector.v() == v && r.result_code == r.vector.marker(),
                Err((e, v)) => r.vector.v() == v && r.result_code == code(e),
            },
//@ rewrite /op\(vec,\s*&mut\s+buffer\)/
{ let mb = &mut buffer; assert(vec == v0 && op.requires((v0, mb))); op(vec, mb) }
//@ body_start
        let ghost v0 = self.v();
//@ end
//@ extract file=interop/src/lib.rs fn=convert_vec impl="impl<T>\sInteropVec<T>"
//@ ret r
//@ rewrite_sig /mut\s+self/
self
//@ rewrite /\bself\b/
this
//@ rewrite /op\(&mut\s+this\.vec,\s*&mut\s+this\.buffer\)/
{ let mv = &mut this.vec; let mb = &mut this.buffer; op(mv, mb) }
//@ body_start
        let mut this = self;
//@ spec
        requires forall|v: &mut GenDspVec<Vec<T>, T>, b: &mut SingleBuffer<T>| *v == self.v() ==> #[trigger] op.requires((v, b)),
        ensures
            exists|v: &mut GenDspVec<Vec<T>, T>, b: &mut SingleBuffer<T>, q: VoidResult| *v == self.v() && #[trigger] op.ensures((v, b), q) && r.vector.v() == *final(v)
                && r.result_code == match q { Ok(()) => r.vector.marker(), Err(e) => code(e) },
//@ end
//@ extract file=interop/src/lib.rs fn=convert_scalar impl="impl<T>\sInteropVec<T>"
//@ ret r
//@ spec
        requires op.requires((&self.v(),)),
        ensures exists|q: ScalarResult<TT>| #[trigger] op.ensures((&self.v(),), q) && match q {
            Ok(x) => r.result == x && r.result_code == self.marker(),
            Err(e) => r.result == default && r.result_code == code(e),
        },
//@ end
}
//@ extract file=interop/src/lib.rs fn=get_error_marker
//@ ret r
//@ spec
        ensures r == vec.marker(),
//@ end
}
fn main() {}
