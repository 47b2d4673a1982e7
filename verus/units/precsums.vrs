//@ unit-props C13 C02
//@ unit-title more precise sums and sums of squares
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::iter::IteratorSpec;
use std::slice::IterMut;
use std::marker::PhantomData;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include complex
//@ include iters
//@ include inlinevec contracts
//@ include simdpart contracts
//@ include chunkapi contracts
//@ include cparts
//@ include simdgen
//@ include changed
//@ include mark
//@ include other
//@ include points
pub type ScalarResult<T> = Result<T, ErrorReason>;
//@ include wrapit contracts
//@ include convspec
//@ include summed
//@ include widened
/// what the compensated summation of Kahan makes of the first k numbers: the sum and the compensation
pub open spec fn kahan<E: Ring + Sub<Output = E>>(x: Seq<E>, k: nat) -> (E, E)
    decreases k
{
    if k == 0 { (E::nil(), E::nil()) } else {
        let (s, c) = kahan(x, (k - 1) as nat);
        let y = x[k - 1].sub_spec(c); let t = s.add_spec(y);
        (t, t.sub_spec(s).sub_spec(y))
    }
}
pub open spec fn kahan_of<E: Ring + Sub<Output = E>>(x: Seq<E>) -> E { kahan(x, x.len()).0 }
pub open spec fn kahan_ok<E: Ring + Sub<Output = E>>() -> bool { ring_ok::<E>() && <E as SubSpec>::obeys_sub_spec() && forall|a: E, b: E| #[trigger] a.sub_req(b) }
/// the compensated sums of parts which contain every element once, added up
pub open spec fn kahan_parts<E: Ring + Sub<Output = E>>(x: Seq<E>, p: Seq<(int, int)>, v: Seq<E>) -> bool { parts_ok(p, x.len() as int, 1) && v.len() == p.len() && forall|k: int| #![trigger p[k]] #![trigger v[k]] 0 <= k < p.len() ==> v[k] == kahan_of(sub(x, p[k])) }
pub open spec fn kahan_sums<E: Ring + Sub<Output = E>>(x: Seq<E>, r: E) -> bool { exists|p: Seq<(int, int)>, v: Seq<E>| #[trigger] kahan_parts(x, p, v) && sum_all(v, r) }
pub open spec fn squares<E: Ring>(x: Seq<E>) -> Seq<E> { Seq::new(x.len(), |i: int| x[i].mul_spec(x[i])) }
proof fn lemma_squares<E: Ring>(x: Seq<E>, p: Seq<(int, int)>)
    requires parts_ok(p, x.len() as int, 1),
    ensures forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> squares(sub(x, p[k])) == sub(squares(x), p[k]),
{ assert forall|k: int| #![trigger p[k]] 0 <= k < p.len() implies squares(sub(x, p[k])) == sub(squares(x), p[k]) by { assert(squares(sub(x, p[k])) =~= sub(squares(x), p[k])); } }
pub open spec fn same<E>(x: Seq<E>) -> Seq<E> { x }
proof fn lemma_same<E>(x: Seq<E>, p: Seq<(int, int)>) { }
pub open spec fn derefs<'a, E>(s: Seq<&'a E>) -> Seq<E> { Seq::new(s.len(), |i: int| *s[i]) }
/// the items of an iterator one by one handed to a function; ASSUMED to be what core::iter::Map does
#[verifier::external_body]
fn map_of<A: Iterator, E, F: Fn(A::Item) -> E>(a: A, f: F) -> (r: Mapped<A, E>)
    requires forall|x: A::Item| #[trigger] call_requires(f, (x,)),
    ensures lawful(r) == lawful(a), rem(r).len() == rem(a).len(), forall|k: int| #![trigger rem(r)[k]] 0 <= k < rem(a).len() ==> call_ensures(f, (rem(a)[k],), rem(r)[k]),
{ unimplemented!() }
#[verifier::reject_recursive_types(E)]
pub struct Mapped<A, E> { a: A, e: PhantomData<E> }
impl<A: Iterator, E> vstd::std_specs::iter::IteratorSpecImpl for Mapped<A, E> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { lawful(self.a) }
    #[verifier::prophetic]
    uninterp spec fn remaining(&self) -> Seq<Self::Item>;
    #[verifier::prophetic]
    closed spec fn will_return_none(&self) -> bool { true }
    closed spec fn decrease(&self) -> Option<nat> { None }
    closed spec fn peek(&self, index: int) -> Option<Self::Item> { None }
}
impl<A: Iterator, E> Iterator for Mapped<A, E> {
    type Item = E;
    #[verifier::external_body]
    fn next(&mut self) -> Option<E> { unimplemented!() }
}
//@ for fn item from = |
//@| kahan_sum | rem(values) | values
//@| kahan_sumb | derefs(rem(values)) | derefs(values)
//@ extract file=vector/src/vector_types/general/mod.rs fn=@fn@ loops=1
//@ prefix
#[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ rewrite_sig? /T: ('a \+ )?Add<Output = T> \+ Sub<Output = T> \+ Zero \+ Copy/
T: \1Ring + Sub<Output = T>
//@ rewrite? /T::zero\(\)/
T::zero_pt()
//@ spec
    requires lawful(values), kahan_ok::<T>(),
    ensures r == kahan_of(@item@),
//@ body_start
    let ghost x = @item@;
//@ rewrite? /for (\w+) in values \{/
let mut values = values; let ghost all = rem(values); let ghost mut k = 0int;
    loop { let \1 = match values.next() { Some(item) => item, None => break };
//@ loop 1
        invariant_except_break kahan_ok::<T>(), lawful(values), 0 <= k <= all.len(), rem(values) == all.subrange(k, all.len() as int), (sum, c) == kahan(x, k as nat), x == { let values = all; @from@ },
        ensures (sum, c) == kahan(x, x.len()),
//@ loop_end 1
        proof { k = k + 1; }
//@ end
//@ endfor
/// real and complex points with differences
pub trait PrecPoint<T: RealNumber>: SumPoint<T> + Sub<Output = Self> { proof fn law_ok() requires arith::<T>() ensures kahan_ok::<Self>(); }
impl<T: RealNumber> PrecPoint<T> for T { proof fn law_ok() {} }
impl<T: RealNumber> PrecPoint<T> for Complex<T> { proof fn law_ok() {} }
/// the points or their squares
pub open spec fn content<T: RealNumber, E: PrecPoint<T>>(a: Seq<T>, sq: bool) -> Seq<E> { if sq { squares(E::pts(a)) } else { E::pts(a) } }
pub open spec fn scaled(p: Seq<(int, int)>, w: int) -> Seq<(int, int)> { Seq::new(p.len(), |k: int| (p[k].0 / w, p[k].1 / w)) }
proof fn lemma_content<T: RealNumber, E: PrecPoint<T>>(a: Seq<T>, p: Seq<(int, int)>, sq: bool)
    requires a.len() as int % E::width() == 0, parts_ok(p, a.len() as int, E::width()),
    ensures
        parts_ok(scaled(p, E::width()), content::<T, E>(a, sq).len() as int, 1), 
        forall|k: int| #![trigger p[k]] #![trigger scaled(p, E::width())[k]] 0 <= k < p.len() ==> content::<T, E>(sub(a, p[k]), sq) == sub(content::<T, E>(a, sq), scaled(p, E::width())[k]),
{
    E::laws();
    let w = E::width(); let q = scaled(p, w); let x = content::<T, E>(a, sq); let n = x.len() as int;
    assert forall|k: int| #![trigger p[k]] #![trigger q[k]] 0 <= k < p.len() implies content::<T, E>(sub(a, p[k]), sq) == sub(x, q[k]) && p[k].0 == w * q[k].0 && p[k].1 == w * q[k].1 by {
        assert(part_ok(p[k], a.len() as int, w));
        E::law_part(a, p[k].0, p[k].1);
        assert(content::<T, E>(sub(a, p[k]), sq) =~= sub(x, q[k]));
        lemma_fundamental_div_mod(p[k].0, w); lemma_fundamental_div_mod(p[k].1, w);
        if w == 2 { assert(p[k].1 % 2 == 0); }
    }
    assert forall|k: int| #![trigger q[k]] 0 <= k < q.len() implies part_ok(q[k], n, 1) by { let _ = p[k]; assert(part_ok(p[k], a.len() as int, w)); }
    assert forall|k: int, l: int| #![trigger q[k], q[l]] 0 <= k < q.len() && 0 <= l < q.len() && k != l implies q[k].1 <= q[l].0 || q[l].1 <= q[k].0 by { let _ = p[k]; let _ = p[l]; }
    assert forall|i: int| 0 <= i < n implies #[trigger] has_part(q, i) by {
        let k = lemma_part(p, a.len() as int, w, w * i);
        let _ = p[k];
        assert(in_part(q, k, i));
    }
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSlice<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ for fn num E as st sq at = |
//@| sum_prec | f64 | T | sum_prec | 1 | false | x
//@| sum_sq_prec | f64 | T | sum_sq_prec | 1 | true | x
//@| sum_prec | Complex<f64> | Complex<T> | c_sum_prec | 2 | false | x
//@| sum_sq_prec | Complex<f64> | Complex<T> | c_sum_sq_prec | 2 | true | x
//@ extract file=vector/src/vector_types/general/precise_stats.rs fn=@fn@ impl="PreciseSumOps<@num@>\sfor\sDspVec<S,\sf64" as=@as@
//@ ret r
//@ rewrite_sig? /\bf64\b/
T
//@ rewrite? /move \|array, _, _\| (\{(?:[^{}]*)\}|kahan_\w+\((?:[^()]|\([^()]*\))*\))/
move |array: &[T], _range: Range<usize>, _arg: ()| -> (out: @E@)
            requires arith::<T>(), array@.len() % @st@ == 0,
            ensures out == kahan_of(content::<T, @E@>(array@, @sq@)),
            {
                let ghost whole = array@;
                proof { <@E@ as PrecPoint<T>>::law_ok(); }
                let out = \1;
                proof { assert(whole.subrange(0, whole.len() as int) =~= whole); }
                out
            }
//@ rewrite? /kahan_sum\((\w+)\.iter\(\)\.map\(\|(\w+)\| (\w+) \* (\w+)\)\)/
{
                    let squared = |\2: &@E@| -> (q: @E@) requires kahan_ok::<@E@>() ensures q == (*\3).mul_spec(*\4) { *\3 * *\4 };
                    let items = map_of(\1.iter(), squared);
                    proof { assert(rem(items) =~= content::<T, @E@>(whole, @sq@)); }
                    kahan_sum(items)
                }
//@ rewrite? /kahan_sumb\((\w+)\.iter\(\)\)/
{
                    let items = \1.iter();
                    proof { assert(derefs(rem(items)) =~= content::<T, @E@>(whole, @sq@)); }
                    kahan_sumb(items)
                }
//@ rewrite? /\(&chunks\[\.\.\]\)\s*\.iter\(\)\s*\.fold\(\s*(.*?),\s*\|(\w+), (\w+)\| ([^()+]*)\+ ([^()]*)\)/
{
            let items = chunks.index_all(..).iter();
            let plus = |\2: @E@, \3: &@E@| -> (q: @E@) requires arith::<T>() ensures q == \2.add_spec(*\3) { \4 + *\5 };
            proof {
                let s = chunks@; let a = self@; let x = content::<T, @E@>(a, @sq@);
                assert(s.subrange(0, s.len() as int) =~= s);
                let p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, a.len() as int, @st@) && s.len() == p.len() && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> s[k] == kahan_of(content::<T, @E@>(sub(a, p[k]), @sq@));
                lemma_content::<T, @E@>(a, p, @sq@);
                let q = scaled(p, @st@);
                assert forall|k: int| #![trigger q[k]] #![trigger s[k]] 0 <= k < q.len() implies s[k] == kahan_of(sub(x, q[k])) by { let _ = p[k]; }
                assert(kahan_parts(x, q, s));
                lemma_folded_items::<@E@, &@E@, _>(plus, rem(items), s);
            }
            folded(items, \1, plus)
        }
//@ rewrite? /Complex64::zero\(\)/
<Complex<T> as Ring>::zero_pt()
//@ rewrite? /folded\(items, 0\.0,/
folded(items, T::zero(),
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<T>(), self.vlen() % @st@ == 0,
        ensures kahan_sums(content::<T, @E@>(self@, @sq@), r),
//@ end
//@ endfor
}
/// the widened parts of a vector, added up
proof fn lemma_wide_sums<T: RealNumber, W: RealNumber, E: PrecPoint<W>>(a: Seq<T>, p: Seq<(int, int)>, sq: bool, s: Seq<E>, r: E)
    requires
        a.len() as int % E::width() == 0, parts_ok(p, a.len() as int, E::width()), s.len() == p.len(), sum_all(s, r),
        forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> sum_all(content::<W, E>(wide_all::<T, W>(sub(a, p[k])), sq), s[k]),
    ensures sum_all(content::<W, E>(wide_all::<T, W>(a), sq), r),
{
    let w = wide_all::<T, W>(a); let x = content::<W, E>(w, sq);
    lemma_content::<W, E>(w, p, sq);
    let q = scaled(p, E::width());
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies sum_all(sub(x, q[k]), s[k]) by {
        let _ = p[k]; let _ = q[k];
        assert(part_ok(p[k], a.len() as int, E::width()));
        assert(wide_all::<T, W>(sub(a, p[k])) =~= sub(w, p[k]));
    }
    lemma_sum_parts(x, q, s, r);
}
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSlice<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ for fn num E as st sq el = |
//@| sum_prec | f64 | W | w_sum_prec | 1 | false | wide::<T, W>(*n)
//@| sum_sq_prec | f64 | W | w_sum_sq_prec | 1 | true | wide::<T, W>(*n)
//@| sum_prec | Complex<f64> | Complex<W> | w_c_sum_prec | 2 | false | wpt::<T, W>(*n)
//@| sum_sq_prec | Complex<f64> | Complex<W> | w_c_sum_sq_prec | 2 | true | wpt::<T, W>(*n)
//@ extract file=vector/src/vector_types/general/precise_stats.rs fn=@fn@ impl="PreciseSumOps<@num@>\sfor\sDspVec<S,\sf32" as=@as@ loops=1
//@ ret r
//@ rewrite_sig? /fn (\w+)\(/
fn \1<W: RealNumber>(
//@ rewrite_sig? /\bf64\b/
W
//@ rewrite? /f64::from\(/
widen::<T, W>(
//@ rewrite? /Complex64::zero\(\)|Complex::<f64>::zero\(\)/
<Complex<W> as Ring>::zero_pt()
//@ rewrite? /Complex64\b/
Complex::<W>
//@ rewrite? /\b0\.0\b/
W::zero()
//@ rewrite? /sum \+= ([^;]*);/
sum = sum + (\1);
//@ rewrite? /for (\w+) in array \{/
for \1 in array.iter() {
//@ rewrite? /move \|array, _, _\| \{/
move |array: &[T], _range: Range<usize>, _arg: ()| -> (out: @E@)
            requires arith::<W>(), array@.len() % @st@ == 0,
            ensures sum_all(content::<W, @E@>(wide_all::<T, W>(array@), @sq@), out),
            {
                let ghost whole = array@; let ghost x = content::<W, @E@>(wide_all::<T, W>(whole), @sq@);
                let ghost mut c = seq![<@E@ as Ring>::nil()];
                proof { assert(whole.subrange(0, whole.len() as int) =~= whole); }
//@ rewrite? /\(&chunks\[\.\.\]\)\s*\.iter\(\)\s*\.fold\(\s*(.*?),\s*\|(\w+), (\w+)\| ([^()+]*)\+ ([^()]*)\)/
{
            let items = chunks.index_all(..).iter();
            let plus = |\2: @E@, \3: &@E@| -> (q: @E@) requires arith::<W>() ensures q == \2.add_spec(*\3) { \4 + *\5 };
            proof {
                let s = chunks@; let a = self@;
                assert(s.subrange(0, s.len() as int) =~= s);
                let p = choose|p: Seq<(int, int)>| #[trigger] parts_ok(p, a.len() as int, @st@) && s.len() == p.len() && forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> sum_all(content::<W, @E@>(wide_all::<T, W>(sub(a, p[k])), @sq@), s[k]);
                assert forall|r: @E@| #[trigger] sum_all(s, r) implies sum_all(content::<W, @E@>(wide_all::<T, W>(a), @sq@), r) by { lemma_wide_sums::<T, W, @E@>(a, p, @sq@, s, r); }
                lemma_folded_items::<@E@, &@E@, _>(plus, rem(items), s);
            }
            folded(items, \1, plus)
        }
//@ spec
        requires self.wf(), self.vlen() <= max_len(), arith::<W>(), self.vlen() % @st@ == 0,
        ensures sum_all(content::<W, @E@>(wide_all::<T, W>(self@), @sq@), r),
//@ loop 1 iter it
                    invariant
                        arith::<W>(), whole.len() % @st@ == 0, x == content::<W, @E@>(wide_all::<T, W>(whole), @sq@),
                        it.seq().len() == x.len(), forall|k: int| #![trigger it.seq()[k]] #![trigger x[k]] 0 <= k < x.len() ==> ({ let n = it.seq()[k]; let e = @el@; x[k] == (if @sq@ { e.mul_spec(e) } else { e }) }),
                        accumulated(x.subrange(0, it.index() as int), c), sum == c.last(),
//@ loop_end 1
                    proof {
                        let k = it.index() as int;
                        let o = c; c = c.push(sum);
                        assert(sum == o.last().add_spec(x[k]));
                        assert forall|j: int| #![trigger x.subrange(0, k + 1)[j]] 0 <= j < k + 1 implies c[j + 1] == c[j].add_spec(x.subrange(0, k + 1)[j]) by {
                            if j < k { assert(x.subrange(0, k)[j] == x[j]); assert(c[j] == o[j] && c[j + 1] == o[j + 1]); }
                        }
                    }
//@ after_loop 1
                proof { assert(x.subrange(0, x.len() as int) =~= x); lemma_accumulated(x, c, x.len() as int); }
//@ end
//@ endfor
}
}
fn main() {}
