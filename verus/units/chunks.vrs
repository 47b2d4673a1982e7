//@ unit-props C02
//@ unit-title division of work between threads
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::std_specs::iter::IteratorSpec;
//@ include prelude
// ASSUMED usize has 64 bit
global size_of usize == 8;
//@ include iters
//@ include inlinevec contracts
//@ include chunkmodel
//@ include chunkapi
//@ include sympairs
// ---------------- std::slice::rchunks_mut: ASSUMED contract on the standard library ----------------
pub open spec fn min_of(a: int, b: int) -> int { if a <= b { a } else { b } }
/// the parts of `len` elements in chunks of `size` from the end
pub open spec fn rchunk(len: int, size: int, k: int) -> (int, int) { (len - min_of((k + 1) * size, len), len - k * size) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RChunksMut<'a, T> { a: &'a mut [T] }
impl<'a, T> vstd::std_specs::iter::IteratorSpecImpl for RChunksMut<'a, T> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic]
    uninterp spec fn remaining(&self) -> Seq<Self::Item>;
    #[verifier::prophetic]
    closed spec fn will_return_none(&self) -> bool { true }
    closed spec fn decrease(&self) -> Option<nat> { None }
    closed spec fn peek(&self, index: int) -> Option<Self::Item> { None }
}
impl<'a, T> Iterator for RChunksMut<'a, T> {
    type Item = &'a mut [T];
    #[verifier::external_body]
    fn next(&mut self) -> Option<&'a mut [T]> { unimplemented!() }
}
#[verifier::prophetic]
pub open spec fn rchunked<'a, T>(c: RChunksMut<'a, T>, size: int, cur: Seq<T>, fin: Seq<T>) -> bool {
    &&& lawful(c) && rem(c).len() == ceil_div(cur.len() as int, size) && fin.len() == cur.len()
    &&& forall|k: int| #![trigger rem(c)[k]] 0 <= k < rem(c).len() ==> rem(c)[k]@ == sub(cur, rchunk(cur.len() as int, size, k))
            && final(rem(c)[k])@ == sub(fin, rchunk(cur.len() as int, size, k))
}
#[verifier::external_body]
fn rchunks_mut_of<'a, T>(a: &'a mut [T], n: usize) -> (r: RChunksMut<'a, T>)
    requires n >= 1,
    ensures rchunked(r, n as int, old(a)@, final(a)@),
{ unimplemented!() }
/// `unwrap_or(&mut [])`
#[verifier::external_body]
fn or_empty<'a, T>(r: Option<&'a mut [T]>) -> (s: &'a mut [T])
    ensures match r { Some(x) => s == x, None => s@.len() == 0 && final(s)@.len() == 0 },
{ unimplemented!() }
/// a vector handed out element by element; ASSUMED to be what IntoIterator for Vec does
pub struct EachOf<A> { a: Vec<A> }
impl<A> vstd::std_specs::iter::IteratorSpecImpl for EachOf<A> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic]
    closed spec fn remaining(&self) -> Seq<Self::Item> { self.a@ }
    #[verifier::prophetic]
    closed spec fn will_return_none(&self) -> bool { true }
    closed spec fn decrease(&self) -> Option<nat> { None }
    closed spec fn peek(&self, index: int) -> Option<Self::Item> { None }
}
impl<A> Iterator for EachOf<A> {
    type Item = A;
    #[verifier::external_body]
    fn next(&mut self) -> Option<A> { unimplemented!() }
}
#[verifier::external_body]
fn each_of<A>(a: Vec<A>) -> (r: EachOf<A>)
    ensures rem(r) == a@, lawful(r),
{ unimplemented!() }
/// the pairs of `len` elements, `h` of them in the first half, in chunks of `size`
pub open spec fn sym_parts(len: int, h: int, size: int) -> Seq<Pair> {
    Seq::new(ceil_div(h, size) as nat, |k: int| ((k * size, min_of((k + 1) * size, h)), (len - min_of((k + 1) * size, len - h), len - min_of(k * size, len - h))))
}
proof fn lemma_sym_parts(len: int, h: int, size: int)
    requires size >= 1, 0 <= len - h <= h <= len, h <= len - h + 1,
    ensures
        pairs_ok(sym_parts(len, h, size), len), sym_parts(len, h, size).len() == ceil_div(h, size), ceil_div(len - h, size) <= ceil_div(h, size),
        forall|k: int| #![trigger sym_parts(len, h, size)[k]] 0 <= k < ceil_div(h, size) ==> sym_parts(len, h, size)[k].0 == chunk_parts(h, size)[k],
        // a second part without a chunk is empty
        forall|k: int| #![trigger sym_parts(len, h, size)[k]] ceil_div(len - h, size) <= k < ceil_div(h, size) ==> sym_parts(len, h, size)[k].1 == (h, h),
        forall|k: int| #![trigger sym_parts(len, h, size)[k]] 0 <= k < ceil_div(len - h, size) ==> sym_parts(len, h, size)[k].1.0 == h + rchunk(len - h, size, k).0
            && sym_parts(len, h, size)[k].1.1 == h + rchunk(len - h, size, k).1 && k * size < len - h,
{
    let p = sym_parts(len, h, size); let l2 = len - h;
    lemma_ceil(h, size); lemma_ceil(l2, size);
    let n = ceil_div(h, size); let m = ceil_div(l2, size);
    assert(n * size >= l2) by (nonlinear_arith) requires n * size >= h, h >= l2;
    lemma_ceil_least(l2, size, n);
    assert forall|k: int| #![trigger p[k]] 0 <= k < n implies pair_ok(p[k], len) && (m <= k ==> p[k].1 == (h, h)) && (k < m ==> k * size < l2) by {
        assert(k * size < h && k * size >= 0) by (nonlinear_arith) requires 0 <= k <= n - 1, (n - 1) * size < h || h == 0, h == 0 ==> n <= 0, n <= h, size >= 1;
        assert((k + 1) * size == k * size + size) by (nonlinear_arith);
        if k < m { assert(k * size < l2) by (nonlinear_arith) requires 0 <= k <= m - 1, (m - 1) * size < l2 || l2 == 0, m <= l2, size >= 1; }
        else { assert(k * size >= l2) by (nonlinear_arith) requires k >= m, m * size >= l2, size >= 1; }
    }
    assert forall|i: int| 0 <= i < len implies #[trigger] has_pair(p, i) by {
        let j = if i < h { i } else { len - 1 - i };
        let k = j / size;
        lemma_fundamental_div_mod(j, size); lemma_mod_bound(j, size);
        assert(k * size <= j < (k + 1) * size) by (nonlinear_arith) requires j == size * k + j % size, 0 <= j % size < size;
        assert(0 <= k < n) by (nonlinear_arith) requires k * size <= j, j < (k + 1) * size, j < h, n * size >= h, size >= 1, j >= 0;
        let _ = p[k];
        assert(in_pair(p, k, i));
    }
}
#[verifier::external_body]
fn usize_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { unimplemented!() }
impl MultiCoreSettings {
//@ extract file=vector/src/multicore_support/threading.rs fn=with_thresholds impl="impl\sMultiCoreSettings"
//@ ret r
//@ spec
        ensures
            r.core_limit == core_limit, r.med_dual_core_threshold == med_dual_core_threshold, r.large_dual_core_threshold == large_dual_core_threshold,
            // more than two threads are never used where two are not yet worth it
            med_dual_core_threshold < usize::MAX ==> r.med_multi_core_threshold > r.med_dual_core_threshold,
            large_dual_core_threshold < usize::MAX ==> r.large_multi_core_threshold > r.large_dual_core_threshold,
            med_multi_core_threshold > med_dual_core_threshold ==> r.med_multi_core_threshold == med_multi_core_threshold,
            large_multi_core_threshold > large_dual_core_threshold ==> r.large_multi_core_threshold == large_multi_core_threshold,
//@ end
}
#[verifier::external_body]
fn usize_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { unimplemented!() }
impl Chunk {
//@ extract file=vector/src/multicore_support/threading.rs fn=partition impl="impl\sChunk"
//@ ret r
//@ rewrite? /array\[0\.\.array\.len\(\)\]\.chunks\(/
chunks_of(&array[0..array.len()], 
//@ spec
        requires lim(array@.len() as int, step_size as int), number_of_chunks >= 1,
        ensures
            chunked_s(r, array@),
            r.size() == chunk_size_of(array@.len() as int, step_size as int, number_of_chunks as int),
            r.size() >= 1, r.size() % step_size as int == 0,
//@ body_start
        proof { assert(array@.subrange(0, array@.len() as int) =~= array@); }
//@ end
//@ extract file=vector/src/multicore_support/threading.rs fn=partition_mut impl="impl\sChunk"
//@ ret r
//@ rewrite? /array\.chunks_mut\(/
chunks_mut_of(array, 
//@ spec
        requires lim(old(array)@.len() as int, step_size as int), number_of_chunks >= 1,
        ensures
            chunked(r, old(array)@, final(array)@),
            r.size() == chunk_size_of(old(array)@.len() as int, step_size as int, number_of_chunks as int),
            r.size() >= 1, r.size() % step_size as int == 0,
//@ end
//@ extract file=vector/src/multicore_support/threading.rs fn=determine_number_of_chunks impl="impl\sChunk"
//@ ret r
//@ spec
        ensures
            // one thread is always allowed, never more than the limit or two
            settings.core_limit >= 1 ==> 1 <= r && (r <= settings.core_limit || r <= 2),
            settings.core_limit == 1 ==> r == 1,
            complexity == Complexity::Small ==> r <= 1,
//@ end
//@ extract file=vector/src/multicore_support/threading.rs fn=calc_chunk_size impl="impl\sChunk"
//@ ret r
//@ rewrite? /\(array_length\s+as\s+f64\s*\/\s*number_of_chunks\s+as\s+f64\)\s*\.ceil\(\)\s+as\s+usize/
f64_ceil_div(array_length, number_of_chunks)
//@ spec
        requires 1 <= step_size <= 0x1000_0000, array_length <= max_len(), number_of_chunks >= 1 || array_length == 0,
        ensures
            number_of_chunks >= 1 ==> r == chunk_size_of(array_length as int, step_size as int, number_of_chunks as int),
            // what the callers need: whole points, every element belongs to one of the chunks
            r % step_size == 0, r >= step_size, r * number_of_chunks >= array_length,
//@ body_start
        proof {
            lemma_mod_self_0(step_size as int);
            lemma_small_mod(0, step_size as nat);
            if number_of_chunks >= 1 {
            lemma_ceil(array_length as int, number_of_chunks as int);
            let q = ceil_div(array_length as int, number_of_chunks as int);
            lemma_round(q, step_size as int);
            lemma_mod_bound(q, step_size as int);
            let c = chunk_size_of(array_length as int, step_size as int, number_of_chunks as int);
            assert(c * number_of_chunks >= array_length) by (nonlinear_arith) requires q * number_of_chunks >= array_length, c >= q, number_of_chunks >= 1;
            }
        }
//@ before /chunk_size\s*\+=/ 1
        assert(chunk_size <= array_length && chunk_size % step_size < step_size && chunk_size % step_size >= 0);
//@ end
//@ extract file=vector/src/multicore_support/threading.rs fn=partition_in_ranges impl="impl\sChunk" loops=1
//@ ret r
//@ rewrite? /Range\s*\{\s*start:\s*sum,\s*end:\s*new_sum,\s*\}/
sum..new_sum
//@ rewrite? /let\s+mut\s+ranges\s*=\s*Vec::with_capacity/
let mut ranges: Vec<Range<usize>> = Vec::with_capacity
//@ spec
        requires
            1 <= step_size <= 0x1000_0000, array_length <= max_len(), number_of_chunks >= 1 || array_length == 0,
            number_of_chunks >= 1 ==> (number_of_chunks - 1) * chunk_size_of(array_length as int, step_size as int, number_of_chunks as int) <= array_length,
        ensures
            r@.len() == number_of_chunks,
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i].start <= r@[i].end <= array_length,
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i].start == i * chunk_size_of(array_length as int, step_size as int, number_of_chunks as int),
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() - 1 ==> r@[i].end == r@[i + 1].start,
            r@.len() > 0 ==> r@[0].start == 0 && r@[r@.len() - 1].end == array_length,
//@ before_loop 1
        let ghost c = chunk_size as int;
        let ghost n = number_of_chunks as int;
//@ loop 1 iter it
            invariant
                c == chunk_size, n == number_of_chunks, n >= 1 ==> (n - 1) * c <= array_length, array_length <= max_len(), c >= 0,
                ranges@.len() == i,
                i < n ==> sum == i * c, i == n ==> sum == array_length,
                forall|k: int| #![trigger ranges@[k]] 0 <= k < ranges@.len() ==> ranges@[k].start <= ranges@[k].end <= array_length && ranges@[k].start == k * c,
                forall|k: int| #![trigger ranges@[k]] 0 <= k < ranges@.len() - 1 ==> ranges@[k].end == ranges@[k + 1].start,
                ranges@.len() > 0 ==> ranges@[0].start == 0 && ranges@[ranges@.len() - 1].end == sum,
//@ loop_start 1
                proof {
                    assert((i + 1) * c == i * c + c) by (nonlinear_arith);
                    assert(i < n - 1 ==> (i + 1) * c <= (n - 1) * c) by (nonlinear_arith) requires c >= 0;
                    assert(i * c <= (n - 1) * c) by (nonlinear_arith) requires c >= 0, i <= n - 1;
                    assert(0 * c == 0);
                }
//@ end

}
}
fn main() {}
