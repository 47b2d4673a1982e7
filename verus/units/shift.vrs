//@ unit-props C05 C06
//@ unit-title rotation of array halves and reversal, generic over the element type
//@ include prelude
//@ include complex
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
//@ include shiftspec

/// the cycle started at 0 with the step of an odd n visits every index: 2 * step == n -/+ 1
pub open spec fn cyc(n: int, step: int, k: int) -> int { (k * step) % n }

proof fn lemma_cyc_next(n: int, step: int, k: int)
    requires n > 0, step >= 0, k >= 0,
    ensures cyc(n, step, k + 1) == (cyc(n, step, k) + step) % n, 0 <= cyc(n, step, k) < n,
{
    assert((k + 1) * step == k * step + step) by (nonlinear_arith);
    lemma_add_mod_noop(k * step, step, n);
    lemma_mod_bound(k * step, n);
    lemma_add_mod_noop_right(step, k * step, n);
    assert((k * step + step) % n == (((k * step) % n) + step) % n) by { lemma_add_mod_noop_right(step, k * step, n); };
}

/// two different k, l < n never meet (n odd, step = n/2 or n/2+1, so 2*step = n-1 or n+1)
proof fn lemma_cyc_inj(n: int, step: int, k: int, l: int)
    requires n > 0, n % 2 == 1, step == n / 2 || step == n / 2 + 1, 0 <= k < l < n,
    ensures cyc(n, step, k) != cyc(n, step, l),
{
    if cyc(n, step, k) == cyc(n, step, l) {
        let d = l - k;
        lemma_fundamental_div_mod(k * step, n);
        lemma_fundamental_div_mod(l * step, n);
        let q = (l * step) / n - (k * step) / n;
        assert(d * step == n * q) by (nonlinear_arith)
            requires k * step == n * ((k * step) / n) + (k * step) % n,
                     l * step == n * ((l * step) / n) + (l * step) % n,
                     (k * step) % n == (l * step) % n, d == l - k, q == (l * step) / n - (k * step) / n;
        if step == n / 2 {
            assert(2 * step == n - 1);
            assert(n * (d - 2 * q) == d) by (nonlinear_arith) requires d * step == n * q, 2 * step == n - 1;
            let z = d - 2 * q;
            assert(false) by (nonlinear_arith) requires n * z == d, 0 < d < n, n > 0;
        } else {
            assert(2 * step == n + 1);
            assert(n * (2 * q - d) == d) by (nonlinear_arith) requires d * step == n * q, 2 * step == n + 1;
            let z = 2 * q - d;
            assert(false) by (nonlinear_arith) requires n * z == d, 0 < d < n, n > 0;
        }
    }
}

/// every index is met: explicit preimage
proof fn lemma_cyc_surj(n: int, step: int, i: int)
    requires n > 0, n % 2 == 1, step == n / 2 || step == n / 2 + 1, 0 <= i < n,
    ensures exists|k: int| 0 <= k < n && #[trigger] cyc(n, step, k) == i,
{
    // 2*step == -1 or 1 (mod n), so k = -2 i or 2 i (mod n)
    let k = if step == n / 2 { (n - i) * 2 } else { 2 * i };
    let r = k % n;
    lemma_mod_bound(k, n);
    lemma_fundamental_div_mod(k, n);
    let q = k / n;
    assert(k == n * q + r);
    if step == n / 2 {
        // r*step = (2(n-i) - nq) * step = (n-i)(n-1) - nq*step = i + n*(n - i - 1 - q*step)
        assert(r * step == i + n * (n - i - 1 - q * step)) by (nonlinear_arith)
            requires r == (n - i) * 2 - n * q, 2 * step == n - 1;
        lemma_mod_multiples_vanish(n - i - 1 - q * step, i, n);
    } else {
        assert(r * step == i + n * (i - q * step)) by (nonlinear_arith)
            requires r == 2 * i - n * q, 2 * step == n + 1;
        lemma_mod_multiples_vanish(i - q * step, i, n);
    }
    lemma_small_mod(i as nat, n as nat);
    assert(cyc(n, step, r) == i);
}

proof fn lemma_cyc_closes(n: int, step: int)
    requires n > 0,
    ensures cyc(n, step, n) == 0, cyc(n, step, 0) == 0,
{
    assert(n * step == step * n) by (nonlinear_arith);
    lemma_mod_multiples_basic(step, n);
    assert(0 * step == 0);
    lemma_small_mod(0, n as nat);
}

//@ extract file=vector/src/vector_types/mod.rs fn=swap_array_halves loops=2 props=C05
//@ spec
    requires
        old(data)@.len() <= isize::MAX,
    ensures
        final(data)@.len() == old(data)@.len(),
        forall|i: int| 0 <= i < old(data)@.len() ==> final(data)@[#[trigger] shift_to(old(data)@.len() as int, forward, i)] == old(data)@[i],
//@ body_start
    let ghost d0 = data@;
    let ghost n = data@.len() as int;
//@ before_loop 1
    let ghost (l0, u0, l1, u1) = (lo@, up@, final(lo)@, final(up)@);
//@ loop 1 iter it
        invariant
            n % 2 == 0, 2 * l0.len() == n, u0.len() == l0.len(), l1.len() == l0.len(), u1.len() == l0.len(), it.seq().len() == l0.len(),
            forall|i: int| #![trigger it.seq()[i]] 0 <= i < l0.len() ==> *it.seq()[i].0 == l0[i] && *it.seq()[i].1 == u0[i]
                && *final(it.seq()[i].0) == l1[i] && *final(it.seq()[i].1) == u1[i],
            forall|i: int| #![trigger l1[i]] #![trigger u1[i]] 0 <= i < it.index() ==> l1[i] == u0[i] && u1[i] == l0[i],
//@ loop_start 1
            let ghost j = it.index();
            assert(*it.seq()[j].0 == l0[j]);
//@ after_loop 1
        assert forall|i: int| 0 <= i < n implies final(data)@[#[trigger] shift_to(n, forward, i)] == d0[i] by {
            let h = n / 2;
            if i < h { lemma_small_mod((i + h) as nat, n as nat); assert(u1[i] == l0[i]); }
            else {
                lemma_mod_multiples_vanish(1, i - h, n);
                lemma_small_mod((i - h) as nat, n as nat);
                assert(l1[i - h] == u0[i - h]);
            }
        };
//@ before_loop 2
        let ghost st = step as int;
        proof {
            assert(st == shift_step(n, forward));
            lemma_cyc_closes(n, st);
            lemma_cyc_next(n, st, 0);
            lemma_small_mod(0, n as nat);
        }
//@ loop 2 iter it
            invariant
                n == d0.len(), n % 2 == 1, n <= isize::MAX, len == n, data@.len() == n, st == step, st == n / 2 || st == n / 2 + 1,
                pos == cyc(n, st, it.index() + 1), 0 <= pos < n,
                temp == d0[cyc(n, st, it.index() as int)],
                it.index() < n ==> forall|k: int| #![trigger cyc(n, st, k)] it.index() < k < n ==> data@[cyc(n, st, k)] == d0[cyc(n, st, k)],
                it.index() < n ==> data@[0] == d0[0],
                forall|k: int| #![trigger cyc(n, st, k)] 1 <= k <= it.index() ==> data@[cyc(n, st, k)] == d0[cyc(n, st, k - 1)],
//@ loop_start 2
                let ghost k0 = it.index() as int;
                let ghost before = data@;
                proof {
                    lemma_cyc_next(n, st, k0); lemma_cyc_next(n, st, k0 + 1);
                    lemma_cyc_closes(n, st);
                }
//@ loop_end 2
                proof {
                    assert(data@ =~= before.update(cyc(n, st, k0 + 1), d0[cyc(n, st, k0)]));
                    assert forall|k: int| #![trigger cyc(n, st, k)] k0 + 1 < k < n implies data@[cyc(n, st, k)] == d0[cyc(n, st, k)] by {
                        lemma_cyc_inj(n, st, k0 + 1, k); lemma_cyc_next(n, st, k);
                        assert(before[cyc(n, st, k)] == d0[cyc(n, st, k)]);
                    }
                    assert forall|k: int| #![trigger cyc(n, st, k)] 1 <= k <= k0 + 1 implies data@[cyc(n, st, k)] == d0[cyc(n, st, k - 1)] by {
                        lemma_cyc_next(n, st, k);
                        if k <= k0 {
                            if k0 + 1 < n { lemma_cyc_inj(n, st, k, k0 + 1); } else { lemma_cyc_inj(n, st, 0, k); }
                            assert(before[cyc(n, st, k)] == d0[cyc(n, st, k - 1)]);
                        }
                    }
                    if k0 + 1 < n { lemma_cyc_inj(n, st, 0, k0 + 1); }
                    if k0 + 1 < n { assert(before[cyc(n, st, k0 + 1)] == d0[cyc(n, st, k0 + 1)]); }
                }
//@ after_loop 2
        assert forall|i: int| 0 <= i < n implies data@[#[trigger] shift_to(n, forward, i)] == d0[i] by {
            lemma_cyc_surj(n, st, i);
            let k = choose|k: int| 0 <= k < n && #[trigger] cyc(n, st, k) == i;
            lemma_cyc_next(n, st, k);
            assert(data@[cyc(n, st, k + 1)] == d0[cyc(n, st, k)]);
        }
//@ end

/// swapping forward and then backward (or the other way round) is the identity
proof fn lemma_shift_roundtrip(n: int, forward: bool, i: int)
    requires 0 <= i < n,
    ensures shift_to(n, !forward, shift_to(n, forward, i)) == i, 0 <= shift_to(n, forward, i) < n,
{
    let s = shift_step(n, forward); let t = shift_step(n, !forward);
    assert(s + t == n);
    lemma_mod_bound(i + s, n);
    lemma_add_mod_noop_right(t, i + s, n);
    assert(((i + s) % n + t) % n == (i + s + t) % n);
    lemma_mod_multiples_vanish(1, i, n);
    lemma_small_mod(i as nat, n as nat);
}

//@ extract file=vector/src/vector_types/general/data_reorganization.rs fn=reverse_array loops=1 props=C06
//@ spec
    requires
        old(data)@.len() <= isize::MAX,
    ensures
        final(data)@ == old(data)@.reverse(),
//@ body_start
    let ghost d0 = data@;
    let ghost n = data@.len() as int;
//@ before_loop 1
    let ghost (l0, u0, l1, u1) = (lo@, up@, final(lo)@, final(up)@);
//@ loop 1 iter it
        invariant
            l0.len() == (n + 1) / 2, u0.len() == n - l0.len(), l1.len() == l0.len(), u1.len() == u0.len(), it.seq().len() == u0.len(),
            forall|i: int| #![trigger it.seq()[i]] 0 <= i < u0.len() ==> *it.seq()[i].0 == l0[i] && *it.seq()[i].1 == u0[u0.len() - 1 - i]
                && *final(it.seq()[i].0) == l1[i] && *final(it.seq()[i].1) == u1[u0.len() - 1 - i],
            forall|i: int| #![trigger l1[i]] 0 <= i < it.index() ==> l1[i] == u0[u0.len() - 1 - i] && u1[u0.len() - 1 - i] == l0[i],
//@ loop_start 1
            let ghost j = it.index();
            assert(*it.seq()[j].0 == l0[j]);
//@ after_loop 1
    // ASSUMED: zip hands the loop no reference to the items behind the shorter iterator, so these keep their value
    assume(forall|i: int| u0.len() <= i < l0.len() ==> #[trigger] lo@[i] == l0[i]);
    assert forall|i: int| 0 <= i < n implies #[trigger] final(data)@[i] == d0[n - 1 - i] by {
        if i < u0.len() { assert(l1[i] == u0[u0.len() - 1 - i]); }
        else if i >= l0.len() { let k = n - 1 - i; assert(l1[k] == u0[u0.len() - 1 - k]); assert(u1[u0.len() - 1 - k] == l0[k]); }
    }
    assert(final(data)@ =~= d0.reverse());
//@ end

/// reversing twice is the identity
proof fn lemma_reverse_twice<T>(s: Seq<T>)
    ensures s.reverse().reverse() == s,
{
    assert(s.reverse().reverse() =~= s);
}

/// forward then backward restores every sequence of points
proof fn lemma_is_shift_roundtrip<E>(a: Seq<E>, b: Seq<E>, c: Seq<E>, forward: bool)
    requires is_shift(a, b, forward), is_shift(b, c, !forward),
    ensures a == c,
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by {
        lemma_shift_roundtrip(a.len() as int, forward, i);
        let j = shift_to(a.len() as int, forward, i);
        assert(b[j] == a[i]); assert(c[shift_to(a.len() as int, !forward, j)] == b[j]);
    }
    assert(a =~= c);
}

//@ include shiftapi
impl<S, T, N, D> DspVec<S, T, N, D>
where
    S: ToSliceMut<T>,
    T: RealNumber,
    N: NumberSpace,
    D: Domain,
{
//@ extract file=vector/src/vector_types/general/data_reorganization.rs fn=swap_halves impl="ReorganizeDataOps<T>\sfor" props=C05
//@ spec
        requires old(self).wf(),
        ensures
            final(self).frame(old(self)),
            !old(self).cplx() ==> is_shift(old(self)@, final(self)@, true),
            old(self).cplx() ==> is_shift(cseq(old(self)@), cseq(final(self)@), true),
//@ end
//@ extract file=vector/src/vector_types/general/data_reorganization.rs fn=reverse impl="ReorganizeDataOps<T>\sfor" props=C06
//@ spec
        requires old(self).wf(),
        ensures
            final(self).frame(old(self)),
            !old(self).cplx() ==> final(self)@ == old(self)@.reverse(),
            old(self).cplx() ==> final(self)@ == fseq(cseq(old(self)@).reverse()),
//@ body_start
        let ghost o = *self;
        let ghost st = self.st();
//@ after /reverse_array/ 1
            proof {
                lemma_cseq_fseq(data@);
                assert(cseq(o@) =~= cseq(st.subrange(0, len as int)));
            }
//@ end
}
}
fn main() {}
