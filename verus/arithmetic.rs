// Lemmas behind the contract `kani/common/division.rs` gives to 64-bit division
// and multiplication, and the injectivity of the Linux md geometry formulas that
// kani/C01 and kani/C02 prove the code computes.
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

verus! {

// --- the contract of division.rs holds for mathematical (hence u64) integers ---

proof fn quotient_zero(a: nat, b: nat)
    requires a < b,
    ensures a / b == 0, a % b == a,
{
    lemma_basic_div(a as int, b as int);
    lemma_small_mod(a, b);
}

proof fn quotient_one(a: nat, b: nat)
    requires b > 0, a >= b, a - b < b,
    ensures a / b == 1, a % b == a - b,
{
    lemma_fundamental_div_mod_converse(a as int, b as int, 1, a - b);
}

proof fn quotient_large(a: nat, b: nat)
    requires b > 0, a >= b, a - b >= b,
    ensures a % b < b, a / b >= 2, a / b <= a,
{
    lemma_mod_bound(a as int, b as int);
    lemma_fundamental_div_mod(a as int, b as int);
    lemma_div_is_ordered(2 * b as int, a as int, b as int);
    lemma_div_multiples_vanish(2, b as int);
    assert((2 * b as int) / b as int == 2) by {
        lemma_mul_is_commutative(2, b as int);
    }
    lemma_div_nonincreasing(a as int, b as int);
}

// x <= q implies x * b <= a - r (so the product fits), with equality for x == q
proof fn product_of_quotient(a: nat, b: nat, x: nat)
    requires b > 0, x <= a / b,
    ensures x * b <= a - a % b, x == a / b ==> x * b == a - a % b,
{
    lemma_fundamental_div_mod(a as int, b as int);
    lemma_mul_inequality(x as int, (a / b) as int, b as int);
    lemma_mul_is_commutative(b as int, (a / b) as int);
}

// --- the Linux formulas ---

spec fn data_disks(raid6: bool, n: int) -> int {
    if raid6 { n - 2 } else { n - 1 }
}

spec fn wrapped(x: int, n: int) -> int {
    if x >= n { x - n } else { x }
}

/// Data member of data disk `dd` in stripe row `stripe` (kani/C01 `linux`).
spec fn member5(layout: int, n: int, stripe: int, dd: int) -> int {
    let turn = stripe % n;
    if layout == 0 {
        if dd >= n - 1 - turn { dd + 1 } else { dd }
    } else if layout == 1 {
        if dd >= turn { dd + 1 } else { dd }
    } else if layout == 2 {
        wrapped(n - 1 - turn + 1 + dd, n)
    } else if layout == 3 {
        wrapped(turn + 1 + dd, n)
    } else if layout == 4 {
        dd + 1
    } else {
        dd
    }
}

spec fn restart6(pd: int, n: int, dd: int) -> int {
    if pd == n - 1 { dd + 1 } else if dd >= pd { dd + 2 } else { dd }
}

/// Data member of data disk `dd` in stripe row `stripe` (kani/C02 `linux`).
spec fn member6(layout: int, n: int, stripe: int, dd: int) -> int {
    if layout == 0 {
        restart6(n - 1 - stripe % n, n, dd)
    } else if layout == 9 {
        restart6(n - 1 - (stripe + 1) % n, n, dd)
    } else if layout == 1 || layout == 8 {
        restart6(stripe % n, n, dd)
    } else if layout == 2 {
        wrapped(n - 1 - stripe % n + 2 + dd, n)
    } else if layout == 3 {
        wrapped(stripe % n + 2 + dd, n)
    } else if layout == 4 {
        dd + 2
    } else if layout == 5 {
        dd
    } else if layout == 10 {
        wrapped(n - 1 - stripe % n + 1 + dd, n)
    } else if layout == 16 {
        if dd >= n - 2 - stripe % (n - 1) { dd + 1 } else { dd }
    } else if layout == 17 {
        if dd >= stripe % (n - 1) { dd + 1 } else { dd }
    } else if layout == 18 {
        wrapped(n - 2 - stripe % (n - 1) + 1 + dd, n - 1)
    } else if layout == 19 {
        wrapped(stripe % (n - 1) + 1 + dd, n - 1)
    } else {
        dd + 1
    }
}

spec fn member(raid6: bool, layout: int, n: int, stripe: int, dd: int) -> int {
    if raid6 { member6(layout, n, stripe, dd) } else { member5(layout, n, stripe, dd) }
}

spec fn stripe_of(raid6: bool, n: int, chunk: int, sector: int) -> int {
    (sector / chunk) / data_disks(raid6, n)
}

spec fn dd_of(raid6: bool, n: int, chunk: int, sector: int) -> int {
    (sector / chunk) % data_disks(raid6, n)
}

spec fn member_sector(raid6: bool, n: int, chunk: int, sector: int) -> int {
    stripe_of(raid6, n, chunk, sector) * chunk + sector % chunk
}

proof fn member_is_injective_in_a_row(raid6: bool, layout: int, n: int, stripe: int, d: int, e: int)
    requires
        stripe >= 0,
        n >= if raid6 { 3int } else { 2int },
        0 <= d < data_disks(raid6, n),
        0 <= e < data_disks(raid6, n),
        member(raid6, layout, n, stripe, d) == member(raid6, layout, n, stripe, e),
    ensures d == e,
{
    lemma_mod_bound(stripe, n);
    lemma_mod_bound(stripe + 1, n);
    lemma_mod_bound(stripe, n - 1);
}

/// Different array sectors never share a (member, sector) pair.
proof fn mapping_is_injective(raid6: bool, layout: int, n: int, chunk: int, s: int, t: int)
    requires
        s >= 0, t >= 0, chunk > 0,
        n >= if raid6 { 3int } else { 2int },
        member_sector(raid6, n, chunk, s) == member_sector(raid6, n, chunk, t),
        member(raid6, layout, n, stripe_of(raid6, n, chunk, s), dd_of(raid6, n, chunk, s))
            == member(raid6, layout, n, stripe_of(raid6, n, chunk, t), dd_of(raid6, n, chunk, t)),
    ensures s == t,
{
    let k = data_disks(raid6, n);
    let (p, q) = (stripe_of(raid6, n, chunk, s), stripe_of(raid6, n, chunk, t));
    let (a, b) = (s % chunk, t % chunk);
    lemma_mod_bound(s, chunk);
    lemma_mod_bound(t, chunk);
    // stripe and offset are determined by the member sector
    let v = p * chunk + a;
    lemma_fundamental_div_mod_converse(v, chunk, p, a);
    lemma_fundamental_div_mod_converse(v, chunk, q, b);
    lemma_div_pos_is_pos(s, chunk);
    lemma_div_pos_is_pos(t, chunk);
    lemma_div_pos_is_pos(s / chunk, k);
    lemma_mod_bound(s / chunk, k);
    lemma_mod_bound(t / chunk, k);
    member_is_injective_in_a_row(raid6, layout, n, p, dd_of(raid6, n, chunk, s), dd_of(raid6, n, chunk, t));
    lemma_fundamental_div_mod(s / chunk, k);
    lemma_fundamental_div_mod(t / chunk, k);
    lemma_fundamental_div_mod(s, chunk);
    lemma_fundamental_div_mod(t, chunk);
}

} // verus!

fn main() {}
