
/// 64-bit division and multiplication by contract.  Under Kani the code's
/// `checked_div`, `checked_rem` and `checked_mul` are replaced by these (the SAT
/// back end cannot decide symbolic 64-bit products), and the specifications use
/// the same functions.  The contract: equal arguments give equal results, the
/// remainder is below the divisor, results are exact whenever the quotient is 0
/// or 1, and for q, r = div_rem(a, b): x <= q implies x * b <= a - r, with
/// equality for x == q.  verus/arithmetic.rs proves that integers satisfy it.
/// Natively these are the real operations.
pub mod division {
    #[cfg(kani)]
    const SLOTS: usize = 8;
    #[cfg(kani)]
    static mut TABLE: [(u64, u64, u64, u64); SLOTS] = [(0, 0, 0, 0); SLOTS];
    #[cfg(kani)]
    static mut USED: usize = 0;
    #[cfg(kani)]
    static mut PRODUCTS: [(u64, u64, Option<u64>); SLOTS] = [(0, 0, None); SLOTS];
    #[cfg(kani)]
    static mut MULTIPLIED: usize = 0;

    #[cfg(kani)]
    #[allow(static_mut_refs)]
    pub fn div_rem(a: u64, b: u64) -> (u64, u64) {
        assert!(b > 0);
        if a < b {
            return (0, a);
        }
        if a - b < b {
            return (1, a - b);
        }
        unsafe {
            let mut i = 0;
            while i < USED {
                if TABLE[i].0 == a && TABLE[i].1 == b {
                    return (TABLE[i].2, TABLE[i].3);
                }
                i += 1;
            }
            let (q, r): (u64, u64) = (kani::any(), kani::any());
            kani::assume(r < b && q >= 2 && q <= a);
            assert!(USED < SLOTS, "ghost table of the harness is large enough");
            TABLE[USED] = (a, b, q, r);
            USED += 1;
            (q, r)
        }
    }
    #[cfg(not(kani))]
    pub fn div_rem(a: u64, b: u64) -> (u64, u64) {
        (a / b, a % b)
    }

    #[cfg(kani)]
    #[allow(static_mut_refs)]
    pub fn checked_mul(x: u64, y: u64) -> Option<u64> {
        if x == 0 || y == 0 {
            return Some(0);
        }
        if x == 1 {
            return Some(y);
        }
        if y == 1 {
            return Some(x);
        }
        unsafe {
            let mut i = 0;
            while i < MULTIPLIED {
                let (p, q, r) = PRODUCTS[i];
                if p == x && q == y || p == y && q == x {
                    return r;
                }
                i += 1;
            }
            let r: Option<u64> = if kani::any() { Some(kani::any()) } else { None };
            let mut i = 0;
            while i < USED {
                let (a, b, quotient, remainder) = TABLE[i];
                if y == b && x <= quotient || x == b && y <= quotient {
                    let factor = if y == b && x <= quotient { x } else { y };
                    match r {
                        None => kani::assume(false),
                        Some(v) => {
                            kani::assume(v <= a - remainder && (factor != quotient || v == a - remainder))
                        }
                    }
                }
                i += 1;
            }
            assert!(MULTIPLIED < SLOTS, "ghost table of the harness is large enough");
            PRODUCTS[MULTIPLIED] = (x, y, r);
            MULTIPLIED += 1;
            r
        }
    }
    #[cfg(not(kani))]
    pub fn checked_mul(a: u64, b: u64) -> Option<u64> {
        a.checked_mul(b)
    }

    pub fn checked_div(a: u64, b: u64) -> Option<u64> {
        if b == 0 {
            None
        } else {
            Some(div_rem(a, b).0)
        }
    }
    pub fn checked_rem(a: u64, b: u64) -> Option<u64> {
        if b == 0 {
            None
        } else {
            Some(div_rem(a, b).1)
        }
    }
}
