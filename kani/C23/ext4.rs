// Ext4String: equality, order and hash are those of the bytes.
use super::string::Ext4String;
use crate::verif::{contract, reach};
#[cfg(not(kani))]
use crate::verif::shim as kani;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

#[derive(Default)]
struct Record(u64, usize);
impl Hasher for Record {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = self.0.rotate_left(8) ^ u64::from(*b);
            self.1 += 1;
        }
    }
}
fn hash<S: AsRef<[u8]>>(s: &Ext4String<S>) -> (u64, usize) {
    let mut h = Record::default();
    s.hash(&mut h);
    (h.0, h.1)
}
fn bytes_of<'s, S: AsRef<[u8]>>(s: &'s Ext4String<S>) -> &'s [u8] {
    s.into()
}

/// Arbitrary names reach the type through NUL-terminated storage, so they have no
/// NUL; the expected byte order is spelled out.
fn order(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] != b[i] {
            return if a[i] < b[i] { Ordering::Less } else { Ordering::Greater };
        }
        i += 1;
    }
    if a.len() == b.len() {
        Ordering::Equal
    } else if a.len() < b.len() {
        Ordering::Less
    } else {
        Ordering::Greater
    }
}

const N: usize = 4;

fn name(n: usize, bytes: &[u8; N]) -> &[u8] {
    for i in 0..N {
        kani::assume(i >= n || bytes[i] != 0);
    }
    &bytes[..n]
}

contract! {
    #[kani::unwind(7)]
    fn names_compare_by_their_bytes() {
        let (x, y): ([u8; N], [u8; N]) = (kani::any(), kani::any());
        let (n, m): (usize, usize) = (kani::any(), kani::any());
        kani::assume(n <= N && m <= N);
        let (x, y) = (name(n, &x), name(m, &y));
        let a = Ext4String::from_null_terminated_bytes(x);
        let b = Ext4String::from_null_terminated_bytes(y);
        let expected = order(x, y);
        assert!(a.cmp(&b) == expected && a.partial_cmp(&b) == Some(expected), "order of the bytes");
        assert!((a == b) == (expected == Ordering::Equal), "equality of the bytes");
        assert!((a < b) == (expected == Ordering::Less) && (a > b) == (expected == Ordering::Greater));
        reach!(expected == Ordering::Less && n > m);
        reach!(expected == Ordering::Equal && n == N);
    }
}

contract! {
    #[kani::unwind(12)]
    fn owned_names_compare_like_borrowed_ones() {
        let (x, y): ([u8; N], [u8; N]) = (kani::any(), kani::any());
        let (n, m): (usize, usize) = (kani::any(), kani::any());
        kani::assume(n <= 2 && m <= 2);
        let (x, y) = (name(n, &x), name(m, &y));
        let a = Ext4String::from_null_terminated_bytes(x);
        let b = Ext4String::from_null_terminated_bytes(y);
        let (p, q) = (a.to_owned(), b.to_owned());
        assert!(bytes_of(&p) == x && bytes_of(&a) == x, "the same bytes");
        assert!(p.len() == n && a.len() == n && a.is_empty() == (n == 0));
        assert!((p == q) == (a == b) && p.cmp(&q) == a.cmp(&b));
        let (g, h) = (hash(&a), hash(&q));
        assert!(hash(&p) == g && hash(&b) == h, "the hash depends on the bytes only");
        if a == b {
            assert!(g == h, "equal names hash equally");
        }
        reach!(a == b && n == 2);
        reach!(a != b);
    }
}

contract! {
    #[kani::unwind(8)]
    fn a_name_ends_at_the_first_nul() {
        let x: [u8; 6] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 6);
        let name = Ext4String::from_null_terminated_bytes(&x[..n]);
        let got = bytes_of(&name);
        assert!(got.len() <= n);
        let i: usize = kani::any();
        kani::assume(i < n);
        if i < got.len() {
            assert!(got[i] == x[i] && x[i] != 0, "the bytes before the NUL");
        }
        if i == got.len() {
            assert!(x[i] == 0, "ends only at a NUL");
        }
        reach!(got.len() == 6);
        reach!(got.len() == 0 && n > 2);
    }
}
