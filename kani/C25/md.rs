// Device identities: unique whatever the history, stable under clone.
use super::device::MdDeviceId;
use crate::verif::{contract, reach};
#[cfg(not(kani))]
use crate::verif::shim as kani;
use std::hash::{Hash, Hasher};

/// Records what is hashed.
#[derive(Default)]
struct Record(u64, usize);
impl Hasher for Record {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = self.0.rotate_left(8) ^ u64::from(*b);
            self.1 += 1;
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = self.0.rotate_left(1) ^ v;
        self.1 += 8;
    }
}
fn hash(id: &MdDeviceId) -> (u64, usize) {
    let mut h = Record::default();
    id.hash(&mut h);
    (h.finish(), h.1)
}

/// The atomic counter by contract: two calls at arbitrary points of an arbitrary
/// history return two different values, in order.
#[cfg(kani)]
mod counter {
    static mut NEXT: u64 = 0;
    pub fn fetch_add(_: &std::sync::atomic::AtomicU64, n: u64, _: std::sync::atomic::Ordering) -> u64 {
        assert!(n == 1);
        unsafe {
            let v: u64 = kani::any();
            kani::assume(v >= NEXT && v < u64::MAX);
            NEXT = v + 1;
            v
        }
    }
}

fn reference(kind: u8) -> Option<&'static str> {
    match kind % 3 {
        0 => None,
        1 => Some("a"),
        _ => Some("b"),
    }
}

fn identities() {
    let (r1, r2): (u8, u8) = (kani::any(), kani::any());
    kani::assume(r1 < 3 && r2 < 3);
    let a = MdDeviceId::new(reference(r1));
    let b = MdDeviceId::new(reference(r2));
    assert!(a != b && b != a, "identities are unique");
    let (c, d) = (a.clone(), b.clone());
    assert!(a == c && c == a && a == a && b == d, "identities are stable");
    assert!(c != d && c != b && a != d);
    assert!(hash(&a) == hash(&c) && hash(&b) == hash(&d), "equal identities hash equally");
    reach!(r1 == r2);
    reach!(r1 != r2);
}

contract! {
    #[kani::stub(std::sync::atomic::Atomic::<u64>::fetch_add, counter::fetch_add)]
    #[kani::unwind(9)]
    fn identities_from_any_two_points_of_a_history() { identities() }
}
contract! {
    #[kani::unwind(9)]
    fn identities_of_the_real_counter() { identities() }
}
