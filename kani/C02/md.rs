// RAID 6 geometry against Linux raid5_compute_sector (drivers/md/raid5.c).
use super::raid6::Raid6Algorithm;
use super::units::{DeviceCount, SectorCount, SectorNumber};
#[allow(unused_imports)]
use crate::verif::division::{checked_div, checked_mul, checked_rem, div_rem};
use crate::verif::{contract, reach};
#[cfg(not(kani))]
use crate::verif::shim as kani;

fn wrap(x: u64, n: u64) -> u64 {
    if x >= n {
        x - n
    } else {
        x
    }
}

/// (sector, P, Q, data) for the ALGORITHM_* numbers of Linux.
fn linux(layout: u32, sector: u64, chunk: u32, n: u32) -> Option<(u64, u64, u64, u64)> {
    if chunk == 0 || n < 3 {
        return None;
    }
    let (chunk_number, chunk_offset) = div_rem(sector, u64::from(chunk));
    let n = u64::from(n);
    let data_disks = n - 2;
    let (stripe, dd) = div_rem(chunk_number, data_disks);
    let (pd, qd, dd) = match layout {
        0 | 1 | 8 | 9 => {
            let pd = match layout {
                0 => n - 1 - div_rem(stripe, n).1,
                9 => n - 1 - div_rem(stripe + 1, n).1,
                _ => div_rem(stripe, n).1,
            };
            if pd == n - 1 {
                (pd, 0, dd + 1)
            } else {
                (pd, pd + 1, if dd >= pd { dd + 2 } else { dd })
            }
        }
        2 | 3 => {
            let turn = div_rem(stripe, n).1;
            let pd = if layout == 2 { n - 1 - turn } else { turn };
            (pd, wrap(pd + 1, n), wrap(pd + 2 + dd, n))
        }
        4 => (0, 1, dd + 2),
        5 => (data_disks, data_disks + 1, dd),
        10 => {
            let pd = n - 1 - div_rem(stripe, n).1;
            (pd, wrap(pd + n - 1, n), wrap(pd + 1 + dd, n))
        }
        16 | 17 => {
            let turn = div_rem(stripe, n - 1).1;
            let pd = if layout == 16 { data_disks - turn } else { turn };
            (pd, n - 1, if dd >= pd { dd + 1 } else { dd })
        }
        18 | 19 => {
            let turn = div_rem(stripe, n - 1).1;
            let pd = if layout == 18 { data_disks - turn } else { turn };
            (pd, n - 1, wrap(pd + 1 + dd, n - 1))
        }
        20 => (0, n - 1, dd + 1),
        _ => return None,
    };
    let base = checked_mul(stripe, u64::from(chunk)).unwrap();
    Some((base + chunk_offset, pd, qd, dd))
}

fn mapping(layout: u32) {
    let sector: u64 = kani::any();
    let chunk: u32 = kani::any();
    let n: u32 = kani::any();
    // a real array never has 2^64 sectors; the code adds 1 to the stripe number
    kani::assume(sector < u64::MAX);
    let expected = linux(layout, sector, chunk, n);
    let actual = Raid6Algorithm::from_layout(layout)
        .and_then(|a| a.compute_sector(SectorNumber(sector), SectorCount(chunk), DeviceCount(n)));
    match (expected, actual) {
        (None, None) => {}
        (Some((sector_in_device, pd, qd, dd)), Some((s, p, q, d))) => {
            assert!(u64::from(p.0) == pd, "P member");
            assert!(u64::from(q.0) == qd, "Q member");
            assert!(u64::from(d.0) == dd, "data member");
            assert!(s.0 == sector_in_device, "member sector");
            assert!(p.0 < n && q.0 < n && d.0 < n && p != d && q != d && p != q, "distinct members");
            reach!(n > 3);
        }
        (Some(_), None) => panic!("a valid position is refused"),
        (None, Some(_)) => panic!("an invalid geometry is accepted"),
    }
}

contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn left_asymmetric() { mapping(0) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn right_asymmetric() { mapping(1) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn left_symmetric() { mapping(2) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn right_symmetric() { mapping(3) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn parity_0() { mapping(4) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn parity_n() { mapping(5) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn rotating_0_restart() { mapping(8) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn rotating_n_restart() { mapping(9) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn rotating_n_continue() { mapping(10) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn left_asymmetric_6() { mapping(16) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn right_asymmetric_6() { mapping(17) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn left_symmetric_6() { mapping(18) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn right_symmetric_6() { mapping(19) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn parity_0_6() { mapping(20) }
}
contract! {
    fn other_layouts_are_unknown() {
        let layout: u32 = kani::any();
        let known = layout <= 5 || (8..=10).contains(&layout) || (16..=20).contains(&layout);
        assert!(Raid6Algorithm::from_layout(layout).is_some() == known);
        reach!(!known);
    }
}
