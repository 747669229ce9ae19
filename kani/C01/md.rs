// RAID 5 geometry against Linux raid5_compute_sector (drivers/md/raid5.c).
use super::raid5::Raid5Algorithm;
use super::units::{DeviceCount, SectorCount, SectorNumber};
#[allow(unused_imports)]
use crate::verif::division::{checked_div, checked_mul, checked_rem, div_rem};
use crate::verif::{contract, reach};
#[cfg(not(kani))]
use crate::verif::shim as kani;

/// (sector, parity, data) for the ALGORITHM_* numbers of Linux.
fn linux(layout: u32, sector: u64, chunk: u32, n: u32) -> Option<(u64, u32, u32)> {
    if layout > 5 || chunk == 0 || n < 2 {
        return None;
    }
    let (chunk_number, chunk_offset) = div_rem(sector, u64::from(chunk));
    let data_disks = u64::from(n) - 1;
    let (stripe, dd) = div_rem(chunk_number, data_disks);
    let n = u64::from(n);
    let turn = || div_rem(stripe, n).1;
    let (pd, dd) = match layout {
        0 => {
            let pd = data_disks - turn();
            (pd, if dd >= pd { dd + 1 } else { dd })
        }
        1 => {
            let pd = turn();
            (pd, if dd >= pd { dd + 1 } else { dd })
        }
        2 => {
            let pd = data_disks - turn();
            (pd, (pd + 1 + dd) - if pd + 1 + dd >= n { n } else { 0 })
        }
        3 => {
            let pd = turn();
            (pd, (pd + 1 + dd) - if pd + 1 + dd >= n { n } else { 0 })
        }
        4 => (0, dd + 1),
        _ => (data_disks, dd),
    };
    let base = checked_mul(stripe, u64::from(chunk)).unwrap();
    Some((base + chunk_offset, pd as u32, dd as u32))
}

fn mapping(layout: u32) {
    let sector: u64 = kani::any();
    let chunk: u32 = kani::any();
    let n: u32 = kani::any();
    let expected = linux(layout, sector, chunk, n);
    let actual = Raid5Algorithm::from_layout(layout)
        .and_then(|a| a.compute_sector(SectorNumber(sector), SectorCount(chunk), DeviceCount(n)));
    match (expected, actual) {
        (None, None) => {}
        (Some((sector_in_device, pd, dd)), Some((s, p, d))) => {
            assert!(p.0 == pd, "parity member");
            assert!(d.0 == dd, "data member");
            assert!(s.0 == sector_in_device, "member sector");
            assert!(p.0 < n && d.0 < n && p != d, "distinct members of the array");
            reach!(d.0 > p.0 || layout == 5);
            reach!(d.0 < p.0 || layout == 4);
        }
        (Some(_), None) => panic!("a valid position is refused"),
        (None, Some(_)) => panic!("an invalid geometry is accepted"),
    }
}

contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn left_asymmetric() { mapping(0) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn right_asymmetric() { mapping(1) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn left_symmetric() { mapping(2) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn right_symmetric() { mapping(3) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn parity_0() { mapping(4) }
}
contract! {
    #[kani::stub(u64::checked_div, checked_div)]
    #[kani::stub(u64::checked_rem, checked_rem)]
    #[kani::stub(u64::checked_mul, checked_mul)]
    fn parity_n() { mapping(5) }
}
contract! {
    fn other_layouts_are_unknown() {
        let layout: u32 = kani::any();
        assert!(Raid5Algorithm::from_layout(layout).is_some() == (layout <= 5));
        reach!(layout == 6);
    }
}
