// RAID 6 sector reads return the data member's bytes, and only when P is their
// XOR.  The address mapping is any function here (C02 decides which one).
use super::algorithm::MdAlgorithm;
#[allow(unused_imports)]
use super::raid5::Raid5Algorithm;
#[allow(unused_imports)]
use super::raid6::Raid6Algorithm;
use super::units::{DeviceCount, DeviceNumber, SectorCount, SectorNumber};
use crate::verif::{contract, reach};
use std::io;
#[cfg(not(kani))]
use crate::verif::shim as kani;

type Mapped = Option<(SectorNumber, DeviceNumber, DeviceNumber, DeviceNumber)>;

#[cfg(kani)]
static mut MAPPED: Mapped = None;
#[cfg(kani)]
static mut ASKED: (u64, u32, u32) = (0, 0, 0);

/// `compute_sector` by contract: a function of its arguments; what it maps to
/// has three distinct members below the device count.
#[cfg(kani)]
fn mapping_by_contract(
    _: &Raid6Algorithm,
    sector: SectorNumber,
    chunk: SectorCount<u32>,
    devices: DeviceCount,
) -> Mapped {
    unsafe {
        assert!(ASKED == (sector.0, chunk.0, devices.0), "the mapping of the sector that is read");
        MAPPED
    }
}
#[cfg(kani)]
fn map(_: &MdAlgorithm, sector: u64, chunk: u32, n: u32, members: Option<(u32, u32, u32)>) -> Mapped {
    let at = SectorNumber(kani::any());
    unsafe {
        ASKED = (sector, chunk, n);
        MAPPED = members.map(|(p, q, d)| (at, DeviceNumber(p), DeviceNumber(q), DeviceNumber(d)));
        MAPPED
    }
}
#[cfg(not(kani))]
fn map(algorithm: &MdAlgorithm, sector: u64, chunk: u32, n: u32, _: Option<(u32, u32, u32)>) -> Mapped {
    match algorithm {
        MdAlgorithm::Raid6(a) => a.compute_sector(SectorNumber(sector), SectorCount(chunk), DeviceCount(n)),
        _ => None,
    }
}

/// What a member does when it is read.
#[derive(Clone, Copy, PartialEq)]
enum Member {
    Whole,
    Short,
    Fails,
}

fn layout() -> u32 {
    let layout: u32 = kani::any();
    #[cfg(not(kani))]
    let layout = [0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20][layout as usize % 14];
    layout
}

/// Reads one sector of an array of `N` members, of which `bad` does not deliver.
fn read<const N: usize>(members: Option<(u32, u32, u32)>, bad: usize, how: Member) {
    let mut contents = [[0u8; 512]; N];
    // under Kani arbitrary at three places and zero elsewhere: all else is decided
    // by constant propagation
    #[cfg(kani)]
    for c in &mut contents {
        c[0] = kani::any();
        c[255] = kani::any();
        c[511] = kani::any();
    }
    #[cfg(not(kani))]
    for c in &mut contents {
        *c = kani::any();
    }
    let (sector, chunk): (u64, u32) = (kani::any(), kani::any());
    #[cfg(not(kani))]
    kani::assume(sector < u64::MAX);
    let algorithm = {
        #[cfg(kani)]
        {
            MdAlgorithm::Raid6(Raid6Algorithm::LeftSymmetric)
        }
        #[cfg(not(kani))]
        {
            MdAlgorithm::from_level_and_layout(6, layout())
        }
    };
    let mapped = map(&algorithm, sector, chunk, N as u32, members);
    #[cfg(not(kani))]
    {
        let way: u8 = kani::any();
        // give the parity a chance to match
        let (way, at): (u8, u16) = (way, kani::any());
        if let (Some((_, p, q, _)), true) = (mapped, way != 0xff) {
            let (p, q) = (p.0 as usize, q.0 as usize);
            for b in 0..512 {
                contents[p][b] = (0..N).filter(|i| *i != p && *i != q).fold(0, |x, i| x ^ contents[i][b]);
            }
            if way & 1 == 1 {
                contents[way as usize % N][at as usize % 512] ^= 1 << (way >> 4 & 7);
            }
        }
    }
    let mut asked_elsewhere = false;
    let result = algorithm.read_sector(
        SectorNumber(sector),
        SectorCount(chunk),
        DeviceCount(N as u32),
        |member, at, buf| {
            asked_elsewhere |= mapped.map(|m| m.0) != Some(at) || member.0 as usize >= N || buf.len() < 512;
            let i = member.0 as usize;
            if i == bad {
                match how {
                    Member::Fails => return Err(io::ErrorKind::Other.into()),
                    Member::Short => {
                        return Ok([511, 0, 1, 256][i]);
                    }
                    Member::Whole => {}
                }
            }
            buf[..512].copy_from_slice(&contents[i]);
            Ok(512)
        },
    );
    assert!(!asked_elsewhere, "members are read at the mapped sector only");
    let verified = match mapped {
        None => false,
        Some((_, p, q, _)) => {
            let (p, q) = (p.0 as usize, q.0 as usize);
            let mut equal = true;
            // the members are zero, and so equal, elsewhere
            #[cfg(kani)]
            let places = [0, 255, 511];
            #[cfg(not(kani))]
            let places: Vec<usize> = (0..512).collect();
            for b in places {
                let mut x = 0;
                let mut i = 0;
                while i < N {
                    if i != p && i != q {
                        x ^= contents[i][b];
                    }
                    i += 1;
                }
                equal &= x == contents[p][b];
            }
            equal
        }
    };
    match &result {
        Ok(bytes) => {
            assert!(verified, "bytes of a row whose P member is not the XOR of its data members");
            // a member that does not deliver may be tolerated where its bytes are not needed
            assert!(bad >= N || how == Member::Whole, "a row with a member that does not deliver");
            let data = mapped.unwrap().3 .0 as usize;
            assert!(bytes.len() == 512);
            let at: usize = kani::any();
            #[cfg(not(kani))]
            let at = at % 512;
            kani::assume(at < 512);
            assert!(bytes[at] == contents[data][at], "the bytes of the data member");
        }
        Err(_) => {
            assert!(!verified || how != Member::Whole, "an intact row is refused");
        }
    }
    std::mem::forget(result);
}

contract! {
    #[kani::stub(Raid6Algorithm::compute_sector, mapping_by_contract)]
    #[kani::stub(<std::alloc::Global as std::alloc::Allocator>::deallocate, crate::verif::keep_memory)]
    #[kani::unwind(514)]
    fn row_of_3_with_p_0_q_1_data_2() { read::<3>(Some((0, 1, 2)), usize::MAX, Member::Whole) }
}
contract! {
    #[kani::stub(Raid6Algorithm::compute_sector, mapping_by_contract)]
    #[kani::stub(<std::alloc::Global as std::alloc::Allocator>::deallocate, crate::verif::keep_memory)]
    #[kani::unwind(514)]
    fn row_of_3_with_p_2_q_0_data_1() { read::<3>(Some((2, 0, 1)), usize::MAX, Member::Whole) }
}
contract! {
    #[kani::stub(Raid6Algorithm::compute_sector, mapping_by_contract)]
    #[kani::stub(<std::alloc::Global as std::alloc::Allocator>::deallocate, crate::verif::keep_memory)]
    #[kani::unwind(514)]
    fn row_of_4_with_p_0_q_2_data_3() { read::<4>(Some((0, 2, 3)), usize::MAX, Member::Whole) }
}
contract! {
    #[kani::stub(Raid6Algorithm::compute_sector, mapping_by_contract)]
    #[kani::stub(<std::alloc::Global as std::alloc::Allocator>::deallocate, crate::verif::keep_memory)]
    #[kani::unwind(514)]
    fn row_of_4_with_p_1_q_3_data_2() { read::<4>(Some((1, 3, 2)), usize::MAX, Member::Whole) }
}
contract! {
    #[kani::stub(Raid6Algorithm::compute_sector, mapping_by_contract)]
    #[kani::stub(<std::alloc::Global as std::alloc::Allocator>::deallocate, crate::verif::keep_memory)]
    #[kani::unwind(514)]
    fn no_row() { read::<3>(None, usize::MAX, Member::Whole) }
}
contract! {
    #[kani::stub(Raid6Algorithm::compute_sector, mapping_by_contract)]
    #[kani::stub(<std::alloc::Global as std::alloc::Allocator>::deallocate, crate::verif::keep_memory)]
    #[kani::unwind(514)]
    fn member_0_of_3_short() { read::<3>(Some((0, 1, 2)), 0, Member::Short) }
}
contract! {
    #[kani::stub(Raid6Algorithm::compute_sector, mapping_by_contract)]
    #[kani::stub(<std::alloc::Global as std::alloc::Allocator>::deallocate, crate::verif::keep_memory)]
    #[kani::unwind(514)]
    fn member_1_of_3_short() { read::<3>(Some((2, 0, 1)), 1, Member::Short) }
}
contract! {
    #[kani::stub(Raid6Algorithm::compute_sector, mapping_by_contract)]
    #[kani::stub(<std::alloc::Global as std::alloc::Allocator>::deallocate, crate::verif::keep_memory)]
    #[kani::unwind(514)]
    fn member_2_of_4_short() { read::<4>(Some((3, 1, 0)), 2, Member::Short) }
}
contract! {
    #[kani::stub(Raid6Algorithm::compute_sector, mapping_by_contract)]
    #[kani::stub(<std::alloc::Global as std::alloc::Allocator>::deallocate, crate::verif::keep_memory)]
    #[kani::unwind(514)]
    fn member_3_of_4_short() { read::<4>(Some((2, 0, 1)), 3, Member::Short) }
}
contract! {
    #[kani::stub(Raid6Algorithm::compute_sector, mapping_by_contract)]
    #[kani::stub(<std::alloc::Global as std::alloc::Allocator>::deallocate, crate::verif::keep_memory)]
    #[kani::unwind(514)]
    fn member_0_of_3_fails() { read::<3>(Some((0, 1, 2)), 0, Member::Fails) }
}
contract! {
    #[kani::stub(Raid6Algorithm::compute_sector, mapping_by_contract)]
    #[kani::stub(<std::alloc::Global as std::alloc::Allocator>::deallocate, crate::verif::keep_memory)]
    #[kani::unwind(514)]
    fn member_1_of_3_fails() { read::<3>(Some((2, 0, 1)), 1, Member::Fails) }
}
contract! {
    #[kani::stub(Raid6Algorithm::compute_sector, mapping_by_contract)]
    #[kani::stub(<std::alloc::Global as std::alloc::Allocator>::deallocate, crate::verif::keep_memory)]
    #[kani::unwind(514)]
    fn member_2_of_4_fails() { read::<4>(Some((3, 1, 0)), 2, Member::Fails) }
}
contract! {
    #[kani::stub(Raid6Algorithm::compute_sector, mapping_by_contract)]
    #[kani::stub(<std::alloc::Global as std::alloc::Allocator>::deallocate, crate::verif::keep_memory)]
    #[kani::unwind(514)]
    fn member_3_of_4_fails() { read::<4>(Some((2, 0, 1)), 3, Member::Fails) }
}
fn refused(algorithm: MdAlgorithm) {
    let result = algorithm.read_sector(
        SectorNumber(kani::any()),
        SectorCount(kani::any()),
        DeviceCount(kani::any()),
        |_, _, buf| Ok(buf.len()),
    );
    assert!(result.is_err(), "bytes of an unverifiable level");
    std::mem::forget(result);
}
contract! {
    #[kani::unwind(4)]
    fn other_levels_are_refused() {
        refused(MdAlgorithm::Unsupported { level: kani::any(), layout: kani::any() });
        refused(MdAlgorithm::Raid5(Raid5Algorithm::LeftSymmetric));
        refused(MdAlgorithm::Raid5(Raid5Algorithm::ParityN));
    }
}

// The whole way: stored superblocks, assembly, reads.  Only run natively.
#[cfg(all(test, not(kani)))]
mod whole {
    use super::*;
    use crate::block_device::{BlockDevice, BlockDeviceReader, BlockNumber, BlockSize, InMemoryBlockDevice};
    use crate::md::array::MdArray;
    use crate::md::MdDevice;
    use crate::verif::explored;
    use std::rc::Rc;

    const SECTORS: usize = 40;

    fn put(bytes: &mut [u8], at: usize, value: u64, n: usize) {
        bytes[at..at + n].copy_from_slice(&value.to_le_bytes()[..n]);
    }

    explored! {
        fn stored_arrays_are_read_back() {
            let shape: [u8; 16] = kani::any();
            let n = 3 + usize::from(shape[0] % 4);
            let chunk = [1u32, 2, 3, 8][usize::from(shape[1] % 4)];
            let layout = [0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20][usize::from(shape[2] % 14)];
            let data_offset: Vec<usize> = (0..n).map(|i| 16 + usize::from(shape[3 + i] % 4)).collect();
            let Some(algorithm) = Raid6Algorithm::from_layout(layout) else { panic!("a layout is not recognised") };
            let seed: u64 = kani::any();
            let per_device = SECTORS - 20;
            let rows = per_device / chunk as usize * chunk as usize;
            let array_sectors = rows * (n - 2);
            let sector = (usize::from(shape[10]) * 256 + usize::from(shape[11])) % array_sectors;
            let (at, p, q, data) = algorithm
                .compute_sector(SectorNumber(sector as u64), SectorCount(chunk), DeviceCount(n as u32))
                .expect("a position of the array");
            // arbitrary data around the row, where P is the XOR of the data members
            let mut disks = vec![vec![0u8; SECTORS * 512]; n];
            for (d, disk) in disks.iter_mut().enumerate() {
                let from = (data_offset[d] + at.0 as usize - 1) * 512;
                for (i, byte) in disk[from..].iter_mut().take(3 * 512).enumerate() {
                    *byte = (seed ^ (d as u64) << 40 ^ i as u64).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(20) as u8;
                }
            }
            let position = |d: usize| (data_offset[d] + at.0 as usize) * 512;
            for b in 0..512 {
                let x = (0..n)
                    .filter(|d| *d != p.0 as usize && *d != q.0 as usize)
                    .fold(0, |x, d| x ^ disks[d][position(d) + b]);
                disks[p.0 as usize][position(p.0 as usize) + b] = x;
            }
            for (d, disk) in disks.iter_mut().enumerate() {
                let s = &mut disk[4096..8192];
                s.fill(0);
                put(s, 0, 0xa92b4efc, 4);
                put(s, 4, 1, 4);
                put(s, 72, 6, 4);
                put(s, 76, layout.into(), 4);
                put(s, 80, per_device as u64, 8);
                put(s, 88, chunk.into(), 4);
                put(s, 92, n as u64, 4);
                put(s, 128, data_offset[d] as u64, 8);
                put(s, 136, per_device as u64, 8);
                put(s, 144, 8, 8);
                put(s, 160, d as u64, 4);
                put(s, 220, n as u64, 4);
                for role in 0..n {
                    put(s, 256 + 2 * role, role as u64, 2);
                }
            }
            // one member may differ in one bit, be too short or be missing
            let victim = usize::from(shape[12]) % n;
            let what = shape[13] % 4;
            let mut intact = true;
            let place = (data_offset[victim] + at.0 as usize) * 512;
            if what == 1 {
                disks[victim][place + usize::from(shape[14]) * 2 + usize::from(shape[15] & 1)] ^= 1 << (shape[15] >> 5);
                intact = victim == q.0 as usize;
            } else if what == 2 && place >= 12288 {
                disks[victim].truncate(place + 511);
                intact = false;
            }
            let expected: Vec<u8> = {
                let start = (data_offset[data.0 as usize] + at.0 as usize) * 512;
                disks[data.0 as usize].iter().skip(start).take(512).copied().collect()
            };
            let members: Vec<Rc<_>> = disks
                .into_iter()
                .enumerate()
                .filter(|(d, _)| {
                    let absent = what == 3 && *d == victim;
                    intact &= !absent;
                    !absent
                })
                .map(|(_, bytes)| {
                    let device = BlockDeviceReader::new(InMemoryBlockDevice::new(bytes, BlockSize(512)));
                    Rc::new(MdDevice::from_block_device(device, None::<&str>).expect("a readable member"))
                })
                .collect();
            let mut array = MdArray::open(members);
            let mut buf = [0x77u8; 600];
            match array.read_block(BlockNumber(sector as u64), &mut buf) {
                Ok(length) => {
                    assert!(intact, "bytes of a row that cannot be verified");
                    assert!(length == 512 && buf[..512] == expected[..] && buf[512..].iter().all(|b| *b == 0x77));
                }
                Err(_) => assert!(!intact, "an intact row is refused"),
            }
        }
    }
}
