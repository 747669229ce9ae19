// Version 0.90/0.91 md superblocks against the Linux on-disk format
// (struct mdp_superblock_s, include/uapi/linux/raid/md_p.h): the conversion of
// arbitrary stored bytes, in either byte order, into the common representation.
use super::{big_endian, little_endian, SuperblockVersion0};
use crate::md::algorithm::MdAlgorithm;
use crate::md::superblock::{ArrayUuid, ReshapeStatus, Superblock};
use crate::md::units::{DeviceCount, SectorCount, SectorNumber};
use crate::verif::reach;
#[cfg(not(kani))]
use crate::verif::shim as kani;

struct Stored {
    bytes: Vec<u8>,
    big: bool,
}

impl Stored {
    fn any(big: bool) -> Self {
        #[allow(unused_mut)]
        let mut s = Stored { bytes: crate::verif::bytes_of_length(4096), big };
        #[cfg(not(kani))]
        {
            let small: [u8; 8] = kani::any();
            s.put(0, if small[0] < 240 { 0xa92b4efc } else { s.word(0) });
            s.put(1, if small[1] < 240 { 0 } else { s.word(1) });
            s.put(2, if small[2] < 240 { 85 + u32::from(small[2] % 10) } else { s.word(2) });
            s.put(9, if small[3] < 240 { u32::from(small[3] % 32) } else { s.word(9) });
            if small[4] < 128 {
                for (level, layout) in [(7, 64), (46, 48)] {
                    s.put(level, 4 + s.word(level) % 4);
                    s.put(layout, s.word(layout) % 40);
                }
            }
            for i in 0..27 {
                let v = s.word(131 + 32 * i);
                if v % 32 > 0 {
                    s.put(131 + 32 * i, if v & 64 == 0 { v >> 27 } else { 0xfefb + (v >> 20) % 0x107 });
                }
            }
        }
        kani::assume(s.bytes.len() >= 4096);
        s
    }
    #[cfg(not(kani))]
    fn put(&mut self, word: usize, value: u32) {
        let bytes = if self.big { value.to_be_bytes() } else { value.to_le_bytes() };
        self.bytes[4 * word..4 * word + 4].copy_from_slice(&bytes);
    }
    fn word(&self, word: usize) -> u32 {
        let b = |i: usize| u32::from(self.bytes[4 * word + i]);
        if self.big {
            b(0) << 24 | b(1) << 16 | b(2) << 8 | b(3)
        } else {
            b(3) << 24 | b(2) << 16 | b(1) << 8 | b(0)
        }
    }
    fn long(&self, word: usize) -> u64 {
        let (a, b) = (u64::from(self.word(word)), u64::from(self.word(word + 1)));
        if self.big { a << 32 | b } else { b << 32 | a }
    }
    fn convert(&self) -> SuperblockVersion0 {
        if self.big {
            big_endian::View::new(&self.bytes[..]).into()
        } else {
            little_endian::View::new(&self.bytes[..]).into()
        }
    }
    fn acceptable(&self) -> bool {
        let mut ok = self.word(0) == 0xa92b4efc && self.word(1) == 0;
        let mut i = 0;
        while i < 27 {
            if (i as u32) < self.word(9) && matches!(self.word(131 + 32 * i), 0xff00..=0xfffc) {
                ok = false;
            }
            i += 1;
        }
        ok
    }
}

fn check_geometry(big: bool) {
    let b = Stored::any(big);
    let s = b.convert();
    assert!(s.major_version() == b.word(1));
    assert!(s.minor_version() == b.word(2));
    assert!(s.array_name().is_none());
    assert!(s.sectors_per_device() == SectorCount(u64::from(b.word(8)) * 2));
    assert!(s.chunk_size() == SectorCount(b.word(65) / 512));
    assert!(s.raid_device_count() == DeviceCount(b.word(10)));
    assert!(s.data_offset() == SectorNumber(0));
    assert!(s.device_role_index() == b.word(992) as usize);
    assert!(s.event_count().0 == b.long(39));
    reach!(b.word(8) == u32::MAX);
    reach!(b.word(65) == 64 << 10);
}

fn check_identity(big: bool) {
    let b = Stored::any(big);
    let s = b.convert();
    let i = kani::any::<u8>() as usize % 16;
    let word = [5, 13, 14, 15][i / 4];
    // each word in little-endian order, whatever the byte order of the superblock
    let expected = (b.word(word) >> (8 * (i % 4))) as u8;
    match s.array_uuid() {
        ArrayUuid::Long(uuid) => {
            assert!(b.word(2) >= 90);
            assert!(uuid[i] == expected);
            reach!(i == 15 && expected == 0x42);
        }
        ArrayUuid::Short(uuid) => {
            assert!(b.word(2) < 90);
            assert!(i >= 4 || uuid[i] == expected);
            reach!(i == 3 && expected == 0x42);
        }
    }
}

fn check_algorithms(big: bool) {
    let b = Stored::any(big);
    let s = b.convert();
    assert!(s.algorithm() == MdAlgorithm::from_level_and_layout(b.word(7), b.word(64)));
    match s.reshape_status() {
        None => assert!(b.word(2) < 91),
        Some(r) => {
            assert!(b.word(2) >= 91);
            assert!(r == ReshapeStatus {
                new_algorithm: MdAlgorithm::from_level_and_layout(b.word(46), b.word(48)),
                reshape_position: SectorNumber(b.long(44)),
                delta_devices: DeviceCount(b.word(47)),
                new_chunk_size: SectorCount(b.word(49) / 512),
                new_offset: 0,
            });
            reach!(b.word(46) == 6 && b.word(48) == 2);
        }
    }
    reach!(b.word(2) == 90);
}

fn check_acceptance(big: bool) {
    let b = Stored::any(big);
    let s = b.convert();
    let accepted = s.valid();
    assert!(accepted == b.acceptable());
    reach!(accepted && b.word(9) == 27);
    reach!(!accepted && b.word(0) == 0xa92b4efc && b.word(1) == 0 && b.word(9) == 1);
    reach!(accepted && b.word(9) == 26 && b.word(131 + 32 * 26) == 0xff00);
}

/// The role table for a given recorded number of devices, so that the table
/// has a definite size.
fn check_roles(big: bool, total: u32) {
    let b = Stored::any(big);
    let mut s = b.convert();
    assert!(u32::from(s.total_device_count) == b.word(9));
    s.total_device_count = DeviceCount(total);
    let roles = s.device_roles();
    assert!(roles.len() == if total < 27 { total as usize } else { 27 });
    let mut i = 0;
    while i < roles.len() {
        let (role, raw) = (roles[i], b.word(131 + 32 * i));
        assert!(role.device_number().map(|n| n.0) == if raw < 0xff00 { Some(raw) } else { None });
        assert!(role.is_spare() == (raw == 0xffff));
        assert!(role.is_faulty() == (raw == 0xfffe));
        assert!(role.is_journal() == (raw == 0xfffd));
        i += 1;
    }
}

mod little {
    use crate::verif::contract;

    contract! {
        #[kani::unwind(29)]
        fn geometry() {
            super::check_geometry(false)
        }
    }
    contract! {
        #[kani::unwind(29)]
        fn identity() {
            super::check_identity(false)
        }
    }
    contract! {
        #[kani::unwind(29)]
        fn algorithms() {
            super::check_algorithms(false)
        }
    }
    contract! {
        #[kani::unwind(29)]
        fn acceptance() {
            super::check_acceptance(false)
        }
    }
    contract! {
        #[kani::unwind(29)]
        fn roles_of_one() {
            super::check_roles(false, 1)
        }
    }
    contract! {
        #[kani::unwind(29)]
        fn roles_of_four() {
            super::check_roles(false, 4)
        }
    }
    contract! {
        #[kani::unwind(29)]
        fn roles_of_twenty_seven() {
            super::check_roles(false, 27)
        }
    }
    contract! {
        #[kani::unwind(29)]
        fn roles_of_more() {
            super::check_roles(false, u32::MAX)
        }
    }
}

mod big {
    use crate::verif::contract;

    contract! {
        #[kani::unwind(29)]
        fn geometry() {
            super::check_geometry(true)
        }
    }
    contract! {
        #[kani::unwind(29)]
        fn identity() {
            super::check_identity(true)
        }
    }
    contract! {
        #[kani::unwind(29)]
        fn algorithms() {
            super::check_algorithms(true)
        }
    }
    contract! {
        #[kani::unwind(29)]
        fn acceptance() {
            super::check_acceptance(true)
        }
    }
    contract! {
        #[kani::unwind(29)]
        fn roles_of_twenty_seven() {
            super::check_roles(true, 27)
        }
    }
}
