// Version 1 md superblocks against the Linux on-disk format
// (struct mdp_superblock_1, include/uapi/linux/raid/md_p.h).
use super::{ArrayUuid, MdDeviceRole, ReshapeStatus, Superblock, SuperblockVersion1};
use crate::md::algorithm::MdAlgorithm;
use crate::md::units::{DeviceCount, SectorCount, SectorNumber};
use crate::verif::{contract, explored, reach};
use std::io;
use std::os::unix::ffi::OsStrExt;
#[cfg(not(kani))]
use crate::verif::shim as kani;

fn u16_at(b: &[u8], at: usize) -> u16 {
    u16::from(b[at]) | u16::from(b[at + 1]) << 8
}
fn u32_at(b: &[u8], at: usize) -> u32 {
    u32::from(u16_at(b, at)) | u32::from(u16_at(b, at + 2)) << 16
}
fn u64_at(b: &[u8], at: usize) -> u64 {
    u64::from(u32_at(b, at)) | u64::from(u32_at(b, at + 4)) << 32
}

/// A superblock of any length that holds the fixed part.
fn any_superblock() -> Vec<u8> {
    #[cfg(kani)]
    let bytes = crate::verif::any_bytes(0);
    #[cfg(not(kani))]
    let bytes = {
        let small: [u8; 4] = kani::any();
        let mut b = crate::verif::bytes_of_length(256 + usize::from(small[0] % 80));
        if small[1] < 200 {
            b[..4].copy_from_slice(&0xa92b4efcu32.to_le_bytes());
        }
        if small[2] < 200 {
            b[4..8].copy_from_slice(&1u32.to_le_bytes());
        }
        if small[3] < 128 {
            // level 4 to 7, small layout
            b[0x48] = 4 + b[0x48] % 4;
            b[0x49..0x4c].fill(0);
            b[0x4c] %= 40;
            b[0x4d..0x50].fill(0);
            b[0x64] = 4 + b[0x64] % 4;
            b[0x65..0x68].fill(0);
            b[0x74] %= 40;
            b[0x75..0x78].fill(0);
        }
        b
    };
    kani::assume(bytes.len() >= 256);
    bytes
}

fn acceptable(b: &[u8]) -> bool {
    u32_at(b, 0) == 0xa92b4efc && u32_at(b, 4) == 1
}

contract! {
    #[kani::unwind(3)]
    fn acceptance_and_versions() {
        let b = any_superblock();
        let minor = kani::any();
        let s = SuperblockVersion1::new(&b[..], minor);
        assert!(s.valid() == acceptable(&b));
        assert!(s.valid_magic() == (u32_at(&b, 0) == 0xa92b4efc));
        assert!(s.valid_major_version() == (u32_at(&b, 4) == 1));
        assert!(s.major_version() == u32_at(&b, 4));
        assert!(s.minor_version() == minor);
        reach!(s.valid());
        reach!(!s.valid() && s.valid_magic());
    }
}

contract! {
    #[kani::unwind(3)]
    fn geometry() {
        let b = any_superblock();
        let s = SuperblockVersion1::new(&b[..], 2);
        assert!(s.sectors_per_device() == SectorCount(u64_at(&b, 0x50)));
        assert!(s.chunk_size() == SectorCount(u32_at(&b, 0x58)));
        assert!(s.raid_device_count() == DeviceCount(u32_at(&b, 0x5c)));
        assert!(s.data_offset() == SectorNumber(u64_at(&b, 0x80)));
        assert!(s.device_role_index() == u32_at(&b, 0xa0) as usize);
        assert!(u64::from(s.event_count()) == u64_at(&b, 0xc8));
        reach!(s.data_offset() == SectorNumber(u64::MAX));
        reach!(b.len() == 4096);
    }
}

contract! {
    #[kani::unwind(3)]
    fn identity() {
        let b = any_superblock();
        let s = SuperblockVersion1::new(&b[..], 2);
        let i: usize = kani::any::<u8>() as usize % 16;
        match s.array_uuid() {
            ArrayUuid::Long(uuid) => assert!(uuid[i] == b[0x10 + i]),
            ArrayUuid::Short(_) => { assert!(false, "a version 1 uuid has 16 bytes") }
        }
        let i: usize = kani::any::<u8>() as usize % 32;
        match s.array_name() {
            Some(name) => {
                let name = name.as_bytes();
                assert!(name.len() == 32);
                assert!(name[i] == b[0x20 + i]);
            }
            None => { assert!(false, "a version 1 superblock has a name") }
        }
        reach!(b[0x20 + i] == 0x41);
    }
}

contract! {
    #[kani::unwind(3)]
    fn algorithm() {
        let b = any_superblock();
        let s = SuperblockVersion1::new(&b[..], 2);
        assert!(s.algorithm() == MdAlgorithm::from_level_and_layout(u32_at(&b, 0x48), u32_at(&b, 0x4c)));
        reach!(u32_at(&b, 0x48) == 6 && u32_at(&b, 0x4c) == 2);
        reach!(u32_at(&b, 0x48) == 1);
    }
}

contract! {
    #[kani::unwind(3)]
    fn reshape() {
        let b = any_superblock();
        let s = SuperblockVersion1::new(&b[..], 2);
        match s.reshape_status() {
            None => { assert!(u32_at(&b, 8) & 4 == 0) }
            Some(r) => {
                assert!(u32_at(&b, 8) & 4 != 0);
                assert!(r == ReshapeStatus {
                    new_algorithm: MdAlgorithm::from_level_and_layout(u32_at(&b, 0x64), u32_at(&b, 0x74)),
                    reshape_position: SectorNumber(u64_at(&b, 0x68)),
                    delta_devices: DeviceCount(u32_at(&b, 0x70)),
                    new_chunk_size: SectorCount(u32_at(&b, 0x78)),
                    new_offset: u32_at(&b, 0x7c),
                });
                reach!(u32_at(&b, 0x64) == 6);
                reach!(u32_at(&b, 0x64) == 5);
            }
        }
        reach!(u32_at(&b, 8) & 4 == 0);
    }
}

contract! {
    #[kani::unwind(3)]
    fn flagged_fields() {
        let b = any_superblock();
        let s = SuperblockVersion1::new(&b[..], 2);
        let flag = |bit: u32| u32_at(&b, 8) & bit != 0;
        assert!(s.bitmap_offset() == if flag(1) { Some(u32_at(&b, 0x60)) } else { None });
        assert!(s.recovery_offset() == if flag(2) { Some(u64_at(&b, 0x98)) } else { None });
        assert!(s.journal_tail() == if flag(512) { Some(u64_at(&b, 0x98)) } else { None });
        match s.ppl_info() {
            None => assert!(!flag(1024)),
            Some(ppl) => {
                assert!(flag(1024));
                assert!(ppl.offset().read() == u16_at(&b, 0x60) as i16);
                assert!(ppl.size().read() == u16_at(&b, 0x62));
            }
        }
        reach!(flag(1) && flag(512));
        reach!(flag(1024) && !flag(2));
    }
}

fn check_roles(b: &[u8]) {
    let s = SuperblockVersion1::new(b, 2);
    let stored = (b.len() - 256) / 2;
    let max = u32_at(b, 0xdc) as usize;
    let count = if max < stored { max } else { stored };
    let roles = s.device_roles();
    assert!(roles.len() == count);
    let mut i = 0;
    while i < count {
        assert!(roles[i] == MdDeviceRole::from_u16(u16_at(b, 256 + 2 * i)));
        i += 1;
    }
    reach!(max < stored && count == 2);
    reach!(max > stored && stored == 3);
    reach!(count == 0);
}

contract! {
    #[kani::unwind(5)]
    fn role_table() {
        let tail: usize = kani::any::<u8>() as usize % 8;
        let mut b = [0u8; 256 + 7];
        let fixed: [u8; 7] = kani::any();
        b[256..].copy_from_slice(&fixed);
        b[0xdc..0xe0].copy_from_slice(&kani::any::<u32>().to_le_bytes());
        check_roles(&b[..256 + tail]);
    }
}

explored! {
    fn long_role_tables() {
        let mut b = crate::verif::bytes_of_length(256 + kani::any::<usize>() % 3841);
        if kani::any() {
            let max = kani::any::<u16>() as u32 % 2000;
            b[0xdc..0xe0].copy_from_slice(&max.to_le_bytes());
        }
        check_roles(&b);
    }
}

contract! {
    #[kani::unwind(3)]
    fn roles() {
        let raw: u16 = kani::any();
        let role = MdDeviceRole::from_u16(raw);
        assert!(role.device_number().map(|n| n.0) == if raw < 0xff00 { Some(u32::from(raw)) } else { None });
        assert!(role.is_spare() == (raw == 0xffff));
        assert!(role.is_faulty() == (raw == 0xfffe));
        assert!(role.is_journal() == (raw == 0xfffd));
        assert!(role.is_invalid() == matches!(raw, 0xff00..=0xfffc));
        assert!(role.is_valid() == !role.is_invalid());
        let other: u16 = kani::any();
        assert!((role == MdDeviceRole::from_u16(other)) == (raw == other));
        reach!(role.is_invalid());
    }
}

/// A medium with the given first bytes, one probe byte and zeros elsewhere,
/// handed out as asked, or ending early, or failing.
struct Medium {
    head: [u8; 8],
    probe: usize,
    value: u8,
    pos: usize,
    end: usize,
    fails: bool,
}
impl io::Read for &mut Medium {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.fails {
            return Err(io::ErrorKind::Other.into());
        }
        let left = self.end - self.pos;
        let n = if buf.len() < left { buf.len() } else { left };
        if self.pos == 0 && n >= 8 {
            buf[..8].copy_from_slice(&self.head);
        }
        if self.probe >= self.pos && self.probe - self.pos < n {
            buf[self.probe - self.pos] = self.value;
        }
        self.pos += n;
        Ok(n)
    }
}

contract! {
    #[kani::unwind(3)]
    fn read_accepts_what_is_valid() {
        let mut m = Medium { head: kani::any(), probe: kani::any(), value: kani::any(), pos: 0, end: kani::any(), fails: kani::any() };
        #[cfg(not(kani))]
        {
            m.probe = 8 + m.probe % 4088;
            m.end %= 8192;
            if m.value > 100 {
                m.head[..4].copy_from_slice(&0xa92b4efcu32.to_le_bytes());
                m.head[4] %= 3;
                m.head[5..].fill(0);
            }
        }
        kani::assume(m.probe >= 8 && m.probe < 4096 && m.probe != 0x9b);
        kani::assume(m.end >= 4096 || m.end == 0 || m.end == 4095);
        let minor = kani::any();
        let wanted = acceptable(&m.head) && !m.fails && m.end >= 4096;
        match SuperblockVersion1::read(&mut m, minor) {
            Err(_) => assert!(!wanted),
            Ok(s) => {
                assert!(wanted);
                assert!(s.minor_version() == minor && s.major_version() == 1);
                let byte = |at: usize| if m.probe == at { m.value } else { 0 };
                assert!(s.event_count().0 as u8 == byte(0xc8));
                assert!((s.data_offset().0 >> 56) as u8 == byte(0x87));
                reach!(m.probe == 0x87 && m.value != 0);
            }
        }
        reach!(!wanted && m.fails);
        reach!(!wanted && m.end == 4095);
    }
}
