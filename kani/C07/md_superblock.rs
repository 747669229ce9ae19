// Reading version 0.90/0.91 md superblocks from a medium: recognition of the
// byte order, acceptance, short and failing media (struct mdp_superblock_s).
use super::{ArrayUuid, ReshapeStatus, Superblock, SuperblockVersion0};
use crate::md::algorithm::MdAlgorithm;
use crate::md::units::{DeviceCount, SectorCount, SectorNumber};
use crate::verif::{contract, explored, reach};
use std::io;
#[cfg(not(kani))]
use crate::verif::shim as kani;

const MAGIC: u32 = 0xa92b4efc;

/// A medium that is zero but for the given words (in one byte order),
/// handed out in one piece, or ending early, or failing.
struct Medium {
    big: bool,
    magic: u32,
    major: u32,
    events: u32,
    total: u32,
    roles: [u32; 2],
    this: u32,
    ends: bool,
    fails: bool,
    reads: usize,
}

impl Medium {
    fn put(&self, buf: &mut [u8], word: usize, value: u32) {
        let bytes = if self.big { value.to_be_bytes() } else { value.to_le_bytes() };
        buf[4 * word] = bytes[0];
        buf[4 * word + 1] = bytes[1];
        buf[4 * word + 2] = bytes[2];
        buf[4 * word + 3] = bytes[3];
    }
    fn acceptable(&self) -> bool {
        let reserved = |role: u32| matches!(role, 0xff00..=0xfffc);
        self.magic == MAGIC
            && self.major == 0
            && !(self.total >= 1 && reserved(self.roles[0]))
            && !(self.total >= 27 && reserved(self.roles[1]))
    }
}

impl io::Read for &mut Medium {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.fails {
            return Err(io::ErrorKind::Other.into());
        }
        if self.ends || self.reads > 0 {
            return Ok(0);
        }
        assert!(buf.len() == 4096, "the superblock is 4096 bytes");
        self.reads += 1;
        self.put(buf, 0, self.magic);
        self.put(buf, 1, self.major);
        self.put(buf, if self.big { 40 } else { 39 }, self.events);
        self.put(buf, 9, self.total);
        self.put(buf, 131, self.roles[0]);
        self.put(buf, 131 + 32 * 26, self.roles[1]);
        self.put(buf, 992, self.this);
        Ok(4096)
    }
}

fn check_read(big: bool) {
    let mut m = Medium {
        big,
        magic: MAGIC,
        major: kani::any(),
        events: kani::any(),
        total: kani::any(),
        roles: kani::any(),
        this: kani::any(),
        ends: false,
        fails: false,
        reads: 0,
    };
    #[cfg(not(kani))]
    {
        let small: [u8; 4] = kani::any();
        if small[1] < 250 { m.major = 0; }
        for r in &mut m.roles {
            *r = 0xfef0 + *r % 0x120;
        }
    }
    let wanted = m.acceptable();
    match SuperblockVersion0::read(&mut m) {
        Err(_) => assert!(!wanted),
        Ok(s) => {
            assert!(wanted);
            assert!(s.valid() && s.major_version() == 0);
            assert!(u64::from(s.event_count()) == u64::from(m.events));
            assert!(s.device_role_index() == m.this as usize);
            reach!(m.total == 27 && m.events == 0x01020304);
        }
    }
    reach!(m.major == 0 && m.total == 27 && m.roles[1] == 0xfffc);
}

contract! {
    #[kani::unwind(28)]
    fn read_little_endian() {
        check_read(false);
    }
}
contract! {
    #[kani::unwind(28)]
    fn read_big_endian() {
        check_read(true);
    }
}

contract! {
    #[kani::unwind(28)]
    fn failing_and_short_media() {
        let mut m = Medium { big: false, magic: MAGIC, major: 0, events: 0, total: 0, roles: [0; 2], this: 0, ends: true, fails: false, reads: 0 };
        assert!(SuperblockVersion0::read(&mut m).is_err());
        m.ends = false;
        m.fails = true;
        assert!(SuperblockVersion0::read(&mut m).is_err());
    }
}

contract! {
    #[kani::unwind(28)]
    fn other_magic_numbers_are_refused() {
        let magic: u32 = kani::any();
        kani::assume(magic != MAGIC && magic.swap_bytes() != MAGIC);
        let mut m = Medium { big: false, magic, major: 0, events: 0, total: 0, roles: [0; 2], this: 0, ends: false, fails: false, reads: 0 };
        assert!(SuperblockVersion0::read(&mut m).is_err());
        reach!(magic == MAGIC + 1);
    }
}

struct Words {
    bytes: Vec<u8>,
    big: bool,
}
impl Words {
    fn put(&mut self, word: usize, value: u32) {
        let bytes = if self.big { value.to_be_bytes() } else { value.to_le_bytes() };
        self.bytes[4 * word..4 * word + 4].copy_from_slice(&bytes);
    }
    fn word(&self, word: usize) -> u32 {
        let b = <[u8; 4]>::try_from(&self.bytes[4 * word..4 * word + 4]).unwrap();
        if self.big { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }
    }
    fn long(&self, word: usize) -> u64 {
        let b = <[u8; 8]>::try_from(&self.bytes[4 * word..4 * word + 8]).unwrap();
        if self.big { u64::from_be_bytes(b) } else { u64::from_le_bytes(b) }
    }
}

explored! {
    fn whole_superblocks() {
        let small: [u8; 8] = kani::any();
        let mut b = Words { bytes: crate::verif::bytes_of_length(4096), big: small[0] & 1 == 1 };
        if small[1] < 250 { b.put(0, MAGIC); }
        if small[2] < 250 { b.put(1, 0); }
        if small[3] < 250 { b.put(2, 85 + u32::from(small[3] % 10)); }
        if small[4] < 250 { b.put(9, u32::from(small[4] % 32)); }
        if small[5] < 128 {
            for (level, layout) in [(7, 64), (46, 48)] {
                let v = b.word(level);
                b.put(level, 4 + v % 4);
                let v = b.word(layout);
                b.put(layout, v % 40);
            }
        }
        let mut ok = b.word(0) == MAGIC && b.word(1) == 0;
        for i in 0..27 {
            let v = b.word(131 + 32 * i);
            if small[6] < 200 && v % 64 != 0 {
                b.put(131 + 32 * i, if v & 64 == 0 { v >> 27 } else { [0xfeff, 0xfffd, 0xfffe, 0xffff][(v >> 20) as usize % 4] });
            }
            if (i as u32) < b.word(9) && matches!(b.word(131 + 32 * i), 0xff00..=0xfffc) {
                ok = false;
            }
        }
        let s = match SuperblockVersion0::read(&b.bytes[..]) {
            Err(_) => return assert!(!ok, "acceptable contents refused"),
            Ok(s) => s,
        };
        assert!(ok);
        assert!(s.minor_version() == b.word(2));
        assert!(s.array_name().is_none());
        assert!(s.sectors_per_device() == SectorCount(u64::from(b.word(8)) * 2));
        assert!(s.chunk_size() == SectorCount(b.word(65) / 512));
        assert!(s.raid_device_count() == DeviceCount(b.word(10)));
        assert!(s.data_offset() == SectorNumber(0));
        assert!(s.device_role_index() == b.word(992) as usize);
        assert!(s.event_count().0 == b.long(39));
        assert!(s.algorithm() == MdAlgorithm::from_level_and_layout(b.word(7), b.word(64)));
        let uuid: Vec<u8> = [5, 13, 14, 15].iter().flat_map(|w| b.word(*w).to_le_bytes()).collect();
        match s.array_uuid() {
            ArrayUuid::Long(u) => assert!(b.word(2) >= 90 && u[..] == uuid[..]),
            ArrayUuid::Short(u) => assert!(b.word(2) < 90 && u[..] == uuid[..4]),
        }
        match s.reshape_status() {
            None => assert!(b.word(2) < 91),
            Some(r) => {
                assert!(b.word(2) >= 91);
                assert!(r == ReshapeStatus {
                    new_algorithm: MdAlgorithm::from_level_and_layout(b.word(46), b.word(48)),
                    reshape_position: SectorNumber(b.long(44)),
                    delta_devices: DeviceCount(b.word(47)),
                    new_chunk_size: SectorCount(b.word(49) / 512),
                    new_offset: 0,
                });
            }
        }
        let roles = s.device_roles();
        assert!(roles.len() == b.word(9).min(27) as usize);
        for (i, role) in roles.iter().enumerate() {
            let raw = b.word(131 + 32 * i);
            assert!(role.device_number().map(|n| n.0) == if raw < 0xff00 { Some(raw) } else { None });
            assert!(role.is_spare() == (raw == 0xffff));
            assert!(role.is_faulty() == (raw == 0xfffe));
            assert!(role.is_journal() == (raw == 0xfffd));
        }
    }
}
