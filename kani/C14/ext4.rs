// Acceptance of an ext4 superblock, for arbitrary 1024-byte contents.
use super::superblock::Superblock;
use crate::verif::{contract, explored, reach};
#[cfg(not(kani))]
use crate::verif::shim as kani;

fn u16_at(b: &[u8], at: usize) -> u16 {
    u16::from(b[at]) | u16::from(b[at + 1]) << 8
}
fn u32_at(b: &[u8], at: usize) -> u32 {
    u32::from(u16_at(b, at)) | u32::from(u16_at(b, at + 2)) << 16
}

fn acceptable(b: &[u8]) -> bool {
    let bigalloc = u32_at(b, 0x64) & 0x200 != 0;
    let (log_block, log_cluster) = (u32_at(b, 0x18), u32_at(b, 0x1c));
    u16_at(b, 0x38) == 0xef53
        && log_block < 53
        && log_cluster < 53
        && (bigalloc || log_block == log_cluster)
        && (bigalloc || u32_at(b, 0x20) == u32_at(b, 0x24))
        && matches!(u16_at(b, 0x3c), 1..=3)
        && b[0x174] < 63
        && match b[0x175] {
            0 => true,
            1 => u32_at(b, 0x3fc) == crate::verif::crc::spec(0xffffffff, &b[..0x3fc]),
            _ => false,
        }
}

/// Mostly plausible superblocks: native sampling would otherwise never get
/// past the magic number.
#[cfg(not(kani))]
fn image() -> [u8; 1024] {
    let mut b: [u8; 1024] = kani::any();
    let fields: u16 = kani::any();
    let set = |b: &mut [u8; 1024], bit: u16, at: usize, v: &[u8]| {
        if fields >> bit & 1 == 0 {
            b[at..at + v.len()].copy_from_slice(v);
        }
    };
    b[0x38..0x3a].copy_from_slice(&[0x53, 0xef]);
    let log: u32 = kani::any();
    let near = kani::any::<u8>() % 66;
    set(&mut b, 0, 0x18, &u32::to_le_bytes(near.into()));
    set(&mut b, 1, 0x18, &u32::to_le_bytes(log % 60));
    let copy = b[0x18..0x1c].to_vec();
    set(&mut b, 2, 0x1c, &copy);
    let copy = b[0x20..0x24].to_vec();
    set(&mut b, 3, 0x24, &copy);
    set(&mut b, 4, 0x3c, &[kani::any::<u8>() % 5, 0]);
    b[0x174] = kani::any::<u8>() % 70;
    b[0x175] = kani::any::<u8>() % 3;
    let crc = crate::verif::crc::spec(0xffffffff, &b[..0x3fc]).to_le_bytes();
    set(&mut b, 5, 0x3fc, &crc);
    b
}
#[cfg(kani)]
fn image() -> [u8; 1024] {
    kani::any()
}

contract! {
    #[kani::stub(crate::ext4::crc::ext4_crc32c, crate::verif::crc::function)]
    #[kani::unwind(8)]
    fn accepted_exactly_when_consistent() {
        let bytes = image();
        let accepted = Superblock::new(&bytes[..]).valid();
        let wanted = acceptable(&bytes);
        assert!(accepted == wanted);
        reach!(accepted && bytes[0x175] == 1);
        reach!(accepted && bytes[0x175] == 0);
        reach!(!accepted && u16_at(&bytes, 0x38) == 0xef53);
    }
}

/// A medium that hands out `bytes` in up to two pieces, or ends, or fails.
struct Medium<'a> {
    bytes: &'a [u8],
    pos: usize,
    cut: usize,
    fail: bool,
}
impl std::io::Read for Medium<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let end = if self.pos < self.cut { self.cut } else { self.bytes.len() };
        let n = (end - self.pos).min(buf.len());
        if n == 0 && self.fail {
            return Err(std::io::ErrorKind::Other.into());
        }
        buf[..n].copy_from_slice(&self.bytes[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

explored! {
    fn read_accepts_what_is_valid() {
        let bytes = image();
        let len = if kani::any() { 1024 } else { kani::any::<usize>() % 1025 };
        let cut = kani::any::<usize>() % (len + 1);
        let fail = kani::any();
        let found = Superblock::read(Medium { bytes: &bytes[..len], pos: 0, cut, fail });
        match found {
            Err(_) => assert!(len < 1024 || !acceptable(&bytes)),
            Ok(s) => {
                assert!(len == 1024 && acceptable(&bytes));
                assert!(s.blocks_per_group() == u32_at(&bytes, 0x20));
                assert!(s.checksum_seed() == Superblock::new(&bytes[..]).checksum_seed());
            }
        }
    }
}

/// A medium whose bytes are zero but for one probe, handed out in one piece,
/// or ending early, or failing.
struct Whole {
    probe: usize,
    value: u8,
    ends: bool,
    fails: bool,
    reads: usize,
}
impl std::io::Read for &mut Whole {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.fails {
            return Err(std::io::ErrorKind::Other.into());
        }
        if self.ends || self.reads > 0 {
            return Ok(0);
        }
        assert!(buf.len() == 1024, "the superblock is 1024 bytes");
        self.reads += 1;
        buf[self.probe] = self.value;
        Ok(1024)
    }
}

/// What `read` may assume of `valid` is its contract above: some decision about
/// the stored bytes.
#[cfg(kani)]
static mut VERDICT: Option<bool> = None;
#[cfg(kani)]
fn some_verdict<S: AsRef<[u8]>>(_: &Superblock<S>) -> bool {
    let verdict = kani::any();
    unsafe { VERDICT = Some(verdict) };
    verdict
}
#[cfg(kani)]
fn verdict(_: &Whole) -> bool {
    unsafe { VERDICT == Some(true) }
}
#[cfg(not(kani))]
fn verdict(medium: &Whole) -> bool {
    let mut bytes = [0; 1024];
    bytes[medium.probe] = medium.value;
    acceptable(&bytes)
}

contract! {
    #[kani::stub(super::superblock::Superblock::valid, some_verdict)]
    #[kani::unwind(4)]
    fn read_rejects_or_keeps_the_bytes() {
        let mut medium = Whole { probe: kani::any(), value: kani::any(), ends: kani::any(), fails: kani::any(), reads: 0 };
        kani::assume(medium.probe >= 0x68 && medium.probe < 0x78);
        let found = Superblock::read(&mut medium);
        assert!(found.is_ok() == (!medium.ends && !medium.fails && verdict(&medium)));
        if let Ok(s) = found {
            assert!(s.uuid().as_bytes()[medium.probe - 0x68] == medium.value);
            reach!(true);
        }
    }
}
