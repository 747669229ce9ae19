// Where md superblocks are looked for.  Under Kani the two superblock readers
// are replaced by their contract (C06, C07): they read at the position of the
// device they are given and either refuse or return what is stored there.
use super::{MdDevice, MdDeviceSuperblock};
use crate::block_device::{BlockCount, BlockDevice, BlockNumber, BlockSize};
#[allow(unused_imports)]
use crate::md::superblock::{Superblock, SuperblockVersion0, SuperblockVersion1};
use crate::verif::{contract, reach};
use std::io::{self, Read, Seek, SeekFrom};
#[cfg(not(kani))]
use crate::verif::shim as kani;

/// A device with superblocks at any of the places that matter and, if
/// `elsewhere`, at every other one as well.
pub struct Disk {
    count: u64,
    block_size: u32,
    pos: u64,
    size: u64,
    version_1: [bool; 3],
    version_0: bool,
    elsewhere: [bool; 2],
}

impl Disk {
    fn last_version_1(&self) -> u64 {
        if self.size < 12288 { 0 } else { (self.size / 512 - 16) / 8 * 8 * 512 }
    }
    fn last_version_0(&self) -> u64 {
        if self.size < 65536 { 0 } else { (self.size / 65536 - 1) * 65536 }
    }
    fn holds_version_1(&self, at: u64) -> bool {
        if at == 4096 {
            self.version_1[0]
        } else if at == 0 {
            self.version_1[1]
        } else if at == self.last_version_1() {
            self.version_1[2]
        } else {
            self.elsewhere[0]
        }
    }
    fn holds_version_0(&self, at: u64) -> bool {
        if self.size >= 65536 && at == self.last_version_0() { self.version_0 } else { self.elsewhere[1] }
    }
}

impl BlockDevice for Disk {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(self.block_size))
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        Ok(BlockCount(self.count))
    }
    fn read_block(&mut self, _: BlockNumber, _: &mut [u8]) -> io::Result<usize> {
        Err(io::ErrorKind::Unsupported.into())
    }
    fn try_clone(&self) -> io::Result<Self> {
        Err(io::ErrorKind::Unsupported.into())
    }
}
impl Seek for Disk {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.pos = match to {
            SeekFrom::Start(at) => at,
            SeekFrom::Current(by) => self.pos.checked_add_signed(by).ok_or(io::ErrorKind::InvalidInput)?,
            SeekFrom::End(by) => self.size.checked_add_signed(by).ok_or(io::ErrorKind::InvalidInput)?,
        };
        Ok(self.pos)
    }
}

/// The superblock readers' view of the device: 10 bytes, position and whether
/// a superblock of version 1 or 0 is stored there.
#[cfg(kani)]
impl Read for Disk {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        assert!(buf.len() == 10, "the device is read by the superblock readers only");
        buf[..8].copy_from_slice(&self.pos.to_le_bytes());
        buf[8] = self.holds_version_1(self.pos) as u8;
        buf[9] = self.holds_version_0(self.pos) as u8;
        self.pos = kani::any();
        Ok(10)
    }
}
#[cfg(kani)]
fn version_1_by_contract<R: Read>(mut reader: R, minor_version: u32) -> io::Result<SuperblockVersion1<Vec<u8>>> {
    let mut seen = [0u8; 10];
    let _ = reader.read(&mut seen);
    if seen[8] == 0 {
        return Err(io::ErrorKind::InvalidData.into());
    }
    unsafe { LAST_WAS_VERSION_1 = true };
    let mut bytes = vec![0u8; 256];
    bytes[0x80..0x88].copy_from_slice(&seen[..8]);
    Ok(SuperblockVersion1::new(bytes, minor_version))
}

#[cfg(not(kani))]
impl Read for Disk {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.size.saturating_sub(self.pos);
        let n = left.min(buf.len() as u64).min(4096 - self.pos % 4096) as usize;
        let block = self.pos / 4096 * 4096;
        let mut bytes = [0u8; 4096];
        let (one, zero) = (self.holds_version_1(block), self.holds_version_0(block));
        if one || zero {
            bytes[..4].copy_from_slice(&0xa92b4efcu32.to_le_bytes());
        }
        if one {
            bytes[4] = 1;
            bytes[0x80..0x88].copy_from_slice(&block.to_le_bytes());
        } else {
            bytes[156..164].copy_from_slice(&block.to_le_bytes());
        }
        let at = (self.pos % 4096) as usize;
        buf[..n].copy_from_slice(&bytes[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

enum Found {
    TooSmall,
    Missing,
    Version1 { minor: u32, at: u64 },
    Version0 { at: u64 },
}

/// Which superblock was reported.
#[cfg(not(kani))]
fn seen(found: &MdDeviceSuperblock) -> Found {
    match found {
        MdDeviceSuperblock::TooSmall => Found::TooSmall,
        MdDeviceSuperblock::Missing => Found::Missing,
        MdDeviceSuperblock::Superblock(s) if s.major_version() == 1 => {
            Found::Version1 { minor: s.minor_version(), at: s.data_offset().0 }
        }
        MdDeviceSuperblock::Superblock(s) => Found::Version0 { at: s.event_count().0 },
    }
}
/// The same without virtual calls, which the verifier does not resolve well:
/// the reported box is the one most recently made by a superblock reader.
#[cfg(kani)]
fn seen(found: &MdDeviceSuperblock) -> Found {
    match found {
        MdDeviceSuperblock::TooSmall => Found::TooSmall,
        MdDeviceSuperblock::Missing => Found::Missing,
        MdDeviceSuperblock::Superblock(s) => {
            let p = &**s as *const dyn Superblock;
            if unsafe { LAST_WAS_VERSION_1 } {
                let s = unsafe { &*(p as *const SuperblockVersion1<Vec<u8>>) };
                Found::Version1 { minor: s.minor_version(), at: s.data_offset().0 }
            } else {
                let s = unsafe { &*(p as *const SuperblockVersion0) };
                Found::Version0 { at: s.event_count().0 }
            }
        }
    }
}
#[cfg(kani)]
static mut LAST_WAS_VERSION_1: bool = false;

/// Returns the device size and what was found, as an obligation of reachability.
fn check(block_size: u32) -> (u64, Found) {
    let mut disk = Disk {
        count: kani::any(),
        block_size,
        pos: kani::any(),
        size: 0,
        version_1: kani::any(),
        version_0: kani::any(),
        elsewhere: kani::any(),
    };
    #[cfg(not(kani))]
    {
        let small: [u8; 4] = kani::any();
        let unit = [512, 4096, 65536, 12288][usize::from(small[0] % 4)];
        if small[1] < 200 {
            let near = u64::from(small[2] % 40) * unit + u64::from(small[3] % 3);
            disk.count = near.saturating_sub(1) / u64::from(block_size);
        }
    }
    // the general case is `any_size_in_bytes`
    #[cfg(kani)]
    if block_size != 1 {
        disk.version_1[0] = false;
        disk.version_1[1] = false;
        disk.elsewhere = [false; 2];
    }
    let size = disk.count as u128 * u128::from(block_size);
    let representable = size <= u128::from(u64::MAX);
    disk.size = size as u64;
    let (size, x, y) = (disk.size, disk.last_version_1(), disk.last_version_0());
    let (holds_2, holds_1, holds_0) = (disk.holds_version_1(4096), disk.holds_version_1(0), disk.holds_version_1(x));
    let holds_old = size >= 65536 && disk.holds_version_0(y);
    // the same bytes cannot be both a version 1 and a version 0 superblock
    #[cfg(not(kani))]
    kani::assume(!(holds_old && disk.holds_version_1(y)));
    let found = match MdDevice::from_block_device(disk, None::<&str>) {
        Err(_) => {
            assert!(!representable);
            return (0, Found::TooSmall);
        }
        Ok(device) => device.superblock,
    };
    assert!(representable);
    let result = seen(&found);
    match result {
        Found::TooSmall => assert!(size < 12288),
        Found::Missing => assert!(size >= 12288 && !holds_2 && !holds_1 && !holds_0 && !holds_old),
        Found::Version1 { minor, at } => {
            let (wanted_minor, wanted) = if holds_2 { (2, 4096) } else if holds_1 { (1, 0) } else { (0, x) };
            assert!(size >= 12288 && (holds_2 || holds_1 || holds_0));
            assert!(minor == wanted_minor && at == wanted);
        }
        Found::Version0 { at } => {
            assert!(size >= 12288 && !holds_2 && !holds_1 && !holds_0 && holds_old);
            assert!(at == y);
        }
    }
    // the superblock is of no further interest
    std::mem::forget(found);
    (size, result)
}

contract! {
    #[kani::stub(crate::md::superblock::SuperblockVersion1::read, version_1_by_contract)]
    #[kani::stub(crate::md::superblock::SuperblockVersion0::read, crate::md::superblock::version_0::verif::version_0_by_contract)]
    #[kani::unwind(4)]
    fn any_size_in_bytes() {
        let (size, found) = check(1);
        reach!(matches!(found, Found::TooSmall));
        reach!(matches!(found, Found::Missing));
        reach!(matches!(found, Found::Version1 { minor: 0, .. }) && size > 1 << 40);
        reach!(matches!(found, Found::Version0 { .. }) && size > 1 << 40);
    }
}
contract! {
    #[kani::stub(crate::md::superblock::SuperblockVersion1::read, version_1_by_contract)]
    #[kani::stub(crate::md::superblock::SuperblockVersion0::read, crate::md::superblock::version_0::verif::version_0_by_contract)]
    #[kani::unwind(4)]
    fn blocks_of_512_bytes() {
        check(512);
    }
}
contract! {
    #[kani::stub(crate::md::superblock::SuperblockVersion1::read, version_1_by_contract)]
    #[kani::stub(crate::md::superblock::SuperblockVersion0::read, crate::md::superblock::version_0::verif::version_0_by_contract)]
    #[kani::unwind(4)]
    fn blocks_of_4096_bytes() {
        check(4096);
    }
}
