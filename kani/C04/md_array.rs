// MdArray::read_block: which bytes of which member are handed to the RAID 6
// code, and what becomes of its result.
use super::MdArray;
use crate::block_device::{BlockCount, BlockDevice, BlockNumber, BlockSize};
use crate::md::algorithm::MdAlgorithm;
use crate::md::definition::MdArrayDefinition;
use crate::md::format::MdFormat;
use crate::md::raid5::Raid5Algorithm;
use crate::md::raid6::Raid6Algorithm;
use crate::md::superblock::{ArrayUuid, MdDeviceRole, ReshapeStatus, Superblock};
use crate::md::units::{DeviceCount, DeviceNumber, MetadataEventCount, SectorCount, SectorNumber};
use crate::md::{MdDevice, MdDeviceSuperblock};
use crate::verif::{contract, reach, HashMap};
use std::ffi::OsStr;
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;
#[cfg(not(kani))]
use crate::verif::shim as kani;

/// A member which is zero but for one byte.  What the verifier should see as
/// constants is kept outside.
#[derive(Clone)]
pub struct Disk {
    probe: u64,
    value: u8,
}
static mut BLOCK_SIZE: u32 = 512;
static mut COUNT: u64 = 0;
static mut FAILS: bool = false;
static mut CLONES: bool = true;
impl Disk {
    #[cfg(kani)]
    fn byte(&self, at: u64) -> u8 {
        if at == self.probe {
            self.value
        } else {
            0
        }
    }
}
impl BlockDevice for Disk {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(unsafe { BLOCK_SIZE }))
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        Ok(BlockCount(unsafe { COUNT }))
    }
    fn read_block(&mut self, block: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
        let size = unsafe { BLOCK_SIZE } as usize;
        if unsafe { FAILS || block.0 >= COUNT } || buf.len() < size {
            return Err(io::ErrorKind::Other.into());
        }
        // buffers are zeroed by the code under contract or by the harness
        let at = self.probe % size as u64;
        if block.0 == self.probe / size as u64 {
            buf[at as usize] = self.value;
        }
        Ok(size)
    }
    fn try_clone(&self) -> io::Result<Self> {
        if unsafe { !CLONES } {
            return Err(io::ErrorKind::Other.into());
        }
        Ok(self.clone())
    }
}
impl Read for Disk {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        panic!("members share their position with clones: read blocks")
    }
}
impl Seek for Disk {
    fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
        panic!("members share their position with clones: read blocks")
    }
}

struct Offset(u64);
impl Superblock for Offset {
    fn valid(&self) -> bool {
        true
    }
    fn major_version(&self) -> u32 {
        1
    }
    fn minor_version(&self) -> u32 {
        2
    }
    fn array_uuid(&self) -> ArrayUuid {
        unreachable!()
    }
    fn array_name(&self) -> Option<&OsStr> {
        unreachable!()
    }
    fn algorithm(&self) -> MdAlgorithm {
        unreachable!()
    }
    fn sectors_per_device(&self) -> SectorCount<u64> {
        unreachable!()
    }
    fn chunk_size(&self) -> SectorCount<u32> {
        unreachable!()
    }
    fn raid_device_count(&self) -> DeviceCount {
        unreachable!()
    }
    fn reshape_status(&self) -> Option<ReshapeStatus> {
        unreachable!()
    }
    fn data_offset(&self) -> SectorNumber {
        SectorNumber(self.0)
    }
    fn device_role_index(&self) -> usize {
        unreachable!()
    }
    fn event_count(&self) -> MetadataEventCount {
        unreachable!()
    }
    fn device_roles(&self) -> Vec<MdDeviceRole> {
        unreachable!()
    }
}

fn format(algorithm: MdAlgorithm, chunk: u32, devices: u32) -> Option<MdFormat> {
    Some(MdFormat {
        algorithm,
        device_count: DeviceCount(devices),
        sectors_per_device: SectorCount(u64::MAX),
        chunk_size: SectorCount(chunk),
    })
}

fn array(format: Option<MdFormat>, devices: HashMap<DeviceNumber, Rc<MdDevice<Disk>>>) -> MdArray<Disk> {
    MdArray {
        definition: Rc::new(MdArrayDefinition { format, new_format: None, devices, inactive_devices: Vec::new() }),
    }
}

#[cfg(kani)]
static mut ASKED: (u64, u32, u32) = (0, 0, 0);
/// The member read that the RAID 6 code asks for, and what must come of it.
#[cfg(kani)]
static mut MEMBER: (u32, u64) = (0, 0);
#[cfg(kani)]
static mut EXPECTED: Option<Disk> = None;
#[cfg(kani)]
static mut START: u64 = 0;

/// `Raid6Algorithm::read_sector` as far as the members are concerned: it may
/// ask for any sector of any member.
#[cfg(kani)]
#[allow(static_mut_refs)]
fn member_read<F>(
    _: &Raid6Algorithm,
    sector: SectorNumber,
    chunk: SectorCount<u32>,
    devices: DeviceCount,
    mut read: F,
) -> io::Result<Vec<u8>>
where
    F: FnMut(DeviceNumber, SectorNumber, &mut [u8]) -> io::Result<usize>,
{
    unsafe {
        assert!(ASKED == (sector.0, chunk.0, devices.0), "the requested sector in the agreed geometry");
        let mut buf = vec![0u8; 512];
        let result = read(DeviceNumber(MEMBER.0), SectorNumber(MEMBER.1), &mut buf);
        match (&result, &EXPECTED) {
            (Ok(n), Some(disk)) => {
                assert!(*n == 512);
                let i: usize = kani::any();
                kani::assume(i < 512);
                assert!(buf[i] == disk.byte(START + i as u64), "the bytes at the sector of the member's data");
                    }
            (Err(_), None) => {}
            (Ok(_), None) => panic!("bytes of a member which cannot deliver"),
            (Err(_), Some(_)) => panic!("a readable member sector is refused"),
        }
        std::mem::forget(result);
    }
    Err(io::ErrorKind::Interrupted.into())
}

#[cfg(kani)]
#[derive(PartialEq)]
enum Situation {
    Inside,
    Other,
    Missing,
    NoSuperblock,
    End,
    Fails,
    NoClone,
}
#[cfg(kani)]
fn member_sectors(block_size: u32, (block, remainder): (u64, u64), situation: Situation) {
    let mut devices = HashMap::new();
    let disk = Disk { probe: kani::any(), value: kani::any() };
    let other = Disk { probe: kani::any(), value: kani::any() };
    unsafe {
        BLOCK_SIZE = block_size;
        COUNT = if situation == Situation::End { block } else { block + 1 };
        FAILS = situation == Situation::Fails;
        CLONES = situation != Situation::NoClone;
    }
    let (slot, other_slot) = (2, 5);
    let (offset, other_offset): (u64, u64) = (kani::any(), kani::any());
    let has_superblock = situation != Situation::NoSuperblock;
    let superblock = if has_superblock {
        MdDeviceSuperblock::Superblock(Box::new(Offset(offset)))
    } else {
        MdDeviceSuperblock::Missing
    };
    devices.insert(DeviceNumber(slot), Rc::new(MdDevice::with_superblock(superblock, disk.clone())));
    devices.insert(
        DeviceNumber(other_slot),
        Rc::new(MdDevice::with_superblock(MdDeviceSuperblock::Superblock(Box::new(Offset(other_offset))), other.clone())),
    );
    let (sector, chunk, count, at): (u64, u32, u32, u64) = (kani::any(), kani::any(), kani::any(), kani::any());
    let member = match situation {
        Situation::Missing => 3,
        Situation::Other => other_slot,
        _ => slot,
    };
    let (target, offset, known) = if member == slot {
        (Some(disk), offset, has_superblock)
    } else if member == other_slot {
        (Some(other), other_offset, true)
    } else {
        (None, 0, false)
    };
    let start = offset.checked_add(at).and_then(|s| s.checked_mul(512));
    kani::assume(start.is_none_or(|s| s == block * u64::from(block_size) + remainder));
    unsafe {
        KNOWN = (block, remainder);
        ASKED = (sector, chunk, count);
        MEMBER = (member, at);
        START = start.unwrap_or(0);
        EXPECTED = target.filter(|d| {
            let _ = d;
            known && (situation == Situation::Inside || situation == Situation::Other) && start.is_some()
        });
    }
    let mut opened = array(format(MdAlgorithm::Raid6(Raid6Algorithm::LeftSymmetric), chunk, count), devices);
    let mut buf = [0u8; 512];
    let result = opened.read_block(BlockNumber(sector), &mut buf);
    assert!(result.is_err(), "an error of the RAID code is passed on");
    std::mem::forget((result, opened));
}

/// Division with the result known beforehand (and checked), so that the amounts
/// copied are constants to the verifier.
#[cfg(kani)]
static mut KNOWN: (u64, u64) = (0, 0);
#[cfg(kani)]
fn div_rem_known(a: &u64, b: &u64) -> (u64, u64) {
    unsafe {
        assert!(*a / *b == KNOWN.0 && *a % *b == KNOWN.1, "the member is read at the sector's position");
        KNOWN
    }
}

#[cfg(kani)]
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, member_read)]
    #[kani::stub(<u64 as num_integer::Integer>::div_rem, div_rem_known)]
    #[kani::unwind(3)]
    fn a_sector_at_0_of_a_512_byte_block() { member_sectors(512, (7, 0), Situation::Inside) }
}
#[cfg(kani)]
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, member_read)]
    #[kani::stub(<u64 as num_integer::Integer>::div_rem, div_rem_known)]
    #[kani::unwind(3)]
    fn a_sector_at_0_of_a_4096_byte_block() { member_sectors(4096, (7, 0), Situation::Inside) }
}
#[cfg(kani)]
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, member_read)]
    #[kani::stub(<u64 as num_integer::Integer>::div_rem, div_rem_known)]
    #[kani::unwind(3)]
    fn a_sector_at_512_of_a_4096_byte_block() { member_sectors(4096, (7, 512), Situation::Inside) }
}
#[cfg(kani)]
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, member_read)]
    #[kani::stub(<u64 as num_integer::Integer>::div_rem, div_rem_known)]
    #[kani::unwind(3)]
    fn a_sector_at_3584_of_a_4096_byte_block() { member_sectors(4096, (7, 3584), Situation::Inside) }
}
#[cfg(kani)]
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, member_read)]
    #[kani::stub(<u64 as num_integer::Integer>::div_rem, div_rem_known)]
    #[kani::unwind(3)]
    fn a_sector_far_away() { member_sectors(512, (1099511627776, 0), Situation::Inside) }
}
#[cfg(kani)]
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, member_read)]
    #[kani::stub(<u64 as num_integer::Integer>::div_rem, div_rem_known)]
    #[kani::unwind(3)]
    fn a_sector_of_another_member() { member_sectors(512, (7, 0), Situation::Other) }
}
#[cfg(kani)]
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, member_read)]
    #[kani::stub(<u64 as num_integer::Integer>::div_rem, div_rem_known)]
    #[kani::unwind(3)]
    fn a_missing_member() { member_sectors(512, (7, 0), Situation::Missing) }
}
#[cfg(kani)]
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, member_read)]
    #[kani::stub(<u64 as num_integer::Integer>::div_rem, div_rem_known)]
    #[kani::unwind(3)]
    fn a_member_without_superblock() { member_sectors(512, (7, 0), Situation::NoSuperblock) }
}
#[cfg(kani)]
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, member_read)]
    #[kani::stub(<u64 as num_integer::Integer>::div_rem, div_rem_known)]
    #[kani::unwind(3)]
    fn a_sector_past_the_end() { member_sectors(512, (7, 0), Situation::End) }
}
#[cfg(kani)]
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, member_read)]
    #[kani::stub(<u64 as num_integer::Integer>::div_rem, div_rem_known)]
    #[kani::unwind(3)]
    fn a_sector_that_cannot_be_read() { member_sectors(512, (7, 0), Situation::Fails) }
}
#[cfg(kani)]
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, member_read)]
    #[kani::stub(<u64 as num_integer::Integer>::div_rem, div_rem_known)]
    #[kani::unwind(3)]
    fn a_member_that_cannot_be_cloned() { member_sectors(512, (7, 0), Situation::NoClone) }
}
/// `Raid6Algorithm::read_sector` as far as its result is concerned.
#[cfg(kani)]
static mut SECTOR: Option<u8> = None;
#[cfg(kani)]
static mut GIVEN: (u64, u32, u32) = (0, 0, 0);
#[cfg(kani)]
fn any_result<F>(
    _: &Raid6Algorithm,
    sector: SectorNumber,
    chunk: SectorCount<u32>,
    devices: DeviceCount,
    _: F,
) -> io::Result<Vec<u8>>
where
    F: FnMut(DeviceNumber, SectorNumber, &mut [u8]) -> io::Result<usize>,
{
    unsafe {
        GIVEN = (sector.0, chunk.0, devices.0);
        match SECTOR {
            Some(value) => {
                let mut bytes = vec![0u8; 512];
                bytes[300] = value;
                Ok(bytes)
            }
            None => Err(io::ErrorKind::InvalidData.into()),
        }
    }
}

#[cfg(kani)]
fn result_of_a_sector(found: Option<u8>) {
    const N: usize = 520;
    let (sector, chunk, count, length): (u64, u32, u32, usize) = (kani::any(), kani::any(), kani::any(), kani::any());
    kani::assume(length <= N);
    unsafe {
        ASKED = (sector, chunk, count);
        SECTOR = found;
    }
    let mut opened = array(format(MdAlgorithm::Raid6(Raid6Algorithm::RotatingNContinue), chunk, count), HashMap::new());
    let mut buf = [0x77u8; N];
    let result = opened.read_block(BlockNumber(sector), &mut buf[..length]);
    match (&result, found) {
        (Ok(n), Some(value)) => {
            assert!(*n == 512 && length >= 512, "a sector needs 512 bytes");
            assert!(unsafe { ASKED == GIVEN }, "the requested sector in the agreed geometry");
            let i: usize = kani::any();
            kani::assume(i < N);
            let expected = if i >= 512 { 0x77 } else if i == 300 { value } else { 0 };
            assert!(buf[i] == expected, "the bytes that were verified, and no others");
        }
        (Ok(_), None) => panic!("bytes although the row is not readable"),
        (Err(_), _) => assert!(found.is_none() || length < 512, "a verified sector is withheld"),
    }
    std::mem::forget((result, opened));
}
#[cfg(kani)]
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, any_result)]
    #[kani::unwind(6)]
    fn a_verified_sector_is_handed_out() { result_of_a_sector(Some(kani::any())) }
}
#[cfg(kani)]
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, any_result)]
    #[kani::unwind(6)]
    fn an_unverified_sector_is_not_handed_out() { result_of_a_sector(None) }
}

fn unverifiable(format: Option<MdFormat>) {
    let mut buf = [0u8; 512];
    let mut opened = array(format, HashMap::new());
    let result = opened.read_block(BlockNumber(kani::any()), &mut buf);
    assert!(result.is_err(), "bytes without a verifiable format");
    std::mem::forget((result, opened));
}
contract! {
    #[kani::stub(Raid6Algorithm::read_sector, any_result)]
    #[kani::unwind(6)]
    fn no_bytes_without_a_verifiable_format() {
        #[cfg(kani)]
        unsafe {
            SECTOR = Some(1)
        };
        let (chunk, count): (u32, u32) = (kani::any(), kani::any());
        unverifiable(None);
        unverifiable(format(MdAlgorithm::Raid5(Raid5Algorithm::LeftSymmetric), chunk, count));
        unverifiable(format(MdAlgorithm::Unsupported { level: kani::any(), layout: kani::any() }, chunk, count));
    }
}
