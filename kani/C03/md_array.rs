// RAID level recognition and the capacity of an opened array.
use super::MdArray;
use crate::block_device::{BlockCount, BlockDevice, BlockNumber, BlockSize};
use crate::md::algorithm::MdAlgorithm;
use crate::md::definition::MdArrayDefinition;
use crate::md::format::MdFormat;
use crate::md::raid5::Raid5Algorithm;
use crate::md::raid6::Raid6Algorithm;
use crate::md::units::{DeviceCount, SectorCount};
use crate::verif::division::checked_mul;
use crate::verif::{contract, reach, HashMap};
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;
#[cfg(not(kani))]
use crate::verif::shim as kani;

pub struct NoDisk;
impl BlockDevice for NoDisk {
    fn block_size(&self) -> io::Result<BlockSize> {
        unreachable!()
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        unreachable!()
    }
    fn read_block(&mut self, _: BlockNumber, _: &mut [u8]) -> io::Result<usize> {
        unreachable!()
    }
    fn try_clone(&self) -> io::Result<Self> {
        Ok(NoDisk)
    }
}
impl Read for NoDisk {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        unreachable!()
    }
}
impl Seek for NoDisk {
    fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
        unreachable!()
    }
}

/// The layouts Linux md defines (drivers/md/raid5.h).
fn is_raid_5(level: u32, layout: u32) -> bool {
    level == 5 && layout <= 5
}
fn is_raid_6(level: u32, layout: u32) -> bool {
    level == 6 && (layout <= 5 || (8..=10).contains(&layout) || (16..=20).contains(&layout))
}

fn level_and_layout() -> (u32, u32) {
    let (level, layout): (u32, u32) = (kani::any(), kani::any());
    #[cfg(not(kani))]
    let (level, layout) = (level, if layout & 7 != 0 { layout % 24 } else { layout });
    (level, layout)
}

contract! {
    fn a_level_and_layout_are_recognised() {
        let (level, layout) = level_and_layout();
        let found = MdAlgorithm::from_level_and_layout(level, layout);
        match &found {
            MdAlgorithm::Raid5(_) => assert!(is_raid_5(level, layout), "taken for RAID 5"),
            MdAlgorithm::Raid6(_) => assert!(is_raid_6(level, layout), "taken for RAID 6"),
            MdAlgorithm::Unsupported { level: l, layout: y } => {
                assert!(!is_raid_5(level, layout) && !is_raid_6(level, layout), "taken for unsupported");
                assert!(*l == level && *y == layout, "the stored numbers");
            }
        }
        let parity = found.parity_device_count().map(u32::from);
        assert!(parity == if is_raid_5(level, layout) { Some(1) } else if is_raid_6(level, layout) { Some(2) } else { None });
        reach!(layout == 20 && level == 6);
        reach!(layout == 5 && level == 5);
        reach!(level == 4);
    }
}

contract! {
    /// No two different layout codes of a level are taken for the same layout.
    fn layouts_are_kept_apart() {
        let (level, layout) = level_and_layout();
        let (other_level, other_layout) = level_and_layout();
        let same = MdAlgorithm::from_level_and_layout(level, layout)
            == MdAlgorithm::from_level_and_layout(other_level, other_layout);
        assert!(same == (level == other_level && layout == other_layout));
        assert!(Raid5Algorithm::from_layout(layout).is_some() == is_raid_5(5, layout));
        assert!(Raid6Algorithm::from_layout(layout).is_some() == is_raid_6(6, layout));
    }
}

fn array(format: Option<MdFormat>) -> MdArray<NoDisk> {
    MdArray {
        definition: Rc::new(MdArrayDefinition {
            format,
            new_format: None,
            devices: HashMap::new(),
            inactive_devices: Vec::new(),
        }),
    }
}

contract! {
    #[kani::stub(u64::checked_mul, crate::verif::division::checked_mul)]
    #[kani::unwind(6)]
    fn capacity_of_an_array() {
        let (level, layout) = level_and_layout();
        let (devices, sectors, chunk): (u32, u64, u32) = (kani::any(), kani::any(), kani::any());
        let opened = array(Some(MdFormat {
            algorithm: MdAlgorithm::from_level_and_layout(level, layout),
            device_count: DeviceCount(devices),
            sectors_per_device: SectorCount(sectors),
            chunk_size: SectorCount(chunk),
        }));
        let parity = if is_raid_5(level, layout) {
            Some(1)
        } else if is_raid_6(level, layout) {
            Some(2)
        } else {
            None
        };
        let expected = parity
            .and_then(|parity| devices.checked_sub(parity))
            .and_then(|data| checked_mul(sectors, u64::from(data)));
        assert!(opened.block_count().ok() == expected.map(BlockCount), "capacity");
        assert!(opened.block_size().ok() == Some(BlockSize(512)), "block size");
        let copy = opened.try_clone().ok().expect("a clone");
        assert!(copy.block_count().ok() == expected.map(BlockCount), "capacity of a clone");
        reach!(expected.is_some() && level == 5 && devices > 4);
        reach!(expected.is_some() && level == 6 && devices > 4);
        reach!(expected.is_none() && level == 6);
        std::mem::forget((opened, copy));
    }
}

contract! {
    #[kani::unwind(6)]
    fn no_capacity_without_an_agreed_format() {
        let opened = array(None);
        assert!(opened.block_count().is_err());
        assert!(opened.block_size().ok() == Some(BlockSize(512)));
        std::mem::forget(opened);
    }
}
