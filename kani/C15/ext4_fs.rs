// Ext4Fs::open: what is refused, and where the group descriptors come from.
use super::Ext4Fs;
use crate::block_device::{BlockCount, BlockDevice, BlockNumber, BlockSize};
use crate::ext4::block_group::BlockGroupDescriptor;
use crate::ext4::superblock::Superblock;
use crate::verif::{contract, explored, reach};
use std::io::{self, Read, Seek, SeekFrom};
#[cfg(not(kani))]
use crate::verif::shim as kani;

static mut SUPERBLOCK: [u8; 1024] = [0; 1024];
/// The medium ends here (natively) or after this many reads, with an error or
/// without.
#[cfg(not(kani))]
static mut LIMIT: u64 = u64::MAX;
static mut READS: usize = usize::MAX;
static mut FAILS: bool = false;
#[cfg(kani)]
static mut VALID: bool = true;

/// A superblock at byte 1024 (the first time something is read there), and
/// zeros but for one byte.
#[derive(Clone)]
pub struct Medium {
    pos: u64,
    probe: u64,
    value: u8,
    served: usize,
    largest: usize,
}
impl Medium {
    fn new(probe: u64, value: u8) -> Self {
        Medium { pos: kani::any(), probe, value, served: 0, largest: 0 }
    }
}
impl BlockDevice for Medium {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(512))
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        Ok(BlockCount(u64::MAX / 512))
    }
    fn read_block(&mut self, _: BlockNumber, _: &mut [u8]) -> io::Result<usize> {
        panic!("the medium is addressed by bytes")
    }
    fn try_clone(&self) -> io::Result<Self> {
        Ok(self.clone())
    }
}
impl Read for Medium {
    #[allow(static_mut_refs)]
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len();
        if n > self.largest {
            self.largest = n;
        }
        #[cfg(not(kani))]
        let n = n.min(unsafe { LIMIT }.saturating_sub(self.pos).try_into().unwrap_or(usize::MAX));
        if n == 0 && buf.len() > 0 || unsafe { READS == 0 } {
            return if unsafe { FAILS } { Err(io::ErrorKind::Other.into()) } else { Ok(0) };
        }
        unsafe { READS -= 1 };
        if self.served < 1024 {
            assert!(self.pos == 1024 + self.served as u64, "the superblock is at byte 1024");
            assert!(self.served + n <= 1024, "and 1024 bytes long");
            let from = unsafe { &SUPERBLOCK[self.served..self.served + n] };
            buf[..n].copy_from_slice(from);
            self.served += n;
        } else {
            #[cfg(not(kani))]
            buf[..n].fill(0);
            let at = self.probe.wrapping_sub(self.pos);
            if at < n as u64 {
                buf[at as usize] = self.value;
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Medium {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        match pos {
            SeekFrom::Start(p) => self.pos = p,
            SeekFrom::Current(d) => self.pos = self.pos.wrapping_add_signed(d),
            SeekFrom::End(_) => return Err(io::ErrorKind::Unsupported.into()),
        }
        Ok(self.pos)
    }
}

fn put(at: usize, field: &[u8]) {
    let mut i = 0;
    while i < field.len() {
        unsafe { SUPERBLOCK[at + i] = field[i] };
        i += 1;
    }
}

struct Geometry {
    log: u32,
    blocks: u64,
    per_group: u32,
    first: u32,
    size: u16,
    inode_size: u16,
    inodes_per_group: u32,
    creator: u32,
    incompatible: u32,
}
impl Geometry {
    fn any() -> Self {
        let g = Geometry {
            log: kani::any(),
            blocks: kani::any(),
            per_group: kani::any(),
            first: kani::any(),
            size: kani::any(),
            inode_size: kani::any(),
            inodes_per_group: kani::any(),
            creator: kani::any(),
            incompatible: kani::any(),
        };
        // what Superblock::valid makes sure of (C14)
        kani::assume(g.log < 53);
        g
    }
    #[allow(unused_mut)]
    fn usable(log: u32) -> Self {
        let mut g = Geometry { log, creator: 0, ..Self::any() };
        #[cfg(not(kani))]
        {
            g.incompatible = g.incompatible & 0x1f7df | 0x40;
            if g.inode_size < 128 { g.inode_size += 128 }
        }
        kani::assume(g.acceptable());
        g
    }
    /// as an operator of the tool may rely on
    fn acceptable(&self) -> bool {
        self.per_group != 0
            && self.size != 0
            && self.log <= 6
            && self.inode_size >= 128
            && self.inodes_per_group != 0
            && self.creator == 0
            && self.incompatible & 0x40 != 0
            && self.incompatible & !0x1f7df == 0
    }
    fn store(&self) {
        put(0x0, &self.inodes_per_group.to_le_bytes());
        put(0x4, &(self.blocks as u32).to_le_bytes());
        put(0x14, &self.first.to_le_bytes());
        put(0x18, &self.log.to_le_bytes());
        put(0x1c, &self.log.to_le_bytes());
        put(0x20, &self.per_group.to_le_bytes());
        put(0x24, &self.per_group.to_le_bytes());
        put(0x28, &self.inodes_per_group.to_le_bytes());
        put(0x38, &[0x53, 0xef]);
        put(0x3c, &[1, 0]);
        put(0x48, &self.creator.to_le_bytes());
        put(0x4c, &1u32.to_le_bytes());
        put(0x58, &self.inode_size.to_le_bytes());
        put(0x60, &self.incompatible.to_le_bytes());
        put(0xfe, &self.size.to_le_bytes());
        put(0x150, &((self.blocks >> 32) as u32).to_le_bytes());
    }
    /// the number of groups, by counting; none if there are more than `most`
    fn groups(&self, most: u64) -> Option<u64> {
        let mut left = self.blocks;
        let mut groups = 0;
        while left > 0 {
            if groups == most {
                return None;
            }
            groups += 1;
            left = left.saturating_sub(u64::from(self.per_group));
        }
        Some(groups)
    }
    fn descriptors_at(&self) -> u64 {
        (u64::from(self.first) + 1) << (10 + self.log)
    }
}

/// `Superblock::valid` by contract (C14): any verdict.
#[cfg(kani)]
fn valid<S: AsRef<[u8]>>(_: &Superblock<S>) -> bool {
    unsafe { VALID }
}

fn set(reads: usize, fails: bool, valid: bool) {
    unsafe {
        READS = reads;
        FAILS = fails;
    }
    #[cfg(kani)]
    unsafe {
        VALID = valid;
    }
    // natively the real validity check runs
    #[cfg(not(kani))]
    {
        put(0x174, &[if valid { 0 } else { 63 }]);
        unsafe { LIMIT = u64::MAX };
    }
}

contract! {
    #[kani::stub(crate::ext4::superblock::Superblock::valid, valid)]
    #[kani::unwind(18)]
    fn only_usable_file_systems_are_opened() {
        let g = Geometry { blocks: 0, ..Geometry::any() };
        #[cfg(not(kani))]
        let g = {
            let mut u = Geometry::usable(g.log % 8);
            u.blocks = 0;
            match g.creator % 10 {
                0 => u.per_group = g.per_group % 2,
                1 => u.size = g.size % 2,
                2 => u.inode_size = g.inode_size,
                3 => u.inode_size = 126 + g.inode_size % 4,
                4 => u.inodes_per_group = g.inodes_per_group % 2,
                5 => u.creator = g.inodes_per_group % 6,
                6 => u.incompatible = g.incompatible,
                7 => u.incompatible ^= 1 << (g.incompatible % 32),
                _ => {}
            }
            u
        };
        g.store();
        let ok: bool = kani::any();
        set(1, false, ok);
        let found = Ext4Fs::open(Medium::new(u64::MAX, 0));
        assert!(found.is_ok() == (ok && g.acceptable()));
        if let Ok(fs) = &found {
            assert!(fs.group_descriptors.len() == 0);
            assert!(fs.block_size() == 1024 << g.log);
        }
        reach!(found.is_ok() && g.log == 6);
        reach!(ok && !g.acceptable() && g.log <= 6 && g.creator == 0 && g.incompatible == 0x40);
        std::mem::forget(found);
    }
}

fn descriptors_are_where_they_belong(g: &Geometry, present: u64, fails: bool) {
    g.store();
    set(1 + present as usize, fails, true);
    let wanted = g.groups(present);
    let size = u64::from(g.size);
    let (group, offset): (u64, u64) = (kani::any(), kani::any());
    #[cfg(not(kani))]
    let (group, offset) = (group % (present + 1), offset % size);
    kani::assume(group <= present && offset < size);
    let value: u8 = kani::any();
    let found = Ext4Fs::open(Medium::new(g.descriptors_at() + group * size + offset, value));
    match (&found, wanted) {
        (Err(_), Some(_)) => assert!(false, "all descriptors are there"),
        (Err(_), None) => {}
        (Ok(_), None) => assert!(false, "descriptors are missing"),
        (Ok(fs), Some(groups)) => {
            assert!(fs.group_descriptors.len() as u64 == groups);
            if group < groups {
                let mut stored = [0u8; 64];
                if offset < 64 {
                    stored[offset as usize] = value;
                }
                let (d, same) = (&fs.group_descriptors[group as usize], BlockGroupDescriptor::new(&stored[..]));
                assert!(d.inode_table_block() == same.inode_table_block());
                assert!(d.block_bitmap_block() == same.block_bitmap_block());
                assert!(d.inode_bitmap_block() == same.inode_bitmap_block());
                assert!(d.checksum() == same.checksum());
                assert!(d.flags() == same.flags());
                let other = if group == 0 { groups - 1 } else { group - 1 };
                if other != group {
                    assert!(fs.group_descriptors[other as usize].inode_table_block().0 == 0);
                }
            }
        }
    }
    reach!(found.is_ok() && wanted == Some(present));
    reach!(found.is_err() && g.blocks > 1 << 60);
    std::mem::forget(found);
}

macro_rules! descriptors {
    ($($name:ident $log:literal $present:literal $fails:literal $per_group:literal $size:literal;)*) => { $(
        contract! {
            #[kani::stub(crate::ext4::superblock::Superblock::valid, valid)]
            #[kani::unwind(18)]
            fn $name() {
                let mut g = Geometry::usable($log);
                g.per_group = $per_group;
                g.size = $size;
                #[cfg(not(kani))]
                let g = Geometry { blocks: if g.blocks % 5 == 0 { g.blocks } else { g.blocks % (u64::from(g.per_group) * ($present + 1) + 1) }, ..g };
                descriptors_are_where_they_belong(&g, $present, $fails);
            }
        }
    )* };
}
descriptors! {
    no_descriptors 2 0 false 32768 64;
    one_in_blocks_of_1024 0 1 false 8192 32;
    two_in_blocks_of_4096 2 2 false 32768 64;
    three_in_blocks_of_65536 6 3 false 100 80;
    failure_after_the_superblock 2 0 true 32768 64;
    failure_after_the_first_descriptor 1 1 true 16384 40;
}
explored! {
    fn media_of_any_length() {
        let mut g = Geometry::usable(kani::any::<u32>() % 7);
        let most = kani::any::<u64>() % 100;
        g.blocks = if kani::any() { u64::from(g.per_group) * (g.blocks % (most + 1)) } else { g.blocks % (u64::from(g.per_group) * most + 1) };
        g.store();
        set(usize::MAX, kani::any(), true);
        let end = g.descriptors_at() + g.groups(most).unwrap() * u64::from(g.size);
        let limit = match kani::any::<u8>() % 4 {
            0 => end,
            1 => end - 1,
            2 => kani::any::<u64>() % 2049,
            _ => kani::any::<u64>() % (2 * end),
        };
        unsafe { LIMIT = limit };
        let found = Ext4Fs::open(Medium::new(u64::MAX, 0));
        assert!(found.is_ok() == (limit >= 2048 && (g.blocks == 0 || limit >= end)));
        if let Ok(fs) = found {
            assert!(fs.device.largest as u64 <= end.max(1024));
        }
    }
}
explored! {
    fn many_groups() {
        let mut g = Geometry::usable(kani::any::<u32>() % 7);
        let most = kani::any::<u64>() % 100;
        g.blocks = g.blocks % (u64::from(g.per_group) * (most + 1) + 1);
        descriptors_are_where_they_belong(&g, most, kani::any());
    }
}
