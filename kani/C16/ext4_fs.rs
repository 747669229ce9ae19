// Where inodes and blocks are read from: Ext4Fs::read_inode and read_block on
// a medium which records what is asked of it.
use super::Ext4Fs;
use crate::block_device::{BlockCount, BlockDevice, BlockNumber, BlockSize};
use crate::ext4::block_group::BlockGroupDescriptor;
use crate::ext4::inode::Inode;
use crate::ext4::superblock::Superblock;
use crate::ext4::units::{FsBlockNumber, InodeNumber};
use crate::verif::{contract, explored, reach};
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;
#[cfg(not(kani))]
use crate::verif::shim as kani;

static mut FAILS: bool = false;

/// A medium which is zero but for one byte.
#[derive(Clone)]
pub struct Medium {
    pos: u64,
    probe: u64,
    value: u8,
    /// where reading began, and how much has been read from there
    start: Option<u64>,
    read: u64,
    asked: bool,
}
impl Medium {
    fn new(probe: u64, value: u8) -> Self {
        Medium { pos: kani::any(), probe, value, start: None, read: 0, asked: false }
    }
}
impl BlockDevice for Medium {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(512))
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        Ok(BlockCount(u64::MAX / 512))
    }
    fn read_block(&mut self, _: BlockNumber, _: &mut [u8]) -> io::Result<usize> {
        panic!("the medium is addressed by bytes")
    }
    fn try_clone(&self) -> io::Result<Self> {
        Ok(self.clone())
    }
}
impl Read for Medium {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.asked = true;
        if unsafe { FAILS } {
            return Err(io::ErrorKind::Other.into());
        }
        match self.start {
            None => self.start = Some(self.pos),
            Some(start) => assert!(start.wrapping_add(self.read) == self.pos, "one contiguous piece is read"),
        }
        #[cfg(not(kani))]
        buf.fill(0);
        let at = self.probe.wrapping_sub(self.pos);
        if at < buf.len() as u64 {
            buf[at as usize] = self.value;
        }
        self.pos = self.pos.wrapping_add(buf.len() as u64);
        self.read += buf.len() as u64;
        Ok(buf.len())
    }
}
impl Seek for Medium {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        match pos {
            SeekFrom::Start(p) => self.pos = p,
            SeekFrom::Current(d) => self.pos = self.pos.wrapping_add_signed(d),
            SeekFrom::End(_) => return Err(io::ErrorKind::Unsupported.into()),
        }
        Ok(self.pos)
    }
}

fn put(bytes: &mut [u8], at: usize, field: &[u8]) {
    let mut i = 0;
    while i < field.len() {
        bytes[at + i] = field[i];
        i += 1;
    }
}

/// The parts of a superblock that matter here.
struct Geometry {
    log_block_size: u32,
    inode_size: u16,
    inodes_count: u32,
    inodes_per_group: u32,
    checksums: bool,
    seed: u32,
}
impl Geometry {
    fn any(log_block_size: u32, inode_size: u16) -> Self {
        let inodes_per_group = kani::any();
        kani::assume(inodes_per_group != 0);
        Geometry {
            log_block_size,
            inode_size,
            inodes_count: kani::any(),
            inodes_per_group,
            checksums: kani::any(),
            seed: kani::any(),
        }
    }
    fn block_size(&self) -> u64 {
        1024 << self.log_block_size
    }
    fn superblock(&self) -> Superblock<Vec<u8>> {
        let mut b = vec![0u8; 1024];
        put(&mut b, 0x0, &self.inodes_count.to_le_bytes());
        put(&mut b, 0x18, &self.log_block_size.to_le_bytes());
        put(&mut b, 0x28, &self.inodes_per_group.to_le_bytes());
        put(&mut b, 0x4c, &1u32.to_le_bytes());
        put(&mut b, 0x58, &self.inode_size.to_le_bytes());
        put(&mut b, 0x60, &0x2000u32.to_le_bytes());
        put(&mut b, 0x64, &(if self.checksums { 0x400u32 } else { 0 }).to_le_bytes());
        put(&mut b, 0x270, &self.seed.to_le_bytes());
        Superblock::new(b)
    }
}

fn descriptor(table: u64) -> BlockGroupDescriptor {
    let mut b = [0u8; 64];
    put(&mut b, 0x8, &(table as u32).to_le_bytes());
    put(&mut b, 0x28, &((table >> 32) as u32).to_le_bytes());
    BlockGroupDescriptor::new(&b[..])
}

fn fs(g: &Geometry, device: Medium, tables: &[u64; GROUPS]) -> Ext4Fs<Medium> {
    Ext4Fs {
        device,
        superblock: Rc::new(g.superblock()),
        group_descriptors: Rc::new(vec![descriptor(tables[0]), descriptor(tables[1]), descriptor(tables[2])]),
    }
}

const GROUPS: usize = 3;

/// The group and index of an inode, by counting; none if it is refused.
fn place(g: &Geometry, n: u32) -> Option<(usize, u32)> {
    if n == 0 || n > g.inodes_count {
        return None;
    }
    let mut index = n - 1;
    let mut group = 0;
    while index >= g.inodes_per_group {
        index -= g.inodes_per_group;
        group += 1;
        if group == GROUPS {
            return None;
        }
    }
    Some((group, index))
}

fn position(g: &Geometry, tables: &[u64; GROUPS], n: u32) -> Option<u64> {
    let (group, index) = place(g, n)?;
    let table = tables[group];
    if table > u64::MAX >> (10 + g.log_block_size) {
        return None;
    }
    (table << (10 + g.log_block_size)).checked_add(u64::from(index) * u64::from(g.inode_size))
}

fn inode_is_read_from_its_table(g: Geometry) {
    unsafe { FAILS = false };
    let tables: [u64; GROUPS] = [kani::any(), kani::any(), kani::any()];
    let n: u32 = kani::any();
    #[cfg(not(kani))]
    let n = match n % 3 {
        0 => n,
        1 => (n >> 8) % g.inodes_per_group.saturating_mul(3).max(1),
        _ => ((n >> 8) % 4) * g.inodes_per_group.min(1 << 29) + (n >> 4) % 3,
    };
    #[cfg(not(kani))]
    let g = Geometry { inodes_count: if g.inodes_count % 4 != 0 { u32::MAX } else { g.inodes_count }, ..g };
    let wanted = position(&g, &tables, n);
    let offset: usize = kani::any();
    kani::assume(offset < usize::from(g.inode_size));
    let value: u8 = kani::any();
    let probe = wanted.unwrap_or(0).wrapping_add(offset as u64);
    let mut fs = fs(&g, Medium::new(probe, value), &tables);
    let found = fs.read_inode(InodeNumber(n));
    match (wanted, &found) {
        (None, Err(_)) => assert!(!fs.device.asked, "nothing is read for a refused inode"),
        (Some(at), Ok(inode)) => {
            assert!(fs.device.start == Some(at) && fs.device.read == u64::from(g.inode_size));
            let mut stored = vec![0u8; usize::from(g.inode_size)];
            stored[offset] = value;
            let same = Inode::new(&g.superblock(), InodeNumber(n), &stored[..]);
            assert!(u16::from(inode.file_mode()) == u16::from(same.file_mode()));
            assert!(inode.file_size_bytes() == same.file_size_bytes());
            assert!(inode.flags().bits() == same.flags().bits());
            assert!(inode.generation() == same.generation());
            assert!(inode.project_id() == same.project_id());
            assert!(inode.checksum() == same.checksum());
            assert!(inode.blocks_buffer()[0] == same.blocks_buffer()[0]);
            assert!(inode.blocks_buffer()[59] == same.blocks_buffer()[59]);
            assert!(inode.metadata_checksum_seed() == same.metadata_checksum_seed());
        }
        (Some(_), Err(_)) => assert!(false, "a stored inode is read"),
        (None, Ok(_)) => assert!(false, "there is no such inode"),
    }
    reach!(n != 0 && n <= g.inodes_count && wanted.is_none());
    reach!(place(&g, n).is_some() && place(&g, n).unwrap().0 == 2 && wanted.is_some() && g.inodes_per_group > 8);
    std::mem::forget((fs, found));
}

macro_rules! inodes {
    ($($name:ident $log:literal $size:literal;)*) => { $(
        contract! {
            #[kani::stub(crate::ext4::crc::ext4_crc32c, crate::verif::crc::function)]
            #[kani::unwind(7)]
            fn $name() {
                inode_is_read_from_its_table(Geometry::any($log, $size));
            }
        }
    )* };
}
inodes! {
    inodes_of_128_in_blocks_of_1024 0 128;
    inodes_of_256_in_blocks_of_4096 2 256;
    inodes_of_160_in_blocks_of_65536 6 160;
}
explored! {
    fn inodes_of_any_geometry() {
        let size: u16 = kani::any();
        kani::assume(size >= 128);
        inode_is_read_from_its_table(Geometry::any(kani::any::<u32>() % 7, size));
    }
}

contract! {
    #[kani::stub(crate::ext4::crc::ext4_crc32c, crate::verif::crc::function)]
    #[kani::unwind(7)]
    fn failures_of_the_medium_are_reported() {
        unsafe { FAILS = true };
        let g = Geometry::any(2, 256);
        let tables: [u64; GROUPS] = [kani::any(), kani::any(), kani::any()];
        let mut fs = fs(&g, Medium::new(0, 0), &tables);
        let mut buf = [0u8; 4096];
        let inode = fs.read_inode(InodeNumber(kani::any()));
        let block = fs.read_block(FsBlockNumber(kani::any()), &mut buf);
        unsafe { FAILS = false };
        assert!(inode.is_err());
        assert!(block.is_err());
        std::mem::forget((fs, inode, block));
    }
}

contract! {
    #[kani::stub(crate::ext4::crc::ext4_crc32c, crate::verif::crc::function)]
    #[kani::unwind(7)]
    fn the_root_is_inode_two() {
        let g = Geometry::any(2, 256);
        kani::assume(g.inodes_count >= 2 && g.inodes_per_group >= 2);
        let tables: [u64; GROUPS] = [kani::any(), kani::any(), kani::any()];
        kani::assume(tables[0] < 1 << 48);
        let mut fs = fs(&g, Medium::new(0, 0), &tables);
        let inode = fs.read_root_inode();
        assert!(inode.is_ok());
        assert!(fs.device.start == Some((tables[0] << 12) + 256));
        std::mem::forget((fs, inode));
    }
}

fn block_is_read_whole(log: u32) {
    unsafe { FAILS = false };
    let g = Geometry::any(log, 256);
    let size = g.block_size();
    let (b, length): (u64, usize) = (kani::any(), kani::any());
    kani::assume(length <= 1 << 20);
    #[cfg(not(kani))]
    let length = length % (3 * size as usize);
    let mut buf = crate::verif::bytes_of_length(length);
    let look: usize = kani::any();
    kani::assume(look < length);
    let before = buf[look];
    let value: u8 = kani::any();
    let wanted = if length < size as usize || b > u64::MAX >> (10 + log) { None } else { Some(b << (10 + log)) };
    let inside = (look as u64) < size;
    let probe = match wanted {
        Some(at) if inside => at.wrapping_add(look as u64),
        _ => u64::MAX,
    };
    let mut fs = fs(&g, Medium::new(probe, value), &[0; GROUPS]);
    let found = fs.read_block(FsBlockNumber(b), &mut buf);
    assert!(fs.block_size() as u64 == size);
    match wanted {
        None => {
            assert!(found.is_err());
            assert!(!fs.device.asked && buf[look] == before);
        }
        Some(at) => {
            assert!(found.is_ok());
            assert!(fs.device.start == Some(at) && fs.device.read == size);
            assert!(buf[look] == if inside { value } else { before });
        }
    }
    reach!(wanted.is_some() && length as u64 > size + 1 && !inside && b > 1 << 40);
    reach!(wanted.is_some() && length as u64 == size && look == size as usize - 1);
    std::mem::forget((fs, found, buf));
}
macro_rules! blocks {
    ($($name:ident $log:literal;)*) => { $(
        contract! {
            #[kani::unwind(7)]
            fn $name() {
                block_is_read_whole($log);
            }
        }
    )* };
}
blocks! {
    blocks_of_1024 0;
    blocks_of_2048 1;
    blocks_of_4096 2;
    blocks_of_8192 3;
    blocks_of_16384 4;
    blocks_of_32768 5;
    blocks_of_65536 6;
}
