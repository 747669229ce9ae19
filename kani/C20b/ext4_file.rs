// Whole files: random extent trees stored on a small medium, read from start to
// end, against a list of what each block must give.  (Executed, not proved.)
use super::Ext4FileInternal;
use crate::block_device::{BlockCount as DeviceBlocks, BlockDevice, BlockNumber, BlockSize};
use crate::ext4::crc::ext4_crc32c;
use crate::ext4::fs::Ext4Fs;
use crate::ext4::inode::Inode;
use crate::ext4::superblock::Superblock;
use crate::ext4::units::InodeNumber;
#[allow(unused_imports)]
#[cfg(not(kani))]
use crate::verif::shim as kani;
#[allow(unused_imports)]
use crate::verif::{contract, explored, reach};
use std::io::{self, Read, Seek, SeekFrom};

#[derive(Clone)]
pub struct Medium {
    bytes: Vec<u8>,
    pos: u64,
    /// How many more reads there may be: reading a file takes few.
    patience: usize,
}
impl BlockDevice for Medium {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(512))
    }
    fn block_count(&self) -> io::Result<DeviceBlocks> {
        Ok(DeviceBlocks(self.bytes.len() as u64 / 512))
    }
    fn read_block(&mut self, n: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
        self.seek(SeekFrom::Start(n.0.saturating_mul(512)))?;
        let length = buf.len().min(512);
        self.read_exact(&mut buf[..length])?;
        Ok(length)
    }
    fn try_clone(&self) -> io::Result<Self> {
        Ok(self.clone())
    }
}
impl Read for Medium {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        assert!(self.patience > 0, "reading goes on and on");
        self.patience -= 1;
        let from = (self.pos as usize).min(self.bytes.len());
        let n = buf.len().min(self.bytes.len() - from);
        buf[..n].copy_from_slice(&self.bytes[from..from + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Medium {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        match to {
            SeekFrom::Start(to) => self.pos = to,
            _ => unreachable!(),
        }
        Ok(self.pos)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Block {
    At(u64),
    Zero,
}
#[derive(Clone, Copy)]
struct Run {
    first: u32,
    length: u16,
    at: Option<u64>,
}
impl Run {
    fn stored(&self) -> [u8; 12] {
        let mut b = [0; 12];
        b[..4].copy_from_slice(&self.first.to_le_bytes());
        let length = if self.at.is_some() { self.length } else { self.length + 32768 };
        b[4..6].copy_from_slice(&length.to_le_bytes());
        let at = self.at.unwrap_or(3);
        b[6..8].copy_from_slice(&((at >> 32) as u16).to_le_bytes());
        b[8..].copy_from_slice(&(at as u32).to_le_bytes());
        b
    }
}
fn index(first: u32, at: u64) -> [u8; 12] {
    let mut b = [0x5a; 12];
    b[..4].copy_from_slice(&first.to_le_bytes());
    b[4..8].copy_from_slice(&(at as u32).to_le_bytes());
    b[8..10].copy_from_slice(&((at >> 32) as u16).to_le_bytes());
    b
}
fn node(entries: &[[u8; 12]], max: usize, depth: u16) -> Vec<u8> {
    let mut b = vec![0x0a, 0xf3, entries.len() as u8, 0, max as u8, (max >> 8) as u8, depth as u8, (depth >> 8) as u8, 1, 2, 3, 4];
    entries.iter().for_each(|e| b.extend(e));
    b
}

const BLOCK: usize = 1024;
const BLOCKS: usize = 96;

/// A file system of which block 1 is a superblock and the rest is free.
struct Image {
    bytes: Vec<u8>,
    free: Vec<u64>,
    seed: Option<u32>,
}
impl Image {
    fn any() -> Self {
        let mut bytes = vec![0; BLOCK * BLOCKS];
        let mut word = 0x9e37u16 ^ kani::any::<u16>();
        for b in &mut bytes {
            word = word.wrapping_mul(25173).wrapping_add(13849);
            *b = (word >> 8) as u8;
        }
        let mut free: Vec<u64> = (3..BLOCKS as u64 - 1).collect();
        // neighbours stay together often enough to make extents
        let turn = kani::any::<usize>() % free.len();
        free.rotate_left(turn);
        Image { bytes, free, seed: None }
    }
    fn take(&mut self) -> u64 {
        self.free.remove(0)
    }
    fn store(&mut self, mut content: Vec<u8>, max: usize) -> u64 {
        let at = self.take();
        content.resize(12 + 12 * max, 0);
        if let Some(seed) = self.seed {
            let sum = ext4_crc32c(seed, &content);
            content.extend(sum.to_le_bytes());
        }
        let from = at as usize * BLOCK;
        self.bytes[from..from + content.len()].copy_from_slice(&content);
        at
    }
    fn block(&self, at: u64) -> &[u8] {
        &self.bytes[at as usize * BLOCK..][..BLOCK]
    }
}

fn superblock(checksums: bool) -> Vec<u8> {
    let mut s = vec![0u8; 1024];
    s[0x60] = 0x40;
    if checksums {
        s[0x61] = 0x20;
        s[0x65] = 0x04;
        s[0x270..0x274].copy_from_slice(&kani::any::<u32>().to_le_bytes());
    }
    s
}

fn inode(superblock: &[u8], root: &[u8], size: u64) -> Inode {
    let mut r = vec![0u8; 256];
    r[1] = 0x80;
    r[0x4..0x8].copy_from_slice(&(size as u32).to_le_bytes());
    r[0x6c..0x70].copy_from_slice(&((size >> 32) as u32).to_le_bytes());
    r[0x20..0x24].copy_from_slice(&0x80000u32.to_le_bytes());
    r[0x28..0x28 + root.len()].copy_from_slice(root);
    r[0x80] = 32;
    Inode::new(&Superblock::new(superblock), InodeNumber(12), r)
}

/// Some entries to the node, level by level, up to a root of at most four.
fn tree(image: &mut Image, runs: &[Run], levels: u16) -> Vec<u8> {
    let mut entries: Vec<(u32, [u8; 12])> = runs.iter().map(|r| (r.first, r.stored())).collect();
    let mut depth = 0;
    while depth < levels || entries.len() > 4 {
        let mut above = Vec::new();
        let mut left = &entries[..];
        while !left.is_empty() || above.is_empty() {
            let n = (1 + kani::any::<usize>() % 6).min(left.len());
            let bytes: Vec<_> = left[..n].iter().map(|e| e.1).collect();
            let max = match kani::any::<u8>() % 3 {
                0 => 84,
                1 => n,
                _ => n + kani::any::<usize>() % (85 - n),
            };
            let at = image.store(node(&bytes, max, depth), max);
            let first = left.first().map_or(0, |e| e.0);
            above.push((first, index(first, at)));
            left = &left[n..];
        }
        entries = above;
        depth += 1;
    }
    let bytes: Vec<_> = entries.iter().map(|e| e.1).collect();
    node(&bytes, 4, depth)
}

explored! {
    fn whole_files() {
        let mut image = Image::any();
        let checksums = kani::any();
        let sb = superblock(checksums);
        image.seed = inode(&sb, &[], 0).metadata_checksum_seed();
        assert!(image.seed.is_some() == checksums);
        // where the content is
        let (mut runs, mut blocks) = (Vec::new(), Vec::new());
        for _ in 0..kani::any::<usize>() % 10 {
            let length = 1 + kani::any::<u16>() % 4;
            let first = blocks.len() as u32;
            if kani::any::<u8>() % 4 == 0 {
                runs.push(Run { first, length, at: None });
                blocks.extend(vec![Block::Zero; length.into()]);
            } else {
                let at = image.take();
                let mut n = 1;
                while n < length && image.free.first() == Some(&(at + u64::from(n))) {
                    image.take();
                    n += 1;
                }
                runs.push(Run { first, length: n, at: Some(at) });
                blocks.extend((0..u64::from(n)).map(|i| Block::At(at + i)));
            }
        }
        let mut size = (blocks.len() * BLOCK) as u64;
        if !blocks.is_empty() {
            size -= kani::any::<u64>() % BLOCK as u64;
        }
        // what is wrong
        let mut good = blocks.len();
        let mut ends_well = true;
        match kani::any::<u8>() % 6 {
            // blocks are missing
            0 if !runs.is_empty() => {
                let from = kani::any::<usize>() % runs.len();
                let by = 1 + kani::any::<u32>() % 3;
                good = runs[from].first as usize;
                runs[from..].iter_mut().for_each(|r| r.first += by);
                ends_well = false;
            }
            // blocks overlap
            1 if runs.len() > 1 => {
                let from = 1 + kani::any::<usize>() % (runs.len() - 1);
                good = runs[from].first as usize;
                runs[from..].iter_mut().for_each(|r| r.first -= 1);
                ends_well = false;
            }
            // a block is not on the medium
            2 => {
                if let Some(run) = runs.iter_mut().filter(|r| r.at.is_some()).last() {
                    run.at = Some((1 << 40) + kani::any::<u64>() % 1000);
                    good = run.first as usize;
                    ends_well = false;
                }
            }
            // there are fewer blocks than bytes
            3 => {
                size = (blocks.len() * BLOCK) as u64 + 1 + kani::any::<u64>() % 5000;
                ends_well = false;
            }
            // there are more
            4 if !blocks.is_empty() => {
                size = kani::any::<u64>() % ((blocks.len() - 1) * BLOCK + 1) as u64;
                good = (size as usize).div_ceil(BLOCK);
                ends_well = false;
            }
            _ => {}
        }
        let levels = kani::any::<u16>() % 3;
        let root = tree(&mut image, &runs, levels);
        let inode = inode(&sb, &root, size);
        let medium = Medium { bytes: image.bytes.clone(), pos: 0, patience: 200 };
        let mut file = Ext4FileInternal::open(Ext4Fs::assembled(medium, sb), inode).map_err(|_| "no file").unwrap();
        assert!(file.block_size() == BLOCK && file.file_size_bytes() == size);
        let mut buf = vec![0xa5; BLOCK + kani::any::<usize>() % 2 * 100];
        let mut left = size;
        for block in &blocks[..good] {
            let n = left.min(BLOCK as u64) as usize;
            buf.fill(0xa5);
            assert!(matches!(file.read_next_block(&mut buf), Ok(m) if m == n));
            match block {
                Block::At(at) => assert!(buf[..n] == image.block(*at)[..n]),
                Block::Zero => assert!(buf[..n].iter().all(|&b| b == 0)),
            }
            assert!(buf[BLOCK..].iter().all(|&b| b == 0xa5));
            left -= n as u64;
        }
        let end = file.read_next_block(&mut buf);
        if ends_well {
            assert!(matches!(end, Ok(0)));
            assert!(matches!(file.read_next_block(&mut buf), Ok(0)));
        } else {
            assert!(end.is_err());
        }
    }
}

explored! {
    fn damaged_trees() {
        let mut image = Image::any();
        let sb = superblock(kani::any());
        image.seed = inode(&sb, &[], 0).metadata_checksum_seed();
        let runs: Vec<_> = (0..1 + kani::any::<u32>() % 8).map(|first| Run { first, length: 1, at: Some(image.take()) }).collect();
        let before = image.free.clone();
        let root = tree(&mut image, &runs, 1 + kani::any::<u16>() % 2);
        let nodes = before.len() - image.free.len();
        let inode = inode(&sb, &root, runs.len() as u64 * 1024);
        // some node is changed
        let at = before[kani::any::<usize>() % nodes] as usize * BLOCK;
        let byte = match kani::any::<u8>() % 4 {
            0 => kani::any::<usize>() % 8,
            1 => 12 + kani::any::<usize>() % 4,
            _ => kani::any::<usize>() % 48,
        };
        let bit = 1 << kani::any::<u8>() % 8;
        image.bytes[at + byte] ^= bit;
        let medium = Medium { bytes: image.bytes.clone(), pos: 0, patience: 400 };
        let mut file = Ext4FileInternal::open(Ext4Fs::assembled(medium, sb), inode).map_err(|_| "no file").unwrap();
        let mut buf = vec![0; BLOCK];
        let mut read = 0;
        let outcome = loop {
            match file.read_next_block(&mut buf) {
                Ok(0) => break Ok(()),
                Ok(n) => read += n,
                Err(e) => break Err(e),
            }
            assert!(read <= runs.len() * BLOCK, "more than the file has");
        };
        // (no panic, no endless reading)  What makes a node another node:
        let entries = usize::from(image.bytes[at + 2]) | usize::from(image.bytes[at + 3]) << 8;
        if image.seed.is_some() && byte < 12 + 12 * usize::from(entries) || byte < 4 || byte == 6 || byte == 7 {
            assert!(outcome.is_err());
        }
        if outcome.is_ok() {
            assert!(read == runs.len() * BLOCK);
        }
    }
}

explored! {
    fn nodes_linked_again_and_again() {
        let mut image = Image::any();
        let sb = superblock(false);
        let depth = 20 + kani::any::<u16>() % 30;
        let twice = 2 + kani::any::<usize>() % 2;
        let mut at = image.store(node(&[], 84, 0), 84);
        for level in 1..depth {
            at = image.store(node(&vec![index(0, at); twice], 84, level), 84);
        }
        let inode = inode(&sb, &node(&vec![index(0, at); twice], 4, depth), kani::any::<u64>() % 5000);
        let medium = Medium { bytes: image.bytes.clone(), pos: 0, patience: 2000 };
        let mut file = Ext4FileInternal::open(Ext4Fs::assembled(medium, sb), inode).map_err(|_| "no file").unwrap();
        let mut buf = vec![0; BLOCK];
        let found = file.read_next_block(&mut buf);
        assert!(found.is_err() || file.file_size_bytes() == 0);
    }
}
