// Directory records, blocks and whole directories against the ext4 layout
// (struct ext4_dir_entry_2, ext4_dir_entry_tail).
use super::block::Ext4DirectoryBlock;
use super::dir_entry::DirEntry;
use super::directory::Ext4Directory;
use super::file_type::Ext4DirectoryInlineFileType as Type;
use crate::ext4::fs::Ext4Fs;
use crate::ext4::inode::Inode;
use crate::ext4::string::Ext4String;
use crate::ext4::superblock::Superblock;
use crate::ext4::units::InodeNumber;
#[allow(unused_imports)]
use crate::verif::{contract, explored, reach};
#[cfg(not(kani))]
use crate::verif::shim as kani;

fn u16_at(b: &[u8], at: usize) -> u16 {
    u16::from(b[at]) | u16::from(b[at + 1]) << 8
}
fn u32_at(b: &[u8], at: usize) -> u32 {
    u32::from(u16_at(b, at)) | u32::from(u16_at(b, at + 2)) << 16
}

/// The length of the record at `at`, if one fits before `end`.
fn record(b: &[u8], at: usize, end: usize) -> Option<usize> {
    if at > end || end - at < 8 {
        return None;
    }
    let length = usize::from(u16_at(b, at + 4));
    if length <= end - at && length >= 8 + usize::from(b[at + 6]) {
        Some(length)
    } else {
        None
    }
}

fn file_type(v: u8) -> Type {
    match v {
        1 => Type::RegularFile,
        2 => Type::Directory,
        3 => Type::CharacterDevice,
        4 => Type::BlockDevice,
        5 => Type::Fifo,
        6 => Type::Socket,
        7 => Type::SymbolicLink,
        other => Type::Unknown(other),
    }
}

fn stored_name(b: &[u8], at: usize) -> &[u8] {
    &b[at + 8..][..usize::from(b[at + 6])]
}

/// `Ext4String::from_null_terminated_bytes` by contract (C23), for names
/// without NUL: the whole name.
#[cfg(kani)]
#[allow(dead_code)]
fn name_by_contract<'s>(bytes: &'s [u8]) -> Ext4String<&'s [u8]>
where
    's: 's,
{
    Ext4String::from(unsafe { std::str::from_utf8_unchecked(bytes) })
}

fn same_entry<S: AsRef<[u8]>>(entry: &DirEntry<S>, b: &[u8], at: usize) {
    assert!(entry.inode().0 == u32_at(b, at));
    assert!(entry.file_type() == file_type(b[at + 7]));
    let name = entry.name();
    let name: &[u8] = (&name).into();
    let stored = stored_name(b, at);
    #[cfg(kani)]
    {
        assert!(name.len() == stored.len());
        let i: usize = kani::any();
        if i < stored.len() {
            assert!(name[i] == stored[i]);
        }
    }
    #[cfg(not(kani))]
    assert!(name == stored.split(|c| *c == 0).next().unwrap());
}

/// Natively: records that often fit, in a buffer.
#[cfg(not(kani))]
fn fill(b: &mut [u8]) {
    let mut at = 0;
    while b.len() - at >= 8 {
        let shape: [u8; 4] = kani::any();
        let name = usize::from(shape[0]) % if shape[1] % 8 == 0 { 256 } else { 12 };
        let mut length = 8 + name;
        match shape[1] / 8 % 8 {
            0 => length += usize::from(shape[2]),
            1 => length = b.len() - at,
            2 => length -= usize::from(shape[2] % 9).min(length),
            3 => length = (length + 3) / 4 * 4 + 4 * usize::from(shape[2] % 4),
            _ => length = (length + 3) / 4 * 4,
        }
        if shape[1] / 64 == 3 && shape[2] < 40 {
            length = b.len() - at + usize::from(shape[2] % 3);
        }
        b[at + 4] = length as u8;
        b[at + 5] = (length >> 8) as u8;
        b[at + 6] = name as u8;
        b[at + 7] = shape[3] % 10;
        if record(b, at, b.len()).is_none() {
            break;
        }
        if length == 0 {
            break;
        }
        at += length;
    }
}

contract! {
    #[kani::stub(crate::ext4::string::Ext4String::from_null_terminated_bytes, name_by_contract)]
    #[kani::unwind(3)]
    fn one_record() {
        #[cfg(kani)]
        let b = crate::verif::any_bytes(0);
        #[cfg(not(kani))]
        let b = {
            let mut b = crate::verif::any_bytes(300);
            fill(&mut b);
            b
        };
        let (entry, rest) = DirEntry::from_buf(&b[..]);
        match record(&b, 0, b.len()) {
            None => {
                assert!(entry.is_none());
                assert!(rest.as_ptr() == b.as_ptr() && rest.len() == b.len());
            }
            Some(length) => {
                assert!(entry.is_some());
                assert!(rest.len() == b.len() - length);
                assert!(rest.as_ptr() as usize == b.as_ptr() as usize + length);
                same_entry(&entry.unwrap(), &b, 0);
                reach!(b[6] == 255 && length == 264);
                reach!(b[6] == 0 && length == 8 && b.len() == 8);
                reach!(length == 65535);
            }
        }
        reach!(b.len() == 7);
        reach!(b.len() == 4096 && u16_at(&b, 4) == 11 && b[6] == 4);
    }
}

contract! {
    #[kani::unwind(10)]
    fn short_names_end_at_nul() {
        let mut b: [u8; 12] = kani::any();
        b[4] = 12;
        b[5] = 0;
        b[6] %= 5;
        let (entry, _) = DirEntry::from_buf(&b[..]);
        let entry = entry.unwrap();
        let name = entry.name();
        let name: &[u8] = (&name).into();
        let mut n = 0;
        while n < usize::from(b[6]) && b[8 + n] != 0 {
            assert!(name[n] == b[8 + n]);
            n += 1;
        }
        assert!(name.len() == n);
        let copy = entry.to_owned();
        assert!(copy.inode() == entry.inode() && copy.name().len() == n);
        std::mem::forget(copy);
    }
}

contract! {
    #[kani::unwind(3)]
    fn file_types() {
        let v: u8 = kani::any();
        let t = Type::from(v);
        assert!(t == file_type(v));
        assert!(u8::from(t) == v);
    }
}

/// Natively: a block with records and, often, the right tail.
fn block(seed: Option<u32>) -> Vec<u8> {
    #[cfg(kani)]
    let b = {
        let _ = seed;
        crate::verif::any_bytes(0)
    };
    #[cfg(not(kani))]
    let b = {
        let shape: [u8; 2] = kani::any();
        let mut b = crate::verif::bytes_of_length(12 + usize::from(shape[0]) * 2);
        let end = b.len() - 12;
        let used = if seed.is_some() { end } else { b.len() };
        fill(&mut b[..used]);
        if let Some(seed) = seed {
            b[end..end + 8].copy_from_slice(&[0, 0, 0, 0, 12, 0, 0, 0xde]);
            let sum = crate::verif::crc::spec(seed, &b[..end]).to_le_bytes();
            b[end + 8..].copy_from_slice(&sum);
            if shape[1] % 4 == 0 {
                let at = kani::any::<usize>() % if shape[1] & 4 == 0 { b.len() } else { 12 };
                let at = b.len() - 1 - at;
                b[at] ^= 1 << (shape[1] >> 5);
            }
        }
        b
    };
    kani::assume(b.len() >= 12 && b.len() <= 1 << 40);
    b
}

/// Where the records end, if the block is acceptable.
fn end_of_records(b: &[u8], seed: Option<u32>) -> Option<usize> {
    match seed {
        None => Some(b.len()),
        Some(seed) => {
            let end = b.len() - 12;
            if u32_at(b, end) == 0
                && u16_at(b, end + 4) == 12
                && b[end + 6] == 0
                && b[end + 7] == 0xde
                && u32_at(b, end + 8) == crate::verif::crc::spec(seed, &b[..end])
            {
                Some(end)
            } else {
                None
            }
        }
    }
}

/// Two reads: the first leaves the position anywhere, so the second is a read
/// from any state.
fn entries_of_a_block(seed: Option<u32>) {
    let b = block(seed);
    let found = Ext4DirectoryBlock::from_block_and_checksum_seed(&b[..], seed);
    let end = end_of_records(&b, seed);
    assert!(found.is_some() == end.is_some());
    if let (Some(mut found), Some(end)) = (found, end) {
        let mut at = 0;
        let mut i = 0;
        while i < 2 {
            let entry = found.read_next_entry();
            match record(&b, at, end) {
                None => assert!(entry.is_none(), "no record fits"),
                Some(length) => {
                    assert!(entry.is_some());
                    same_entry(&entry.unwrap(), &b, at);
                    reach!(i == 1 && at == 1000 && at + length == end);
                    at += length;
                }
            }
            i += 1;
        }
        #[cfg(not(kani))]
        loop {
            let entry = found.read_next_entry();
            let Some(length) = record(&b, at, end) else {
                assert!(entry.is_none());
                break;
            };
            same_entry(&entry.unwrap(), &b, at);
            at += length;
        }
    }
    reach!(end.is_some());
}
contract! {
    #[kani::stub(crate::ext4::crc::ext4_crc32c, crate::verif::crc::function)]
    #[kani::stub(crate::ext4::string::Ext4String::from_null_terminated_bytes, name_by_contract)]
    #[kani::unwind(5)]
    fn blocks_without_checksums() {
        entries_of_a_block(None);
    }
}
contract! {
    #[kani::stub(crate::ext4::crc::ext4_crc32c, crate::verif::crc::function)]
    #[kani::stub(crate::ext4::string::Ext4String::from_null_terminated_bytes, name_by_contract)]
    #[kani::unwind(5)]
    fn blocks_with_checksums() {
        entries_of_a_block(Some(kani::any()));
    }
}

// ---------------------------------------------------------------------------
// whole directories

fn superblock(checksums: bool) -> Vec<u8> {
    let mut sb = vec![0u8; 1024];
    sb[0x58] = 160;
    if checksums {
        sb[0x65] = 4;
    }
    sb
}

/// An inode with up to three blocks of 1024 bytes, starting at block `first`.
fn directory_inode(sb: &[u8], blocks: u8, first: u8, flags: u32) -> Inode {
    let mut r = [0u8; 160];
    r[1] = 0x41;
    r[5] = 4 * blocks;
    r[0x20..0x24].copy_from_slice(&flags.to_le_bytes());
    r[0x28..0x30].copy_from_slice(&[0x0a, 0xf3, (blocks > 0) as u8, 0, 4, 0, 0, 0]);
    r[0x28 + 16] = blocks;
    r[0x28 + 20] = first;
    Inode::new(&Superblock::new(sb), InodeNumber(12), &r[..])
}

#[cfg(kani)]
mod walk {
    use super::*;
    use crate::block_device::{BlockCount, BlockDevice, BlockNumber, BlockSize};
    use crate::ext4::file::Ext4FileInternal;
    use std::io::{self, Read, Seek, SeekFrom};

    /// Never used: blocks of the directory come by contract.
    #[derive(Clone)]
    pub struct Nothing;
    impl BlockDevice for Nothing {
        fn block_size(&self) -> io::Result<BlockSize> {
            unreachable!()
        }
        fn block_count(&self) -> io::Result<BlockCount> {
            unreachable!()
        }
        fn read_block(&mut self, _: BlockNumber, _: &mut [u8]) -> io::Result<usize> {
            unreachable!()
        }
        fn try_clone(&self) -> io::Result<Self> {
            unreachable!()
        }
    }
    impl Read for Nothing {
        fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
            unreachable!()
        }
    }
    impl Seek for Nothing {
        fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
            unreachable!()
        }
    }

    #[derive(Clone, Copy, PartialEq)]
    pub enum Outcome {
        Whole,
        Short,
        End,
        Fails,
    }
    pub static mut OUTCOMES: [Outcome; 4] = [Outcome::End; 4];
    pub static mut NEXT: usize = 0;
    /// two records of 12 bytes at the start of each block
    pub static mut HEADS: [[u8; 24]; 4] = [[0; 24]; 4];

    /// `Ext4FileInternal::read_next_block` by contract (C20): the next block
    /// of the file, or its end, or an error.
    pub fn read_next_block<D: BlockDevice + Read + Seek>(
        _: &mut Ext4FileInternal<D>,
        buf: &mut [u8],
    ) -> io::Result<usize> {
        unsafe {
            let n = NEXT;
            NEXT += 1;
            match OUTCOMES[n] {
                Outcome::Whole => {
                    let mut i = 0;
                    while i < 24 {
                        buf[i] = HEADS[n][i];
                        i += 1;
                    }
                    Ok(1024)
                }
                Outcome::Short => Ok(1023),
                Outcome::End => Ok(0),
                Outcome::Fails => Err(io::ErrorKind::Other.into()),
            }
        }
    }
    pub fn block_size<D: BlockDevice + Read + Seek>(_: &mut Ext4FileInternal<D>) -> usize {
        1024
    }
}

/// Reads entries until one read is not an entry; which blocks come is given.
#[cfg(kani)]
fn directory_of(outcomes: [walk::Outcome; 4], records: [usize; 4]) {
    use walk::{Outcome, HEADS, NEXT, OUTCOMES};
    // the number of records in each block is given, their contents are not
    unsafe {
        OUTCOMES = outcomes;
        NEXT = 0;
        let mut n = 0;
        while n < 4 {
            let mut i = 0;
            while i < 24 {
                HEADS[n][i] = match i % 12 {
                    4 if i / 12 < records[n] => 12,
                    4 | 5 => 0,
                    6 => 4,
                    _ => kani::any(),
                };
                i += 1;
            }
            n += 1;
        }
    }
    let sb = superblock(false);
    let inode = directory_inode(&sb, 3, 7, 0x80000);
    let mut directory = Ext4Directory::open(Ext4Fs::assembled(walk::Nothing, sb), inode).ok().unwrap();
    let mut n = 0;
    let mut record = 0;
    loop {
        let found = directory.read_next_entry();
        // the next entry in the records of the blocks
        while n < 4 && outcomes[n] == Outcome::Whole && record == records[n] {
            n += 1;
            record = 0;
        }
        match outcomes[n] {
            Outcome::Whole => {
                let b = unsafe { &HEADS[n][record * 12..record * 12 + 12] };
                match &found {
                    Ok(Some(e)) => {
                        assert!(e.inode().0 == u32_at(b, 0));
                        assert!(e.file_type() == file_type(b[7]));
                        assert!(e.name().len() == usize::from(b[6]));
                    }
                    _ => assert!(false, "an entry is listed"),
                }
                record += 1;
                std::mem::forget(found);
            }
            Outcome::End => {
                assert!(matches!(found, Ok(None)));
                assert!(matches!(directory.read_next_entry(), Ok(None)));
                break;
            }
            Outcome::Short | Outcome::Fails => {
                assert!(found.is_err());
                std::mem::forget(found);
                break;
            }
        }
    }
    reach!(true);
    std::mem::forget(directory);
}

#[cfg(kani)]
macro_rules! directories {
    ($($name:ident $a:ident $k:literal $b:ident $l:literal $c:ident;)*) => { $(
        contract! {
            #[kani::stub(crate::ext4::string::Ext4String::from_null_terminated_bytes, name_by_contract)]
            #[kani::stub(crate::ext4::file::Ext4FileInternal::read_next_block, walk::read_next_block)]
            #[kani::stub(crate::ext4::file::Ext4FileInternal::block_size, walk::block_size)]
            #[kani::unwind(26)]
            fn $name() {
                directory_of([walk::Outcome::$a, walk::Outcome::$b, walk::Outcome::$c, walk::Outcome::End], [$k, $l, 0, 0]);
            }
        }
    )* };
}
#[cfg(kani)]
directories! {
    an_empty_directory End 0 End 0 End;
    one_block Whole 2 End 0 End;
    an_empty_block_in_between Whole 0 Whole 2 End;
    two_blocks Whole 1 Whole 1 End;
    a_short_block Short 0 End 0 End;
    a_failure_at_once Fails 0 End 0 End;
    a_failure_after_a_block Whole 1 Fails 0 End;
    a_short_block_at_the_end Whole 1 Short 0 End;
}

contract! {
    #[kani::unwind(26)]
    fn indexed_directories_are_refused() {
        use crate::block_device::{BlockSize, InMemoryBlockDevice};
        let sb = superblock(false);
        let flags: u32 = kani::any();
        let inode = directory_inode(&sb, 1, 7, flags);
        let fs = Ext4Fs::assembled(InMemoryBlockDevice::new(vec![0u8; 16], BlockSize(1)), sb);
        let found = Ext4Directory::open(fs, inode);
        assert!(found.is_ok() == (flags & 0x1000 == 0 && flags & 0x80000 != 0 && flags & 0x10000000 == 0));
        reach!(found.is_ok());
        std::mem::forget(found);
    }
}

explored! {
    fn whole_directories() {
        use crate::block_device::{BlockSize, InMemoryBlockDevice};
        let checksums = kani::any();
        let sb = superblock(checksums);
        let (count, first, damage): (u8, u8, u8) = (kani::any::<u8>() % 4, 3 + kani::any::<u8>() % 4, kani::any());
        let inode = directory_inode(&sb, count, first, 0x80000);
        let seed = inode.metadata_checksum_seed();
        let mut image = vec![0u8; 1024 * 10];
        let mut wanted = Vec::new();
        let mut fails = false;
        for i in 0..usize::from(count) {
            let from = 1024 * (usize::from(first) + i);
            let mut b = crate::verif::bytes_of_length(1024);
            let end = if checksums { 1012 } else { 1024 };
            fill(&mut b[..end]);
            if let Some(seed) = seed {
                b[1012..1020].copy_from_slice(&[0, 0, 0, 0, 12, 0, 0, 0xde]);
                let sum = crate::verif::crc::spec(seed, &b[..1012]).to_le_bytes();
                b[1020..].copy_from_slice(&sum);
                if usize::from(damage % 8) == i {
                    let at = 1023 - kani::any::<usize>() % if damage & 8 == 0 { 1024 } else { 12 };
                    b[at] ^= 1 << (damage >> 5);
                }
            }
            image[from..from + 1024].copy_from_slice(&b);
            if fails {
                continue;
            }
            match end_of_records(&b, seed) {
                None => fails = true,
                Some(end) => {
                    let mut at = 0;
                    while let Some(length) = record(&b, at, end) {
                        wanted.push((b.clone(), at));
                        at += length;
                    }
                }
            }
        }
        if damage % 16 == 15 && count > 0 {
            // the last block is beyond the medium
            image.truncate(1024 * (usize::from(first) + usize::from(count)) - 1);
            fails = true;
            let last = usize::from(count) - 1;
            let from = 1024 * (usize::from(first) + last);
            wanted.retain(|(b, _)| b[..1000] != image[from..from + 1000]);
        }
        let fs = Ext4Fs::assembled(InMemoryBlockDevice::new(image, BlockSize(512)), sb);
        let mut directory = Ext4Directory::open(fs, inode).ok().unwrap();
        for (b, at) in &wanted {
            let entry = directory.read_next_entry().unwrap().expect("an entry is listed");
            same_entry(&entry, b, *at);
        }
        let last = directory.read_next_entry();
        if fails {
            assert!(last.is_err());
        } else {
            assert!(last.unwrap().is_none());
            assert!(directory.read_next_entry().unwrap().is_none());
        }
    }
}
