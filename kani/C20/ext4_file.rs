// One call of Ext4FileInternal::read_next_block from any state.  The state is
// the path of tree nodes and the extent that is being read; by induction over
// calls (and `a_file_starts_at_its_first_block`) this covers whole files.
use super::{Ext4FileInternal, ReadStackEntry};
use crate::block_device::{BlockCount as DeviceBlocks, BlockDevice, BlockNumber, BlockSize};
use crate::ext4::extent::{Extent, ExtentTree};
use crate::ext4::fs::Ext4Fs;
use crate::ext4::inode::Inode;
use crate::ext4::superblock::Superblock;
use crate::ext4::units::{BlockCount, FileBlockNumber, InodeNumber};
#[cfg(kani)]
use crate::ext4::units::FsBlockNumber;
#[allow(unused_imports)]
use crate::verif::{contract, reach};
use std::io::{self, Read, Seek, SeekFrom};

#[cfg(kani)]
mod step {
    use super::*;

    /// Never used: blocks come by contract.
    #[derive(Clone)]
    pub struct Nothing;
    impl BlockDevice for Nothing {
        fn block_size(&self) -> io::Result<BlockSize> {
            unreachable!()
        }
        fn block_count(&self) -> io::Result<DeviceBlocks> {
            unreachable!()
        }
        fn read_block(&mut self, _: BlockNumber, _: &mut [u8]) -> io::Result<usize> {
            unreachable!()
        }
        fn try_clone(&self) -> io::Result<Self> {
            unreachable!()
        }
    }
    impl Read for Nothing {
        fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
            unreachable!()
        }
    }
    impl Seek for Nothing {
        fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
            unreachable!()
        }
    }

    /// Tree nodes stored in these blocks, and data everywhere else: one byte.
    pub const NODES_AT: [u64; 2] = [100, 200];
    pub static mut NODES: [[[u8; 12]; 2]; 2] = [[[0; 12]; 2]; 2];
    pub static mut FAILS: bool = false;
    pub static mut PROBE: usize = 0;
    pub static mut VALUE: u8 = 0;
    pub static mut DATA_READ: Option<u64> = None;

    /// `Ext4Fs::read_block` by contract (C16): one block, or an error.
    pub fn read_block<D: BlockDevice + Read + Seek>(
        _: &mut Ext4Fs<D>,
        n: FsBlockNumber,
        buf: &mut [u8],
    ) -> io::Result<()> {
        unsafe {
            assert!(buf.len() >= BLOCK);
            let mut node = 0;
            while node < 2 {
                if n.0 == NODES_AT[node] {
                    copy(&mut buf[..12], &NODES[node][0]);
                    copy(&mut buf[12..], &NODES[node][1]);
                    return Ok(());
                }
                node += 1;
            }
            if FAILS {
                return Err(io::ErrorKind::Other.into());
            }
            assert!(DATA_READ.is_none(), "one data block per call");
            DATA_READ = Some(n.0);
            buf[PROBE] = VALUE;
            Ok(())
        }
    }
    /// Stands for any block size: the code under contract does not depend on it.
    pub const BLOCK: usize = 60;
    pub const ENTRIES: u16 = 4;
    pub fn block_size<D: BlockDevice + Read + Seek>(_: &Ext4Fs<D>) -> usize {
        BLOCK
    }

    /// The read stack by contract: Vec::push and Vec::pop are a stack's.
    pub static mut STACK: [Option<ReadStackEntry>; 6] = [None, None, None, None, None, None];
    pub static mut HEIGHT: usize = 0;
    pub fn push<T, A: std::alloc::Allocator>(_: &mut Vec<T, A>, value: T) {
        unsafe {
            let entry: ReadStackEntry = std::mem::transmute_copy(&value);
            std::mem::forget(value);
            std::ptr::write(&raw mut STACK[HEIGHT], Some(entry));
            HEIGHT += 1;
        }
    }
    pub fn pop<T, A: std::alloc::Allocator>(_: &mut Vec<T, A>) -> Option<T> {
        unsafe {
            if HEIGHT == 0 {
                return None;
            }
            HEIGHT -= 1;
            let entry = std::ptr::read(&raw const STACK[HEIGHT]);
            match entry {
                None => unreachable!(),
                Some(entry) => {
                    let value: T = std::mem::transmute_copy(&entry);
                    std::mem::forget(entry);
                    Some(value)
                }
            }
        }
    }

    pub fn copy(to: &mut [u8], from: &[u8; 12]) {
        to[0] = from[0];
        to[1] = from[1];
        to[2] = from[2];
        to[3] = from[3];
        to[4] = from[4];
        to[5] = from[5];
        to[6] = from[6];
        to[7] = from[7];
        to[8] = from[8];
        to[9] = from[9];
        to[10] = from[10];
        to[11] = from[11];
    }

    pub fn u16_at(b: &[u8], at: usize) -> u16 {
        u16::from(b[at]) | u16::from(b[at + 1]) << 8
    }
    pub fn u32_at(b: &[u8], at: usize) -> u32 {
        u32::from(u16_at(b, at)) | u32::from(u16_at(b, at + 2)) << 16
    }

    /// An extent as stored.
    #[derive(Clone, Copy)]
    pub struct Stored(pub [u8; 12]);
    impl Stored {
        pub fn any() -> Self {
            let s = Stored(kani::any());
            // data is not where the nodes are, and there is some
            kani::assume(s.length() > 0);
            kani::assume(s.physical() > 200);
            s
        }
        pub fn first(&self) -> u32 {
            u32_at(&self.0, 0)
        }
        pub fn written(&self) -> bool {
            u16_at(&self.0, 4) <= 32768
        }
        pub fn length(&self) -> u32 {
            let length = u32::from(u16_at(&self.0, 4));
            if self.written() { length } else { length - 32768 }
        }
        pub fn physical(&self) -> u64 {
            u64::from(u32_at(&self.0, 8)) | u64::from(u16_at(&self.0, 6)) << 32
        }
        pub fn extent(&self) -> Extent<Vec<u8>> {
            Extent::new(self.0.to_vec())
        }
    }

    pub fn inode(size: u64) -> Inode {
        let mut r = [0u8; 160];
        let bytes = size.to_le_bytes();
        let mut i = 0;
        while i < 4 {
            r[0x4 + i] = bytes[i];
            r[0x6c + i] = bytes[4 + i];
            i += 1;
        }
        let sb = [0u8; 1024];
        Inode::new(&Superblock::new(&sb[..]), InodeNumber(12), &r[..])
    }

    pub fn header(b: &mut [u8], entries: u16, depth: u16) {
        b[0] = 0x0a;
        b[1] = 0xf3;
        b[2] = entries as u8;
        b[3] = (entries >> 8) as u8;
        b[4] = ENTRIES as u8;
        b[5] = 0;
        b[6] = depth as u8;
        b[7] = (depth >> 8) as u8;
    }

    pub struct State {
        pub block: u32,
        pub byte: u64,
        pub size: u64,
    }
    impl State {
        pub fn any() -> Self {
            let s = State { block: kani::any(), byte: kani::any(), size: kani::any() };
            // never more is returned than the file has
            kani::assume(s.byte <= s.size);
            s
        }
        pub fn file(&self, path: [Option<ReadStackEntry>; 3]) -> Ext4FileInternal<Nothing> {
            let [a, b, c] = path;
            unsafe {
                HEIGHT = usize::from(a.is_some()) + usize::from(b.is_some()) + usize::from(c.is_some());
                std::ptr::write(&raw mut STACK[0], a);
                std::ptr::write(&raw mut STACK[1], b);
                std::ptr::write(&raw mut STACK[2], c);
            }
            Ext4FileInternal {
                fs: Ext4Fs::assembled(Nothing, Vec::new()),
                inode: inode(self.size),
                read_stack: Vec::new(),
                block_pos: FileBlockNumber(self.block),
                byte_pos: self.byte,
            }
        }
    }

    /// One call, which must read block `pos` of the extent, or fail if
    /// `refused`.
    pub fn reads(
        s: &State,
        mut file: Ext4FileInternal<Nothing>,
        e: &Stored,
        pos: u32,
        refused: bool,
    ) -> Ext4FileInternal<Nothing> {
        let mut buf = [0xa5u8; BLOCK];
        let probe: usize = kani::any();
        kani::assume(probe < BLOCK);
        unsafe {
            PROBE = probe;
            VALUE = kani::any();
            DATA_READ = None;
        }
        let found = file.read_next_block(&mut buf);
        if refused || s.byte >= s.size || unsafe { FAILS } && e.written() {
            assert!(found.is_err(), "an error");
        } else {
            let n = if s.size - s.byte < BLOCK as u64 { (s.size - s.byte) as usize } else { BLOCK };
            match &found {
                Err(_) => assert!(false, "the block is read"),
                Ok(m) => assert!(*m == n),
            }
            if e.written() {
                assert!(unsafe { DATA_READ == Some(e.physical() + u64::from(pos)) });
                assert!(buf[probe] == unsafe { VALUE });
            } else {
                assert!(buf[probe] == 0);
            }
            assert!(file.byte_pos == s.byte + n as u64);
            assert!(file.block_pos.0 == s.block + 1);
            match at(height() - 1) {
                ReadStackEntry::Extent { extent, pos: next } => {
                    assert!(u32::from(next.0) == pos + 1);
                    assert!(extent.first_file_block_number().0 == e.first());
                    assert!(u32::from(extent.length().0) == e.length());
                    assert!(extent.initialized() == e.written());
                    assert!(extent.first_fs_block_number().0 == e.physical());
                }
                _ => assert!(false),
            }
        }
        std::mem::forget(found);
        file
    }

    pub fn height() -> usize {
        unsafe { HEIGHT }
    }
    pub fn at(level: usize) -> &'static ReadStackEntry {
        assert!(level < height());
        match unsafe { &*(&raw const STACK[level]) } {
            Some(entry) => entry,
            None => unreachable!(),
        }
    }
    pub fn tree_at(level: usize, depth: u16, pos: usize) {
        match at(level) {
            ReadStackEntry::Tree { tree, pos: next } => assert!(*next == pos && tree.depth() == depth),
            _ => assert!(false),
        }
    }
}

#[cfg(kani)]
macro_rules! steps {
    ($(fn $name:ident() $body:block)*) => { $(
        contract! {
            #[kani::stub(crate::ext4::fs::Ext4Fs::read_block, step::read_block)]
            #[kani::stub(crate::ext4::fs::Ext4Fs::block_size, step::block_size)]
            #[kani::stub(std::vec::Vec::push, step::push)]
            #[kani::stub(std::vec::Vec::pop, step::pop)]
            #[kani::unwind(8)]
            fn $name() $body
        }
    )* };
}

#[cfg(kani)]
use step::*;

/// In the middle of an extent.
#[cfg(kani)]
fn inside_an_extent() {
    let e = Stored::any();
    let pos: u16 = kani::any();
    let s = State::any();
    kani::assume(u32::from(pos) < e.length());
    // how far reading has got is where the extent is
    kani::assume(e.first().checked_add(e.length()).is_some());
    kani::assume(s.block == e.first() + u32::from(pos));
    let file = s.file([Some(ReadStackEntry::Extent { extent: e.extent(), pos: BlockCount(pos) }), None, None]);
    let file = reads(&s, file, &e, pos.into(), false);
    reach!(height() == 1 && e.written() && pos == 32767);
    reach!(height() == 1 && !e.written() && pos == 32766 && s.size - s.byte == 1);
    std::mem::forget(file);
}

/// About to take an entry of a leaf (of up to ENTRIES entries).
#[cfg(kani)]
fn at_a_leaf(pos: usize, entries: u16) {
    let e = Stored::any();
    let s = State::any();
    let mut node = vec![0u8; BLOCK];
    header(&mut node, entries, 0);
    copy(&mut node[12 + 12 * pos..], &e.0);
    let tree = ExtentTree::from_block(&inode(s.size), node);
    let refused = e.first() != s.block || s.block.checked_add(e.length()).is_none();
    let file = reads(&s, s.file([Some(ReadStackEntry::Tree { tree, pos }), None, None]), &e, 0, refused);
    if !refused && s.byte < s.size && unsafe { !FAILS } {
        assert!(height() == 2);
        tree_at(0, 0, pos + 1);
    }
    reach!(refused && e.first() == s.block);
    reach!(!refused && s.byte < s.size);
    std::mem::forget(file);
}

/// The node stored in block NODES_AT[which]: one entry.
#[cfg(kani)]
fn store(which: usize, depth: u16, entry: &[u8; 12]) {
    unsafe {
        header(&mut NODES[which][0], 1, depth);
        NODES[which][1] = *entry;
    }
}
#[cfg(kani)]
fn index(block: u32, node: u64) -> [u8; 12] {
    let b = block.to_le_bytes();
    [b[0], b[1], b[2], b[3], node as u8, 0, 0, 0, 0, 0, kani::any(), kani::any()]
}
/// A branch of `entries` entries, the one at `pos` leading to NODES_AT[0].
#[cfg(kani)]
fn branch(s: &State, entries: u16, depth: u16, pos: usize, before: u32, block: u32) -> ExtentTree<Vec<u8>> {
    let mut node = vec![0u8; BLOCK];
    header(&mut node, entries, depth);
    let entry = index(block, NODES_AT[0]);
    copy(&mut node[12 + 12 * pos..], &entry);
    if pos > 0 {
        copy(&mut node[12 * pos..], &index(before, 77));
    }
    ExtentTree::from_block(&inode(s.size), node)
}

/// About to take an entry of a branch over a leaf: the child is followed if it
/// begins where reading has got to and is a valid node one level down.
#[cfg(kani)]
fn at_a_branch(pos: usize, entries: u16) {
    // (a given length, which decides that the extent is read)
    let mut e = Stored::any();
    e.0[4] = 7;
    e.0[5] = 0;
    let s = State::any();
    let (before, block): (u32, u32) = (kani::any(), kani::any());
    let tree = branch(&s, entries, 1, pos, before, block);
    store(0, 0, &e.0);
    let refused = block != s.block
        || pos > 0 && before >= block
        || e.first() != s.block
        || s.block.checked_add(e.length()).is_none();
    let file = reads(&s, s.file([Some(ReadStackEntry::Tree { tree, pos }), None, None]), &e, 0, refused);
    if !refused && s.byte < s.size {
        assert!(height() == 3);
        tree_at(0, 1, pos + 1);
        tree_at(1, 0, 1);
    }
    reach!(refused && block == s.block && e.first() == s.block);
    reach!(!refused && s.byte < s.size);
    std::mem::forget(file);
}

/// A branch whose child is not what it should be.
#[cfg(kani)]
fn a_bad_child(damage: fn()) {
    let e = Stored::any();
    let s = State::any();
    kani::assume(s.byte < s.size && e.first() == s.block);
    let tree = branch(&s, 1, 3, 0, 0, s.block);
    store(0, 2, &index(s.block, NODES_AT[1]));
    store(1, 1, &e.0);
    damage();
    let mut file = s.file([Some(ReadStackEntry::Tree { tree, pos: 0 }), None, None]);
    let mut buf = [0u8; BLOCK];
    unsafe { DATA_READ = None };
    let found = file.read_next_block(&mut buf);
    assert!(found.is_err());
    assert!(unsafe { DATA_READ.is_none() });
    std::mem::forget((found, file));
}

#[cfg(kani)]
fn at_the_end(s: &State, file: &mut Ext4FileInternal<Nothing>, buf: &mut [u8]) {
    let found = file.read_next_block(buf);
    if s.byte == s.size {
        assert!(matches!(found, Ok(0)));
    } else {
        assert!(found.is_err(), "bytes are missing");
    }
    std::mem::forget(found);
}

#[cfg(kani)]
steps! {
    fn a_block_of_an_extent() {
        inside_an_extent();
    }
    fn a_failing_block_of_an_extent() {
        unsafe { FAILS = true };
        let e = Stored::any();
        let pos: u16 = kani::any();
        let s = State::any();
        kani::assume(u32::from(pos) < e.length() && e.written());
        kani::assume(s.block == e.first().wrapping_add(u32::from(pos)));
        let file = s.file([Some(ReadStackEntry::Extent { extent: e.extent(), pos: BlockCount(pos) }), None, None]);
        std::mem::forget(reads(&s, file, &e, pos.into(), true));
    }
    fn the_first_extent_of_a_leaf() {
        at_a_leaf(0, 2);
    }
    fn the_second_extent_of_a_leaf() {
        at_a_leaf(1, 3);
    }
    fn the_last_extent_of_a_full_leaf() {
        at_a_leaf(3, ENTRIES);
    }
    fn the_first_child_of_a_branch() {
        at_a_branch(0, 2);
    }
    fn the_last_child_of_a_branch() {
        at_a_branch(1, 2);
    }
    fn a_child_deeper_down() {
        let e = Stored::any();
        let s = State::any();
        let (block, below): (u32, u32) = (kani::any(), kani::any());
        let tree = branch(&s, 1, 2, 0, 0, block);
        store(0, 1, &index(below, NODES_AT[1]));
        store(1, 0, &e.0);
        let refused = block != s.block || below != s.block || e.first() != s.block || s.block.checked_add(e.length()).is_none();
        let file = reads(&s, s.file([Some(ReadStackEntry::Tree { tree, pos: 0 }), None, None]), &e, 0, refused);
        if !refused && s.byte < s.size {
            assert!(height() == 4);
            tree_at(0, 2, 1);
            tree_at(1, 1, 1);
            tree_at(2, 0, 1);
        }
        reach!(!refused && s.byte < s.size);
        std::mem::forget(file);
    }
    fn a_child_with_another_magic() {
        a_bad_child(|| unsafe { NODES[0][0][1] = 0xf2 });
    }
    fn a_child_with_more_entries_than_it_holds() {
        a_bad_child(|| unsafe { NODES[0][0][4] = 0 });
    }
    fn a_child_larger_than_its_block() {
        a_bad_child(|| unsafe { NODES[0][0][4] = ENTRIES as u8 + 1 });
    }
    fn a_child_of_the_wrong_depth() {
        a_bad_child(|| unsafe { NODES[0][0][6] = 3 });
    }
    fn a_leaf_too_early() {
        a_bad_child(|| unsafe { NODES[0][0][6] = 0 });
    }
    fn a_child_that_cannot_be_read() {
        unsafe { FAILS = true };
        a_bad_child(|| unsafe { NODES[0][1][4] = 201 });
    }
    fn the_extent_after_an_exhausted_one() {
        let (e, done) = (Stored::any(), Stored::any());
        let s = State::any();
        let mut node = vec![0u8; BLOCK];
        header(&mut node, 2, 0);
        copy(&mut node[24..], &e.0);
        let tree = ExtentTree::from_block(&inode(s.size), node);
        let refused = e.first() != s.block || s.block.checked_add(e.length()).is_none();
        let file = s.file([
            Some(ReadStackEntry::Tree { tree, pos: 1 }),
            Some(ReadStackEntry::Extent { extent: done.extent(), pos: BlockCount(done.length() as u16) }),
            None,
        ]);
        let file = reads(&s, file, &e, 0, refused);
        if !refused && s.byte < s.size {
            assert!(height() == 2);
            tree_at(0, 0, 2);
        }
        reach!(!refused && s.byte < s.size);
        std::mem::forget(file);
    }
    fn the_end() {
        let s = State::any();
        let done = Stored::any();
        let leaf = { let mut n = vec![0u8; BLOCK]; header(&mut n, 2, 0); ExtentTree::from_block(&inode(s.size), n) };
        let branch = { let mut n = vec![0u8; BLOCK]; header(&mut n, 1, 1); ExtentTree::from_block(&inode(s.size), n) };
        let mut file = s.file([
            Some(ReadStackEntry::Tree { tree: branch, pos: 1 }),
            Some(ReadStackEntry::Tree { tree: leaf, pos: 2 }),
            Some(ReadStackEntry::Extent { extent: done.extent(), pos: BlockCount(done.length() as u16) }),
        ]);
        let mut buf = [0u8; BLOCK];
        at_the_end(&s, &mut file, &mut buf);
        assert!(unsafe { DATA_READ.is_none() });
        reach!(s.byte == s.size);
        std::mem::forget(file);
    }
    fn after_the_end() {
        let s = State::any();
        let mut file = s.file([None, None, None]);
        let mut buf = [0u8; BLOCK];
        at_the_end(&s, &mut file, &mut buf);
        assert!(height() == 0);
        std::mem::forget(file);
    }
    fn a_short_buffer_is_refused() {
        let e = Stored::any();
        let s = State::any();
        let length: usize = kani::any();
        kani::assume(length < BLOCK);
        let mut file = s.file([Some(ReadStackEntry::Extent { extent: e.extent(), pos: BlockCount(0) }), None, None]);
        let mut buf = [0u8; BLOCK];
        let found = file.read_next_block(&mut buf[..length]);
        assert!(found.is_err());
        assert!(unsafe { DATA_READ.is_none() });
        std::mem::forget((found, file));
    }
    fn a_file_starts_at_its_first_block() {
        let mut r = [0u8; 160];
        let (flags, magic, entries): (u32, u8, u8) = (kani::any(), kani::any(), kani::any());
        let b = flags.to_le_bytes();
        let mut i = 0;
        while i < 4 {
            r[0x20 + i] = b[i];
            i += 1;
        }
        r[0x28] = 0x0a;
        r[0x29] = magic;
        r[0x2a] = entries;
        r[0x2c] = 4;
        r[0x2e] = 1;
        let sb = [0u8; 1024];
        let inode = Inode::new(&Superblock::new(&sb[..]), InodeNumber(12), &r[..]);
        let found = Ext4FileInternal::open(Ext4Fs::assembled(Nothing, Vec::new()), inode);
        let wanted = flags & 0x80000 != 0 && flags & 0x10000000 == 0 && magic == 0xf3 && entries <= 4;
        assert!(found.is_ok() == wanted);
        if let Ok(file) = &found {
            assert!(file.read_stack.len() == 1 && file.block_pos.0 == 0 && file.byte_pos == 0);
            match &file.read_stack[0] {
                ReadStackEntry::Tree { tree, pos } => assert!(*pos == 0 && tree.depth() == 1 && tree.entry_count() == usize::from(entries)),
                _ => assert!(false),
            }
        }
        reach!(found.is_ok());
        std::mem::forget(found);
    }
}
