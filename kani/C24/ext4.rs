// Every group descriptor accessor against the documented ext4 layout
// (struct ext4_group_desc), for arbitrary contents of any length.
use super::block_group::{BlockGroupDescriptor, Flags};
use crate::verif::{contract, reach};
#[cfg(not(kani))]
use crate::verif::shim as kani;

struct Stored {
    bytes: Vec<u8>,
    len: usize,
}
impl Stored {
    fn any() -> Self {
        let bytes = crate::verif::any_bytes(100);
        Self { len: bytes.len(), bytes }
    }
    fn descriptor(&self) -> BlockGroupDescriptor {
        BlockGroupDescriptor::new(&self.bytes[..self.len])
    }
    fn byte(&self, at: usize) -> u8 {
        if at < self.len { self.bytes[at] } else { 0 }
    }
    fn u16(&self, at: usize) -> u16 {
        u16::from(self.byte(at)) | u16::from(self.byte(at + 1)) << 8
    }
    fn u32(&self, at: usize) -> u32 {
        u32::from(self.u16(at)) | u32::from(self.u16(at + 2)) << 16
    }
    fn wide(&self, low: usize, high: usize) -> u64 {
        u64::from(self.u32(low)) | u64::from(self.u32(high)) << 32
    }
    fn half(&self, low: usize, high: usize) -> u32 {
        u32::from(self.u16(low)) | u32::from(self.u16(high)) << 16
    }
}

contract! {
    #[kani::unwind(3)]
    fn locations() {
        let s = Stored::any();
        let d = s.descriptor();
        assert!(d.block_bitmap_block().0 == s.wide(0x0, 0x20));
        assert!(d.inode_bitmap_block().0 == s.wide(0x4, 0x24));
        assert!(d.inode_table_block().0 == s.wide(0x8, 0x28));
        assert!(d.exclude_bitmap_block().0 == s.wide(0x14, 0x34));
        reach!(s.len == 32);
        reach!(s.len == 64);
        reach!(s.len == 80);
        reach!(s.len == 0);
        reach!(s.len == 43 && d.inode_table_block().0 == 0x87_6543_21ab_cdef);
        reach!(s.len > 1 << 40);
    }
}

contract! {
    #[kani::unwind(3)]
    fn counts() {
        let s = Stored::any();
        let d = s.descriptor();
        assert!(d.free_block_count().0 == s.half(0xc, 0x2c));
        assert!(d.free_inode_count() == s.half(0xe, 0x2e));
        assert!(d.used_directories_count() == s.half(0x10, 0x30));
        assert!(d.unused_inode_count() == s.half(0x1c, 0x32));
    }
}

contract! {
    #[kani::unwind(3)]
    fn flags_and_checksums() {
        let s = Stored::any();
        let d = s.descriptor();
        assert!(d.flags().bits() == s.u16(0x12));
        assert!(Flags::INODE_NOT_IN_USE.bits() == 1 && Flags::BLOCK_BITMAP_NOT_IN_USE.bits() == 2 && Flags::INODE_TABLE_ZEROED.bits() == 4);
        assert!(d.block_bitmap_checksum() == s.half(0x18, 0x38));
        assert!(d.inode_bitmap_checksum() == s.half(0x1a, 0x3a));
        assert!(d.checksum() == s.u16(0x1e));
    }
}
