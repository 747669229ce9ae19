// Every inode accessor against the documented ext4 layout (struct ext4_inode),
// for arbitrary records of at least 128 bytes.
use super::{FileMode, FileType, Flags, Inode, Permissions};
use crate::ext4::superblock::Superblock;
use crate::ext4::units::InodeNumber;
use crate::verif::{contract, observe, reach};
#[cfg(not(kani))]
use crate::verif::shim as kani;

struct Record {
    bytes: Vec<u8>,
    len: usize,
    limit: usize,
}

impl Record {
    fn any() -> Self {
        #[cfg(kani)]
        let bytes = crate::verif::any_bytes(0);
        #[cfg(not(kani))]
        let bytes = {
            let small: [u8; 2] = kani::any();
            let len = if small[1] < 128 { 128 + usize::from(small[1]) % 40 } else { 128 + usize::from(small[1]) };
            let mut bytes = crate::verif::bytes_of_length(len);
            if small[0] < 200 && len > 0x81 {
                bytes[0x80] = small[0] % 36;
                bytes[0x81] = 0;
            }
            bytes
        };
        let len = bytes.len();
        kani::assume(len >= 128);
        let extra = if len >= 0x82 { usize::from(bytes[0x80]) | usize::from(bytes[0x81]) << 8 } else { 0 };
        let limit = if len < 128 + extra { len } else { 128 + extra };
        Record { bytes, len, limit }
    }
    /// without a checksum seed; that is the subject of `checksum_seed`
    fn inode(&self) -> Inode {
        let sb = [0u8; 1024];
        Inode::new(&Superblock::new(&sb[..]), InodeNumber(2), &self.bytes[..self.len])
    }
    /// fields count as far as the record and its extra size reach
    fn byte(&self, at: usize) -> u8 {
        if at < self.limit { self.bytes[at] } else { 0 }
    }
    fn u16(&self, at: usize) -> u16 {
        u16::from(self.byte(at)) | u16::from(self.byte(at + 1)) << 8
    }
    fn u32(&self, at: usize) -> u32 {
        u32::from(self.u16(at)) | u32::from(self.u16(at + 2)) << 16
    }
    fn time(&self, base: usize, extra: usize) -> (i64, u32) {
        let (base, extra) = (self.u32(base), self.u32(extra));
        let seconds = i64::from(base as i32) + (i64::from(extra & 3) << 32);
        let nanos = extra >> 2;
        if nanos >= 1_000_000_000 { (seconds + 1, nanos - 1_000_000_000) } else { (seconds, nanos) }
    }
}

contract! {
    #[kani::unwind(3)]
    fn owner_and_size() {
        let r = Record::any();
        let i = r.inode();
        assert!(i.owner_user_id() == u32::from(r.u16(0x2)) | u32::from(r.u16(0x78)) << 16);
        assert!(i.group_id() == u32::from(r.u16(0x18)) | u32::from(r.u16(0x7a)) << 16);
        assert!(i.file_size_bytes() == u64::from(r.u32(0x4)) | u64::from(r.u32(0x6c)) << 32);
        assert!(i.links_count() == r.u16(0x1a));
        assert!(i.block_count().0 == u64::from(r.u32(0x1c)) | u64::from(r.u16(0x74)) << 32);
        reach!(r.len == 128);
        reach!(r.len == 256);
        reach!(r.limit == 156 && i.file_size_bytes() == 0x1234_5678_9abc_def0);
        reach!(r.len == 1 << 30);
    }
}

contract! {
    #[kani::unwind(3)]
    fn versions_and_checksum() {
        let r = Record::any();
        let i = r.inode();
        assert!(i.flags().bits() == r.u32(0x20));
        assert!(i.version() == u64::from(r.u32(0x24)) | u64::from(r.u32(0x98)) << 32);
        assert!(i.generation() == r.u32(0x64));
        assert!(i.file_acl() == u64::from(r.u32(0x68)) | u64::from(r.u16(0x76)) << 32);
        assert!(i.checksum() == u32::from(r.u16(0x7c)) | u32::from(r.u16(0x82)) << 16);
        assert!(i.project_id() == r.u32(0x9c));
        reach!(r.limit == 160);
        reach!(r.limit == 159);
        reach!(r.limit == 131);
    }
}

contract! {
    #[kani::unwind(3)]
    fn block_area() {
        let r = Record::any();
        let i = r.inode();
        let probe: usize = kani::any();
        kani::assume(probe < 60);
        assert!(i.blocks_buffer()[probe] == r.bytes[0x28 + probe]);
        assert!(i.metadata_checksum_seed().is_none());
    }
}

contract! {
    #[kani::unwind(3)]
    fn type_and_permissions() {
        let r = Record::any();
        let i = r.inode();
        let mode = r.u16(0);
        assert!(i.file_mode() == FileMode::from(mode));
        assert!(i.file_type() == match mode >> 12 {
            0x1 => FileType::Fifo,
            0x2 => FileType::CharacterDevice,
            0x4 => FileType::Directory,
            0x6 => FileType::BlockDevice,
            0x8 => FileType::RegularFile,
            0xa => FileType::SymbolicLink,
            0xc => FileType::Socket,
            other => FileType::Unknown(other as u8),
        });
        assert!(i.permissions().bits() == mode & 0xfff);
        reach!(i.file_type() == FileType::Directory);
    }
}

contract! {
    #[kani::unwind(3)]
    fn mode_of_type_and_permissions() {
        let mode: u16 = kani::any();
        let m = FileMode::from(mode);
        assert!(FileMode::from_file_type_and_permissions(m.file_type(), m.permissions()) == m);
        let p = Permissions::from_bits_retain(mode);
        assert!(FileMode::from_file_type_and_permissions(FileType::Directory, p).file_type() == FileType::Directory);
        assert!(u16::from(FileMode::from_file_type_and_permissions(FileType::Fifo, p)) == 0x1000 | mode & 0xfff);
    }
}

contract! {
    #[kani::stub(chrono::NaiveDateTime::checked_add_signed, crate::verif::chrono_contract::checked_add_signed)]
    #[kani::stub(chrono::DateTime::from_timestamp, crate::verif::chrono_contract::from_timestamp)]
    #[kani::unwind(3)]
    fn access_change_modification_times() {
        let r = Record::any();
        let i = r.inode();
        assert!(observe(i.access_time()) == r.time(0x8, 0x8c));
        assert!(observe(i.change_time()) == r.time(0xc, 0x84));
        assert!(observe(i.modified_time()) == r.time(0x10, 0x88));
    }
}

contract! {
    #[kani::stub(chrono::NaiveDateTime::checked_add_signed, crate::verif::chrono_contract::checked_add_signed)]
    #[kani::stub(chrono::DateTime::from_timestamp, crate::verif::chrono_contract::from_timestamp)]
    #[kani::unwind(3)]
    fn creation_and_deletion_times() {
        let r = Record::any();
        let i = r.inode();
        assert!(observe(i.creation_time()) == r.time(0x90, 0x94));
        assert!(observe(i.delete_time()) == (i64::from(r.u32(0x14)), 0));
        reach!(r.limit == 152);
    }
}

contract! {
    #[kani::stub(crate::ext4::crc::ext4_crc32c, crate::verif::crc::function)]
    #[kani::unwind(8)]
    fn checksum_seed() {
        use crate::verif::crc::spec;
        let r = Record::any();
        let mut sb = [0u8; 1024];
        let (features, incompatible, stored): ([u8; 4], [u8; 4], [u8; 4]) = (kani::any(), kani::any(), kani::any());
        sb[0x64..0x68].copy_from_slice(&features);
        sb[0x60..0x64].copy_from_slice(&incompatible);
        sb[0x270..0x274].copy_from_slice(&stored);
        let number: u32 = kani::any();
        let i = Inode::new(&Superblock::new(&sb[..]), InodeNumber(number), &r.bytes[..r.len]);
        let checksums = features[1] & 4 != 0;
        if checksums {
            let seed = if incompatible[1] & 0x20 != 0 { u32::from_le_bytes(stored) } else { spec(0xffffffff, &sb[0x68..0x78]) };
            let expected = spec(spec(seed, &number.to_le_bytes()), &r.bytes[0x64..0x68]);
            assert!(i.metadata_checksum_seed() == Some(expected));
            reach!(true);
        } else {
            assert!(i.metadata_checksum_seed().is_none());
        }
        // the rest of the record does not depend on it
        assert!(i.generation() == r.u32(0x64) && i.file_acl() == u64::from(r.u32(0x68)) | u64::from(r.u16(0x76)) << 32);
    }
}

contract! {
    #[kani::unwind(3)]
    fn flag_bits() {
        assert!(Flags::HAS_EXTENTS.bits() == 0x80000 && Flags::HAS_INLINE_DATA.bits() == 0x10000000);
        assert!(Flags::HUGE_FILE.bits() == 0x40000 && Flags::HASH_INDEXED_DIRECTORY.bits() == 0x1000);
        assert!(Flags::ENCRYPTED.bits() == 0x800 && Flags::COMPRESSED.bits() == 4 && Flags::CASE_FOLDED.bits() == 0x40000000);
        assert!(Flags::IMMUTABLE.bits() == 0x10 && Flags::APPEND_ONLY.bits() == 0x20 && Flags::VERITY_PROTECTED.bits() == 0x100000);
        assert!(Permissions::SET_USER_ID.bits() == 0o4000 && Permissions::SET_GROUP_ID.bits() == 0o2000 && Permissions::STICKY.bits() == 0o1000);
        assert!(Permissions::USER_READ.bits() == 0o400 && Permissions::USER_WRITE.bits() == 0o200 && Permissions::USER_EXECUTE.bits() == 0o100);
        assert!(Permissions::GROUP_READ.bits() == 0o40 && Permissions::GROUP_WRITE.bits() == 0o20 && Permissions::GROUP_EXECUTE.bits() == 0o10);
        assert!(Permissions::OTHER_READ.bits() == 4 && Permissions::OTHER_WRITE.bits() == 2 && Permissions::OTHER_EXECUTE.bits() == 1);
    }
}
