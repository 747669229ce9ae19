// Every superblock accessor against the documented ext4 disk layout
// (struct ext4_super_block), for arbitrary 1024-byte contents.
use super::superblock::{
    CreatorOs, EncryptionAlgorithm, ErrorPolicy, HashVersion, Superblock,
};
use crate::verif::{contract, reach};
#[cfg(not(kani))]
use crate::verif::shim as kani;
use std::time::{Duration, SystemTime};

fn image() -> [u8; 1024] {
    kani::any()
}
fn u8_at(b: &[u8; 1024], at: usize) -> u8 {
    b[at]
}
fn u16_at(b: &[u8; 1024], at: usize) -> u16 {
    u16::from(b[at]) | u16::from(b[at + 1]) << 8
}
fn u32_at(b: &[u8; 1024], at: usize) -> u32 {
    u32::from(u16_at(b, at)) | u32::from(u16_at(b, at + 2)) << 16
}
fn u64_at(b: &[u8; 1024], at: usize) -> u64 {
    u64::from(u32_at(b, at)) | u64::from(u32_at(b, at + 4)) << 32
}

contract! {
    fn geometry() {
        let bytes = image();
        let s = Superblock::new(&bytes[..]);
        assert!(s.inodes_count().0 == u32_at(&bytes, 0x0));
        assert!(s.blocks_count().0 == u64::from(u32_at(&bytes, 0x4)) | u64::from(u32_at(&bytes, 0x150)) << 32);
        assert!(s.reserved_blocks_count().0 == u64::from(u32_at(&bytes, 0x8)) | u64::from(u32_at(&bytes, 0x154)) << 32);
        assert!(s.free_blocks_count().0 == u64::from(u32_at(&bytes, 0xc)) | u64::from(u32_at(&bytes, 0x158)) << 32);
        assert!(s.free_inodes_count().0 == u32_at(&bytes, 0x10));
        assert!(s.first_data_block().0 == u64::from(u32_at(&bytes, 0x14)));
        assert!(s.blocks_per_group() == u32_at(&bytes, 0x20));
        assert!(s.clusters_per_group() == u32_at(&bytes, 0x24));
        assert!(s.inodes_per_group().0 == u32_at(&bytes, 0x28));
        assert!(s.inode_size() == u16_at(&bytes, 0x58));
        assert!(s.group_descriptor_size() == u16_at(&bytes, 0xfe));
        assert!(s.first_meta_block_group() == u32_at(&bytes, 0x104));
        assert!(s.reserved_gdt_blocks() == u16_at(&bytes, 0xce));
        assert!(s.overhead_blocks() == u32_at(&bytes, 0x248));
    }
}

contract! {
    fn counters() {
        let bytes = image();
        let s = Superblock::new(&bytes[..]);
        assert!(s.mount_count() == u16_at(&bytes, 0x34));
        assert!(s.max_mount_count() == u16_at(&bytes, 0x36));
        assert!(s.magic() == u16_at(&bytes, 0x38));
        assert!(s.minor_revision_level() == u16_at(&bytes, 0x3e));
        assert!(s.revision_level() == u32_at(&bytes, 0x4c));
        assert!(s.default_reserved_user_id() == u16_at(&bytes, 0x50));
        assert!(s.default_reserved_group_id() == u16_at(&bytes, 0x52));
        assert!(s.first_inode() == u32_at(&bytes, 0x54));
        assert!(s.block_group_number() == u16_at(&bytes, 0x5a));
        assert!(s.algorithm_usage_bitmap() == u32_at(&bytes, 0xc8));
        assert!(s.preallocate_blocks() == u8_at(&bytes, 0xcc));
        assert!(s.preallocate_directory_blocks() == u8_at(&bytes, 0xcd));
        assert!(s.journal_inode_number() == u32_at(&bytes, 0xe0));
        assert!(s.journal_device_number() == u32_at(&bytes, 0xe4));
        assert!(s.last_orphan() == u32_at(&bytes, 0xe8));
        assert!(s.journal_backup_type() == u8_at(&bytes, 0xfd));
    }
}

contract! {
    fn extras() {
        let bytes = image();
        let s = Superblock::new(&bytes[..]);
        assert!(s.minimum_extra_inode_size() == u16_at(&bytes, 0x15c));
        assert!(s.wanted_extra_inode_size() == u16_at(&bytes, 0x15e));
        assert!(s.raid_stride() == u16_at(&bytes, 0x164));
        assert!(s.multi_mount_prevention_interval() == u16_at(&bytes, 0x166));
        assert!(s.multi_mount_prevention_block() == u64_at(&bytes, 0x168));
        assert!(s.raid_stripe_width() == u32_at(&bytes, 0x170));
        assert!(s.kbytes_written() == u64_at(&bytes, 0x178));
        assert!(s.snapshot_inode_number() == u32_at(&bytes, 0x180));
        assert!(s.snapshot_id() == u32_at(&bytes, 0x184));
        assert!(s.snapshot_reserved_blocks_count() == u64_at(&bytes, 0x188));
        assert!(s.snapshot_list_inode_number() == u32_at(&bytes, 0x190));
        assert!(s.error_count() == u32_at(&bytes, 0x194));
        assert!(s.first_error_inode() == u32_at(&bytes, 0x19c));
        assert!(s.first_error_block() == u64_at(&bytes, 0x1a0));
        assert!(s.first_error_line() == u32_at(&bytes, 0x1c8));
        assert!(s.last_error_inode() == u32_at(&bytes, 0x1d0));
        assert!(s.last_error_line() == u32_at(&bytes, 0x1d4));
        assert!(s.last_error_block() == u64_at(&bytes, 0x1d8));
    }
}

contract! {
    fn inode_numbers() {
        let bytes = image();
        let s = Superblock::new(&bytes[..]);
        assert!(s.user_quota_inode_number() == u32_at(&bytes, 0x240));
        assert!(s.group_quota_inode_number() == u32_at(&bytes, 0x244));
        assert!(s.superblock_backup_block_groups()[0] == u32_at(&bytes, 0x24c));
        assert!(s.superblock_backup_block_groups()[1] == u32_at(&bytes, 0x250));
        assert!(s.lost_and_found_inode_number() == u32_at(&bytes, 0x268));
        assert!(s.project_quota_inode_number() == u32_at(&bytes, 0x26c));
        assert!(s.filename_character_encoding() == u16_at(&bytes, 0x27c));
        assert!(s.filename_character_encoding_flags() == u16_at(&bytes, 0x27e));
        assert!(s.orphan_file_inode_number() == u32_at(&bytes, 0x280));
    }
}

contract! {
    fn flags() {
        let bytes = image();
        let s = Superblock::new(&bytes[..]);
        assert!(s.state().bits() == u16_at(&bytes, 0x3a));
        assert!(s.compatible_features().bits() == u32_at(&bytes, 0x5c));
        assert!(s.incompatible_features().bits() == u32_at(&bytes, 0x60));
        assert!(s.read_only_compatible_features().bits() == u32_at(&bytes, 0x64));
        assert!(s.default_mount_options().bits() == u32_at(&bytes, 0x100));
        assert!(s.flags().bits() == u32_at(&bytes, 0x160));
    }
}

contract! {
    fn sizes() {
        let bytes = image();
        let s = Superblock::new(&bytes[..]);
        // larger logarithms are not accepted (C14)
        let log = u32_at(&bytes, 0x18);
        if log < 53 {
            assert!(s.block_size_bytes() == 1024u64 << log);
        }
        let log = u32_at(&bytes, 0x1c);
        if log < 53 {
            assert!(s.cluster_size_blocks() == 1024u64 << log);
        }
        let log = bytes[0x174];
        if log < 63 {
            assert!(s.groups_per_flex() == 1u64 << log);
        }
        reach!(u32_at(&bytes, 0x18) == 2);
    }
}

contract! {
    fn enumerations() {
        let bytes = image();
        let s = Superblock::new(&bytes[..]);
        let v = u16_at(&bytes, 0x3c);
        assert!(s.error_policy() == match v {
            1 => ErrorPolicy::Continue,
            2 => ErrorPolicy::RemountReadOnly,
            3 => ErrorPolicy::Panic,
            v => ErrorPolicy::Unknown(v),
        });
        let v = u32_at(&bytes, 0x48);
        assert!(s.creator_os() == match v {
            0 => CreatorOs::Linux,
            1 => CreatorOs::Hurd,
            2 => CreatorOs::Masix,
            3 => CreatorOs::FreeBsd,
            4 => CreatorOs::Lites,
            v => CreatorOs::Unknown(v),
        });
        let v = bytes[0xfc];
        assert!(s.default_hash_version() == match v {
            0 => HashVersion::Legacy,
            1 => HashVersion::HalfMd4,
            2 => HashVersion::Tea,
            3 => HashVersion::LegacyUnsigned,
            4 => HashVersion::HalfMd4Unsigned,
            5 => HashVersion::TeaUnsigned,
            v => HashVersion::Unknown(v),
        });
    }
}

contract! {
    #[kani::unwind(6)]
    fn encryption_algorithms() {
        let bytes = image();
        let s = Superblock::new(&bytes[..]);
        let found = s.encryption_algorithms();
        let mut n = 0;
        let mut i = 0;
        while i < 4 {
            let v = bytes[0x254 + i];
            if v != 0 {
                assert!(n < found.len());
                assert!(found[n] == match v {
                    1 => EncryptionAlgorithm::Aes256Xts,
                    2 => EncryptionAlgorithm::Aes256Gcm,
                    3 => EncryptionAlgorithm::Aes256Cbc,
                    v => EncryptionAlgorithm::Unknown(v),
                });
                n += 1;
            }
            i += 1;
        }
        assert!(found.len() == n);
        reach!(n == 2);
    }
}

// features and options are the documented bits
contract! {
    fn feature_bits() {
        use super::superblock::{CompatibleFeatures as C, Flags as F, IncompatibleFeatures as I, MountOptions as M, ReadOnlyCompatibleFeatures as R, State as S};
        assert!(C::DIRECTORY_PREALLOCATION.bits() == 1 && C::MAGIC_INODES.bits() == 2 && C::HAS_JOURNAL.bits() == 4);
        assert!(C::SUPPORTS_EXTENDED_ATTRIBUTES.bits() == 8 && C::HAS_RESERVED_GDT_BLOCKS.bits() == 0x10);
        assert!(C::HAS_DIRECTORY_INDICES.bits() == 0x20 && C::LAZY_BG.bits() == 0x40 && C::EXCLUDE_INODE.bits() == 0x80);
        assert!(C::EXCLUDE_BITMAP.bits() == 0x100 && C::SPARSE_SUPERBLOCK_V2.bits() == 0x200);
        assert!(C::SUPPORTS_FAST_COMMITS.bits() == 0x400 && C::ORPHAN_PRESENT.bits() == 0x1000);
        assert!(I::COMPRESSION.bits() == 1 && I::DIRECTORY_ENTRIES_RECORD_FILE_TYPE.bits() == 2 && I::NEEDS_RECOVERY.bits() == 4);
        assert!(I::HAS_SEPARATE_JOURNAL_DEVICE.bits() == 8 && I::HAS_META_BLOCK_GROUPS.bits() == 0x10);
        assert!(I::FILES_USE_EXTENTS.bits() == 0x40 && I::IS_64_BIT.bits() == 0x80 && I::MULTIPLE_MOUNT_PROTECTION.bits() == 0x100);
        assert!(I::FLEXIBLE_BLOCK_GROUPS.bits() == 0x200 && I::INODES_STORE_LARGE_EXTENDED_ATTRIBUTE_VALUES.bits() == 0x400);
        assert!(I::DATA_IN_DIRECTORY_ENTRY.bits() == 0x1000 && I::METADATA_CHECKSUM_SEED.bits() == 0x2000);
        assert!(I::LARGE_DIRECTORIES.bits() == 0x4000 && I::DATA_IN_INODE.bits() == 0x8000 && I::HAS_ENCRYPTED_INODES.bits() == 0x10000);
        assert!(R::SPARSE_SUPERBLOCKS.bits() == 1 && R::CONTAINS_LARGE_FILES.bits() == 2 && R::BTREE_DIR.bits() == 4);
        assert!(R::CONTAINS_HUGE_FILES.bits() == 8 && R::GROUP_DESCRIPTORS_HAVE_CHECKSUMS.bits() == 0x10);
        assert!(R::UNLIMITED_SUBDIRECTORIES.bits() == 0x20 && R::CONTAINS_LARGE_INODES.bits() == 0x40 && R::HAS_SNAPSHOT.bits() == 0x80);
        assert!(R::QUOTA.bits() == 0x100 && R::BIGALLOC.bits() == 0x200 && R::METADATA_CHECKSUMS.bits() == 0x400);
        assert!(R::REPLICA.bits() == 0x800 && R::READ_ONLY.bits() == 0x1000 && R::PROJECT_QUOTA.bits() == 0x2000);
        assert!(R::VERITY.bits() == 0x8000 && R::ORPHAN_PRESENT.bits() == 0x10000);
        assert!(S::CLEANLY_UNMOUNTED.bits() == 1 && S::ERRORS_DETECTED.bits() == 2 && S::ORPHANS_BEING_RECOVERED.bits() == 4);
        assert!(F::SIGNED_DIRECTORY_HASH.bits() == 1 && F::UNSIGNED_DIRECTORY_HASH.bits() == 2 && F::TEST_FILESYSTEM.bits() == 4);
        assert!(M::PRINT_DEBUGGING_INFO.bits() == 1 && M::NEW_FILES_INHERIT_DIRECTORY_GROUP_ID.bits() == 2);
        assert!(M::ENABLE_USERSPACE_EXTENDED_ATTRIBUTES.bits() == 4 && M::ENABLE_POSIX_ACLS.bits() == 8);
        assert!(M::DISABLE_16_BIT_USER_IDS.bits() == 0x10 && M::COMMIT_ALL_DATA_AND_METADATA_TO_JOURNAL.bits() == 0x20);
        assert!(M::FLUSH_ALL_DATA_BEFORE_COMMITTING_METADATA.bits() == 0x40 && M::DATA_ORDERING_NOT_PRESERVED.bits() == 0x80);
        assert!(M::DISABLE_WRITE_FLUSHES.bits() == 0x100 && M::TRACK_METADATA_BLOCKS.bits() == 0x200);
        assert!(M::ENABLE_DISCARD.bits() == 0x400 && M::DISABLE_DELAYED_ALLOCATION.bits() == 0x800);
    }
}

fn time(b: &[u8; 1024], low: usize, high: usize) -> SystemTime {
    SystemTime::UNIX_EPOCH + Duration::from_secs(u64::from(u32_at(b, low)) | u64::from(b[high]) << 32)
}
fn set_time(b: &[u8; 1024], low: usize, high: usize) -> Option<SystemTime> {
    if u32_at(b, low) == 0 && b[high] == 0 { None } else { Some(time(b, low, high)) }
}

contract! {
    fn times() {
        let bytes = image();
        let s = Superblock::new(&bytes[..]);
        assert!(s.mount_time() == set_time(&bytes, 0x2c, 0x275));
        assert!(s.write_time() == time(&bytes, 0x30, 0x274));
        assert!(s.last_check_time() == time(&bytes, 0x40, 0x277));
        assert!(s.creation_time() == set_time(&bytes, 0x108, 0x276));
        assert!(s.first_error_time() == set_time(&bytes, 0x198, 0x278));
        assert!(s.last_error_time() == set_time(&bytes, 0x1cc, 0x279));
        let interval = u32_at(&bytes, 0x44);
        assert!(s.check_interval() == if interval == 0 { None } else { Some(Duration::from_secs(u64::from(interval))) });
        reach!(s.mount_time().is_none() && s.creation_time().is_some());
    }
}

/// `found` is the `n` bytes at `at`
fn same(found: &[u8], b: &[u8; 1024], at: usize, n: usize) -> bool {
    if found.len() != n {
        return false;
    }
    let probe: usize = kani::any();
    kani::assume(probe < n);
    found[probe] == b[at + probe]
}

contract! {
    #[kani::unwind(18)]
    fn uuids_and_seeds() {
        let bytes = image();
        let s = Superblock::new(&bytes[..]);
        assert!(same(s.uuid().as_bytes(), &bytes, 0x68, 16));
        assert!(same(s.journal_uuid().as_bytes(), &bytes, 0xd0, 16));
        assert!(same(s.hash_seed(), &bytes, 0xec, 16));
        assert!(same(s.encryption_password_salt(), &bytes, 0x258, 16));
        assert!(same(s.journal_blocks(), &bytes, 0x10c, 68));
    }
}

/// `name` is the bytes of the field before its first NUL
fn is_name(name: &[u8], b: &[u8; 1024], at: usize, size: usize) {
    let n = name.len();
    assert!(n <= size);
    assert!(n == size || b[at + n] == 0);
    let probe: usize = kani::any();
    if probe < n {
        assert!(name[probe] == b[at + probe] && b[at + probe] != 0);
    }
}
fn is_optional_name(name: Option<super::string::Ext4String<&[u8]>>, b: &[u8; 1024], at: usize, size: usize) {
    match name {
        None => {
            assert!(b[at] == 0)
        }
        Some(name) => {
            assert!(b[at] != 0);
            is_name((&name).into(), b, at, size)
        }
    }
}

contract! {
    #[kani::unwind(18)]
    fn volume_name() {
        let bytes = image();
        is_optional_name(Superblock::new(&bytes[..]).volume_name(), &bytes, 0x78, 16);
        reach!(bytes[0x79] == 0 && bytes[0x78] != 0);
    }
}
contract! {
    #[kani::unwind(34)]
    fn first_error_function() {
        let bytes = image();
        is_optional_name(Superblock::new(&bytes[..]).first_error_function_name(), &bytes, 0x1a8, 32);
    }
}
contract! {
    #[kani::unwind(34)]
    fn last_error_function() {
        let bytes = image();
        is_optional_name(Superblock::new(&bytes[..]).last_error_function_name(), &bytes, 0x1e0, 32);
    }
}
contract! {
    #[kani::unwind(66)]
    fn last_mounted_path() {
        let bytes = image();
        is_optional_name(Superblock::new(&bytes[..]).last_mounted_path(), &bytes, 0x88, 64);
    }
}
contract! {
    #[kani::unwind(66)]
    fn mount_options_string() {
        let bytes = image();
        is_name((&Superblock::new(&bytes[..]).mount_options()).into(), &bytes, 0x200, 64);
    }
}

contract! {
    #[kani::stub(crate::ext4::crc::ext4_crc32c, crate::verif::crc::function)]
    #[kani::unwind(8)]
    fn checksum_seed() {
        let bytes = image();
        let s = Superblock::new(&bytes[..]);
        let seed = s.checksum_seed();
        if u32_at(&bytes, 0x60) & 0x2000 != 0 {
            assert!(seed == u32_at(&bytes, 0x270));
        } else if u32_at(&bytes, 0x64) & 0x400 != 0 {
            assert!(seed == crate::verif::crc::spec(0xffffffff, &bytes[0x68..0x78]));
        }
        // without metadata checksums there is nothing to seed
        reach!(u32_at(&bytes, 0x60) & 0x2000 == 0 && u32_at(&bytes, 0x64) & 0x400 != 0);
    }
}
