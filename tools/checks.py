"""What decides each property: units of contract harnesses / verus extractions."""
CHECKS = {}

CHECKS['C11'] = dict(
    level='proof',
    units=[dict(dir='C11', bounded={
        'seek_block_size_1': 'block size 1', 'seek_block_size_512': 'block size 512', 'seek_block_size_520': 'block size 520',
        'seek_block_size_4096': 'block size 4096', 'seek_block_size_3_times_2_20': 'block size 3*2^20'})],
    level_note='Proof for every reader state (block and byte position), device size, buffer length and seek offset over an abstract device; division by a symbolic block size is replaced by a proved contract, seeks with real division are checked for five block sizes.',
    functions=['BlockDeviceReader::{new,read,seek,try_clone,block_size,block_count}'],
)

MAPPING_TRUST = ['u64::checked_div, checked_rem and checked_mul replaced by the contract in kani/common/division.rs '
                 '(verus/arithmetic.rs proves that integers satisfy it)']
CHECKS['C01'] = dict(
    level='proof',
    units=[dict(dir='C01', harness_timeout=300)],
    verus=[dict(file='arithmetic.rs')],
    functions=['Raid5Algorithm::{from_layout,compute_sector}', 'SectorNumber::in_chunk',
               'ChunkNumber::as_data_device_and_stripe_number'],
    trusted=MAPPING_TRUST,
    level_note='Proof over all inputs that the real mapping code equals the Linux formulas; injectivity is a Verus lemma. Trusts Kani/CBMC, Verus, and the proved division contract used as a stub.',
    explanation='postcondition of compute_sector: equal to Linux raid5_compute_sector, all u64 sectors, u32 chunk sizes and device '
                'counts, one harness per layout; injectivity is a lemma over that postcondition (verus/arithmetic.rs)',
)
CHECKS['C02'] = dict(
    level='proof',
    units=[dict(dir='C02', harness_timeout=400)],
    verus=[dict(file='arithmetic.rs')],
    functions=['Raid6Algorithm::{from_layout,compute_sector}', 'SectorNumber::in_chunk',
               'ChunkNumber::as_data_device_and_stripe_number'],
    trusted=MAPPING_TRUST,
    assumptions=['array sector below 2^64 - 1'],
    level_note='Proof over all inputs that the real mapping code equals the Linux formulas; injectivity is a Verus lemma. Trusts Kani/CBMC, Verus, and the proved division contract used as a stub.',
    explanation='postcondition of compute_sector: equal to Linux raid5_compute_sector for RAID 6, all sectors, chunk sizes and device '
                'counts, one harness per layout; injectivity is a lemma over that postcondition (verus/arithmetic.rs)',
)

CHECKS['C03'] = dict(
    level='proof',
    units=[dict(dir='C03', harness_timeout=300)],
    functions=['MdAlgorithm::{from_level_and_layout,parity_device_count}', 'Raid5Algorithm::from_layout', 'Raid6Algorithm::from_layout',
               'MdFormat::{parity_device_count,data_device_count,data_sector_count}', 'MdArray::{block_size,block_count,try_clone}'],
    trusted=MAPPING_TRUST[:1],
    assumptions=['no reshape in progress'],
    level_note='Proof for every pair of 32-bit level and layout, every device count and per-device size; 64-bit multiplication by contract.',
    explanation='postconditions of from_level_and_layout (against the layouts of Linux raid5.h) and of block_count and block_size',
)
CHECKS['C04'] = dict(
    level='model_checking',
    units=[dict(dir='C04', harness_timeout=330, flags=['--cbmc-args', '--max-field-sensitivity-array-size', '512'],
                bounded=True, bound='rows of 3 and 4 members with members zero except at bytes 0, 255 and 511 of the sector, in four assignments of P, Q and data; '
                'member positions in 512- and 4096-byte blocks, for every data offset and member sector that sum to one of five positions')],
    functions=['Raid6Algorithm::read_sector', 'MdAlgorithm::read_sector', 'MdArray::read_block', 'BlockDeviceReader::{seek,read} (as used)',
               'MdDevice as BlockDevice'],
    trusted=['Raid6Algorithm::compute_sector by contract: any function of its arguments to distinct members (C02 decides which one)'],
    level_note='Bounded: the row check for 3 and 4 members differing at three byte positions (whole arbitrary sectors natively), the member read for arbitrary offsets that add up to selected positions; every kind of missing, short or failing member.',
    explanation='postconditions of read_sector (bytes of the data member, only if P is the XOR) and of read_block (member bytes from data offset plus sector; nothing but verified bytes)',
)
CHECKS['C12'] = dict(
    level='proof',
    units=[dict(dir='C12', harness_timeout=300, bounded={
        'in_memory_any_block': 'medium up to 24 bytes, buffer up to 12, block size 1 to 9, any block number',
        'in_memory_count_512': 'block size 512, medium up to 65536 bytes', 'in_memory_count_4096': 'block size 4096, medium up to 65536 bytes',
        'in_memory_count_1': 'block size 1, medium up to 65536 bytes', 'in_memory_count_520': 'block size 520, medium up to 65536 bytes',
        'file_block_512': 'block size 512, buffer up to 1024 bytes, at most one short read', 'file_block_4096': 'block size 4096, buffer up to 8192 bytes, at most one short read',
        'native_block': 'block size 512, buffer up to 1024 bytes, at most one short read',
        'file_count_512': 'block size 512', 'file_count_4096': 'block size 4096'})],
    functions=['InMemoryBlockDevice::{read_block,block_count,block_size}', 'FileBlockDevice::{read_block,block_count,block_size}',
               'NativeBlockDevice::read_block', 'InternalFile::read_block', 'BlockNumber::byte_pos'],
    trusted=['std::fs::File by contract: seek sets the position, read hands out between one byte and what is left, or fails; metadata gives the size',
             'the ioctls behind NativeBlockDevice::{block_size,block_count} (kernel; BLKPBSZGET, BLKGETSIZE64)'],
    level_note='Kani contract harnesses on the real read_block and block_count code; sizes bounded as listed in the evidence (any block number), files through an assumed contract of std::fs::File that native runs on real sparse files cross-check.',
    explanation='postcondition of read_block over a symbolic probe byte: first block-size bytes equal the medium, the rest unchanged, error exactly outside',
)
CHECKS['C06'] = dict(
    level='proof',
    units=[dict(dir='C06', harness_timeout=300, bounded={'role_table': 'role tables of up to 3 stored entries, any max_devices'})],
    functions=['every accessor of SuperblockVersion1', 'SuperblockVersion1::{read,new,valid,valid_magic,valid_major_version,device_roles}',
               'From<ReshapeStatusVersion1> for ReshapeStatus', 'ArrayUuid::from_u8_16', 'MdDeviceRole::{from_u16,device_number,is_spare,is_faulty,is_journal,is_valid,is_invalid}'],
    level_note='Proof for arbitrary superblock contents of any length, one postcondition per accessor written from the Linux on-disk format; the role table loop is checked for up to 3 entries (longer tables sampled natively).',
    explanation='postcondition of each accessor: the little-endian field at the documented offset, absent unless flagged',
)
CHECKS['C07'] = dict(
    level='proof',
    units=[dict(dir='C07', harness_timeout=300, retry_unwind=70, fallback=[dict(dir='C07r', harness_timeout=300, retry_unwind=70)],
                bounded={'read_little_endian': 'contents zero but for eight symbolic words', 'read_big_endian': 'contents zero but for eight symbolic words',
                         **{'roles_of_' + n: 'table sizes 1, 4, 27 and more' for n in ('one', 'four', 'twenty_seven', 'more')}})],
    functions=['From<View> for SuperblockVersion0 (both byte orders)', 'From<DeviceDescriptor*Endian> for DeviceDescriptor',
               'From<ReshapeStatusVersion0> for ReshapeStatus (both byte orders)', 'every Superblock accessor of SuperblockVersion0',
               'SuperblockVersion0::{read,valid}', 'ArrayUuid::{from_u32,from_u32_4}'],
    level_note='Proof for arbitrary 4096-byte contents in both byte orders that the conversion and every accessor equal the Linux on-disk format; read() itself over partly symbolic contents, role tables for selected recorded sizes.',
    explanation='postcondition of the conversion from stored bytes and of each accessor: the documented word in the given byte order',
)
CHECKS['C05'] = dict(
    level='proof',
    units=[dict(dir='C05', harness_timeout=300)],
    functions=['MdDevice::from_block_device', 'BlockCount::size_bytes'],
    trusted=['SuperblockVersion1::read and SuperblockVersion0::read by contract: refuse or return what is stored at the position of the device (C06, C07 decide what is accepted)'],
    assumptions=['seeking the device succeeds'],
    level_note='Proof for every device size in bytes (block size 1) and every size that is a whole number of 512- or 4096-byte blocks, every combination of acceptable candidates there and elsewhere; the superblock readers by contract, cross-checked natively with stored superblocks.',
    explanation='postcondition of from_block_device: which candidate is reported, as a function of size and of what is stored at each place',
)
CRC = ['ext4_crc32c as an arbitrary function of seed and bytes (C22 decides which one)']
CHRONO = ['chrono by contract: NaiveDateTime + TimeDelta and DateTime::from_timestamp are exact (cross-checked natively on sampled inputs)']
CHECKS['C13'] = dict(
    level='proof',
    units=[dict(dir='C13', harness_timeout=300)],
    functions=['every public accessor of ext4 Superblock', 'WideUnsigned::from_low_high (u64)', 'SystemTimeExt::from_low_high',
               'Ext4String::from_null_terminated_bytes (16, 32 and 64 bytes)'],
    trusted=CRC,
    level_note='Proof for all 1024-byte contents, one postcondition per accessor written from the ext4 disk layout documentation; the offsets in that specification are trusted.',
    explanation='postcondition of each accessor: the documented field of arbitrary contents',
)
CHECKS['C14'] = dict(
    level='proof',
    units=[dict(dir='C14', harness_timeout=300)],
    functions=['Superblock::{valid,valid_magic,valid_block_size,valid_cluster_size,valid_clusters_per_group,valid_error_policy,valid_groups_per_flex,valid_checksum}',
               'Superblock::read'],
    trusted=CRC,
    level_note='Proof for all 1024-byte contents that acceptance equals the stated condition, with the checksum an arbitrary function of seed and bytes; Superblock::read is proved against the contract of valid (a stub).',
    explanation='valid() == specification for arbitrary contents; read() is Ok exactly when the medium yields 1024 bytes and valid() accepts them',
)
CHECKS['C15'] = dict(
    level='proof',
    units=[dict(dir='C15', harness_timeout=300, flags=['--cbmc-args', '--max-field-sensitivity-array-size', '1024'], bounded={
        'no_descriptors': 'no descriptor present', 'one_in_blocks_of_1024': 'one descriptor of 32 bytes present, 8192 blocks per group',
        'two_in_blocks_of_4096': 'two descriptors of 64 bytes present, 32768 blocks per group',
        'three_in_blocks_of_65536': 'three descriptors of 80 bytes present, 100 blocks per group',
        'failure_after_the_superblock': 'no descriptor present', 'failure_after_the_first_descriptor': 'one descriptor of 40 bytes present, 16384 blocks per group'})],
    functions=['Ext4Fs::{open,block_size}', 'Superblock::read'],
    trusted=['Superblock::valid by contract: any verdict on superblocks with a block size exponent below 53 (C14 decides which)'],
    level_note='Proof over every superblock geometry that exactly the usable file systems are opened; descriptor positions and counts for every block count and first data block, with up to three descriptors present and selected block, group and descriptor sizes (others natively).',
    explanation='postcondition of open: accepted exactly when usable, one descriptor per group from its place, an error when the medium ends before the last',
)
CHECKS['C16'] = dict(
    level='proof',
    units=[dict(dir='C16', harness_timeout=300, bounded={n: '3 groups, this inode and block size' for n in (
        'inodes_of_128_in_blocks_of_1024', 'inodes_of_256_in_blocks_of_4096', 'inodes_of_160_in_blocks_of_65536')})],
    functions=['Ext4Fs::{read_inode,read_root_inode,read_block,block_size}'],
    trusted=CRC,
    assumptions=['the geometry passed the checks of Ext4Fs::open (C15)'],
    level_note='Proof for every block number and buffer length (up to 1 MiB) in each of the seven block sizes; inodes for every number, count, group size and table position with three groups and three pairs of inode and block size.',
    explanation='postcondition of read_inode and read_block: position and extent of the one read, bytes delivered, refusals without reading',
)
CHECKS['C17'] = dict(
    level='proof',
    units=[dict(dir='C17', harness_timeout=300)],
    functions=['Inode::new and every accessor', 'FileMode::{file_type,permissions,from_file_type_and_permissions}', 'decode_extra_time'],
    trusted=CRC + CHRONO,
    level_note='Proof for arbitrary records of any length from 128 bytes (allocations of arbitrary size and contents); chrono date arithmetic and the checksum function by contract.',
    explanation='postcondition of each accessor: the documented combination of fields, cut at the recorded extra size and the record end',
)
CHECKS['C19'] = dict(
    level='proof',
    units=[dict(dir='C19', harness_timeout=300)],
    functions=['ExtentTree::{from_inode,from_block,valid,depth,entry_count,to_owned}', 'ExtentLeaf::{extent_at,extent_count,max_extents,generation}',
               'ExtentBranch::{subtree_index_at,subtree_count,max_subtrees,generation}', 'every accessor of Extent and ExtentIndex', 'Extent::into_owned'],
    trusted=CRC,
    assumptions=['a node has at least 12 bytes (the inode holds 60, blocks at least 1024)'],
    level_note='Proof for nodes of any length and contents, the checksum an arbitrary function of seed and bytes; to_owned is proved for the node in the inode and sampled natively for blocks.',
    explanation='postconditions: valid() equals the stated condition; entry i of a valid node is the documented field group at 12 + 12 i',
)
CHECKS['C20'] = dict(
    level='proof',
    units=[dict(dir='C20', harness_timeout=300, optional=True),
           dict(dir='C20b', native_only=True)],
    functions=['Ext4FileInternal::{open,read_next_block,block_size,file_size_bytes}', 'ExtentTree::{from_inode,from_block,valid,depth,entry_count}',
               'ExtentLeaf::extent_at', 'ExtentBranch::subtree_index_at', 'Extent::into_owned'],
    trusted=['Ext4Fs::{read_block,block_size} by contract: one block or an error (C16)',
             'Vec::{push,pop} on the read stack by contract: a stack'],
    assumptions=['extents have at least one block', 'nodes hold up to 4 entries of 12 bytes in blocks of 60 bytes (the code is parametric in the block size; 1024 natively)'],
    level_note='Step contract: one call of read_next_block from each kind of state (inside an extent, at a leaf entry, at a branch entry, after an exhausted extent, at the end), scalars, extents and positions symbolic, paths of up to four nodes; by induction over calls whole files. Whole files on stored media are executed, not proved.',
    explanation='postcondition of one read: the block at the current logical position, its length cut at the file size, or an error; the position advances by one',
)
CHECKS['C21'] = dict(
    level='proof',
    units=[dict(dir='C21', harness_timeout=300, flags=['--cbmc-args', '--max-field-sensitivity-array-size', '1024'],
                bounded={'short_names_end_at_nul': 'names up to 4 bytes',
                         **{n: 'these outcomes of block reads, records of 12 bytes with any contents' for n in (
                             'an_empty_directory', 'one_block', 'an_empty_block_in_between', 'two_blocks', 'a_short_block', 'a_failure_at_once',
                             'a_failure_after_a_block', 'a_short_block_at_the_end')}})],
    functions=['DirEntry::{from_buf,name,file_type,inode,to_owned}', 'Ext4DirectoryBlock::{from_block_and_checksum_seed,read_next_entry}',
               'Ext4Directory::{open,read_next_entry,read_next_block}', 'Ext4DirectoryInlineFileType conversions'],
    trusted=CRC + ['Ext4String::from_null_terminated_bytes by contract for names without NUL (C23)',
                   'Ext4FileInternal::read_next_block by contract: a block, a part of one, the end, or an error (C20)'],
    assumptions=['a directory block has at least 12 bytes'],
    level_note='Proof for records and blocks of any length and contents (two successive reads, the first of which leaves the block in any state); whole directories for eight sequences of block reads, and natively for stored directories.',
    explanation='postconditions: a record is returned exactly when one fits, with the documented fields; a block is accepted exactly with a well-formed tail; entries of successive blocks in order',
)
CHECKS['C24'] = dict(
    level='proof',
    units=[dict(dir='C24', harness_timeout=300)],
    functions=['BlockGroupDescriptor::new and every accessor'],
    level_note='Proof for arbitrary descriptors of any length (allocations of arbitrary size and contents).',
    explanation='postcondition of each accessor: the documented combination of low and high fields, zero beyond the descriptor',
)
CHECKS['C18'] = dict(
    level='proof',
    units=[dict(dir='C18', harness_timeout=300)],
    functions=['decode_extra_time'],
    trusted=CHRONO,
    level_note='Proof for every pair of 32-bit fields, relative to an assumed contract of chrono\'s date arithmetic.',
    explanation='postcondition of decode_extra_time over all 2^64 inputs',
)
CHECKS['C22'] = dict(
    level='proof',
    units=[dict(dir='C22', harness_timeout=300, bounded={'short_strings': 'strings up to 3 bytes', 'chaining': 'strings up to 3 bytes'})],
    functions=['ext4_crc32c'],
    level_note='The per-byte step is proved for every seed and byte against the bitwise definition, composition for strings of bounded length only (longer ones sampled natively).',
    explanation='step and composition contracts of the real table-driven checksum against the bit-by-bit definition',
)
CHECKS['C23'] = dict(
    level='model_checking',
    units=[dict(dir='C23', harness_timeout=300, bounded={'names_compare_by_their_bytes': 'names up to 4 bytes',
        'owned_names_compare_like_borrowed_ones': 'names up to 2 bytes', 'a_name_ends_at_the_first_nul': 'storage up to 6 bytes'})],
    functions=['Ext4String::{from_null_terminated_bytes,to_owned,eq,cmp,partial_cmp,hash,len,is_empty}', 'From<&Ext4String> for &[u8]'],
    level_note='Bounded: all names up to the listed lengths, by Kani on the real impls (they delegate to slice comparison, which is length-generic).',
)
CHECKS['C25'] = dict(
    level='proof',
    units=[dict(dir='C25', harness_timeout=300, bounded={'identities_of_the_real_counter': 'first two identities of a process'})],
    functions=['MdDeviceId::{new,next_index,eq,hash,clone}'],
    trusted=['AtomicU64::fetch_add by contract: two calls of one process return two different increasing values below u64::MAX'],
    level_note='Proof for two identities taken at arbitrary points of an arbitrary history, relative to the contract of fetch_add.',
)
CHECKS['C26'] = dict(
    level='model_checking',
    units=[dict(dir='C26', harness_timeout=120, bounded=True, bound='every equality pattern of up to 4 keys and two of 5, any values')],
    functions=['MultiMap::from_multi_iter for HashMap<K, Vec<V>>'],
    trusted=['std HashMap replaced by an association list (its documented contract) under Kani'],
    level_note='Bounded: every equality pattern of up to 4 pairs, any values; keys matter only through Eq/Hash.',
)
