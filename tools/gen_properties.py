#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that ids stay stable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

HOOK = "cfg(md_verif) include of the contract harness module"

p("C01", "RAID 5 address mapping is the one Linux md uses",
  "For every RAID 5 layout code, every chunk size, device count and array sector, the computed member sector, parity member and data member are exactly the ones Linux md uses for that layout code. Parity and data members are distinct and smaller than the device count, different array sectors never share a (member, sector) pair, and the mapping is refused exactly when the chunk size is zero, there are fewer than two devices or the layout code is not 0 to 5.",
  ["inputs", "configurations"], "All layout codes, u64 sectors, u32 chunk sizes, u32 device counts.",
  "There is no test of the mapping; the space is 2^128 per layout and errors show only at particular stripe/device residues.",
  ["src/md/raid5/algorithm.rs", "src/md/units/sector_number.rs", "src/md/units/chunk_number.rs"],
  [("Raid5Algorithm::compute_sector, from_layout", "src/md/raid5/algorithm.rs"), ("SectorNumber::in_chunk", "src/md/units/sector_number.rs"), ("ChunkNumber::as_data_device_and_stripe_number", "src/md/units/chunk_number.rs")],
  ["return value of the mapping function"])
p("C02", "RAID 6 address mapping is the one Linux md uses",
  "For every RAID 6 layout code (including the DDF and the RAID 5-derived layouts), every chunk size, device count and array sector, the computed member sector, P member, Q member and data member are exactly the ones Linux md uses for that layout code. The three members are distinct and smaller than the device count, different array sectors never share a (member, sector) pair, and the mapping is refused exactly when the chunk size is zero, there are fewer than three devices or the layout code is unknown.",
  ["inputs", "configurations"], "All layout codes, u64 sectors below the last one, u32 chunk sizes, u32 device counts.",
  "There is no test of the mapping; fourteen layouts differ only at particular stripe/device residues.",
  ["src/md/raid6/algorithm.rs", "src/md/units/sector_number.rs", "src/md/units/chunk_number.rs"],
  [("Raid6Algorithm::compute_sector, from_layout", "src/md/raid6/algorithm.rs")],
  ["return value of the mapping function"])
p("C03", "RAID level recognition and array capacity",
  "A (level, layout) pair is recognised as RAID 5 or RAID 6 exactly when the level is 5 or 6 and Linux md defines the layout for it, and is otherwise reported unsupported with both numbers preserved. An opened array reports 512-byte blocks and a capacity of sectors per device times (devices minus 1 for RAID 5, minus 2 for RAID 6), and an error where there is no agreed format, the level is unsupported, or the result does not fit.",
  ["inputs", "configurations"], "All u32 level/layout pairs, all device counts and per-device sizes.",
  "No test constructs an array; overflow and unsupported levels are never exercised.",
  ["src/md/algorithm.rs", "src/md/format.rs", "src/md/array.rs"],
  [("MdAlgorithm::from_level_and_layout, parity_device_count", "src/md/algorithm.rs"), ("MdFormat::data_sector_count", "src/md/format.rs"), ("MdArray::block_count", "src/md/array.rs")],
  ["MdArray block_size/block_count"], HOOK)
p("C04", "Array reads return parity-verified data or an error",
  "Reading a sector of a RAID 6 array yields exactly the 512 bytes stored at the mapped sector of the mapped data member, relative to that member's data offset, and only after the XOR of all data members of that stripe row equals its P member byte for byte. In every other case (parity mismatch, a missing member, a short or failed member read, an unsupported level, a position that overflows) the read reports an error and never returns bytes.",
  ["inputs", "fault_sequences"], "All member contents, offsets, roles and single-read faults.",
  "No test reads through an array; a wrong byte shows only for particular contents, members and offsets.",
  ["src/md/array.rs", "src/md/raid6/algorithm.rs", "src/md/algorithm.rs"],
  [("MdArray::read_block", "src/md/array.rs"), ("Raid6Algorithm::read_sector", "src/md/raid6/algorithm.rs")],
  ["MdArray::read_block result and buffer"], HOOK)
p("C05", "Where md superblocks are looked for on a device",
  "A device smaller than 12288 bytes is classed as too small; otherwise the tool looks for a version 1 superblock at byte 4096 (reported as 1.2), then 0 (1.1), then (size in sectors minus 16, rounded down to 8 sectors) (1.0), and then, if the device has at least 65536 bytes, for a version 0 superblock in the last complete 64 KiB-aligned 64 KiB. The first acceptable superblock in that order is the one reported, a device with none is classed as missing a superblock, and unreadable or invalid candidates only move the search on.",
  ["inputs", "configurations"], "All device sizes and all contents at the four locations.",
  "No test opens a device; offsets depend on the device size modulo 4 KiB / 64 KiB.",
  ["src/md/device/device.rs"], [("MdDevice::from_block_device", "src/md/device/device.rs")],
  ["MdDevice superblock after open"], HOOK)
p("C06", "Version 1 md superblocks are decoded faithfully",
  "A version 1 superblock is accepted exactly when its magic is a92b4efc and its major version 1, and each reported attribute (uuid, name, level/layout, per-device sectors, chunk size, device count, data offset, role index, event count, reshape parameters only when flagged, bitmap/PPL/recovery/journal fields only when flagged) equals the little-endian field the Linux md on-disk format puts at that offset. The role table has min(max_devices, entries stored) entries, in order, each equal to its stored 16-bit value.",
  ["inputs"], "All superblock contents.",
  "Tests check one captured superblock through some accessors; field-specific values and table lengths are not varied.",
  ["src/md/superblock/version_1/superblock.rs", "src/md/superblock/version_1/reshape_status.rs", "src/md/superblock/version_1/features.rs", "src/md/superblock/array_uuid.rs", "src/md/superblock/role.rs"],
  [("SuperblockVersion1 accessors, valid, device_roles", "src/md/superblock/version_1/superblock.rs")],
  ["Superblock trait accessors"], HOOK)
p("C07", "Version 0 md superblocks of either byte order are decoded faithfully",
  "A version 0.90/0.91 superblock stored in little- or big-endian order is recognised by its magic in that order and each reported attribute equals the field the Linux md on-disk format puts at that word in that byte order, with the per-device size converted from KiB and chunk sizes from bytes to sectors, the uuid being four words from minor version 90 on and one word before, and a reshape reported only from minor version 91 on. It is accepted exactly when magic and major version 0 match and every descriptor among the first total_devices (at most 27) has a role that is a position up to 65279 or outside the reserved range 65280 to 65532.",
  ["inputs"], "All 4096-byte superblock contents in both byte orders.",
  "Tests view one captured superblock per byte order and never run the conversion into the common representation.",
  ["src/md/superblock/version_0/superblock.rs", "src/md/superblock/version_0/little_endian/superblock.rs", "src/md/superblock/version_0/big_endian/superblock.rs", "src/md/superblock/version_0/little_endian/reshape_status.rs", "src/md/superblock/version_0/big_endian/reshape_status.rs", "src/md/superblock/role.rs"],
  [("SuperblockVersion0::read and accessors", "src/md/superblock/version_0/superblock.rs"), ("From<View> conversions", "src/md/superblock/version_0/*_endian/superblock.rs")],
  ["Superblock trait accessors"], HOOK)
p("C08", "Assembly puts each device in the slot its metadata assigns",
  "When devices are assembled, the merged role table takes for each index the role on which the superblocks agree, where a spare, faulty or invalid entry yields to a definite one and two different definite entries make the whole table unusable; a device becomes the active member of slot k exactly when its own role index names slot k in that table and no other device claims slot k. Every supplied device ends up exactly once, active or inactive, and the array format is the one all superblocks share (none if any differs or is missing).",
  ["inputs", "configurations"], "All sets of superblocks (the check bounds the number of devices and roles).",
  "No test assembles an array.",
  ["src/md/array.rs", "src/md/format.rs", "src/md/superblock/role.rs", "src/ext/multi_map.rs"],
  [("MdArray::open", "src/md/array.rs"), ("MdFormat::from_superblock", "src/md/format.rs")],
  ["MdArray definition: format, devices, inactive_devices"], HOOK)
p("C09", "The diagnosis reports exactly the real disagreements",
  "For each attribute (array uuid, name, level/layout, per-device size, chunk size, device count, reshape state, event count, role table) the diagnosis contains a problem exactly when at least two supplied devices' superblocks differ in it, and then groups exactly the devices by their values. Too-small devices, devices without superblock and role indices shared by several devices are listed exactly, and nothing is reported for a consistent set.",
  ["inputs", "configurations"], "All sets of device superblocks (the check bounds the number of devices).",
  "No test runs the diagnosis; each attribute needs a disagreement in it alone.",
  ["src/md/definition.rs", "src/md/diagnosis/diagnosis.rs", "src/ext/multi_map.rs"],
  [("MdArrayDefinition::diagnose and its twelve helpers", "src/md/definition.rs")],
  ["Diagnosis fields"], HOOK)
p("C11", "The block reader presents a device as one faithful byte stream",
  "Reading through the block-device reader after any seek and any earlier reads returns consecutive device bytes from the current position, never past the end of the device, never none before the end for a non-empty buffer, and advances the position by the number returned; a failed read moves nothing. Seeking from start, end or current position reports and adopts exactly the requested byte position or fails, leaving the position alone, when it is not representable; a clone continues independently from the same position.",
  ["inputs", "histories", "fault_sequences"], "All block sizes, device sizes, positions, buffer lengths and seek offsets.",
  "Tests read one 256-byte device with 32-byte blocks at eight positions.",
  ["src/block_device/reader.rs", "src/block_device/block_number.rs", "src/block_device/block_count.rs"],
  [("Read, Seek and BlockDevice for BlockDeviceReader", "src/block_device/reader.rs")],
  ["Read::read, Seek::seek, try_clone"], HOOK, [{"name": "block_pos, byte_pos", "meaning": "position = block_pos * block_size + byte_pos, byte_pos < block_size", "where": "src/block_device/reader.rs"}])
p("C12", "Block reads return exactly the addressed block",
  "Reading block n of an in-memory, file or native device with a buffer at least one block long fills the first block-size bytes of the buffer with bytes n*size to (n+1)*size of the medium, leaves the rest of the buffer alone and reports the block size. A short buffer, a block that is not completely inside the medium or a position that overflows gives an error rather than a panic, and the block count is the number of complete blocks.",
  ["inputs"], "All media, block sizes, block numbers and buffer lengths.",
  "Tests only read whole in-range blocks through exactly sized buffers of one device.",
  ["src/block_device/in_memory.rs", "src/block_device/internal.rs", "src/block_device/file.rs", "src/block_device/native.rs", "src/block_device/block_number.rs"],
  [("InMemoryBlockDevice::read_block", "src/block_device/in_memory.rs"), ("InternalFile::read_block", "src/block_device/internal.rs")],
  ["BlockDevice::read_block, block_count"], HOOK)
p("C13", "ext4 superblock fields are decoded faithfully",
  "Every attribute reported from an ext4 superblock equals the little-endian field at the offset the ext4 disk layout documents, with 64-bit counts combined from their low and high halves, times from a 32-bit low and 8-bit high part, sizes as 1024 shifted by the stored logarithm, and names cut at the first NUL. Values that mean 'unset' (time 0, empty name, interval 0) are reported as absent.",
  ["inputs"], "All 1024-byte superblock contents.",
  "Tests decode one captured superblock, in which most fields and all high halves are zero.",
  ["src/ext4/superblock/superblock.rs", "src/ext/wide_unsigned.rs", "src/ext/system_time.rs", "src/ext4/string.rs"],
  [("Superblock accessors", "src/ext4/superblock/superblock.rs"), ("WideUnsigned::from_low_high", "src/ext/wide_unsigned.rs")],
  ["Superblock accessors"], HOOK)
p("C14", "Only self-consistent, checksum-verified ext4 superblocks are accepted",
  "A superblock is accepted exactly when its magic is ef53, block and cluster size logarithms are below 53 with equal sizes unless bigalloc, clusters per group equal blocks per group unless bigalloc, the error policy is a defined one, the flex-group logarithm is below 63, and its checksum type is none, or CRC32C with the stored checksum equal to the CRC32C of the first 1020 bytes. Rejection is an error, never a panic, for any contents.",
  ["inputs"], "All 1024-byte superblock contents.",
  "Tests present one valid superblock and two that fail the magic.",
  ["src/ext4/superblock/superblock.rs", "src/ext4/superblock/checksum_type.rs", "src/ext4/superblock/error_policy.rs"],
  [("Superblock::valid, valid_checksum, read", "src/ext4/superblock/superblock.rs")],
  ["Superblock::valid, Superblock::read"], HOOK)
p("C15", "Opening an ext4 file system finds its group descriptors or fails cleanly",
  "Opening a file system reads the superblock at byte 1024 and group descriptor i at (first data block + 1) * block size + i * descriptor size, giving one descriptor for each block group of the recorded block count. Unusable geometry (zero blocks, inodes or descriptor bytes per group, block size above 64 KiB, inode size below 128), another creator OS, missing extents support, unknown incompatible features and truncated media give an error, never a panic or an unbounded allocation.",
  ["inputs", "fault_sequences"], "All superblock contents and device sizes.",
  "Tests open one valid image and two non-file-systems.",
  ["src/ext4/fs.rs", "src/ext4/superblock/superblock.rs"],
  [("Ext4Fs::open", "src/ext4/fs.rs")], ["Ext4Fs::open result, device reads"], HOOK)
p("C16", "Inodes and blocks are read from exactly where ext4 keeps them",
  "Inode n (1 to inodes_count) is read from group (n-1)/inodes_per_group at inode-table block * block size + ((n-1) mod inodes_per_group) * inode size, inode 0 and numbers above the count or in absent groups are refused, and positions that overflow are errors. File system block b is read from b * block size, exactly one block, leaving the rest of a longer buffer alone, and short buffers are refused.",
  ["inputs", "configurations"], "All inode numbers, geometries and table positions.",
  "Tests read inode 2 of one single-group image.",
  ["src/ext4/fs.rs"], [("Ext4Fs::read_inode, read_block", "src/ext4/fs.rs")], ["device seek/read positions"], HOOK)
p("C17", "Inode attributes are decoded faithfully",
  "Every attribute reported for an inode (type, permissions, owner, group, size, links, block count, flags, version, generation, ACL, checksum, project, times, block area) equals the combination of fields at the documented ext4 inode offsets, where fields beyond 128 bytes count only as far as the inode's recorded extra size and the inode record reach and read as zero otherwise. Decoding never panics for a record of at least 128 bytes.",
  ["inputs"], "All inode records of 128 bytes and more.",
  "Tests decode one captured root inode.",
  ["src/ext4/inode/inode.rs", "src/ext4/inode/file_mode.rs", "src/ext4/inode/file_type.rs"],
  [("Inode::new and accessors", "src/ext4/inode/inode.rs")], ["Inode accessors"], HOOK)
p("C18", "Extended timestamps are decoded as ext4 defines them",
  "A timestamp equals 1970-01-01 plus the signed 32-bit seconds field plus 2^32 seconds times the low two bits of the extra field plus the upper 30 bits of the extra field in nanoseconds. This holds for every pair of fields, without panics.",
  ["inputs"], "All 2^64 field pairs.",
  "Tests check twelve pairs.",
  ["src/ext4/inode/time.rs"], [("decode_extra_time", "src/ext4/inode/time.rs")], ["return value"], HOOK)
p("C19", "Extent tree nodes are validated and decoded as ext4 defines them",
  "A node is valid exactly when it holds a header with magic f30a, does not use more entries than its capacity, its capacity (and checksum tail, if the file system has metadata checksums and the node is not in the inode) fits in its storage, and the tail equals the CRC32C of everything before it. In a valid node entry i is decoded from offset 12 + 12*i: logical block, length (up to 32768 written, above it unwritten with length minus 32768) and 48-bit physical block for extents, logical block and 48-bit child block for indices, and entries beyond the count are absent.",
  ["inputs"], "All node contents (the check bounds the node size) and all entry contents.",
  "Tests decode one in-inode leaf with one extent.",
  ["src/ext4/extent/tree.rs", "src/ext4/extent/extent.rs", "src/ext4/extent/index.rs"],
  [("ExtentTreeInternal::valid, extent_at, subtree_index_at", "src/ext4/extent/tree.rs"), ("Extent", "src/ext4/extent/extent.rs"), ("ExtentIndex", "src/ext4/extent/index.rs")],
  ["ExtentTree accessors"], HOOK)
p("C20", "File contents are read in order, complete and bounded by the size",
  "Successive block reads of a file return the file's blocks in logical order, each with the contents of the physical block its extent tree maps (zeros for unwritten extents), the last one cut at the file size, and report the end only when exactly the file size has been returned. A hole, an out-of-order or overlapping mapping, mapped blocks past the end, a missing or invalid tree node, a child whose depth is not one less than its parent's, or a device error gives an error instead of wrong or missing bytes, never a panic or an endless loop.",
  ["inputs", "histories", "fault_sequences"], "All extent trees, sizes and device contents; the step contract is unbounded, whole-file runs are bounded.",
  "Tests read the single block of one root directory.",
  ["src/ext4/file.rs", "src/ext4/extent/tree.rs", "src/ext4/regular_file.rs"],
  [("Ext4FileInternal::read_next_block", "src/ext4/file.rs")], ["read_next_block results"], HOOK,
  [{"name": "read_stack, block_pos, byte_pos", "meaning": "path of unread tree nodes/extents; next logical block; bytes returned so far", "where": "src/ext4/file.rs"}])
p("C21", "Directories list exactly the recorded entries",
  "Reading a directory returns the entries of each of its blocks in order, each with the inode number, file type and name (of the recorded name length) stored at its record, advancing by the recorded record length and stopping in a block at the first record that does not fit or is shorter than its name requires. With metadata checksums every block must end in a well-formed tail whose checksum equals the CRC32C of the bytes before it, or reading it is an error; nothing panics, and entries never come from the tail.",
  ["inputs"], "All directory block contents (the check bounds the block size).",
  "Tests list one captured root directory block.",
  ["src/ext4/directory/dir_entry.rs", "src/ext4/directory/block.rs", "src/ext4/directory/directory.rs"],
  [("DirEntry::from_buf, name", "src/ext4/directory/dir_entry.rs"), ("Ext4DirectoryBlock", "src/ext4/directory/block.rs"), ("Ext4Directory::read_next_entry", "src/ext4/directory/directory.rs")],
  ["read_next_entry results"], HOOK)
p("C22", "The checksum is ext4's CRC32C",
  "The checksum of a byte string with a given seed is the bitwise CRC-32C (reflected polynomial 82f63b78, no final inversion) started from that seed, so that checksumming a concatenation equals chaining the checksums of its parts. The initial seed is ffffffff.",
  ["inputs"], "All seeds and byte strings.",
  "One test compares a two-byte string with its parts; no test compares with a reference value.",
  ["src/ext4/crc.rs"], [("ext4_crc32c", "src/ext4/crc.rs")], ["return value"], HOOK)
p("C23", "ext4 names compare, order and hash by their bytes",
  "Two names are equal exactly when their bytes are equal, ordering is the lexicographic order of the bytes and is consistent with equality, and equal names hash equally, whatever mixture of storage types holds them. A name taken from NUL-terminated storage is the bytes before the first NUL, or all of them if there is none.",
  ["inputs"], "All byte strings (the check bounds their length).",
  "Names in tests are short ASCII.",
  ["src/ext4/string.rs"], [("Ext4String: Eq, Ord, Hash, from_null_terminated_bytes", "src/ext4/string.rs")], ["==, cmp, hash"], HOOK)
p("C24", "Block group descriptors are decoded faithfully at any descriptor size",
  "Each reported attribute of a group descriptor equals the combination of its low and high little-endian fields at the documented ext4 offsets. Descriptors shorter than 64 bytes read as if extended with zeros, and longer ones have the excess ignored, without panics.",
  ["inputs"], "All descriptor contents and lengths.",
  "One captured descriptor is decoded; its high halves are zero.",
  ["src/ext4/block_group/descriptor.rs"], [("BlockGroupDescriptor", "src/ext4/block_group/descriptor.rs")], ["descriptor accessors"], HOOK)
p("C25", "Device identities are unique and stable",
  "Every opened device gets an identity that compares unequal to every other device's identity even when both were given the same path, and equal to its own clones, and equal identities hash equally. The identity does not depend on the user-supplied reference.",
  ["histories", "schedules"], "All sequences of identity creations.",
  "No test creates an identity.",
  ["src/md/device/id.rs"], [("MdDeviceId", "src/md/device/id.rs")], ["==, hash"], HOOK)
p("C26", "Grouping by key loses and invents nothing",
  "Grouping a sequence of (key, value) pairs yields one group per distinct key, containing exactly the values paired with that key in their original order. An empty sequence yields no groups.",
  ["inputs"], "All sequences (the check bounds their length).",
  "No test covers it.",
  ["src/ext/multi_map.rs"], [("MultiMap::from_multi_iter", "src/ext/multi_map.rs")], ["returned map"], HOOK)

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
