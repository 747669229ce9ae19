// Extent tree nodes against the ext4 disk layout (struct ext4_extent_header,
// ext4_extent, ext4_extent_idx, ext4_extent_tail), for nodes of any size.
use super::extent::ExtentTree;
use super::inode::Inode;
use super::superblock::Superblock;
use super::units::InodeNumber;
use crate::verif::{contract, explored, reach};
#[cfg(not(kani))]
use crate::verif::shim as kani;

fn u16_at(b: &[u8], at: usize) -> u16 {
    u16::from(b[at]) | u16::from(b[at + 1]) << 8
}
fn u32_at(b: &[u8], at: usize) -> u32 {
    u32::from(u16_at(b, at)) | u32::from(u16_at(b, at + 2)) << 16
}

/// An inode of a file system with or without metadata checksums.
fn inode(checksums: bool, record: &[u8]) -> Inode {
    let mut sb = [0u8; 1024];
    if checksums {
        sb[0x65] = 4;
    }
    Inode::new(&Superblock::new(&sb[..]), InodeNumber(12), record)
}

/// A node stored in a block, natively often a nearly valid one.
fn node() -> Vec<u8> {
    #[cfg(kani)]
    let bytes = crate::verif::any_bytes(0);
    #[cfg(not(kani))]
    let bytes = {
        let shape: [u8; 4] = kani::any();
        let max = usize::from(shape[0] % 20);
        let len = 12 + 12 * max + usize::from(shape[1] % 20);
        let mut bytes = crate::verif::bytes_of_length(len);
        if shape[2] % 16 != 0 {
            bytes[0] = 0x0a;
            bytes[1] = 0xf3;
        }
        let max = if shape[2] / 16 == 0 { max + 1 } else { max };
        let used = usize::from(shape[3]) % (max + 2);
        bytes[2..6].copy_from_slice(&[used as u8, 0, max as u8, 0]);
        if shape[1] & 64 != 0 {
            bytes[6] = shape[1] >> 7;
            bytes[7] = 0;
        }
        bytes
    };
    kani::assume(bytes.len() >= 12);
    bytes
}
/// Natively: store the right checksum behind the capacity, if it fits.
#[allow(unused_variables)]
fn seal(bytes: &mut [u8], seed: Option<u32>) {
    #[cfg(not(kani))]
    {
        let end = 12 + 12 * usize::from(u16_at(bytes, 4));
        if let (Some(seed), true) = (seed, end + 4 <= bytes.len() && kani::any::<u8>() % 8 != 0) {
            let sum = crate::verif::crc::spec(seed, &bytes[..end]).to_le_bytes();
            bytes[end..end + 4].copy_from_slice(&sum);
        }
    }
}

fn acceptable(b: &[u8], seed: Option<u32>) -> bool {
    let max = usize::from(u16_at(b, 4));
    let end = 12 + 12 * max;
    let tail = if seed.is_some() { 4 } else { 0 };
    u16_at(b, 0) == 0xf30a
        && usize::from(u16_at(b, 2)) <= max
        && end + tail <= b.len()
        && match seed {
            None => true,
            Some(seed) => u32_at(b, end) == crate::verif::crc::spec(seed, &b[..end]),
        }
}

fn validity(checksums: bool) {
    let record: [u8; 160] = kani::any();
    let inode = inode(checksums, &record);
    let seed = inode.metadata_checksum_seed();
    assert!(seed.is_some() == checksums);
    let mut bytes = node();
    seal(&mut bytes, seed);
    let tree = ExtentTree::from_block(&inode, &bytes[..]);
    let (valid, wanted) = (tree.valid(), acceptable(&bytes, seed));
    assert!(valid == wanted);
    assert!(tree.depth() == u16_at(&bytes, 6));
    assert!(matches!(tree, ExtentTree::Leaf(_)) == (u16_at(&bytes, 6) == 0));
    assert!(tree.entry_count() == usize::from(u16_at(&bytes, 2)));
    reach!(valid && bytes.len() == 1024 && u16_at(&bytes, 4) == 84);
    reach!(!valid && u16_at(&bytes, 0) == 0xf30a && u16_at(&bytes, 2) <= u16_at(&bytes, 4));
    reach!(valid && u16_at(&bytes, 2) < u16_at(&bytes, 4) && tree.depth() == 3);
    reach!(valid && u16_at(&bytes, 4) == 0);
}
contract! {
    #[kani::stub(crate::ext4::crc::ext4_crc32c, crate::verif::crc::function)]
    #[kani::unwind(7)]
    fn blocks_without_checksums() {
        validity(false);
    }
}
contract! {
    #[kani::stub(crate::ext4::crc::ext4_crc32c, crate::verif::crc::function)]
    #[kani::unwind(7)]
    fn blocks_with_checksums() {
        validity(true);
    }
}

/// The entries of a valid node.
fn entries<S: AsRef<[u8]>>(tree: &ExtentTree<S>, b: &[u8], i: usize) {
    let used = usize::from(u16_at(b, 2));
    let at = 12 + 12 * i;
    match tree {
        ExtentTree::Leaf(leaf) => {
            assert!(leaf.extent_count() == used);
            assert!(leaf.max_extents() == usize::from(u16_at(b, 4)));
            assert!(leaf.generation() == u32_at(b, 8));
            match leaf.extent_at(i) {
                None => assert!(i >= used, "entries in use are there"),
                Some(e) => {
                    assert!(i < used);
                    let length = u16_at(b, at + 4);
                    assert!(e.first_file_block_number().0 == u32_at(b, at));
                    assert!(e.initialized() == (length <= 32768));
                    assert!(e.length().0 == if length <= 32768 { length } else { length - 32768 });
                    assert!(
                        e.first_fs_block_number().0
                            == u64::from(u32_at(b, at + 8)) | u64::from(u16_at(b, at + 6)) << 32
                    );
                    let kept = e.into_owned();
                    assert!(kept.first_file_block_number().0 == u32_at(b, at));
                    assert!(kept.length().0 == if length <= 32768 { length } else { length - 32768 });
                    assert!(kept.initialized() == (length <= 32768));
                    assert!(
                        kept.first_fs_block_number().0
                            == u64::from(u32_at(b, at + 8)) | u64::from(u16_at(b, at + 6)) << 32
                    );
                    std::mem::forget(kept);
                    reach!(length == 32768);
                    reach!(length == 32769);
                }
            }
        }
        ExtentTree::Branch(branch) => {
            assert!(branch.subtree_count() == used);
            assert!(branch.max_subtrees() == usize::from(u16_at(b, 4)));
            assert!(branch.generation() == u32_at(b, 8));
            match branch.subtree_index_at(i) {
                None => assert!(i >= used, "entries in use are there"),
                Some(x) => {
                    assert!(i < used);
                    assert!(x.block().0 == u32_at(b, at));
                    assert!(x.leaf().0 == u64::from(u32_at(b, at + 4)) | u64::from(u16_at(b, at + 8)) << 32);
                }
            }
        }
    }
}
contract! {
    #[kani::stub(crate::ext4::crc::ext4_crc32c, crate::verif::crc::function)]
    #[kani::unwind(7)]
    fn entries_of_blocks() {
        let record: [u8; 160] = kani::any();
        let inode = inode(kani::any(), &record);
        let mut bytes = node();
        seal(&mut bytes, inode.metadata_checksum_seed());
        let tree = ExtentTree::from_block(&inode, &bytes[..]);
        kani::assume(tree.valid());
        let i: usize = kani::any();
        kani::assume(i <= 0x10000);
        #[cfg(not(kani))]
        let i = i % 22;
        entries(&tree, &bytes, i);
        reach!(i == 339 && matches!(tree, ExtentTree::Leaf(_)));
        reach!(i == 0 && matches!(tree, ExtentTree::Branch(_)));
    }
}

fn inode_with_a_node() -> [u8; 160] {
    let record: [u8; 160] = kani::any();
    #[cfg(not(kani))]
    let record = {
        let mut r = record;
        let shape: [u8; 2] = kani::any();
        if shape[0] % 8 != 0 {
            r[0x28..0x2e].copy_from_slice(&[0x0a, 0xf3, shape[0] / 8 % 6, 0, shape[1] % 6, 0]);
            if shape[1] & 128 != 0 {
                r[0x2e] = 0;
                r[0x2f] = 0;
            }
            r[0x22] |= 8;
            r[0x23] &= !0x10;
        }
        r
    };
    record
}

contract! {
    #[kani::stub(crate::ext4::crc::ext4_crc32c, crate::verif::crc::function)]
    #[kani::unwind(7)]
    fn the_node_in_the_inode() {
        let record = inode_with_a_node();
        let inode = inode(kani::any(), &record);
        let flags = u32_at(&record, 0x20);
        match ExtentTree::from_inode(&inode) {
            None => assert!(flags & 0x80000 == 0 || flags & 0x10000000 != 0, "an extent tree is found"),
            Some(tree) => {
                assert!(flags & 0x80000 != 0 && flags & 0x10000000 == 0);
                let b = &record[0x28..0x28 + 60];
                assert!(tree.valid() == acceptable(b, None));
                assert!(tree.depth() == u16_at(b, 6));
                assert!(matches!(tree, ExtentTree::Leaf(_)) == (u16_at(b, 6) == 0));
                assert!(tree.entry_count() == usize::from(u16_at(b, 2)));
                reach!(!tree.valid() && u16_at(b, 0) == 0xf30a);
                reach!(tree.valid());
            }
        }
    }
}

contract! {
    #[kani::unwind(7)]
    fn entries_in_the_inode() {
        let record = inode_with_a_node();
        let inode = inode(false, &record);
        let b = &record[0x28..0x28 + 60];
        let i: usize = kani::any();
        #[cfg(not(kani))]
        let i = i % 5;
        kani::assume(i <= 4 && acceptable(b, None));
        if let Some(tree) = ExtentTree::from_inode(&inode) {
            entries(&tree, b, i);
            reach!(i == 3 && tree.entry_count() == 4);
        }
    }
}
contract! {
    #[kani::unwind(7)]
    fn entries_in_a_copy_of_the_inode() {
        let record = inode_with_a_node();
        let inode = inode(false, &record);
        let b = &record[0x28..0x28 + 60];
        let i: usize = kani::any();
        #[cfg(not(kani))]
        let i = i % 5;
        kani::assume(i <= 4 && acceptable(b, None));
        if let Some(tree) = ExtentTree::from_inode(&inode) {
            let copy = tree.to_owned();
            assert!(copy.valid() && copy.depth() == tree.depth());
            entries(&copy, b, i);
            reach!(i == 3 && copy.entry_count() == 4);
            std::mem::forget(copy);
        }
    }
}

explored! {
    fn owned_nodes_are_the_same() {
        let record: [u8; 160] = kani::any();
        let inode = inode(kani::any(), &record);
        let mut bytes = node();
        seal(&mut bytes, inode.metadata_checksum_seed());
        let tree = ExtentTree::from_block(&inode, bytes.clone());
        let copy = tree.to_owned();
        assert!(copy.valid() == tree.valid() && copy.depth() == tree.depth());
        if tree.valid() {
            entries(&copy, &bytes, kani::any::<usize>() % 22);
        }
    }
}
