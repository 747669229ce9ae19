// Gives the file contracts a file system without going through open().
use super::Ext4Fs;
use crate::block_device::BlockDevice;
use crate::ext4::superblock::Superblock;
use std::io::{Read, Seek};
use std::rc::Rc;

impl<D: BlockDevice + Read + Seek> Ext4Fs<D> {
    #[allow(dead_code)]
    pub(in crate::ext4) fn assembled(device: D, superblock: Vec<u8>) -> Self {
        Ext4Fs {
            device,
            superblock: Rc::new(Superblock::new(superblock)),
            group_descriptors: Rc::new(Vec::new()),
        }
    }
}
