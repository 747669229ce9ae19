// Devices with a given superblock, for the harnesses of the array.
use super::{MdDevice, MdDeviceId, MdDeviceSuperblock};
use crate::block_device::BlockDevice;
use std::io::{Read, Seek};
use std::rc::Rc;

impl<D: BlockDevice + Read + Seek> MdDevice<D> {
    #[allow(dead_code)]
    pub(crate) fn with_superblock(superblock: MdDeviceSuperblock, device: D) -> Self {
        Self { id: Rc::new(MdDeviceId::new(None::<&str>)), superblock: Rc::new(superblock), device }
    }
}
