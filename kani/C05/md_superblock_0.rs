// The contract of SuperblockVersion0::read, as far as a caller sees it.
use super::device_descriptor::DeviceDescriptor;
use super::superblock::SuperblockVersion0;
use crate::md::algorithm::MdAlgorithm;
use crate::md::superblock::{MdDeviceRole, ReshapeStatus};
use crate::md::units::{CheckpointEventCount, DeviceCount, MetadataEventCount, SectorCount, SectorNumber};

#[cfg(kani)]
pub fn version_0_by_contract<R: std::io::Read>(mut reader: R) -> std::io::Result<SuperblockVersion0> {
    let mut seen = [0u8; 10];
    let _ = reader.read(&mut seen);
    if seen[9] == 0 {
        return Err(std::io::ErrorKind::InvalidData.into());
    }
    Ok(SuperblockVersion0 {
        magic: 0,
        major_version: 0,
        minor_version: 90,
        patch_version: 0,
        gvalid_words: 0,
        array_uuid_0: 0,
        ctime: 0,
        level: 0,
        sectors_per_device: SectorCount(0),
        total_device_count: DeviceCount(0),
        raid_device_count: DeviceCount(0),
        md_minor: 0,
        not_persistent: 0,
        array_uuid_1: 0,
        array_uuid_2: 0,
        array_uuid_3: 0,
        utime: 0,
        state: 0,
        active_device_count: DeviceCount(0),
        working_device_count: DeviceCount(0),
        failed_device_count: DeviceCount(0),
        spare_device_count: DeviceCount(0),
        superblock_checksum: 0,
        event_count: MetadataEventCount(u64::from_le_bytes([seen[0], seen[1], seen[2], seen[3], seen[4], seen[5], seen[6], seen[7]])),
        checkpoint_event_count: CheckpointEventCount(0),
        recovery_checkpoint: 0,
        reshape_status: ReshapeStatus {
            new_algorithm: MdAlgorithm::Unsupported { level: 0, layout: 0 },
            reshape_position: SectorNumber(0),
            delta_devices: DeviceCount(0),
            new_chunk_size: SectorCount(0),
            new_offset: 0,
        },
        layout: 0,
        chunk_size: SectorCount(0),
        root_pv: 0,
        root_block: 0,
        devices: Vec::new(),
        this_device: DeviceDescriptor { index: 0, major: 0, minor: 0, role: role(), state: 0 },
    })
}
#[cfg(kani)]
fn role() -> MdDeviceRole {
    <MdDeviceRole as binary_layout::LayoutAs<u32>>::try_read(0).unwrap()
}
