// Reader faithfulness, on the representation (block_pos, byte_pos).
// Invariant: byte_pos < block size; the stream position is
// block_pos * size + byte_pos.
use super::BlockDeviceReader;
use crate::block_device::{BlockDevice, BlockNumber};
use crate::verif::{contract, reach, ProbeBlocks};
#[cfg(not(kani))]
use crate::verif::shim as kani;
use std::io::{Read, Seek, SeekFrom};

const MAX_BLOCK: u32 = 1 << 20;
const MAX_BUF: usize = 1 << 20;

fn any_reader() -> BlockDeviceReader<ProbeBlocks> {
    let device = ProbeBlocks {
        count: kani::any(),
        size: kani::any(),
        probe_block: kani::any(),
        probe_offset: kani::any(),
        value: kani::any(),
        fail: false,
    };
    kani::assume(device.size > 0 && device.size <= MAX_BLOCK);
    kani::assume(device.probe_offset < device.size);
    let byte_pos: usize = kani::any();
    kani::assume(byte_pos < device.size as usize);
    BlockDeviceReader { device, block_pos: BlockNumber(kani::any()), byte_pos }
}

contract! {
    fn read_hands_out_the_device_bytes() {
        let mut reader = any_reader();
        let device = reader.device.clone();
        let (block, offset) = (reader.block_pos.0, reader.byte_pos);
        let size = device.size as usize;
        let len: usize = kani::any();
        kani::assume(len <= MAX_BUF);
        let mut buf = vec![0u8; len];
        let n = reader.read(&mut buf).unwrap();
        assert!(n <= len, "no more than asked for");
        let rest = size - offset;
        if block >= device.count {
            assert!(n == 0, "nothing beyond the end of the device");
            assert!(reader.block_pos.0 == block && reader.byte_pos == offset);
        } else {
            assert!(len == 0 || n > 0, "0 would mean end of device");
            let i: usize = kani::any();
            kani::assume(i < len);
            if i < n && i < rest {
                assert!(buf[i] == device.content(block, offset + i), "byte i is device byte at position + i");
            }
            if i >= n {
                assert!(buf[i] == 0, "the rest of the buffer is untouched");
            }
            // the stream position moved by exactly n
            assert!(reader.byte_pos < size, "invariant");
            if n < rest {
                assert!(reader.block_pos.0 == block && reader.byte_pos == offset + n);
            } else if n == rest {
                assert!(reader.block_pos.0 == block + 1 && reader.byte_pos == 0);
            } else {
                assert!(reader.block_pos.0 > block);
            }
            reach!(n == rest && len > n);
            reach!(n < rest && n > 0);
            reach!(i < n && buf[i] != 0);
        }
        reach!(block >= device.count);
    }
}

contract! {
    fn a_failing_block_read_is_reported() {
        let mut reader = any_reader();
        reader.device.fail = true;
        let (block, offset) = (reader.block_pos.0, reader.byte_pos);
        kani::assume(block < reader.device.count);
        let len: usize = kani::any();
        kani::assume(len > 0 && len <= MAX_BUF);
        let mut buf = vec![0u8; len];
        assert!(reader.read(&mut buf).is_err());
        assert!(reader.block_pos.0 == block && reader.byte_pos == offset);
        let i: usize = kani::any();
        kani::assume(i < len);
        assert!(buf[i] == 0);
        reach!(true);
    }
}

fn seek_contract(size: u32) {
    let mut reader = any_reader();
    reader.device.size = size;
    reader.device.probe_offset = 0;
    kani::assume(reader.byte_pos < size as usize);
    let (block, offset) = (reader.block_pos.0, reader.byte_pos);
    let mode: u8 = kani::any();
    let distance: i64 = kani::any();
    let (request, base) = match mode {
        0 => (SeekFrom::Start(distance as u64), None),
        1 => (SeekFrom::End(distance), reader.device.count.checked_mul(u64::from(size))),
        _ => (
            SeekFrom::Current(distance),
            block.checked_mul(u64::from(size)).and_then(|b| b.checked_add(offset as u64)),
        ),
    };
    let target = match mode {
        0 => Some(distance as u64),
        _ => base.and_then(|b| b.checked_add_signed(distance)),
    };
    match reader.seek(request) {
        Ok(position) => {
            assert!(target == Some(position), "the position asked for");
            assert!(reader.byte_pos < size as usize, "invariant");
            assert!(
                reader.block_pos.0.checked_mul(u64::from(size)).and_then(|b| b.checked_add(reader.byte_pos as u64))
                    == Some(position),
                "the reader is where it says it is"
            );
            reach!(mode == 0);
            reach!(mode == 1 && distance < 0);
            reach!(mode == 2 && distance > 0);
        }
        Err(_) => {
            assert!(target.is_none(), "only positions outside 0..2^64 are refused");
            assert!(reader.block_pos.0 == block && reader.byte_pos == offset);
            reach!(true);
        }
    }
}

contract! { fn seek_block_size_1() { seek_contract(1) } }
contract! { fn seek_block_size_512() { seek_contract(512) } }
contract! { fn seek_block_size_520() { seek_contract(520) } }
contract! { fn seek_block_size_4096() { seek_contract(4096) } }
contract! { fn seek_block_size_3_times_2_20() { seek_contract(3 << 20) } }

contract! {
    fn clone_has_the_same_position() {
        let reader = any_reader();
        let copy = reader.try_clone().unwrap();
        assert!(copy.block_pos == reader.block_pos && copy.byte_pos == reader.byte_pos);
        assert!(copy.block_size().unwrap() == reader.block_size().unwrap());
        assert!(copy.block_count().unwrap() == reader.block_count().unwrap());
        assert!(reader.block_count().unwrap().0 == reader.device.count);
        assert!(reader.block_size().unwrap().0 == reader.device.size);
        let fresh = BlockDeviceReader::new(reader.device.clone());
        assert!(fresh.block_pos.0 == 0 && fresh.byte_pos == 0);
    }
}
