// Block reads of in-memory, file and native devices.
use super::{BlockCount, BlockDevice, BlockNumber, BlockSize, FileBlockDevice, InMemoryBlockDevice, NativeBlockDevice};
use crate::verif::{contract, explored, reach};
#[cfg(not(kani))]
use crate::verif::shim as kani;

/// A buffer of `len` bytes, all zero but one (`at`, if inside), and what a
/// correct read of block `n` of a medium of `size` bytes, all zero but one byte
/// `value` at `probe`, makes of its byte `at`.
struct Expect {
    block: u64,
    block_size: u32,
    len: usize,
    at: usize,
    before: u8,
    size: u64,
    probe: u64,
    value: u8,
}

impl Expect {
    fn new(max_size: u64, max_len: usize, block_size: u32) -> Self {
        let e = Self {
            block: kani::any(),
            block_size,
            len: kani::any(),
            at: kani::any(),
            before: kani::any(),
            size: kani::any(),
            probe: kani::any(),
            value: kani::any(),
        };
        kani::assume(e.size <= max_size && e.len <= max_len && e.at < e.len && e.probe < e.size);
        e
    }
    fn buffer(&self) -> Vec<u8> {
        let mut buf = memory(self.len);
        buf[self.at] = self.before;
        buf
    }
    fn check(&self, result: Result<usize, std::io::Error>, buf: &[u8], may_fail: bool) {
        let size = u128::from(self.block_size);
        let start = u128::from(self.block) * size;
        let inside = start + size <= u128::from(self.size);
        let valid = self.len as u128 >= size && inside;
        assert!(buf.len() == self.len);
        match result {
            Ok(n) => {
                assert!(valid, "a short buffer or a block outside the medium gives an error");
                assert!(n as u128 == size, "reports the block size");
                let byte = if (self.at as u128) < size {
                    if start + self.at as u128 == u128::from(self.probe) { self.value } else { 0 }
                } else {
                    self.before
                };
                assert!(buf[self.at] == byte, "the block in the first bytes, the rest untouched");
            }
            Err(_) => assert!(!valid || may_fail, "a block inside the medium is read"),
        }
        reach!(valid && self.len as u128 > size && start > 0);
        reach!(!inside && start < u128::from(self.size));
        reach!(start > u128::from(u64::MAX));
    }
}

/// `len` arbitrary bytes.
#[cfg(kani)]
fn memory(len: usize) -> Vec<u8> {
    let mut mem = Vec::with_capacity(len);
    unsafe { mem.set_len(len) };
    mem
}
#[cfg(not(kani))]
fn memory(len: usize) -> Vec<u8> {
    vec![0; len]
}

/// A medium of at most 24 and a buffer of at most 12 arbitrary bytes, any block
/// size up to 9 and any block number.
fn in_memory_small() {
    let contents: [u8; 24] = kani::any();
    let mut buf: [u8; 12] = kani::any();
    let before = buf;
    let (size, len): (usize, usize) = (kani::any(), kani::any());
    let block_size: u32 = kani::any();
    let block: u64 = kani::any();
    kani::assume(size <= 24 && len <= 12 && block_size >= 1 && block_size <= 9);
    let mut device = InMemoryBlockDevice::new(&contents[..size], BlockSize(block_size));
    assert!(device.block_size().unwrap() == BlockSize(block_size));
    let result = device.read_block(BlockNumber(block), &mut buf[..len]);
    let start = block as u128 * block_size as u128;
    let valid = len >= block_size as usize && start + block_size as u128 <= size as u128;
    let at: usize = kani::any();
    kani::assume(at < 12);
    match result {
        Ok(n) => {
            assert!(valid, "a short buffer or a block outside the medium gives an error");
            assert!(n == block_size as usize, "reports the block size");
            let byte = if at < n { contents[start as usize + at] } else { before[at] };
            assert!(buf[at] == byte, "the block in the first bytes, the rest untouched");
        }
        Err(_) => assert!(!valid, "a block inside the medium is read"),
    }
    reach!(valid && len > block_size as usize && start > 0);
    reach!(!valid && start < size as u128 && len >= block_size as usize);
    reach!(start > u64::MAX as u128);
}
contract! {
    #[kani::unwind(3)]
    fn in_memory_any_block() { in_memory_small() }
}

/// Sector-sized blocks, block by block (executed, not verified).
#[cfg(not(kani))]
fn in_memory_sectors(len: usize) {
    let contents: [u8; 1280] = std::array::from_fn(|i| (i * 7 + i / 256) as u8);
    let mut device = InMemoryBlockDevice::new(contents, BlockSize(512));
    for block in 0..4 {
        let mut buf = [0u8; 600];
        let result = device.read_block(BlockNumber(block), &mut buf[..len]);
        if block < 2 {
            assert!(matches!(result, Ok(512)));
            let at: usize = kani::any();
            kani::assume(at < 600);
            let byte = if at < 512 { contents[block as usize * 512 + at] } else { 0 };
            assert!(buf[at] == byte, "the block in the first bytes, the rest untouched");
        } else {
            assert!(result.is_err(), "blocks 2 and 3 are not completely inside");
        }
    }
    reach!(true);
}
explored! { fn in_memory_sector_blocks() { in_memory_sectors(512) } }
explored! { fn in_memory_sector_blocks_longer_buffer() { in_memory_sectors(600) } }

fn count(block_size: u32) {
    let size: usize = kani::any();
    kani::assume(size <= 1 << 16);
    let device = InMemoryBlockDevice::new(memory(size), BlockSize(block_size));
    let n = device.block_count().unwrap().0;
    let bs = u64::from(block_size);
    assert!(n * bs <= size as u64 && size as u64 - n * bs < bs, "the number of complete blocks");
    reach!(n == 3);
}
contract! {
    #[kani::unwind(3)]
    fn in_memory_count_512() { count(512) }
}
contract! {
    #[kani::unwind(3)]
    fn in_memory_count_4096() { count(4096) }
}
contract! {
    #[kani::unwind(3)]
    fn in_memory_count_1() { count(1) }
}
contract! {
    #[kani::unwind(3)]
    fn in_memory_count_520() { count(520) }
}

// ---------------------------------------------------------------------------
// files: std::fs::File by contract (seek sets the position; read hands out at
// least one and at most as many bytes as there are, from the position, or fails)

#[cfg(kani)]
mod file {
    use std::fs::{File, Metadata};
    use std::io::{Result, SeekFrom};
    use std::os::fd::FromRawFd;

    pub static mut SIZE: u64 = 0;
    pub static mut PROBE: u64 = 0;
    pub static mut VALUE: u8 = 0;
    static mut POS: u64 = 0;
    static mut SHORT: u8 = 1;
    pub static mut FAILS: bool = false;

    pub fn open(size: u64, probe: u64, value: u8) -> File {
        unsafe {
            SIZE = size;
            PROBE = probe;
            VALUE = value;
            POS = kani::any();
            FAILS = kani::any();
            File::from_raw_fd(3)
        }
    }
    pub fn may_fail() -> bool {
        unsafe { FAILS }
    }
    pub fn seek(_: &mut File, to: SeekFrom) -> Result<u64> {
        unsafe {
            POS = match to {
                SeekFrom::Start(p) => p,
                SeekFrom::Current(d) => POS.checked_add_signed(d).ok_or(std::io::ErrorKind::InvalidInput)?,
                SeekFrom::End(d) => SIZE.checked_add_signed(d).ok_or(std::io::ErrorKind::InvalidInput)?,
            };
            // the kernel refuses offsets that are negative as a loff_t
            if POS > i64::MAX as u64 {
                return Err(std::io::ErrorKind::InvalidInput.into());
            }
            Ok(POS)
        }
    }
    pub fn read(_: &mut File, buf: &mut [u8]) -> Result<usize> {
        unsafe {
            if FAILS {
                return Err(std::io::ErrorKind::PermissionDenied.into());
            }
            if POS >= SIZE || buf.is_empty() {
                return Ok(0);
            }
            let rest = SIZE - POS;
            let mut n = if (buf.len() as u64) < rest { buf.len() } else { rest as usize };
            if SHORT > 0 {
                SHORT -= 1;
                let k: usize = kani::any();
                kani::assume(k >= 1 && k <= n);
                n = k;
            }
            buf[..n].fill(0);
            if PROBE >= POS && PROBE - POS < n as u64 {
                buf[(PROBE - POS) as usize] = VALUE;
            }
            POS += n as u64;
            Ok(n)
        }
    }
    pub fn metadata(_: &File) -> Result<Metadata> {
        Ok(unsafe { std::mem::MaybeUninit::zeroed().assume_init() })
    }
    pub fn size(_: &Metadata) -> u64 {
        unsafe { SIZE }
    }
    pub fn close(device: impl Sized) {
        std::mem::forget(device)
    }
    pub fn native_block_size(_: &super::NativeBlockDevice) -> Result<super::BlockSize> {
        Ok(super::BlockSize(512))
    }
}
#[cfg(not(kani))]
mod file {
    use std::fs::File;
    use std::io::{Seek, SeekFrom, Write};

    /// A sparse file in the temporary directory, already unlinked.
    pub fn open(size: u64, probe: u64, value: u8) -> File {
        let path = std::env::temp_dir().join(format!("md-verif-{}", std::process::id()));
        let mut f = File::options().read(true).write(true).create(true).truncate(true).open(&path).unwrap();
        std::fs::remove_file(&path).unwrap();
        if f.set_len(size).is_err() || f.seek(SeekFrom::Start(probe)).is_err() || f.write_all(&[value]).is_err() {
            super::kani::assume(false);
        }
        f
    }
    pub fn may_fail() -> bool {
        false
    }
    pub fn close(_: impl Sized) {}
}

fn of_file(block_size: u32, max_len: usize) {
    let e = Expect::new(i64::MAX as u64, max_len, block_size);
    let mut device = FileBlockDevice::from_file(file::open(e.size, e.probe, e.value), BlockSize(block_size));
    assert!(device.block_size().unwrap() == BlockSize(block_size));
    let mut buf = e.buffer();
    let result = device.read_block(BlockNumber(e.block), &mut buf);
    let may_fail = file::may_fail();
    e.check(result, &buf, may_fail);
    reach!(may_fail);
    file::close(device);
}

contract! {
    #[kani::stub(<std::fs::File as std::io::Seek>::seek, file::seek)]
    #[kani::stub(<std::fs::File as std::io::Read>::read, file::read)]
    #[kani::unwind(4)]
    fn file_block_4096() { of_file(4096, 1 << 13) }
}
contract! {
    #[kani::stub(<std::fs::File as std::io::Seek>::seek, file::seek)]
    #[kani::stub(<std::fs::File as std::io::Read>::read, file::read)]
    #[kani::unwind(4)]
    fn file_block_512() { of_file(512, 1 << 10) }
}

fn file_count(block_size: u32) {
    let size: u64 = kani::any();
    kani::assume(size > 0 && size <= i64::MAX as u64);
    let device = FileBlockDevice::from_file(file::open(size, 0, 0), BlockSize(block_size));
    let n = device.block_count().unwrap().0;
    let bs = u64::from(block_size);
    assert!(n <= size / bs && size - n * bs < bs, "the number of complete blocks");
    file::close(device);
    reach!(n == 3);
}
contract! {
    #[kani::stub(std::fs::File::metadata, file::metadata)]
    #[kani::stub(<std::fs::Metadata as std::os::unix::fs::MetadataExt>::size, file::size)]
    #[kani::unwind(3)]
    fn file_count_512() { file_count(512) }
}
contract! {
    #[kani::stub(std::fs::File::metadata, file::metadata)]
    #[kani::stub(<std::fs::Metadata as std::os::unix::fs::MetadataExt>::size, file::size)]
    #[kani::unwind(3)]
    fn file_count_4096() { file_count(4096) }
}

contract! {
    #[kani::stub(<std::fs::File as std::io::Seek>::seek, file::seek)]
    #[kani::stub(<std::fs::File as std::io::Read>::read, file::read)]
    #[kani::stub(<NativeBlockDevice as BlockDevice>::block_size, file::native_block_size)]
    #[kani::unwind(4)]
    fn native_block() {
        let e = Expect::new(i64::MAX as u64, 1 << 10, 512);
        let mut device = NativeBlockDevice::from_file(file::open(e.size, e.probe, e.value));
        // natively there is no block device to ask for its size
        kani::assume(device.block_size().is_ok());
        let mut buf = e.buffer();
        let result = device.read_block(BlockNumber(e.block), &mut buf);
        let may_fail = file::may_fail();
        e.check(result, &buf, may_fail);
        reach!(may_fail);
        file::close(device);
    }
}
