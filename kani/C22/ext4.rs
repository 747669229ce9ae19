// ext4_crc32c against the bitwise definition of CRC-32C.
use super::crc::{ext4_crc32c, EXT4_CRC32C_INITIAL};
use crate::verif::{contract, explored, reach};
#[cfg(not(kani))]
use crate::verif::shim as kani;

fn bitwise(seed: u32, bytes: &[u8]) -> u32 {
    let mut crc = seed;
    let mut i = 0;
    while i < bytes.len() {
        crc ^= u32::from(bytes[i]);
        let mut bit = 0;
        while bit < 8 {
            crc = if crc & 1 == 1 { (crc >> 1) ^ 0x82f63b78 } else { crc >> 1 };
            bit += 1;
        }
        i += 1;
    }
    crc
}

contract! {
    #[kani::unwind(10)]
    fn initial_seed() {
        assert!(EXT4_CRC32C_INITIAL == 0xffffffff);
        let seed: u32 = kani::any();
        assert!(ext4_crc32c(seed, []) == seed, "empty string");
    }
}
contract! {
    #[kani::unwind(10)]
    fn one_byte_step() {
        let seed: u32 = kani::any();
        let byte: u8 = kani::any();
        assert!(ext4_crc32c(seed, [byte]) == bitwise(seed, &[byte]));
    }
}
contract! {
    #[kani::unwind(10)]
    fn two_bytes_chain() {
        let seed: u32 = kani::any();
        let b: [u8; 2] = kani::any();
        assert!(ext4_crc32c(seed, b) == ext4_crc32c(ext4_crc32c(seed, [b[0]]), [b[1]]));
    }
}
contract! {
    #[kani::unwind(10)]
    fn short_strings() {
        let seed: u32 = kani::any();
        let b: [u8; 3] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 3);
        assert!(ext4_crc32c(seed, &b[..n]) == bitwise(seed, &b[..n]));
        reach!(n == 3);
    }
}
contract! {
    #[kani::unwind(10)]
    fn chaining() {
        let seed: u32 = kani::any();
        let b: [u8; 3] = kani::any();
        let k: usize = kani::any();
        kani::assume(k <= 3);
        assert!(ext4_crc32c(seed, b) == ext4_crc32c(ext4_crc32c(seed, &b[..k]), &b[k..]));
        reach!(k == 2);
    }
}
#[cfg(not(kani))]
fn long_string() {
    let n: u16 = kani::any();
    let n = usize::from(n % 5000);
    let b: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(31) ^ (i >> 8) as u8 ^ n as u8).collect();
    let seed: u32 = kani::any();
    let k = if n == 0 { 0 } else { seed as usize % n };
    assert!(ext4_crc32c(seed, &b) == bitwise(seed, &b));
    assert!(ext4_crc32c(seed, &b) == ext4_crc32c(ext4_crc32c(seed, &b[..k]), &b[k..]));
}
explored! { fn long_strings() { long_string() } }
