
// ---------------------------------------------------------------------------
/// ext4_crc32c by contract, for callers: under Kani it is an arbitrary function
/// of (seed, bytes) - C22 settles which one - so an obligation about a caller
/// settles that the right bytes are checksummed from the right seed.  Natively
/// the real function runs against the bit-by-bit definition.
#[allow(dead_code)]
pub mod crc {
    #[cfg(not(kani))]
    pub fn spec(seed: u32, bytes: &[u8]) -> u32 {
        let mut crc = seed;
        for b in bytes {
            crc ^= u32::from(*b);
            for _ in 0..8 {
                crc = if crc & 1 == 1 { (crc >> 1) ^ 0x82f63b78 } else { crc >> 1 };
            }
        }
        crc
    }

    #[cfg(kani)]
    pub fn spec(seed: u32, bytes: &[u8]) -> u32 {
        function(seed, bytes)
    }

    #[cfg(kani)]
    const MAX: usize = 6;
    #[cfg(kani)]
    static mut CALLS: [(u32, *const u8, usize, u32); MAX] = [(0, std::ptr::null(), 0, 0); MAX];
    #[cfg(kani)]
    static mut USED: usize = 0;

    /// Small contents are remembered by value, large ones by address (nothing
    /// under contract changes a buffer once it has been checksummed).
    #[cfg(kani)]
    static mut SMALL: [[u8; 4]; MAX] = [[0; 4]; MAX];

    #[cfg(kani)]
    pub fn function<B: AsRef<[u8]>>(seed: u32, bytes: B) -> u32 {
        let bytes = bytes.as_ref();
        unsafe {
            let mut small = [0u8; 4];
            if bytes.len() <= 4 {
                let mut j = 0;
                while j < bytes.len() {
                    small[j] = bytes[j];
                    j += 1;
                }
            }
            let mut i = 0;
            while i < USED {
                let (s, p, n, result) = CALLS[i];
                if n == bytes.len() && s == seed {
                    let same = if n <= 4 { SMALL[i] == small } else { p == bytes.as_ptr() };
                    if same {
                        return result;
                    }
                }
                i += 1;
            }
            assert!(USED < MAX);
            let result = kani::any();
            CALLS[USED] = (seed, bytes.as_ptr(), bytes.len(), result);
            SMALL[USED] = small;
            USED += 1;
            result
        }
    }
}
