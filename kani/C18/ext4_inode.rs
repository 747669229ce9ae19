// decode_extra_time against the ext4 definition of extended timestamps.
use super::time::decode_extra_time;
use crate::verif::{contract, reach};
#[cfg(not(kani))]
use crate::verif::shim as kani;

contract! {
    #[kani::stub(chrono::NaiveDateTime::checked_add_signed, crate::verif::chrono_contract::checked_add_signed)]
    #[kani::stub(chrono::DateTime::from_timestamp, crate::verif::chrono_contract::from_timestamp)]
    fn extended_timestamp() {
        let (base, extra): (u32, u32) = (kani::any(), kani::any());
        let (got_seconds, got_nanos) = crate::verif::observe(decode_extra_time(base, extra));
        let seconds = (base as i32 as i64) + ((extra & 3) as i64) * 0x1_0000_0000;
        let nanos = extra >> 2;
        // 30 bits can hold slightly more than a second
        let carry = i64::from(nanos >= 1_000_000_000);
        let rest = if nanos >= 1_000_000_000 { nanos - 1_000_000_000 } else { nanos };
        assert!(got_seconds == seconds + carry, "seconds since 1970");
        assert!(got_nanos == rest, "nanoseconds");
        reach!(carry == 1);
        reach!(seconds < 0);
        reach!(seconds > 0x3_0000_0000);
    }
}
