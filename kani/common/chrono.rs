
// ---------------------------------------------------------------------------
/// chrono by contract (an assumption): adding a duration to a date-time and
/// making one from a time stamp are exact.  Date-times made under verification
/// are tokens (days of 1970) whose values stand in a ghost table.
#[cfg(kani)]
#[allow(dead_code)]
pub mod chrono_contract {
    use chrono::{DateTime, Datelike, NaiveDate, NaiveDateTime, TimeDelta, Utc};
    pub static mut USED: usize = 1;
    pub static mut VALUE: [(i64, u32); 32] = [(0, 0); 32];

    fn token(seconds: i64, nanos: u32) -> NaiveDateTime {
        unsafe {
            assert!(USED < 32);
            VALUE[USED] = (seconds, nanos);
            USED += 1;
            NaiveDate::from_yo_opt(1970, USED as u32).unwrap().and_hms_opt(0, 0, 0).unwrap()
        }
    }
    pub fn value(time: NaiveDateTime) -> (i64, u32) {
        let i = time.ordinal() as usize - 1;
        unsafe {
            assert!(i < USED);
            VALUE[i]
        }
    }
    pub fn checked_add_signed(time: NaiveDateTime, delta: TimeDelta) -> Option<NaiveDateTime> {
        let (seconds, nanos) = value(time);
        let mut seconds = seconds + delta.num_seconds();
        let mut nanos = nanos as i32 + delta.subsec_nanos();
        if nanos < 0 {
            nanos += 1_000_000_000;
            seconds -= 1;
        }
        if nanos >= 1_000_000_000 {
            nanos -= 1_000_000_000;
            seconds += 1;
        }
        Some(token(seconds, nanos as u32))
    }
    pub fn from_timestamp(seconds: i64, nanos: u32) -> Option<DateTime<Utc>> {
        if nanos >= 1_000_000_000 {
            None
        } else {
            Some(token(seconds, nanos).and_utc())
        }
    }
}

#[cfg(kani)]
#[allow(dead_code, static_mut_refs)]
pub fn observe(time: chrono::DateTime<chrono::Utc>) -> (i64, u32) {
    if unsafe { chrono_contract::USED } > 1 {
        chrono_contract::value(time.naive_utc())
    } else {
        (time.timestamp(), time.timestamp_subsec_nanos())
    }
}
#[cfg(not(kani))]
#[allow(dead_code, static_mut_refs)]
pub fn observe(time: chrono::DateTime<chrono::Utc>) -> (i64, u32) {
    (time.timestamp(), time.timestamp_subsec_nanos())
}

