// Support code for the contract harnesses.  Compiled into the real crate (as
// `crate::verif`) only under `--cfg md_verif`.
//
// * under `cfg(kani)`: the harnesses are deductive obligations; `kani::any()` is
//   an arbitrary value and the std hash containers are replaced by association
//   lists (their documented contract; an assumption listed in the evidence).
// * otherwise: the same harness bodies run natively; `kani::any()` is read from
//   a replay file (a counterexample of the verifier) or from a seeded generator.

#[allow(unused_macros)]
macro_rules! contract {
    ($(#[$m:meta])* fn $name:ident() $body:block) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::stub(<core::io::CustomOwner as core::ops::Drop>::drop, crate::verif::no_destructor)]
        $(#[$m])*
        fn $name() $body

        #[cfg(all(test, not(kani)))]
        #[test]
        fn $name() {
            crate::verif::shim::run(|| $body)
        }
    };
}
#[allow(unused_imports)]
pub(crate) use contract;

/// A cross-check that is only executed natively on sampled inputs (never
/// counted as proved).
#[allow(unused_macros)]
macro_rules! explored {
    (fn $name:ident() $body:block) => {
        #[cfg(all(test, not(kani)))]
        #[test]
        fn $name() {
            crate::verif::shim::run_longer(|| $body)
        }
    };
}
#[allow(unused_imports)]
pub(crate) use explored;

/// Reachability (anti-vacuity) obligation: some execution gets here with `$c`.
#[allow(unused_macros)]
macro_rules! reach {
    ($c:expr) => {
        #[cfg(kani)]
        kani::cover!($c);
        #[cfg(not(kani))]
        let _ = &$c;
    };
}
#[allow(unused_imports)]
pub(crate) use reach;

#[cfg(not(kani))]
pub mod shim {
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::sync::Mutex;
    use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

    struct Skip;

    enum Source {
        Bytes(Vec<u8>, usize),
        Random(u64),
    }

    thread_local! {
        static SOURCE: RefCell<Source> = RefCell::new(Source::Random(1));
    }
    static LOG: Mutex<Vec<u8>> = Mutex::new(Vec::new());
    static RUN: AtomicU64 = AtomicU64::new(0);

    /// Reports the current input when one run takes longer than 20 s.
    fn watchdog() {
        std::thread::spawn(|| {
            let mut last = u64::MAX;
            loop {
                let now = RUN.load(Ordering::SeqCst);
                if now == last {
                    println!("VERIF-INPUT: {}", hex(&LOG.lock().unwrap()));
                    println!("VERIF-HANG: no result after 20 s");
                    std::process::abort();
                }
                last = now;
                std::thread::sleep(std::time::Duration::from_secs(20));
            }
        });
    }

    fn splitmix(state: &mut u64) -> u64 {
        *state = state.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = *state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }

    fn draw(out: &mut [u8], scalar: bool) {
        SOURCE.with(|s| match &mut *s.borrow_mut() {
            Source::Bytes(bytes, pos) => {
                for b in out.iter_mut() {
                    *b = bytes.get(*pos).copied().unwrap_or(0);
                    *pos += 1;
                }
            }
            Source::Random(state) => {
                let mode = splitmix(state) % 8;
                let n = out.len();
                for b in out.iter_mut() {
                    *b = splitmix(state) as u8;
                }
                if scalar {
                    match mode {
                        0..=2 => {
                            // small value
                            for b in out.iter_mut().skip(1) {
                                *b = 0;
                            }
                            out[0] %= 9;
                        }
                        3 => out.fill(0xff),
                        4 => {
                            for b in out.iter_mut().skip(n.div_ceil(2)) {
                                *b = 0;
                            }
                        }
                        5 => {
                            // a power of two, plus or minus a little
                            let bit = (splitmix(state) as usize) % (n * 8);
                            let mut v = if n > 8 { 1u128 << bit } else { 1u128 << bit };
                            let d = (splitmix(state) % 3) as i32 - 1;
                            v = if d < 0 { v.wrapping_sub(1) } else { v.wrapping_add(d as u128) };
                            out.copy_from_slice(&v.to_le_bytes()[..n]);
                        }
                        _ => {}
                    }
                } else if mode == 0 {
                    out.fill(0);
                }
            }
        });
        LOG.lock().unwrap().extend_from_slice(out);
    }

    pub trait Arbitrary: Sized {
        fn any() -> Self;
    }
    macro_rules! ints { ($($t:ty),*) => { $(impl Arbitrary for $t { fn any() -> Self {
        let mut b = [0u8; std::mem::size_of::<$t>()];
        draw(&mut b, true);
        <$t>::from_le_bytes(b)
    } })* } }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    impl Arbitrary for bool {
        fn any() -> Self {
            let mut b = [0u8; 1];
            draw(&mut b, false);
            b[0] & 1 == 1
        }
    }
    impl<const N: usize> Arbitrary for [u8; N] {
        fn any() -> Self {
            let mut b = [0u8; N];
            draw(&mut b, false);
            b
        }
    }
    impl<const N: usize> Arbitrary for [u32; N] {
        fn any() -> Self {
            std::array::from_fn(|_| u32::any())
        }
    }
    impl<const N: usize> Arbitrary for [bool; N] {
        fn any() -> Self {
            std::array::from_fn(|_| bool::any())
        }
    }
    pub fn any<T: Arbitrary>() -> T {
        T::any()
    }
    #[allow(dead_code)]
    pub fn any_vec(len: usize) -> Vec<u8> {
        let mut v = vec![0; len];
        draw(&mut v, false);
        v
    }
    pub fn assume(condition: bool) {
        if !condition {
            resume_unwind(Box::new(Skip));
        }
    }
    fn hex(bytes: &[u8]) -> String {
        bytes.iter().map(|b| format!("{b:02x}")).collect()
    }

    fn once<F: Fn()>(f: &F) -> Result<bool, Box<dyn std::any::Any + Send>> {
        LOG.lock().unwrap().clear();
        RUN.fetch_add(1, Ordering::SeqCst);
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(()) => Ok(true),
            Err(e) if e.is::<Skip>() => Ok(false),
            Err(e) => Err(e),
        }
    }

    /// VERIF_REPLAY=<hex> runs the harness once on that input; otherwise
    /// VERIF_ITERS pseudo-random inputs are tried from VERIF_SEED.
    pub fn run<F: Fn()>(f: F) {
        run_for(f, 1)
    }
    /// Cross-checks that are only executed get more time.
    #[allow(dead_code)]
    pub fn run_longer<F: Fn()>(f: F) {
        run_for(f, 8)
    }
    fn run_for<F: Fn()>(f: F, times: u64) {
        watchdog();
        if let Ok(hexed) = std::env::var("VERIF_REPLAY") {
            let bytes = (0..hexed.len() / 2)
                .map(|i| u8::from_str_radix(&hexed[2 * i..2 * i + 2], 16).unwrap())
                .collect();
            SOURCE.with(|s| *s.borrow_mut() = Source::Bytes(bytes, 0));
            match once(&f) {
                Ok(true) => println!("VERIF-REPLAY: held"),
                Ok(false) => println!("VERIF-REPLAY: precondition not met"),
                Err(e) => {
                    println!("VERIF-REPLAY: failed");
                    resume_unwind(e)
                }
            }
            return;
        }
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let iters: u64 =
            std::env::var("VERIF_ITERS").ok().and_then(|s| s.parse().ok()).unwrap_or(2000);
        let hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| {}));
        let seconds: u64 =
            std::env::var("VERIF_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(60) * times;
        let start = std::time::Instant::now();
        let mut met = 0u64;
        let mut tried = 0u64;
        let mut failed = None;
        for i in 0..iters {
            if start.elapsed().as_secs() >= seconds {
                break;
            }
            tried += 1;
            let mut state = seed.wrapping_mul(0x2545f4914f6cdd1d) ^ (i << 20);
            splitmix(&mut state);
            SOURCE.with(|s| *s.borrow_mut() = Source::Random(state));
            match once(&f) {
                Ok(true) => met += 1,
                Ok(false) => {}
                Err(e) => {
                    failed = Some(e);
                    break;
                }
            }
        }
        std::panic::set_hook(hook);
        println!("VERIF-EXPLORED: tried={tried} nontrivial={met}");
        if let Some(e) = failed {
            let text = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            println!("VERIF-INPUT: {}", hex(&LOG.lock().unwrap()));
            panic!("contract broken: {text}");
        }
    }
}

#[cfg(not(kani))]
#[allow(unused_imports)]
use shim as kani;

// ---------------------------------------------------------------------------
// std hash containers

#[cfg(not(kani))]
#[allow(unused_imports)]
pub use std::collections::{HashMap, HashSet};
#[cfg(kani)]
#[allow(unused_imports)]
pub use assoc::{HashMap, HashSet};

/// `HashMap`/`HashSet` as association lists: the contract of the std types
/// (at most one entry per key, lookup by `Eq`, iteration in some order).
#[cfg(kani)]
pub mod assoc {
    use std::borrow::Borrow;

    /// At most `CAP` values, kept in place.
    #[derive(Clone, Debug)]
    pub struct Slots<T> {
        slots: [Option<T>; CAP],
        len: usize,
    }
    const CAP: usize = 4;

    impl<T> Slots<T> {
        pub fn new() -> Self {
            Self { slots: [const { None }; CAP], len: 0 }
        }
        pub fn len(&self) -> usize {
            self.len
        }
        pub fn is_empty(&self) -> bool {
            self.len == 0
        }
        pub fn push(&mut self, value: T) {
            assert!(self.len < CAP, "harness bound: at most 4 entries in a hash container");
            self.slots[self.len] = Some(value);
            self.len += 1;
        }
        pub fn remove(&mut self, at: usize) -> T {
            let value = self.slots[at].take();
            let mut i = at + 1;
            while i < self.len {
                self.slots[i - 1] = self.slots[i].take();
                i += 1;
            }
            self.len -= 1;
            value.unwrap()
        }
        pub fn clear(&mut self) {
            *self = Self::new();
        }
        pub fn iter(&self) -> SlotsIter<'_, T> {
            SlotsIter { slots: &self.slots[..self.len], next: 0 }
        }
        pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut T> {
            self.slots.iter_mut().flatten()
        }
        pub fn take(&mut self) -> Self {
            std::mem::replace(self, Self::new())
        }
        pub fn retain_mut<F: FnMut(&mut T) -> bool>(&mut self, mut f: F) {
            let mut i = 0;
            while i < self.len {
                if f(self.slots[i].as_mut().unwrap()) {
                    i += 1;
                } else {
                    self.remove(i);
                }
            }
        }
    }
    impl<T> std::ops::Index<usize> for Slots<T> {
        type Output = T;
        fn index(&self, i: usize) -> &T {
            self.slots[i].as_ref().unwrap()
        }
    }
    impl<T> std::ops::IndexMut<usize> for Slots<T> {
        fn index_mut(&mut self, i: usize) -> &mut T {
            self.slots[i].as_mut().unwrap()
        }
    }
    pub struct SlotsIter<'a, T> {
        slots: &'a [Option<T>],
        next: usize,
    }
    impl<T> Clone for SlotsIter<'_, T> {
        fn clone(&self) -> Self {
            Self { slots: self.slots, next: self.next }
        }
    }
    impl<'a, T> Iterator for SlotsIter<'a, T> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> {
            if self.next < self.slots.len() {
                self.next += 1;
                self.slots[self.next - 1].as_ref()
            } else {
                None
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = self.slots.len() - self.next;
            (n, Some(n))
        }
    }
    impl<T> ExactSizeIterator for SlotsIter<'_, T> {}
    pub struct IntoSlots<T> {
        slots: Slots<T>,
        next: usize,
    }
    impl<T> Iterator for IntoSlots<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            if self.next < self.slots.len {
                self.next += 1;
                self.slots.slots[self.next - 1].take()
            } else {
                None
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = self.slots.len - self.next;
            (n, Some(n))
        }
    }
    impl<T> ExactSizeIterator for IntoSlots<T> {}
    impl<T> IntoIterator for Slots<T> {
        type Item = T;
        type IntoIter = IntoSlots<T>;
        fn into_iter(self) -> IntoSlots<T> {
            IntoSlots { slots: self, next: 0 }
        }
    }

    #[derive(Clone, Debug)]
    pub struct HashMap<K, V>(pub Slots<(K, V)>);

    pub enum Entry<'a, K, V> {
        Occupied(&'a mut V, K),
        Vacant(&'a mut HashMap<K, V>, K),
    }

    impl<'a, K: Eq, V> Entry<'a, K, V> {
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(v, _) => v,
                Entry::Vacant(m, k) => {
                    m.0.push((k, f()));
                    let n = m.0.len();
                    &mut m.0[n - 1].1
                }
            }
        }
        pub fn or_insert(self, v: V) -> &'a mut V {
            self.or_insert_with(|| v)
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
            if let Entry::Occupied(v, _) = &mut self {
                f(v)
            }
            self
        }
    }

    impl<K, V> Default for HashMap<K, V> {
        fn default() -> Self {
            Self(Slots::new())
        }
    }

    impl<K, V> HashMap<K, V> {
        pub fn new() -> Self {
            Self(Slots::new())
        }
        pub fn with_capacity(_: usize) -> Self {
            Self(Slots::new())
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn clear(&mut self) {
            self.0.clear()
        }
        pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> + Clone {
            self.0.iter().map(|(k, v)| (k, v))
        }
        pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> {
            self.0.iter_mut().map(|(k, v)| (&*k, v))
        }
        pub fn keys(&self) -> impl Iterator<Item = &K> + Clone {
            self.0.iter().map(|(k, _)| k)
        }
        pub fn values(&self) -> impl Iterator<Item = &V> + Clone {
            self.0.iter().map(|(_, v)| v)
        }
        pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> {
            self.0.iter_mut().map(|(_, v)| v)
        }
        pub fn into_keys(self) -> impl Iterator<Item = K> {
            self.0.into_iter().map(|(k, _)| k)
        }
        pub fn into_values(self) -> impl Iterator<Item = V> {
            self.0.into_iter().map(|(_, v)| v)
        }
        pub fn drain(&mut self) -> impl Iterator<Item = (K, V)> + '_ {
            self.0.take().into_iter()
        }
    }

    impl<K: Eq, V> HashMap<K, V> {
        fn find<Q: Eq + ?Sized>(&self, key: &Q) -> Option<usize>
        where
            K: Borrow<Q>,
        {
            let mut i = 0;
            while i < self.0.len() {
                if self.0[i].0.borrow() == key {
                    return Some(i);
                }
                i += 1;
            }
            None
        }
        pub fn get<Q: Eq + ?Sized>(&self, key: &Q) -> Option<&V>
        where
            K: Borrow<Q>,
        {
            match self.find(key) {
                Some(i) => Some(&self.0[i].1),
                None => None,
            }
        }
        pub fn get_mut<Q: Eq + ?Sized>(&mut self, key: &Q) -> Option<&mut V>
        where
            K: Borrow<Q>,
        {
            match self.find(key) {
                Some(i) => Some(&mut self.0[i].1),
                None => None,
            }
        }
        pub fn contains_key<Q: Eq + ?Sized>(&self, key: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.find(key).is_some()
        }
        pub fn insert(&mut self, key: K, value: V) -> Option<V> {
            match self.find(&key) {
                Some(i) => Some(std::mem::replace(&mut self.0[i].1, value)),
                None => {
                    self.0.push((key, value));
                    None
                }
            }
        }
        pub fn remove<Q: Eq + ?Sized>(&mut self, key: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            match self.find(key) {
                Some(i) => Some(self.0.remove(i).1),
                None => None,
            }
        }
        pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
            match self.find(&key) {
                Some(i) => Entry::Occupied(&mut self.0[i].1, key),
                None => Entry::Vacant(self, key),
            }
        }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
            self.0.retain_mut(|e| f(&e.0, &mut e.1))
        }
    }

    impl<K, V> IntoIterator for HashMap<K, V> {
        type Item = (K, V);
        type IntoIter = IntoSlots<(K, V)>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
        type Item = (&'a K, &'a V);
        type IntoIter = std::iter::Map<SlotsIter<'a, (K, V)>, fn(&'a (K, V)) -> (&'a K, &'a V)>;
        fn into_iter(self) -> Self::IntoIter {
            fn split<K, V>(e: &(K, V)) -> (&K, &V) {
                (&e.0, &e.1)
            }
            self.0.iter().map(split::<K, V>)
        }
    }
    impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, iter: I) {
            for (k, v) in iter {
                self.insert(k, v);
            }
        }
    }
    impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
            let mut m = Self::new();
            m.extend(iter);
            m
        }
    }
    impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> {
        fn eq(&self, other: &Self) -> bool {
            self.len() == other.len()
                && self.0.iter().all(|(k, v)| other.get(k).is_some_and(|w| v == w))
        }
    }
    impl<K: Eq, V: Eq> Eq for HashMap<K, V> {}
    impl<K: Eq + Borrow<Q>, Q: Eq + ?Sized, V> std::ops::Index<&Q> for HashMap<K, V> {
        type Output = V;
        fn index(&self, key: &Q) -> &V {
            self.get(key).expect("no entry found for key")
        }
    }

    #[derive(Clone, Debug)]
    pub struct HashSet<K>(pub HashMap<K, ()>);

    impl<K> Default for HashSet<K> {
        fn default() -> Self {
            Self(HashMap::new())
        }
    }
    impl<K> HashSet<K> {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn iter(&self) -> impl Iterator<Item = &K> + Clone {
            self.0.keys()
        }
    }
    impl<K: Eq> HashSet<K> {
        pub fn contains<Q: Eq + ?Sized>(&self, key: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.0.contains_key(key)
        }
        pub fn insert(&mut self, key: K) -> bool {
            if self.0.contains_key(&key) {
                false
            } else {
                self.0.insert(key, ());
                true
            }
        }
        pub fn remove<Q: Eq + ?Sized>(&mut self, key: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.0.remove(key).is_some()
        }
    }
    impl<K> IntoIterator for HashSet<K> {
        type Item = K;
        type IntoIter = std::iter::Map<IntoSlots<(K, ())>, fn((K, ())) -> K>;
        fn into_iter(self) -> Self::IntoIter {
            fn first<K>(e: (K, ())) -> K {
                e.0
            }
            self.0 .0.into_iter().map(first::<K>)
        }
    }
    impl<K: Eq> Extend<K> for HashSet<K> {
        fn extend<I: IntoIterator<Item = K>>(&mut self, iter: I) {
            for k in iter {
                self.insert(k);
            }
        }
    }
    impl<K: Eq> FromIterator<K> for HashSet<K> {
        fn from_iter<I: IntoIterator<Item = K>>(iter: I) -> Self {
            let mut s = Self::new();
            s.extend(iter);
            s
        }
    }
    impl<K: Eq> PartialEq for HashSet<K> {
        fn eq(&self, other: &Self) -> bool {
            self.len() == other.len() && self.0.keys().all(|k| other.contains(k))
        }
    }
    impl<K: Eq> Eq for HashSet<K> {}
}

// ---------------------------------------------------------------------------
// abstract devices

use crate::block_device::{BlockCount, BlockDevice, BlockNumber, BlockSize};
use std::io::{self, Read, Seek, SeekFrom};

/// A byte string of any length with any contents.  For the verifier that is an
/// allocation of arbitrary size whose contents are arbitrary (nothing has been
/// written to it); natively, up to `typical` sampled bytes.
#[cfg(kani)]
#[allow(dead_code)]
pub fn any_bytes(_typical: usize) -> Vec<u8> {
    let len: usize = kani::any();
    kani::assume(len <= isize::MAX as usize / 2);
    bytes_of_length(len)
}
/// The same of a given length.
#[cfg(kani)]
#[allow(dead_code)]
pub fn bytes_of_length(len: usize) -> Vec<u8> {
    let capacity = if len == 0 { 1 } else { len };
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align(capacity, 1).unwrap());
        kani::assume(!p.is_null());
        Vec::from_raw_parts(p, len, capacity)
    }
}
#[cfg(not(kani))]
#[allow(dead_code)]
pub fn any_bytes(typical: usize) -> Vec<u8> {
    bytes_of_length(shim::any::<usize>() % (typical + 1))
}
#[cfg(not(kani))]
#[allow(dead_code)]
pub fn bytes_of_length(len: usize) -> Vec<u8> {
    shim::any_vec(len)
}

/// A device of `count` blocks of `size` bytes, every byte 0 except the one at
/// (`probe_block`, `probe_offset`), which is `value`.  Code that only copies
/// bytes cannot distinguish this from arbitrary contents, so an obligation for
/// a symbolic probe speaks about every byte of every device.
#[derive(Clone, Debug)]
pub struct ProbeBlocks {
    pub count: u64,
    pub size: u32,
    pub probe_block: u64,
    pub probe_offset: u32,
    pub value: u8,
    pub fail: bool,
}

impl ProbeBlocks {
    pub fn content(&self, block: u64, offset: usize) -> u8 {
        if block == self.probe_block && offset == self.probe_offset as usize {
            self.value
        } else {
            0
        }
    }
}

impl BlockDevice for ProbeBlocks {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(self.size))
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        Ok(BlockCount(self.count))
    }
    fn read_block(&mut self, block_number: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
        assert!(buf.len() >= self.size as usize, "a block read needs a buffer of at least one block");
        assert!(block_number.0 < self.count, "only blocks of the device may be read");
        if self.fail {
            return Err(io::ErrorKind::Other.into());
        }
        // the buffers handed in are freshly zeroed by the code under contract or the harness
        if block_number.0 == self.probe_block {
            buf[self.probe_offset as usize] = self.value;
        }
        Ok(self.size as usize)
    }
    fn try_clone(&self) -> io::Result<Self> {
        Ok(self.clone())
    }
}

/// A byte-addressed device (position + probe byte) of unbounded length which
/// records what was asked of it.  Reads hand out the whole buffer (or fail).
#[derive(Clone, Debug)]
pub struct ProbeBytes {
    pub pos: u64,
    pub probe: u64,
    pub value: u8,
    pub seeks: usize,
    pub reads: usize,
    pub fail_at: usize,
}

impl ProbeBytes {
    pub fn new(probe: u64, value: u8) -> Self {
        Self { pos: 0, probe, value, seeks: 0, reads: 0, fail_at: usize::MAX }
    }
}

impl BlockDevice for ProbeBytes {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(512))
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        Ok(BlockCount(u64::MAX / 512))
    }
    fn read_block(&mut self, _: BlockNumber, _: &mut [u8]) -> io::Result<usize> {
        Err(io::ErrorKind::Unsupported.into())
    }
    fn try_clone(&self) -> io::Result<Self> {
        Ok(self.clone())
    }
}

impl Read for ProbeBytes {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.reads == self.fail_at {
            return Err(io::ErrorKind::Other.into());
        }
        self.reads += 1;
        if self.probe >= self.pos && self.probe - self.pos < buf.len() as u64 {
            buf[(self.probe - self.pos) as usize] = self.value;
        }
        self.pos = self.pos.wrapping_add(buf.len() as u64);
        Ok(buf.len())
    }
}

impl Seek for ProbeBytes {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.seeks += 1;
        match pos {
            SeekFrom::Start(p) => self.pos = p,
            SeekFrom::Current(d) => self.pos = self.pos.wrapping_add(d as u64),
            SeekFrom::End(_) => return Err(io::ErrorKind::Unsupported.into()),
        }
        Ok(self.pos)
    }
}

/// Stands for the destructor of boxed `io::Error` payloads, which the verifier
/// would resolve to every function of that shape: it has no observable effect.
#[cfg(kani)]
#[allow(dead_code)]
pub fn no_destructor(_: &mut core::io::CustomOwner) {}

/// Stand for freeing memory, which has no observable effect either.
#[cfg(kani)]
#[allow(dead_code)]
pub fn keep_vec<T, A: std::alloc::Allocator>(_: &mut Vec<T, A>) {}
#[cfg(kani)]
#[allow(dead_code)]
pub unsafe fn keep_memory(_: &std::alloc::Global, _: std::ptr::NonNull<u8>, _: std::alloc::Layout) {}
