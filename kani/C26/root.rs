mod grouping {
    // MultiMap::from_multi_iter: one group per key, all values, in order.
    use crate::ext::MultiMap;
    #[cfg(not(kani))]
    use crate::verif::shim as kani;
    use crate::verif::{contract, reach, HashMap};

    /// Which of the keys are equal decides everything (the function knows keys
    /// only through Eq and Hash), so every equality pattern is run in turn.
    fn group<const N: usize>(keys: &[u8; N]) {
        let values: [u32; N] = std::array::from_fn(|_| kani::any());
        let pairs: [(u8, u32); N] = std::array::from_fn(|i| (keys[i], values[i]));
        let map: HashMap<u8, Vec<u32>> = MultiMap::from_multi_iter(pairs);
        let mut distinct = 0;
        for i in 0..N {
            if keys[..i].contains(&keys[i]) {
                continue;
            }
            distinct += 1;
            let group = map.get(&keys[i]).expect("every key has a group");
            let mut seen = 0;
            for j in i..N {
                if keys[j] == keys[i] {
                    assert!(seen < group.len() && group[seen] == values[j], "values in their order");
                    seen += 1;
                }
            }
            assert!(group.len() == seen, "no value invented");
        }
        assert!(map.len() == distinct, "one group per distinct key");
        reach!(true);
    }

    contract! {
        #[kani::unwind(6)]
        fn keys_none() { group(&[]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0() { group(&[0]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_00() { group(&[0, 0]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_01() { group(&[0, 1]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_000() { group(&[0, 0, 0]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_001() { group(&[0, 0, 1]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_010() { group(&[0, 1, 0]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_011() { group(&[0, 1, 1]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_012() { group(&[0, 1, 2]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0000() { group(&[0, 0, 0, 0]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0001() { group(&[0, 0, 0, 1]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0010() { group(&[0, 0, 1, 0]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0011() { group(&[0, 0, 1, 1]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0012() { group(&[0, 0, 1, 2]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0100() { group(&[0, 1, 0, 0]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0101() { group(&[0, 1, 0, 1]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0102() { group(&[0, 1, 0, 2]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0110() { group(&[0, 1, 1, 0]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0111() { group(&[0, 1, 1, 1]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0112() { group(&[0, 1, 1, 2]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0120() { group(&[0, 1, 2, 0]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0121() { group(&[0, 1, 2, 1]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0122() { group(&[0, 1, 2, 2]) }
    }
    contract! {
        #[kani::unwind(6)]
        fn keys_0123() { group(&[0, 1, 2, 3]) }
    }
    contract! {
        #[kani::unwind(7)]
        fn keys_01010() { group(&[0, 1, 0, 1, 0]) }
    }
    contract! {
        #[kani::unwind(7)]
        fn keys_01120() { group(&[0, 1, 1, 2, 0]) }
    }
}
