//! C19: bit addresses and offset words convert exactly in both directions.

use crate::{engine::*, ensure};
use proptest::prelude::*;
use serde_json::json;
use ur20::ur20_fbc_mod_tcp::{offsets_of_process_data, to_bit_address, to_register_address};

fn split(i: u64) -> Result<bool, String> {
    let a = i as u16;
    let (r, b) = to_register_address(a);
    ensure!(r == a / 16 && b == usize::from(a % 16), "{a:#06x} is split into {r:#06x}, {b}");
    let m = to_bit_address(r, b);
    ensure!(m == a, "{a:#06x} is split into {r:#06x}, {b} and merged to {m:#06x}");
    // the same numbers in the other direction: every register < 0x1000 and bit < 16
    let (r, b) = ((i / 16) as u16, (i % 16) as usize);
    let m = to_bit_address(r, b);
    ensure!(to_register_address(m) == (r, b), "{r:#06x}, {b} is merged to {m:#06x} and split to {:?}", to_register_address(m));
    Ok(true)
}

/// Every word on each side of a pair, in the first and a later module.
fn words(i: u64) -> Result<bool, String> {
    let w = i as u16;
    let o = (i as u16).wrapping_mul(40503).wrapping_add(7);
    let opt = |w: u16| (w != 0xFFFF).then_some(w);
    let list = [w, o, o, w, 0xFFFF, w, w, 0xFFFF];
    let r = offsets_of_process_data(&list);
    ensure!(r.len() == 4, "{} pairs out of {list:04x?}", r.len());
    for (k, m) in r.iter().enumerate() {
        ensure!(
            m.output == opt(list[2 * k]) && m.input == opt(list[2 * k + 1]),
            "pair {k} of {list:04x?} is read as {m:?}"
        );
    }
    Ok(true)
}

fn lists() -> BoxedStrategy<Vec<u16>> {
    let w = prop_oneof![
        3 => any::<u16>(),
        2 => (0u16..256).prop_map(|b| b * 8),
        2 => (0u16..256).prop_map(|b| 0x8000 + b * 8),
        2 => Just(0xFFFFu16),
        1 => proptest::sample::select(vec![0u16, 1, 8, 0x7FFF, 0x8000, 0xFFFE, 0xFFF0, 0x00FF, 0xFF00]),
    ];
    prop_oneof![
        8 => proptest::collection::vec((w.clone(), w.clone()), 0..20),
        1 => proptest::collection::vec((w.clone(), w.clone()), 20..300),
    ]
    .prop_map(|v| v.into_iter().flat_map(|(a, b)| [a, b]).collect())
    .boxed()
}

fn test(c: &Vec<u16>, st: &mut Stats) -> Result<(), String> {
    let r = offsets_of_process_data(c);
    ensure!(r.len() == c.len() / 2, "{} pairs out of {} words", r.len(), c.len());
    for (k, m) in r.iter().enumerate() {
        for (got, w, what) in [(m.output, c[2 * k], "output"), (m.input, c[2 * k + 1], "input")] {
            let want = if w == 0xFFFF { None } else { Some(w) };
            ensure!(got == want, "{what} word {w:#06x} of module {k} is read as {got:?}");
        }
    }
    st.nontrivial_if(!c.is_empty());
    st.label_if(c.contains(&0xFFFF), "module without data");
    Ok(())
}

/// `n` modules with a few pairs in turn.
fn long_lists() -> BoxedStrategy<(usize, Vec<u16>)> {
    let n = prop_oneof![4 => 300usize..1_100, 1 => 32_700usize..32_800, 1 => 65_500usize..65_600];
    (n, lists()).boxed()
}

fn long(c: &(usize, Vec<u16>), st: &mut Stats) -> Result<(), String> {
    if c.1.is_empty() {
        return Ok(());
    }
    let list: Vec<u16> = c.1.iter().copied().cycle().take(2 * c.0).collect();
    test(&list, st)
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Gen {
            name: "long-lists",
            rule: "offset lists of 300 to 65600 modules, a few pairs in turn; non-trivial = not empty",
            cases: (4_000, 40_000),
            strategy: long_lists,
            test: long,
        }),
        Box::new(Sweep {
            name: "every-address",
            rule: "every bit address split and merged, every register below 0x1000 with every bit merged and split; every case is non-trivial",
            size: |_| 65_536,
            test: split,
            describe: |i| json!({"address": i}),
        }),
        Box::new(Sweep {
            name: "every-offset-word",
            rule: "every word as input and as output offset in each of four modules; every case is non-trivial",
            size: |_| 65_536,
            test: words,
            describe: |i| json!({"word": i}),
        }),
        Box::new(Gen {
            name: "offset-lists",
            rule: "offset lists of up to 299 modules; non-trivial = not empty",
            cases: (400_000, 10_000_000),
            strategy: lists,
            test,
        }),
    ]
}
