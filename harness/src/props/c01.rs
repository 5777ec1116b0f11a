//! C01: module list registers identify exactly the plugged modules.

use crate::{engine::*, ensure, tables::rows};
use proptest::prelude::*;
use serde_json::json;
use std::{collections::HashMap, sync::OnceLock};
use ur20::{ModuleType, ur20_fbc_mod_tcp::module_list_from_registers};

fn table() -> &'static HashMap<u32, ModuleType> {
    static T: OnceLock<HashMap<u32, ModuleType>> = OnceLock::new();
    T.get_or_init(|| {
        rows()
            .iter()
            .filter_map(|r| r.id.map(|i| (i, r.t.clone())))
            .collect()
    })
}

/// High words that occur in the table (pre-filter for the big sweep).
fn high_words() -> &'static Vec<bool> {
    static T: OnceLock<Vec<bool>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![false; 65536];
        for i in table().keys() {
            v[(i >> 16) as usize] = true;
        }
        v
    })
}

fn expected(id: u32) -> Option<&'static ModuleType> {
    if high_words()[(id >> 16) as usize] {
        table().get(&id)
    } else {
        None
    }
}

fn one_id(i: u64) -> Result<bool, String> {
    let id = i as u32;
    let exp = expected(id);
    match (ModuleType::try_from_u32(id), exp) {
        (Ok(t), Some(e)) if t == *e => Ok(true),
        (Err(_), None) => Ok(false),
        (got, _) => Err(format!("id {id:#010x} gives {got:?}, expected {exp:?}")),
    }
}

/// Every id through the register decoder as a one-module list: the known ids,
/// every id that differs from a known one in up to two bits, swapped words.
fn neighbours() -> &'static Vec<u32> {
    static T: OnceLock<Vec<u32>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![0, u32::MAX];
        for r in rows() {
            let Some(id) = r.id else { continue };
            v.push(id);
            v.push(id.rotate_left(16));
            v.push(id.swap_bytes());
            for a in 0..32 {
                v.push(id ^ (1 << a));
                for b in a + 1..32 {
                    v.push(id ^ (1 << a) ^ (1 << b));
                }
            }
        }
        v.sort_unstable();
        v.dedup();
        v
    })
}

fn one_list(i: u64) -> Result<bool, String> {
    let id = neighbours()[i as usize];
    check_list(&[(id >> 16) as u16, id as u16])?;
    Ok(table().contains_key(&id))
}

fn check_list(regs: &[u16]) -> Result<(), String> {
    let got = module_list_from_registers(regs);
    if regs.is_empty() || regs.len() % 2 == 1 {
        ensure!(got.is_err(), "{} registers accepted: {got:?}", regs.len());
        return Ok(());
    }
    let exp: Option<Vec<_>> = regs
        .chunks(2)
        .map(|c| table().get(&(u32::from(c[0]) * 65536 + u32::from(c[1]))).cloned())
        .collect();
    match (exp, got) {
        (Some(e), Ok(g)) => {
            ensure!(e == g, "{regs:04x?} gives {g:?}, expected {e:?}");
            Ok(())
        }
        (None, Err(_)) => Ok(()),
        (e, g) => Err(format!("{regs:04x?} gives {g:?}, expected {e:?}")),
    }
}

fn lists() -> BoxedStrategy<Vec<u16>> {
    let known = proptest::sample::select(
        rows().iter().filter_map(|r| r.id).collect::<Vec<_>>(),
    );
    let pair = |id: u32| vec![(id >> 16) as u16, id as u16];
    let good = proptest::collection::vec(known.clone(), 0..130)
        .prop_map(move |v| v.into_iter().flat_map(pair).collect::<Vec<_>>());
    prop_oneof![
        6 => good.clone(),
        // one foreign id somewhere
        3 => (good.clone(), any::<proptest::sample::Index>(), prop_oneof![
                any::<u32>(),
                Just(0u32),
                Just(u32::MAX),
                proptest::sample::select(&crate::dict::dict().dwords[..]),
                (known.clone(), 0u32..32).prop_map(|(k, b)| k ^ (1 << b)),
                known.clone().prop_map(|k| k.rotate_left(16)),
            ]).prop_map(move |(mut v, ix, bad)| {
                let at = ix.index(v.len() / 2 + 1) * 2;
                v.splice(at..at, pair(bad));
                v
            }),
        // one register more or less
        2 => (good.clone(), any::<proptest::sample::Index>(), any::<bool>(), any::<u16>()).prop_map(|(mut v, ix, del, w)| {
                if del && !v.is_empty() {
                    v.remove(ix.index(v.len()));
                } else {
                    v.insert(ix.index(v.len() + 1), w);
                }
                v
            }),
        1 => proptest::collection::vec(any::<u16>(), 0..9),
    ]
    .boxed()
}

/// A list of `n` ids made from a few in a row, one of them replaced.
#[derive(Debug, Clone, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
struct Long {
    n: usize,
    ids: Vec<u32>,
    foreign: Option<(usize, u32)>,
    odd: bool,
}

fn long_lists() -> BoxedStrategy<Long> {
    let known = proptest::sample::select(rows().iter().filter_map(|r| r.id).collect::<Vec<_>>());
    let n = prop_oneof![
        4 => 130usize..1_100,
        2 => proptest::sample::select(vec![255usize, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4096]),
        1 => 32_700usize..32_800,
        1 => 65_500usize..65_600,
    ];
    let foreign = proptest::option::of((any::<usize>(), any::<u32>()));
    (n, proptest::collection::vec(known, 1..9), foreign, proptest::bool::weighted(0.1))
        .prop_map(|(n, ids, foreign, odd)| Long { n, ids, foreign, odd })
        .boxed()
}

fn long(c: &Long, st: &mut Stats) -> Result<(), String> {
    let mut ids: Vec<u32> = c.ids.iter().copied().cycle().take(c.n).collect();
    if let Some((at, id)) = c.foreign {
        ids[at % c.n] = id;
    }
    let mut regs: Vec<u16> = ids.iter().flat_map(|i| [(i >> 16) as u16, *i as u16]).collect();
    if c.odd {
        regs.push(ids[0] as u16);
    }
    st.nontrivial();
    st.label_if(c.n > 256, "more than 256 modules");
    st.label_if(c.n > 65_535, "more than 65535 modules");
    check_list(&regs).map_err(|e| format!("{} modules: {}", c.n, e.chars().take(300).collect::<String>()))
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Gen {
            name: "long-lists",
            rule: "lists of 130 to 65600 modules made of up to 8 ids in turn, some with a foreign id or one register more; every case is non-trivial",
            cases: (4_000, 40_000),
            strategy: long_lists,
            test: long,
        }),
        Box::new(Sweep {
            name: "all-ids",
            rule: "each of the 2^32 ids is decoded once and compared with the published table; non-trivial = the id is in the table",
            size: |_| 1 << 32,
            test: one_id,
            describe: |i| json!(format!("{:#010x}", i)),
        }),
        Box::new(Sweep {
            name: "near-ids-as-lists",
            rule: "every known id and every id within two flipped bits, with swapped words or bytes, as a one-module register list; non-trivial = the id is in the table",
            size: |_| neighbours().len() as u64,
            test: one_list,
            describe: |i| json!(format!("{:#010x}", neighbours()[i as usize])),
        }),
        Box::new(Gen {
            name: "register-lists",
            rule: "register lists of 0..130 known ids, with a foreign id inserted, a register removed or added; non-trivial = at least two modules' worth of registers",
            cases: (400_000, 6_000_000),
            strategy: lists,
            test: |v: &Vec<u16>, st: &mut Stats| {
                st.nontrivial_if(v.len() >= 4);
                st.label_if(v.len() % 2 == 1, "odd length");
                st.label_if(v.is_empty(), "empty");
                let known = v.len() % 2 == 0
                    && v.chunks(2).all(|c| table().contains_key(&(u32::from(c[0]) * 65536 + u32::from(c[1]))));
                st.label_if(known && !v.is_empty(), "all known");
                st.label_if(v.len() > 128, "more than 64 modules");
                check_list(v)
            },
        }),
    ]
}
