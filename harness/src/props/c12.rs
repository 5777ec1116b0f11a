//! C12: each module sees exactly its own bytes of the process images.

use crate::{engine::*, ensure, layout::*, model::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use ur20::ur20_fbc_mod_tcp::{
    ModuleOffset, ProcessModbusTcpData, process_input_data, process_output_data,
};

/// Expected values of modules at bit addresses; `Err`: must be rejected.
fn expected(mods: &[(M, Option<u16>)], base: u16, img: &[u8], input: bool) -> Result<Vec<Vec<E>>, ()> {
    mods.iter()
        .map(|(m, addr)| {
            let Some(a) = addr else {
                return Ok(vec![E::None; m.k.channels()]);
            };
            let rel = a.checked_sub(base).ok_or(())?;
            if rel % 8 != 0 {
                return Err(());
            }
            let at = (rel / 8) as usize;
            let n = if input { m.in_bytes() } else { m.out_bytes() };
            let b = img.get(at..at + n).ok_or(())?;
            if input { m.decode_in(b) } else { m.decode_out(b) }
        })
        .collect()
}

fn judge(mods: &[(M, Option<u16>)], img: &[u8], input: bool) -> Result<bool, String> {
    let real: Vec<_> = mods
        .iter()
        .map(|(m, _)| build(m.k, &m.p))
        .collect::<Result<_, _>>()
        .map_err(|e| format!("{e:?}"))?;
    let offs: Vec<_> = mods
        .iter()
        .map(|(_, a)| ModuleOffset {
            input: if input { *a } else { None },
            output: if input { None } else { *a },
        })
        .collect();
    let infos: Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> =
        real.iter().map(|m| &**m).zip(&offs).collect();
    let words = to_words(img);
    let (got, base) = if input {
        (process_input_data(&infos, &words), 0)
    } else {
        (process_output_data(&infos, &words), 0x8000)
    };
    let dir = if input { "input" } else { "output" };
    match expected(mods, base, img, input) {
        Ok(exp) => {
            let got = got.map_err(|e| format!("{dir} image {img:02x?} rejected: {e:?}"))?;
            ensure!(got.len() == exp.len(), "{} value lists for {} modules", got.len(), exp.len());
            for (i, (e, v)) in exp.iter().zip(&got).enumerate() {
                all_agree(&format!("{dir}s of module {i} ({:?})", mods[i].0.k), e, v)?;
            }
            Ok(true)
        }
        Err(()) => {
            ensure!(got.is_err(), "{dir} image of {} words accepted: {got:?}", words.len());
            Ok(false)
        }
    }
}

// ------------------------------------------------------------ single bits

/// kind, first byte, direction, bit of the image, polarity
fn walk(i: u64) -> (M, u16, bool, usize, bool) {
    let one = i % 2 == 0;
    let bit = (i / 2 % 192) as usize;
    let r = i / 384;
    let at = (r % 5) as u16;
    let input = r / 5 % 2 == 0;
    let k = KINDS[(r / 10 % 18) as usize];
    let v = r / 180;
    let mut x = v.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let p = k
        .registers()
        .iter()
        .map(|g| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            match g {
                Reg::Codes(n) => (x >> 30) as u16 % n,
                _ => 7,
            }
        })
        .collect();
    (M { k, p }, at, input, bit, one)
}

fn single_bit(i: u64) -> Result<bool, String> {
    let (m, at, input, bit, one) = walk(i);
    if (if input { m.in_bytes() } else { m.out_bytes() }) == 0 {
        return Ok(false);
    }
    let mut img = vec![if one { 0u8 } else { 0xFF }; 24];
    img[bit / 8] ^= 1 << (bit % 8);
    if m.k == K::Com && !one && bit / 8 != at as usize + 1 {
        img[at as usize + 1] = 3; // a legal length
    }
    let a = if input { in_addr(at) } else { out_addr(at) };
    if m.k == K::Fcnt && !input {
        // start and stop at once is undefined
        for c in 0..2 {
            let b = &mut img[at as usize + 9 + 2 * c];
            if *b & 3 == 3 {
                *b &= !1;
            }
        }
    }
    judge(&[(m, Some(a))], &img, input)
}

// ------------------------------------------------------------ random placements

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Case {
    /// module, input address, output address
    mods: Vec<(M, Option<u16>, Option<u16>)>,
    fill: Fill,
    /// size of the images relative to the size needed, in words
    slack: (i8, i8),
    /// make serial frames in the images valid
    valid: bool,
}

fn addr(base: u16) -> BoxedStrategy<Option<u16>> {
    prop_oneof![
        2 => Just(None),
        40 => (0u16..48).prop_map(move |b| Some(base + 8 * b)),
        6 => (0u16..400).prop_map(move |b| Some(base + 8 * b)),
        1 => (0u16..4096).prop_map(move |b| Some(base + 8 * b)),
        1 => (0u16..512).prop_map(move |b| Some(base + b)),
        1 => any::<u16>().prop_map(|b| Some(b.min(0xFFFE))),
        1 => proptest::sample::select(vec![0u16, 8, 0x7FF0, 0x7FF8, 0x7FFF, 0x8000, 0x8008, 0xFFF0, 0xFFF8]).prop_map(Some),
    ]
    .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    let slack = prop_oneof![3 => Just(0i8), 3 => 0i8..6, 1 => -3i8..0];
    let n = prop_oneof![6 => 1usize..6, 1 => 6usize..40];
    (
        n.prop_flat_map(|n| proptest::collection::vec((mixed_kinds().prop_flat_map(module), addr(0), addr(0x8000)), n)),
        fill(),
        (slack.clone(), slack),
        any::<u8>(),
    )
        .prop_map(|(mut mods, fill, slack, valid)| {
            for (m, i, o) in &mut mods {
                if !m.k.has_inputs() {
                    *i = None;
                }
                if !m.k.has_outputs() {
                    *o = None;
                }
            }
            Case {
                mods,
                fill,
                slack,
                valid: valid < 235,
            }
        })
        .boxed()
}

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    for input in [true, false] {
        let base: u16 = if input { 0 } else { 0x8000 };
        let mods: Vec<(M, Option<u16>)> = c
            .mods
            .iter()
            .map(|(m, i, o)| (m.clone(), if input { *i } else { *o }))
            .collect();
        let size = |m: &M| if input { m.in_bytes() } else { m.out_bytes() };
        let need = mods
            .iter()
            .filter_map(|(m, a)| a.map(|a| (a.saturating_sub(base) / 8) as usize + size(m)))
            .max()
            .unwrap_or(0);
        let words = (even(need) / 2) as i64 + i64::from(if input { c.slack.0 } else { c.slack.1 });
        let mut img = c.fill.image(2 * words.max(0) as usize);
        // frames that are valid unless modules overlap
        for (m, a) in &mods {
            let Some(a) = a.and_then(|a| a.checked_sub(base)) else { continue };
            let at = (a / 8) as usize;
            if let Some(b) = img.get_mut(at..at + size(m)) {
                if m.k == K::Com && c.valid {
                    m.sanitize_out(b);
                }
            }
        }
        for (m, a) in &mods {
            let Some(a) = a.and_then(|a| a.checked_sub(base)) else { continue };
            let at = (a / 8) as usize;
            if m.k == K::Fcnt && !input {
                for k in [9, 11] {
                    if let Some(b) = img.get_mut(at + k).filter(|b| **b & 3 == 3) {
                        *b &= !1;
                    }
                }
            }
        }
        let ok = judge(&mods, &img, input)?;
        let placed = mods.iter().filter(|m| m.1.is_some()).count();
        st.nontrivial_if(ok && placed > 0);
        st.label_if(ok && mods.iter().any(|(_, a)| a.is_some_and(|a| a % 16 == 8)), "module at a high byte");
        st.label_if(ok && placed > 0 && even(need) / 2 == img.len() / 2, "image exactly as long as needed");
        st.label_if(!ok, "rejected");
        st.label_if(!ok && img.len() / 2 < even(need) / 2, "image too short");
        st.label_if(mods.len() > placed, "module without offset");
    }
    Ok(())
}

// ------------------------------------------------------------ through a coupler

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct CouplerCase {
    layout: Layout,
    rounds: Vec<(Fill, Fill, u8)>,
}

fn coupler_cases() -> BoxedStrategy<CouplerCase> {
    let l = prop_oneof![
        8 => layouts(mixed_kinds(), 1..=6, true),
        1 => layouts(mixed_kinds(), 7..=64, true),
    ];
    let one = |near| (next_fill(near), next_fill(near), if near { 0u8..1 } else { 0u8..6 });
    let rounds = prop_oneof![
        proptest::collection::vec(one(false), 1..4),
        proptest::collection::vec(one(true), 2..10),
    ];
    (l, rounds)
        .prop_map(|(layout, rounds)| CouplerCase { layout, rounds })
        .boxed()
}

fn test_coupler(c: &CouplerCase, st: &mut Stats) -> Result<(), String> {
    let mut real = c.layout.coupler()?;
    let (mut i, mut o) = (vec![0; c.layout.in_len()], vec![0; c.layout.out_len()]);
    for (fi, fo, slack) in &c.rounds {
        i.resize(c.layout.in_len() + 2 * *slack as usize, 0);
        o.resize(c.layout.out_len() + 2 * *slack as usize, 0);
        i = fi.after(&i);
        o = fo.after(&o);
        c.layout.sanitize_in(&mut i);
        c.layout.sanitize_out(&mut o);
        real.next(&to_words(&i), &to_words(&o))
            .map_err(|e| format!("cycle failed: {e:?}"))?;
        let (ei, eo) = (
            c.layout.expect_in(&i).map_err(|()| "model")?,
            c.layout.expect_out(&o).map_err(|()| "model")?,
        );
        ensure!(
            real.inputs().len() == ei.len() && real.outputs().len() == eo.len(),
            "{} and {} value lists for {} modules",
            real.inputs().len(),
            real.outputs().len(),
            ei.len()
        );
        for (n, s) in c.layout.slots.iter().enumerate() {
            if s.m.k.is_com() && s.inp.is_some() && s.out.is_some() {
                continue; // shown as byte stream
            }
            all_agree(&format!("inputs of module {n} ({:?})", s.m.k), &ei[n], &real.inputs()[n])?;
            all_agree(&format!("outputs of module {n} ({:?})", s.m.k), &eo[n], &real.outputs()[n])?;
        }
    }
    st.nontrivial_if(c.layout.slots.len() >= 2);
    st.label_if(c.layout.slots.len() > 16, "more than 16 modules");
    st.label_if(c.layout.slots.iter().any(|s| s.inp.is_some_and(|b| b % 2 == 1)), "module at a high byte");
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Sweep {
            name: "single-bits",
            rule: "every single bit set or cleared in a 24 byte image, for every kind of module with 8 parameter variants at each of the first 5 byte positions, inputs and outputs; non-trivial = accepted",
            size: |c| 384 * 180 * c.n(8, 200),
            test: single_bit,
            describe: |i| {
                let (m, at, input, bit, one) = walk(i);
                json!({"module": m, "first_byte": at, "input": input, "bit": bit, "set": one})
            },
        }),
        Box::new(Gen {
            name: "placements",
            rule: "up to 39 modules at random, possibly overlapping byte addresses (some without or with impossible addresses) and random images up to 3 words shorter and 5 longer than needed; non-trivial = accepted with at least one placed module",
            cases: (700_000, 9_000_000),
            strategy: cases,
            test,
        }),
        Box::new(Gen {
            name: "coupler",
            rule: "up to 64 modules behind a coupler, several cycles with unrelated or with slightly changing images; non-trivial = at least 2 modules",
            cases: (250_000, 3_000_000),
            strategy: coupler_cases,
            test: test_coupler,
        }),
    ]
}
