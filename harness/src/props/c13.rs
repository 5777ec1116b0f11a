//! C13: output images place every value at its module offset and invert decoding.

use crate::{engine::*, ensure, layout::*, model::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use ur20::ur20_fbc_mod_tcp::{
    ModuleOffset, ProcessModbusTcpData, process_output_data, process_output_values,
};

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Case {
    mods: Vec<M>,
    /// output address of every module
    addrs: Vec<Option<u16>>,
    values: Vec<Vec<GV>>,
}

#[derive(Debug, Clone)]
enum Edit {
    Nothing,
    Shift(prop::sample::Index, i32),
    ShiftAll(prop::sample::Index, i32),
    Addr(prop::sample::Index, u16),
    Value(prop::sample::Index, prop::sample::Index, GV),
    DropValue(prop::sample::Index),
    AddValue(prop::sample::Index, GV),
    DropList(prop::sample::Index),
    AddList(Vec<GV>),
    Swap(prop::sample::Index, prop::sample::Index),
}

fn edit() -> BoxedStrategy<Edit> {
    use prop::sample::Index;
    let ix = any::<Index>;
    let d = prop_oneof![
        proptest::sample::select(vec![-16i32, -8, 8, 16, 24, 32, -24, -32, 1, 4, -1, -7, 9]),
        -64i32..64,
        (3u32..16, any::<bool>()).prop_map(|(b, neg)| if neg { -(1i32 << b) } else { 1 << b }),
    ];
    prop_oneof![
        20 => Just(Edit::Nothing),
        3 => (ix(), d.clone()).prop_map(|(i, d)| Edit::Shift(i, d)),
        3 => (ix(), d).prop_map(|(i, d)| Edit::ShiftAll(i, d)),
        1 => (ix(), any::<u16>()).prop_map(|(i, a)| Edit::Addr(i, a)),
        3 => (ix(), ix(), any_value()).prop_map(|(i, c, v)| Edit::Value(i, c, v)),
        1 => ix().prop_map(Edit::DropValue),
        1 => (ix(), any_value()).prop_map(|(i, v)| Edit::AddValue(i, v)),
        1 => ix().prop_map(Edit::DropList),
        1 => proptest::collection::vec(any_value(), 0..5).prop_map(Edit::AddList),
        1 => (ix(), ix()).prop_map(|(a, b)| Edit::Swap(a, b)),
    ]
    .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    let l = prop_oneof![
        80 => layouts(mixed_kinds(), 1..=7, true),
        10 => layouts(mixed_kinds(), 8..=64, true),
        1 => layouts(mixed_kinds(), 65..=200, true),
    ];
    (l, edit())
        .prop_flat_map(|(l, e)| {
            let vals: Vec<_> = l
                .slots
                .iter()
                .map(|s| proptest::collection::vec(good_value(&s.m), s.m.k.channels()))
                .collect();
            (Just(l), vals, Just(e))
        })
        .prop_map(|(l, mut values, e)| {
            let mut addrs: Vec<Option<u16>> = l.slots.iter().map(|s| s.out.map(out_addr)).collect();
            let placed: Vec<usize> = (0..addrs.len()).filter(|i| addrs[*i].is_some()).collect();
            let pick = |i: prop::sample::Index| (!placed.is_empty()).then(|| placed[i.index(placed.len())]);
            match e {
                Edit::Nothing => {}
                Edit::Shift(i, d) => {
                    if let Some(p) = pick(i) {
                        addrs[p] = addrs[p].map(|a| (i32::from(a) + d).clamp(0, 0xFFFE) as u16);
                    }
                }
                Edit::ShiftAll(i, d) => {
                    if let Some(p) = pick(i) {
                        for a in &mut addrs[p..] {
                            *a = a.map(|a| (i32::from(a) + d).clamp(0, 0xFFFE) as u16);
                        }
                    }
                }
                Edit::Addr(i, a) => {
                    if let Some(p) = pick(i) {
                        addrs[p] = Some(a.min(0xFFFE));
                    }
                }
                Edit::Value(i, c, v) => {
                    if let Some(p) = pick(i) {
                        let c = c.index(values[p].len());
                        values[p][c] = v;
                    }
                }
                Edit::DropValue(i) => {
                    if let Some(p) = pick(i) {
                        values[p].pop();
                    }
                }
                Edit::AddValue(i, v) => {
                    if let Some(p) = pick(i) {
                        values[p].push(v);
                    }
                }
                Edit::DropList(i) => {
                    let i = i.index(values.len());
                    values.remove(i);
                }
                Edit::AddList(v) => values.push(v),
                Edit::Swap(a, b) => {
                    if let (Some(a), Some(b)) = (pick(a), pick(b)) {
                        values.swap(a, b);
                    }
                }
            }
            Case {
                mods: l.slots.into_iter().map(|s| s.m).collect(),
                addrs,
                values,
            }
        })
        .boxed()
}

enum Shape {
    /// first byte of every placed module
    Contiguous(Vec<Option<usize>>, usize),
    /// must be rejected
    Bad(&'static str),
    /// modules overlap: not specified
    Overlap,
}

fn shape(c: &Case) -> Shape {
    let mut end = 0usize;
    let mut at = vec![];
    let mut overlap = false;
    for (m, a) in c.mods.iter().zip(&c.addrs) {
        let Some(a) = a else {
            at.push(None);
            continue;
        };
        if *a < 0x8000 {
            return Shape::Bad("address outside the output area");
        }
        if a % 8 != 0 {
            return Shape::Bad("address inside a byte");
        }
        let b = ((a - 0x8000) / 8) as usize;
        if b < end {
            overlap = true;
        } else if !(b == end || (end % 2 == 1 && b == end + 1)) {
            return if overlap { Shape::Overlap } else { Shape::Bad("gap") };
        }
        at.push(Some(b));
        end = b + m.out_bytes();
    }
    if overlap {
        Shape::Overlap
    } else {
        Shape::Contiguous(at, end)
    }
}

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    let real: Vec<_> = c
        .mods
        .iter()
        .map(|m| build(m.k, &m.p))
        .collect::<Result<_, _>>()
        .map_err(|e| format!("{e:?}"))?;
    let offs: Vec<_> = c
        .addrs
        .iter()
        .map(|a| ModuleOffset { input: None, output: *a })
        .collect();
    let infos: Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> =
        real.iter().map(|m| &**m).zip(&offs).collect();
    let vals: Vec<_> = c.values.iter().map(|v| values(v)).collect();
    let got = process_output_values(&infos, &vals);
    if c.values.len() != c.mods.len() {
        st.label("wrong number of value lists");
        ensure!(got.is_err(), "{} value lists for {} modules accepted", c.values.len(), c.mods.len());
        return Ok(());
    }
    let fits = c.mods.iter().zip(&c.addrs).zip(&c.values).all(|((m, a), v)| {
        a.is_none() || (v.len() == m.k.channels() && v.iter().all(|v| m.encodable(v)))
    });
    let (at, end) = match shape(c) {
        Shape::Overlap => {
            st.label("overlap (not judged)");
            return Ok(());
        }
        Shape::Bad(why) => {
            st.label(why);
            ensure!(got.is_err(), "{why}: {:04x?} accepted, image {:04x?}", c.addrs, got);
            return Ok(());
        }
        Shape::Contiguous(a, e) => (a, e),
    };
    if !fits {
        st.label("values that don't fit");
        ensure!(got.is_err(), "values that don't fit accepted: {:?} -> {got:04x?}", c.values);
        return Ok(());
    }
    let image = got.map_err(|e| format!("rejected: {e:?}"))?;
    let b = to_bytes(&image);
    ensure!(b.len() == even(end), "image of {} bytes, modules end at {end}", b.len());
    let mut owned = vec![false; b.len()];
    for (i, (m, at)) in c.mods.iter().zip(&at).enumerate() {
        let Some(at) = at else { continue };
        let r = *at..at + m.out_bytes();
        owned[r.clone()].fill(true);
        m.check_encoding(&c.values[i], &b[r])
            .map_err(|e| format!("module {i} ({:?}) at byte {at}: {e}", m.k))?;
    }
    for (n, o) in owned.iter().enumerate() {
        ensure!(*o || b[n] == 0, "padding byte {n} is {:#04x}", b[n]);
    }
    // decoding gives the values back
    let back = process_output_data(&infos, &image).map_err(|e| format!("image not decoded: {e:?}"))?;
    for (i, (m, at)) in c.mods.iter().zip(&at).enumerate() {
        let exp = match at {
            Some(at) => m.decode_out(&b[*at..at + m.out_bytes()]).map_err(|()| "malformed frame written")?,
            None => vec![E::None; m.k.channels()],
        };
        all_agree(&format!("decoded module {i} ({:?})", m.k), &exp, &back[i])?;
        if at.is_some() {
            for (v, r) in vals[i].iter().zip(&back[i]) {
                use ur20::ChannelValue::*;
                let same = match (v, r) {
                    (Bit(_), _) | (ComRsOut(_), _) => v == r,
                    _ => true,
                };
                ensure!(same, "module {i}: {v:?} comes back as {r:?}");
            }
        }
    }
    let again = process_output_values(&infos, &back);
    ensure!(again.as_ref() == Ok(&image), "image {image:04x?} is rewritten as {again:04x?}");
    let placed = at.iter().flatten().count();
    st.nontrivial_if(placed >= 2);
    st.label_if(at.iter().flatten().any(|a| a % 2 == 1), "module at a high byte");
    st.label_if(owned.iter().any(|o| !o), "padding");
    st.label_if(placed > 16, "more than 16 modules");
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![Box::new(Gen {
        name: "images",
        rule: "up to 64 modules laid out contiguously with random padding and values; in 2 of 5 cases one address, value or list is changed; non-trivial = image produced for at least 2 modules",
        cases: (1_000_000, 12_000_000),
        strategy: cases,
        test,
    })]
}
