//! C14: requested outputs take effect once, alone, and everything else is kept.

use super::plant::burst;
use crate::{engine::*, ensure, layout::*, model::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use ur20::{Address, ChannelValue, Error};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    /// request on an existing channel
    Set(usize, usize, GV),
    /// request on a channel that does not exist
    Bad(usize, usize, GV),
    /// cycle; `Some`: with a new output image, `None`: with the one written last
    Cycle(Fill, Option<Fill>),
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Case {
    layout: Layout,
    ops: Vec<Op>,
}

fn ops(l: &Layout) -> BoxedStrategy<Vec<Op>> {
    prop_oneof![ops_with(l, false), ops_with(l, true)].boxed()
}

/// `near`: the images change little from cycle to cycle.
fn ops_with(l: &Layout, near: bool) -> BoxedStrategy<Vec<Op>> {
    let slots: Vec<_> = l.slots.iter().map(|s| s.m.clone()).collect();
    let with: Vec<usize> = (0..slots.len()).filter(|i| slots[*i].k.channels() > 0).collect();
    let outs: Vec<usize> = (0..slots.len()).filter(|i| slots[*i].k.has_outputs()).collect();
    let n = slots.len();
    let cycle = (next_fill(near), proptest::option::weighted(0.4, next_fill(near))).prop_map(|(a, b)| Op::Cycle(a, b));
    let bad = (0..n + 3, prop_oneof![0usize..20, Just(usize::MAX)], any_value()).prop_map({
        let slots = slots.clone();
        move |(m, c, v)| {
            if m < n {
                Op::Bad(m, c.saturating_add(slots[m].k.channels()), v)
            } else {
                Op::Bad(if m == n + 2 { usize::MAX } else { m }, c, v)
            }
        }
    });
    let mut choices: Vec<(u32, BoxedStrategy<Op>)> = vec![(8, cycle.boxed()), (1, bad.boxed())];
    let set = |from: Vec<usize>, slots: Vec<M>| {
        proptest::sample::select(from)
            .prop_flat_map(move |i| {
                let m = slots[i].clone();
                let v = if m.k.is_com() {
                    bytes(40).prop_map(GV::Bytes).boxed()
                } else if m.k.has_outputs() {
                    good_value(&m)
                } else {
                    any_value()
                };
                (Just(i), 0..m.k.channels(), v)
            })
            .prop_map(|(m, c, v)| Op::Set(m, c, v))
            .boxed()
    };
    if !with.is_empty() {
        choices.push((1, set(with, slots.clone())));
    }
    if !outs.is_empty() {
        choices.push((12, set(outs, slots)));
    }
    proptest::collection::vec(proptest::strategy::Union::new_weighted(choices), 2..40).boxed()
}

fn cases() -> BoxedStrategy<Case> {
    let l = prop_oneof![
        10 => layouts(mixed_kinds(), 1..=5, true),
        1 => layouts(mixed_kinds(), 6..=30, true),
    ];
    l.prop_flat_map(|l| (ops(&l), Just(l)))
        .prop_map(|(ops, layout)| Case { layout, ops })
        .boxed()
}

/// Many modules, and requests for most of their channels between two cycles.
fn bursts() -> BoxedStrategy<Case> {
    layouts(mixed_kinds(), 12..=64, false)
        .prop_flat_map(|l| {
            let one = || prop_oneof![next_fill(false), next_fill(true)];
            let cycle = || (one(), proptest::option::weighted(0.4, one())).prop_map(|(a, b)| Op::Cycle(a, b));
            let round = (burst(&l), proptest::collection::vec(cycle(), 1..3)).prop_map(|(b, c)| {
                let mut v: Vec<Op> = b.into_iter().map(|(m, c, v)| Op::Set(m, c, v)).collect();
                v.extend(c);
                v
            });
            (proptest::collection::vec(round, 1..4), Just(l))
        })
        .prop_map(|(ops, layout)| Case { layout, ops: ops.concat() })
        .boxed()
}

/// Checks the written bytes of a module against the bytes read back and the requests.
pub fn check_written(m: &M, prev: &[u8], got: &[u8], req: &BTreeMap<usize, GV>) -> Result<(), String> {
    let word = |b: &[u8], i: usize| u16::from(b[2 * i]) + 256 * u16::from(b[2 * i + 1]);
    for c in 0..m.k.channels() {
        let r = req.get(&c);
        match m.k {
            K::Do4 | K::Do42A | K::Do8 | K::Do16 | K::Ro4 => {
                let bit = |b: &[u8]| b[c / 8] >> (c % 8) & 1 == 1;
                let want = match r {
                    Some(v) => *v == GV::Bit(true),
                    None => bit(prev),
                };
                ensure!(
                    bit(got) == want,
                    "channel {c}: {} written, requested {r:?}, read back {}",
                    bit(got),
                    bit(prev)
                );
            }
            K::Ao | K::AoDiag => {
                let (f, range) = m.fmt_range(c);
                match r {
                    Some(v) => check_code(v, f, range, word(got, c)).map_err(|e| format!("channel {c}: {e}"))?,
                    None => {
                        let want = if ui_range(range).is_some() { word(prev, c) } else { 0 };
                        ensure!(
                            word(got, c) == want,
                            "channel {c}: {:#06x} written, {want:#06x} read back",
                            word(got, c)
                        );
                    }
                }
            }
            K::Fcnt => {
                let f = |b: &[u8]| {
                    (
                        u64::from(word(b, 2 * c)) * 65536 + u64::from(word(b, 2 * c + 1)),
                        word(b, 4 + c) & 0x0300,
                    )
                };
                let want = match r {
                    Some(GV::Fout { secs, nanos, cmd }) => (
                        secs * 1_000_000 + u64::from(*nanos) / 1000,
                        match cmd {
                            None => 0,
                            Some(true) => 0x0100,
                            Some(false) => 0x0200,
                        },
                    ),
                    Some(_) => (0, 0),
                    None => f(prev),
                };
                ensure!(
                    f(got) == want,
                    "channel {c}: {:x?} written, expected {want:x?} (requested {r:?})",
                    f(got)
                );
                ensure!(word(got, 4 + c) & !0x0300 == 0, "channel {c}: stray control bits");
            }
            _ => {}
        }
    }
    // nothing beyond the channels
    match m.k {
        K::Do4 | K::Do42A | K::Ro4 => ensure!(got[0] < 16, "bits outside the module: {got:02x?}"),
        _ => {}
    }
    Ok(())
}

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    let l = &c.layout;
    let mut real = l.coupler()?;
    let mut pending: BTreeMap<usize, BTreeMap<usize, GV>> = BTreeMap::new();
    let mut out = vec![0u8; l.out_len()];
    l.sanitize_out(&mut out);
    let mut i = vec![0u8; l.in_len()];
    l.sanitize_in(&mut i);
    let (mut cycles, mut used) = (0, 0);
    for (n, op) in c.ops.iter().enumerate() {
        match op {
            Op::Set(m, ch, v) => {
                let a = Address { module: *m, channel: *ch };
                real.set_output(&a, v.v())
                    .map_err(|e| format!("step {n}: request for {a:?} rejected: {e:?}"))?;
                let twice = pending.entry(*m).or_default().insert(*ch, v.clone()).is_some();
                st.label_if(twice, "second request for a channel");
            }
            Op::Bad(m, ch, v) => {
                let a = Address { module: *m, channel: *ch };
                let r = real.set_output(&a, v.v());
                ensure!(r == Err(Error::Address), "step {n}: request for {a:?} gives {r:?}");
                st.label("address that does not exist");
            }
            Op::Cycle(fi, fo) => {
                cycles += 1;
                i = fi.after(&i);
                l.sanitize_in(&mut i);
                if let Some(f) = fo {
                    out = f.after(&out);
                    l.sanitize_out(&mut out);
                }
                let w = real
                    .next(&with_slack(&i, fi), &with_slack(&out, fi))
                    .map_err(|e| format!("step {n}: cycle failed: {e:?}"))?;
                let got = to_bytes(&w);
                ensure!(got.len() == out.len(), "step {n}: {} bytes instead of {}", got.len(), out.len());
                let mut owned = vec![false; got.len()];
                let req = std::mem::take(&mut pending);
                let none = BTreeMap::new();
                let (ei, eo) = (
                    l.expect_in(&i).map_err(|()| "model")?,
                    l.expect_out(&out).map_err(|()| "model")?,
                );
                ensure!(
                    real.inputs().len() == ei.len() && real.outputs().len() == eo.len(),
                    "step {n}: {} and {} value lists for {} modules",
                    real.inputs().len(),
                    real.outputs().len(),
                    ei.len()
                );
                for (k, s) in l.slots.iter().enumerate() {
                    if let Some(r) = s.out_range() {
                        owned[r.clone()].fill(true);
                        let rq = req.get(&k).unwrap_or(&none);
                        used += rq.len();
                        check_written(&s.m, &out[r.clone()], &got[r], rq)
                            .map_err(|e| format!("step {n}: module {k} ({:?}): {e}", s.m.k))?;
                    }
                    let what = |d| format!("step {n}: {d} of module {k} ({:?})", s.m.k);
                    if s.m.k.is_com() && s.inp.is_some() && s.out.is_some() {
                        let E::ComIn(e) = &ei[k][0] else { return Err("model".into()) };
                        let v = &real.inputs()[k][0];
                        let ok = match v {
                            ChannelValue::Bytes(b) => e.avail && *b == e.data,
                            ChannelValue::None => !e.avail || e.data.is_empty(),
                            _ => false,
                        };
                        ensure!(ok, "{} are {v:?}, read {e:?}", what("inputs"));
                        let E::ComOut(e) = &eo[k][0] else { return Err("model".into()) };
                        let v = &real.outputs()[k][0];
                        let ok = match v {
                            ChannelValue::Bytes(b) => *b == e.data,
                            ChannelValue::None => true,
                            _ => false,
                        };
                        ensure!(ok, "{} are {v:?}, read {e:?}", what("outputs"));
                    } else {
                        all_agree(&what("inputs"), &ei[k], &real.inputs()[k])?;
                        all_agree(&what("outputs"), &eo[k], &real.outputs()[k])?;
                    }
                }
                for (b, o) in owned.iter().enumerate() {
                    ensure!(*o || got[b] == 0, "step {n}: padding byte {b} is {:#04x}", got[b]);
                }
                st.label_if(req.is_empty(), "cycle without requests");
                out = got;
                l.sanitize_out(&mut out);
            }
        }
    }
    st.nontrivial_if(cycles >= 2 && used > 0);
    st.label_if(used > 5, "more than 5 requests in effect");
    st.label_if(used > 150, "more than 150 requests in effect");
    st.label_if(l.has_com(), "with serial module");
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Gen {
            name: "histories",
            rule: "up to 39 requests (also repeated and for channels that don't exist) and cycles over changing input images and either the image written last or another one; non-trivial = at least 2 cycles and one request in effect",
            cases: (320_000, 5_000_000),
            strategy: cases,
            test,
        }),
        Box::new(Gen {
            name: "bursts",
            rule: "12 to 64 modules with requests for most output channels (up to about 900) between two cycles; non-trivial = at least 2 cycles and one request in effect",
            cases: (10_000, 100_000),
            strategy: bursts,
            test,
        }),
        super::endurance::sweep(
            "endurance",
            "70 000 cycles of a six module coupler with 0 to 3 requests each; every case is non-trivial",
            super::endurance::outputs,
        ),
    ]
}
