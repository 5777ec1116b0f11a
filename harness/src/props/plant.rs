//! A coupler's process images with simulated serial devices behind them, and
//! the histories driving it (shared by C15 and C16).

use super::serial::{sizes, small_fill};
use crate::{dev::*, ensure, layout::*, model::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use ur20::{Address, ur20_fbc_mod_tcp::Coupler};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    /// encodable request
    Set(usize, usize, GV),
    /// bytes through the writer of a serial module
    Queue(usize, Fill, u16),
    Read(usize, u16),
    Present(usize, Fill, u8),
    /// device steps of the serial modules selected by the masks (tx, rx)
    Devices(u64, u64),
    /// other status flags of a serial module
    Flags(usize, u8),
    /// cycle with new input bytes, optionally with other output bytes
    Cycle(Fill, Option<Fill>),
    /// a cycle that fails
    Fail(Failing),
    /// many such cycles in a row
    Fails(Failing, u32),
    /// everything up to here that many times more
    Again(u32),
}

/// Why a cycle fails.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Failing {
    /// words missing at the end of the input image
    ShortInput(u16),
    ShortOutput(u16),
    /// serial input frame announcing more than it has
    BadInputFrame(usize, u8),
    BadOutputFrame(usize, u8),
    /// request that can't be encoded
    Request(usize, usize, GV),
    /// counter duration that can't be written back
    ReadBack(usize, u32),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    pub layout: Layout,
    pub accept: Accept,
    /// content of the registers at start
    pub start: (Fill, Fill),
    pub ops: Vec<Op>,
}

fn failing(l: &Layout) -> BoxedStrategy<Failing> {
    let slots = l.slots.clone();
    let (il, ol) = ((l.in_len() / 2) as u16, (l.out_len() / 2) as u16);
    let mut c: Vec<(u32, BoxedStrategy<Failing>)> = vec![];
    if il > 0 {
        c.push((2, (1..=il).prop_map(Failing::ShortInput).boxed()));
    }
    if ol > 0 {
        c.push((2, (1..=ol).prop_map(Failing::ShortOutput).boxed()));
    }
    for (i, s) in slots.iter().enumerate() {
        if s.m.k.is_com() && s.inp.is_some() {
            let n = s.m.user_len() as u8;
            c.push((1, (n + 1..=255).prop_map(move |x| Failing::BadInputFrame(i, x)).boxed()));
        }
        if s.m.k.is_com() && s.out.is_some() {
            let n = s.m.user_len() as u8;
            c.push((1, (n + 1..=255).prop_map(move |x| Failing::BadOutputFrame(i, x)).boxed()));
        }
        if s.m.k.has_outputs() && !s.m.k.is_com() && s.out.is_some() {
            let m = s.m.clone();
            let bad = any_value().prop_map(move |v| {
                if !m.encodable(&v) {
                    v
                } else if m.k == K::Fcnt {
                    GV::Fout { secs: 9, nanos: 0, cmd: None }
                } else {
                    GV::Bytes(vec![1])
                }
            });
            c.push((
                2,
                (0..s.m.k.channels(), bad)
                    .prop_map(move |(ch, v)| Failing::Request(i, ch, v))
                    .boxed(),
            ));
        }
        if s.m.k == K::Fcnt && s.out.is_some() {
            c.push((
                2,
                prop_oneof![Just(8_388_608u32), 8_388_608..=u32::MAX]
                    .prop_map(move |d| Failing::ReadBack(i, d))
                    .boxed(),
            ));
        }
    }
    proptest::strategy::Union::new_weighted(c).boxed()
}

pub fn ops(l: &Layout, max: usize, fails: bool) -> BoxedStrategy<Vec<Op>> {
    prop_oneof![ops_with(l, max, fails, false), ops_with(l, max, fails, true)].boxed()
}

/// `near`: the images change little from cycle to cycle.
fn ops_with(l: &Layout, max: usize, fails: bool, near: bool) -> BoxedStrategy<Vec<Op>> {
    let cycle = (next_fill(near), proptest::option::weighted(0.15, next_fill(near))).prop_map(|(a, b)| Op::Cycle(a, b));
    let mut c: Vec<(u32, BoxedStrategy<Op>)> = vec![(14, cycle.boxed())];
    let com: Vec<usize> = (0..l.slots.len()).filter(|i| l.slots[*i].m.k.is_com()).collect();
    if !com.is_empty() {
        let n = com.len() as u32;
        let pick = proptest::sample::select(com.clone());
        c.push((8, (any::<u64>(), any::<u64>()).prop_map(|(a, b)| Op::Devices(a, b)).boxed()));
        c.push((1, (pick.clone(), 0u8..8).prop_map(|(m, k)| Op::Flags(m, k)).boxed()));
        c.push((2, Just(Op::Devices(u64::MAX, u64::MAX)).boxed()));
        c.push((2 + n, (pick.clone(), small_fill(), sizes()).prop_map(|(m, f, n)| Op::Queue(m, f, n)).boxed()));
        c.push((2 + n, (pick.clone(), small_fill(), sizes()).prop_map(|(m, f, n)| Op::Set(m, 0, GV::Bytes(f.image(n as usize)))).boxed()));
        c.push((2 + 2 * n, (pick.clone(), small_fill(), 0u8..15).prop_map(|(m, f, n)| Op::Present(m, f, n)).boxed()));
        c.push((2 + n, (pick, prop_oneof![8 => 0u16..60, 1 => Just(256u16), 1 => Just(4096u16)]).prop_map(|(m, n)| Op::Read(m, n)).boxed()));
    }
    let outs: Vec<(usize, M)> = l
        .slots
        .iter()
        .enumerate()
        .filter(|(_, s)| s.m.k.has_outputs() && !s.m.k.is_com())
        .map(|(i, s)| (i, s.m.clone()))
        .collect();
    if !outs.is_empty() {
        let set = proptest::sample::select(outs)
            .prop_flat_map(|(i, m)| (Just(i), 0..m.k.channels(), good_value(&m)))
            .prop_map(|(m, c, v)| Op::Set(m, c, v));
        c.push((8, set.boxed()));
    }
    if fails && (l.in_len() > 0 || l.out_len() > 0) {
        c.push((7, failing(l).prop_map(Op::Fail).boxed()));
        c.push((1, (failing(l), prop_oneof![30 => 2u32..12, 3 => 12u32..300]).prop_map(|(f, n)| Op::Fails(f, n)).boxed()));
    }
    let one = proptest::strategy::Union::new_weighted(c).boxed();
    prop_oneof![
        1 => proptest::collection::vec(one.clone(), 1..20),
        2 => proptest::collection::vec(one, 10..max),
    ]
    .boxed()
}

/// Requests for most of the output channels at once, in any order.
pub fn burst(l: &Layout) -> BoxedStrategy<Vec<(usize, usize, GV)>> {
    let all: Vec<_> = l
        .slots
        .iter()
        .enumerate()
        .filter(|(_, s)| s.m.k.has_outputs() && !s.m.k.is_com())
        .flat_map(|(i, s)| {
            (0..s.m.k.channels()).map(move |c| (Just(i), Just(c), good_value(&s.m), 0u8..8))
        })
        .collect();
    all.prop_shuffle()
        .prop_map(|v| v.into_iter().filter(|x| x.3 > 0).map(|(m, c, v, _)| (m, c, v)).collect())
        .boxed()
}

pub fn kinds() -> BoxedStrategy<K> {
    prop_oneof![3 => Just(K::Com), 4 => mixed_kinds(), 1 => Just(K::Fcnt)].boxed()
}

pub fn cases(n: std::ops::RangeInclusive<usize>, max: usize, fails: bool) -> BoxedStrategy<Case> {
    layouts(kinds(), n, true)
        .prop_flat_map(move |l| {
            (
                ops(&l, max, fails),
                Just(l),
                prop_oneof![Just(Accept::Changed), Just(Accept::Next)],
                (fill(), fill()),
            )
        })
        .prop_map(|(ops, layout, accept, start)| Case {
            layout,
            accept,
            start,
            ops,
        })
        .boxed()
}

/// The same history once more and again, for 70 000 cycles.
pub fn endless(mut c: Case) -> Case {
    let l = &c.layout;
    // no more than the devices and readers get rid of in time
    let mut n = vec![0; l.slots.len()];
    c.ops.retain_mut(|op| match op {
        Op::Queue(m, _, k) => {
            n[*m] += 1;
            *k %= 40;
            n[*m] < 4
        }
        Op::Set(m, _, GV::Bytes(b)) => {
            n[*m] += 1;
            b.truncate(40);
            n[*m] < 4
        }
        Op::Fails(f, _) => {
            *op = Op::Fail(f.clone());
            true
        }
        _ => true,
    });
    let com: Vec<usize> = (0..l.slots.len()).filter(|i| l.slots[*i].m.k.is_com()).collect();
    if !com.is_empty() {
        let todo = c.ops.iter().filter(|o| matches!(o, Op::Present(..))).count();
        for k in 0..(24usize).max(todo) {
            c.ops.push(Op::Devices(u64::MAX, u64::MAX));
            c.ops.push(Op::Cycle(Fill::Near(k as u64), None));
        }
        c.ops.extend(com.iter().map(|m| Op::Read(*m, 4096)));
    }
    let cycles = c.ops.iter().filter(|o| matches!(o, Op::Cycle(..))).count().max(1);
    c.ops.push(Op::Again((super::endurance::CYCLES / cycles) as u32));
    c
}

/// The steps with all repetitions.
pub fn unroll(ops: &[Op]) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    for op in ops {
        match op {
            Op::Fails(f, k) => v.extend((0..*k).map(|_| Op::Fail(f.clone()))),
            Op::Again(n) => {
                let k = v.len();
                for _ in 0..*n {
                    v.extend_from_within(..k);
                }
            }
            op => v.push(op.clone()),
        }
    }
    v
}

/// The registers and the devices behind them.
pub struct Plant {
    pub layout: Layout,
    pub inp: Vec<u8>,
    pub out: Vec<u8>,
    pub devs: BTreeMap<usize, Dev>,
}

impl Plant {
    pub fn new(c: &Case) -> Plant {
        let l = c.layout.clone();
        let mut inp = c.start.0.image(l.in_len());
        let mut out = c.start.1.image(l.out_len());
        l.sanitize_in(&mut inp);
        l.sanitize_out(&mut out);
        let mut devs = BTreeMap::new();
        for (i, s) in l.slots.iter().enumerate() {
            if let (true, Some(a), Some(b)) = (s.m.k.is_com(), s.in_range(), s.out_range()) {
                let (Some(a), Some(b)) = (ComIn::decode(&inp[a]), ComOut::decode(&out[b])) else {
                    unreachable!()
                };
                devs.insert(i, Dev::new(c.accept, a, b));
            }
        }
        Plant {
            layout: l,
            inp,
            out,
            devs,
        }
    }

    /// The registers before a cycle.
    pub fn refresh(&mut self, fi: &Fill, fo: &Option<Fill>) {
        self.inp = fi.after(&self.inp);
        self.layout.sanitize_in(&mut self.inp);
        if let Some(f) = fo {
            let mut o = f.after(&self.out);
            self.layout.sanitize_out(&mut o);
            self.out = o;
        }
        for (i, d) in &self.devs {
            let s = &self.layout.slots[*i];
            let n = s.m.user_len();
            self.inp[s.in_range().unwrap()].copy_from_slice(&d.input.frame(n));
            self.out[s.out_range().unwrap()].copy_from_slice(&d.output.frame(n));
        }
    }

    pub fn written(&mut self, w: &[u16]) -> Result<(), String> {
        let b = to_bytes(w);
        ensure!(b.len() == self.out.len(), "{} bytes written instead of {}", b.len(), self.out.len());
        self.out = b;
        for (i, d) in &mut self.devs {
            let r = self.layout.slots[*i].out_range().unwrap();
            d.write(ComOut::decode(&self.out[r]).ok_or("malformed frame written")?);
        }
        self.layout.sanitize_out(&mut self.out);
        Ok(())
    }

    pub fn devices(&mut self, tx: u64, rx: u64) {
        for (n, (_, d)) in self.devs.iter_mut().enumerate() {
            if tx >> (n % 64) & 1 == 1 {
                d.step_tx();
            }
            if rx >> (n % 64) & 1 == 1 {
                d.step_rx();
            }
        }
    }

    pub fn flags(&mut self, m: usize, k: u8) {
        if let Some(d) = self.devs.get_mut(&m) {
            d.flags(k);
        }
    }

    pub fn present(&mut self, m: usize, f: &Fill, n: u8) {
        let user = self.layout.slots[m].m.user_len();
        if let Some(d) = self.devs.get_mut(&m) {
            d.to_present.push_back(Some(f.image((n as usize).min(user))));
        }
    }

    /// Exchange of all segments still waiting.
    pub fn drain_ops(&self) -> Vec<Op> {
        let n = self
            .devs
            .values()
            .map(|d| d.to_present.len())
            .max()
            .unwrap_or(0);
        let mut v = vec![];
        for _ in 0..n + 8 {
            v.push(Op::Devices(u64::MAX, u64::MAX));
            v.push(Op::Cycle(Fill::Const(0), None));
        }
        for m in self.devs.keys() {
            v.push(Op::Read(*m, 1500));
        }
        v
    }
}

pub fn read(c: &mut Coupler, m: usize, n: u16) -> Result<Vec<u8>, String> {
    let mut b = vec![0; n as usize];
    let k = c
        .reader(m)
        .ok_or("no reader")?
        .read(&mut b)
        .map_err(|e| e.to_string())?;
    b.truncate(k);
    Ok(b)
}

pub fn queue(c: &mut Coupler, m: usize, b: &[u8]) -> Result<(), String> {
    c.writer(m)
        .ok_or("no writer")?
        .write_all(b)
        .map_err(|e| e.to_string())
}

pub fn set(c: &mut Coupler, m: usize, ch: usize, v: &GV) -> Result<(), String> {
    c.set_output(&Address { module: m, channel: ch }, v.v())
        .map_err(|e| format!("request for channel {ch} of module {m} rejected: {e:?}"))
}
