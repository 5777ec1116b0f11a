//! C20: a rack can be brought up and operated from its registers alone.
//!
//! The device side fills and reads a register space at addresses written down
//! here; the host side uses only what the library publishes.

use super::{c14::check_written, plant::*, serial::tail};
use crate::{engine::*, ensure, layout::*, model::*, tables};
use proptest::prelude::*;
use std::collections::BTreeMap;
use ur20::{ChannelValue, ModuleType, ur20_fbc_mod_tcp as fbc, ur20_fbc_mod_tcp::*};

// The coupler's register map.
const IN: usize = 0x0000;
const OUT: usize = 0x0800;
const ID: usize = 0x1000;
const STATUS: usize = 0x100C;
const OUT_BITS: usize = 0x1010;
const IN_BITS: usize = 0x1011;
const COUNT: usize = 0x27FE;
const LIST: usize = 0x2A00;
const OFFSETS: usize = 0x2B00;
const PARAMS: usize = 0xC000;

struct Rack {
    regs: Vec<u16>,
}

impl Rack {
    fn new(l: &Layout, noise: &Fill) -> Result<Rack, String> {
        let mut regs = to_words(&noise.image(2 * 65536));
        regs[ID..ID + 7].copy_from_slice(&to_words(b"UR20-FBC-MOD\0\0"));
        regs[STATUS] = 0x0001;
        regs[OUT_BITS] = 8 * l.out_len() as u16;
        regs[IN_BITS] = 8 * l.in_len() as u16;
        regs[COUNT] = l.slots.len() as u16;
        for (i, s) in l.slots.iter().enumerate() {
            let t = s.m.k.module_type();
            let id = tables::rows().iter().find(|r| r.t == t).and_then(|r| r.id).ok_or("no id")?;
            regs[LIST + 2 * i] = (id >> 16) as u16;
            regs[LIST + 2 * i + 1] = id as u16;
            regs[OFFSETS + 2 * i] = s.out.map_or(0xFFFF, out_addr);
            regs[OFFSETS + 2 * i + 1] = s.inp.map_or(0xFFFF, in_addr);
            regs[PARAMS + 256 * i..][..s.m.p.len()].copy_from_slice(&s.m.p);
        }
        Ok(Rack { regs })
    }
    fn read(&self, addr: u16, n: usize) -> Vec<u16> {
        let a = addr as usize;
        self.regs[a..(a + n).min(65536)].to_vec()
    }
}

struct Serial {
    queued: Vec<u8>,
    /// requested as output value for the next cycle
    requested: Option<Vec<u8>>,
    expected: Vec<u8>,
    seen: Option<usize>,
    read: Vec<u8>,
    /// bytes transmitted and read that have been compared
    compared: (usize, usize),
}

/// `a` is the beginning of `b`; their first `n` bytes are known to be equal.
fn begins(b: &[u8], a: &[u8], n: usize) -> bool {
    a.len() <= b.len() && n <= a.len() && a[n..] == b[n..a.len()]
}

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    let l = &c.layout;
    let mut rack = Rack::new(l, &c.start.0)?;
    let mut plant = Plant::new(c);
    // bring-up
    ensure!(
        rack.read(fbc::ADDR_COUPLER_ID, 7) == to_words(b"UR20-FBC-MOD\0\0") && rack.read(fbc::ADDR_COUPLER_STATUS, 1) == [1],
        "coupler id {:04x?}, status {:04x?}",
        rack.read(fbc::ADDR_COUPLER_ID, 7),
        rack.read(fbc::ADDR_COUPLER_STATUS, 1)
    );
    let n = rack.read(fbc::ADDR_CURRENT_MODULE_COUNT, 1)[0] as usize;
    ensure!(n == l.slots.len(), "{n} modules found, {} plugged", l.slots.len());
    let modules: Vec<ModuleType> = module_list_from_registers(&rack.read(fbc::ADDR_CURRENT_MODULE_LIST, 2 * n))
        .map_err(|e| format!("module list: {e:?}"))?;
    let params = param_addresses_and_register_counts(&modules)
        .into_iter()
        .map(|(a, k)| rack.read(a, k as usize))
        .collect();
    let offsets = rack.read(fbc::ADDR_MODULE_OFFSETS, 2 * n);
    let words = |r: &Rack, a| (r.read(a, 1)[0] as usize).div_ceil(16);
    let (in_words, out_words) = (words(&rack, fbc::ADDR_PROCESS_INPUT_LEN), words(&rack, fbc::ADDR_PROCESS_OUTPUT_LEN));
    let mut real = Coupler::new(&CouplerConfig { modules, offsets, params }).map_err(|e| format!("coupler not created: {e:?}"))?;

    let mut serial: BTreeMap<usize, Serial> = plant
        .devs
        .keys()
        .map(|k| {
            (*k, Serial { queued: vec![], requested: None, expected: vec![], seen: None, read: vec![], compared: (0, 0) })
        })
        .collect();
    let mut pending: BTreeMap<usize, BTreeMap<usize, GV>> = BTreeMap::new();
    // every serial module is given time to finish at the end
    let mut todo = unroll(&c.ops);
    let mut drained = false;
    let (mut cycles, mut used) = (0usize, 0usize);
    let mut i = 0;
    loop {
        if i == todo.len() {
            if drained {
                break;
            }
            drained = true;
            let most = serial
                .values()
                .map(|s| s.queued.len() - s.compared.0 + s.requested.as_ref().map_or(0, Vec::len))
                .max()
                .unwrap_or(0);
            for _ in 0..if serial.is_empty() { 1 } else { most + 10 } {
                todo.push(Op::Cycle(Fill::Seed(i as u64), None));
                todo.push(Op::Devices(u64::MAX, 0));
            }
            todo.extend(plant.drain_ops());
            continue;
        }
        let op = todo[i].clone();
        i += 1;
        match &op {
            Op::Set(m, 0, GV::Bytes(b)) if serial.contains_key(m) => {
                let s = serial.get_mut(m).ok_or("no device")?;
                if s.requested.is_none() {
                    set(&mut real, *m, 0, &GV::Bytes(b.clone()))?;
                    s.requested = Some(b.clone());
                }
            }
            Op::Set(m, ch, v) => {
                set(&mut real, *m, *ch, v)?;
                pending.entry(*m).or_default().insert(*ch, v.clone());
            }
            Op::Queue(m, f, k) => {
                let s = serial.get_mut(m).ok_or("no device")?;
                if s.requested.is_none() {
                    let b = f.image(*k as usize);
                    queue(&mut real, *m, &b)?;
                    s.queued.extend_from_slice(&b);
                }
            }
            Op::Read(m, k) => {
                let b = read(&mut real, *m, *k)?;
                let s = serial.get_mut(m).ok_or("no device")?;
                ensure!(
                    *k == 0 || !b.is_empty() || s.read.len() == s.expected.len(),
                    "step {i}: module {m}: nothing read though {} bytes have arrived",
                    s.expected.len() - s.read.len()
                );
                s.read.extend_from_slice(&b);
                ensure!(
                    begins(&s.expected, &s.read, s.compared.1),
                    "step {i}: module {m}: bytes read {:02x?}, presented {:02x?}",
                    tail(&s.read),
                    tail(&s.expected)
                );
                s.compared.1 = s.read.len();
            }
            Op::Present(m, f, k) => plant.present(*m, f, *k),
            // segments presented during start-up may be flushed
            Op::Flags(m, k) => plant.flags(*m, *k),
            Op::Devices(t, r) => plant.devices(*t, if cycles >= 2 { *r } else { 0 }),
            Op::Cycle(f, _) => {
                cycles += 1;
                plant.refresh(f, &None);
                let held = plant.out.clone();
                let iw = to_words(&plant.inp);
                rack.regs[IN..IN + iw.len()].copy_from_slice(&iw);
                let ow = to_words(&held);
                rack.regs[OUT..OUT + ow.len()].copy_from_slice(&ow);
                // the host's part
                let w = real
                    .next(
                        &rack.read(fbc::ADDR_PACKED_PROCESS_INPUT_DATA, in_words),
                        &rack.read(fbc::ADDR_PACKED_PROCESS_OUTPUT_DATA, out_words),
                    )
                    .map_err(|e| format!("step {i}: cycle failed: {e:?}"))?;
                ensure!(w.len() == out_words, "step {i}: {} words to write instead of {out_words}", w.len());
                rack.regs[fbc::ADDR_PACKED_PROCESS_OUTPUT_DATA as usize..][..w.len()].copy_from_slice(&w);
                // back in the device
                let got_words = rack.regs[OUT..OUT + ow.len()].to_vec();
                let got = to_bytes(&got_words);
                let ei = l.expect_in(&plant.inp).map_err(|()| "model")?;
                let req = std::mem::take(&mut pending);
                let none = BTreeMap::new();
                ensure!(real.inputs().len() == n && real.outputs().len() == n, "step {i}: value lists");
                for (k, s) in l.slots.iter().enumerate() {
                    if let Some(d) = plant.devs.get(&k) {
                        let x = serial.get_mut(&k).ok_or("no device")?;
                        if let Some(b) = x.requested.take() {
                            x.queued.extend_from_slice(&b);
                        }
                        let e = &d.input;
                        let v = &real.inputs()[k][0];
                        let ok = match v {
                            ChannelValue::Bytes(b) => e.avail && *b == e.data,
                            ChannelValue::None => !e.avail || e.data.is_empty(),
                            _ => false,
                        };
                        ensure!(ok, "step {i}: input of module {k} is {v:?}, the device shows {e:?}");
                        if cycles >= 3 && e.avail && x.seen != Some(d.presented) {
                            x.seen = Some(d.presented);
                            x.expected.extend_from_slice(&e.data);
                        }
                        continue;
                    }
                    all_agree(&format!("step {i}: inputs of module {k} ({:?})", s.m.k), &ei[k], &real.inputs()[k])?;
                    if let Some(r) = s.out_range() {
                        let rq = req.get(&k).unwrap_or(&none);
                        used += rq.len();
                        check_written(&s.m, &held[r.clone()], &got[r], rq)
                            .map_err(|e| format!("step {i}: module {k} ({:?}) drives: {e}", s.m.k))?;
                    }
                }
                plant.written(&got_words).map_err(|e| format!("step {i}: {e}"))?;
            }
            Op::Fail(_) | Op::Fails(..) | Op::Again(_) => {}
        }
        for (k, d) in &plant.devs {
            let s = serial.get_mut(k).ok_or("no device")?;
            ensure!(
                begins(&s.queued, &d.taken, s.compared.0),
                "step {i}: module {k} has transmitted {:02x?}, queued {:02x?}",
                tail(&d.taken),
                tail(&s.queued)
            );
            s.compared.0 = d.taken.len();
        }
    }
    for (k, d) in &plant.devs {
        let s = &serial[k];
        ensure!(
            d.taken == s.queued,
            "module {k} has transmitted {} of {} queued bytes",
            d.taken.len(),
            s.queued.len()
        );
        // what the last read operations left over
        let mut rest = vec![];
        loop {
            let b = read(&mut real, *k, 4096)?;
            if b.is_empty() {
                break;
            }
            rest.extend(b);
        }
        let mut all = s.read.clone();
        all.extend(rest);
        ensure!(
            all == s.expected,
            "module {k}: bytes read {:02x?}, presented {:02x?}",
            tail(&all),
            tail(&s.expected)
        );
    }
    st.nontrivial_if(cycles >= 3 && (used > 0 || !plant.devs.is_empty()));
    st.label_if(used > 5, "more than 5 requests in effect");
    st.label_if(plant.devs.values().any(|d| d.taken.len() > 14), "more than one segment transmitted");
    st.label_if(serial.values().any(|s| s.expected.len() > 14), "more than one segment received");
    st.label_if(l.slots.len() > 8, "more than 8 modules");
    Ok(())
}

fn present(n: std::ops::RangeInclusive<usize>, max: usize) -> BoxedStrategy<Case> {
    use crate::dev::Accept;
    let kinds = prop_oneof![2 => Just(K::Com), 4 => mixed_kinds(), 4 => any_kind()].boxed();
    layouts(kinds, n, false)
        .prop_flat_map(move |l| {
            (
                (ops(&l, max, false), proptest::option::weighted(0.3, burst(&l)), any::<prop::sample::Index>()).prop_map(|(mut o, b, at)| {
                    if let Some(b) = b {
                        let at = at.index(o.len() + 1);
                        o.splice(at..at, b.into_iter().map(|(m, c, v)| Op::Set(m, c, v)));
                    }
                    o
                }),
                Just(l),
                prop_oneof![Just(Accept::Changed), Just(Accept::Next)],
                (fill(), fill()),
            )
        })
        .prop_map(|(ops, layout, accept, start)| Case { layout, accept, start, ops })
        .boxed()
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Gen {
            name: "racks",
            rule: "1 to 6 modules with any parameters, brought up from a register space and operated over up to 100 steps (requests, serial data both ways, cycles) with everything checked on the device side; non-trivial = 3 cycles and a request or a serial module",
            cases: (50_000, 800_000),
            strategy: || present(1..=6, 100),
            test,
        }),
        Box::new(Gen {
            name: "large-racks",
            rule: "as above with 7 to 64 modules; non-trivial = 3 cycles and a request or a serial module",
            cases: (6_000, 60_000),
            strategy: || present(7..=64, 60),
            test,
        }),
        Box::new(Gen {
            name: "endurance",
            rule: "as above with 1 to 4 modules, the history repeated for 70 000 cycles; non-trivial = 3 cycles and a request or a serial module",
            cases: (24, 400),
            strategy: || present(1..=4, 60).prop_map(endless).boxed(),
            test,
        }),
    ]
}
