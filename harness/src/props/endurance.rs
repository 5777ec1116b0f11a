//! Long runs: beyond the range of 8 and 16 bit counters in cycles, segments
//! and bytes (used by C09, C10 and C14).

use super::{c14::check_written, serial::*};
use crate::{dev::*, engine::*, ensure, layout::*, model::*};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use ur20::Address;

pub const CYCLES: usize = 70_000;

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

/// Byte `k` of the endless stream `s`.
fn stream(s: u64, k: usize) -> u8 {
    Rng(s ^ (k as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93)).next() as u8
}

fn piece(s: u64, from: usize, n: usize) -> Vec<u8> {
    (from..from + n).map(|k| stream(s, k)).collect()
}

/// The neighbours of the serial module and what else is behind the coupler.
fn rack(long: bool) -> Layout {
    let m = |k, p: Vec<u16>| (M { k, p }, Hint::plain(false, false));
    place(
        vec![
            m(K::Do4, vec![0; 4]),
            m(K::Di8, vec![0; 8]),
            m(K::Com, vec![u16::from(long), 1, 0, 0, 0, 0, 0, 0, 17, 19]),
            m(K::Ao, vec![0, 0, 0, 1, 1, 0, 0, 3, 0, 1, 8, 0]),
            m(K::Fcnt, vec![0, 0]),
            m(K::Do16, vec![]),
        ],
        false,
    )
}

/// Eight runs per seed: frame length, coupler or processor alone, device.
pub fn size(c: &Ctx) -> u64 {
    c.n(8, 64)
}

pub fn describe(i: u64) -> Value {
    json!({
        "long_frames": i & 1 == 1,
        "through_coupler": i >> 1 & 1 == 1,
        "consecutive_numbers_only": i >> 2 & 1 == 1,
        "seed": i >> 3,
    })
}

/// At least 70 000 segments in the judged direction.
fn serial(i: u64, judge: Judge) -> Result<bool, String> {
    let long = i & 1 == 1;
    let setup = if i >> 1 & 1 == 1 {
        Setup::Coupler { layout: rack(long), pos: 2, fill: Fill::Seed(i) }
    } else {
        Setup::Processor { long }
    };
    let accept = if i >> 2 & 1 == 1 { Accept::Next } else { Accept::Changed };
    let user = setup.user();
    let mut rng = Rng(i ^ 0x5EED);
    let mut host = Host::new(&setup)?;
    let com_in = ComIn { avail: false, nearly_full: false, rx: 0, ack: 0, ready: true, data: vec![] };
    let com_out = ComOut { rx_flush: false, tx_flush: false, lock: false, tx: 0, ack: 0, reset: false, data: vec![] };
    let mut dev = Dev::new(accept, com_in, com_out);
    let (ts, rs) = (2 * i + 1, 2 * i + 2);
    let (mut queued, mut taken, mut requested) = (0usize, 0usize, 0usize);
    let (mut made, mut arrived, mut read, mut seen) = (0usize, 0usize, 0usize, 0usize);
    let mut segments = 0;
    // Cycles the device still stands still, and the reader still waits.
    let (mut stalled, mut hoarding, mut stalls) = (0usize, 0usize, 0usize);
    for cycle in 1usize.. {
        let done = match judge {
            Judge::Tx => dev.taken_segments >= CYCLES,
            Judge::Rx => segments >= CYCLES,
        };
        if done {
            break;
        }
        // The device stands still at times, once for longer than 16 bit counters last ...
        if stalled > 0 {
            stalled -= 1;
        } else if cycle > 10 && (rng.below(4000) == 0 || cycle % 20_000 == 0) {
            stalled = if cycle == 20_000 { CYCLES } else { [20, 70, 300, 1100][rng.below(4)] };
            stalls += stalled;
        }
        // ... and the reader, too.
        if hoarding > 0 {
            hoarding -= 1;
        } else if rng.below(1500) == 0 {
            hoarding = [50, 300, 1100][rng.below(3)];
        } else if cycle == 30_000 + CYCLES {
            hoarding = 25_000;
        }
        // A prompt device most of the time.
        ensure!(
            cycle < 4 * CYCLES + stalls,
            "after {cycle} cycles {} segments are transmitted and {segments} received",
            dev.taken_segments
        );
        if judge == Judge::Tx && requested == 0 && queued - taken < 2000 {
            // at times a lot at once
            let n = if cycle > 5 && rng.below(6000) == 0 { 60_000 } else { rng.below(300) };
            let b = piece(ts, queued, n);
            if rng.below(4) == 0 && host.request(&b)? {
                requested = n;
            } else {
                host.queue(&b)?;
                queued += n;
            }
        }
        while judge == Judge::Rx && cycle > 3 && dev.to_present.len() < 3 {
            let n = 1 + rng.below(user);
            dev.to_present.push_back(Some(piece(rs, made, n)));
            made += n;
        }
        queued += std::mem::take(&mut requested);
        if rng.below(500) == 0 {
            dev.flags(rng.next() as u8);
        }
        let (inp, out) = (dev.input.clone(), dev.output.clone());
        let presented = dev.presented;
        let n = host.cycle(&inp, &out)?;
        if inp.avail && presented != seen {
            seen = presented;
            segments += 1;
            arrived += inp.data.len();
        }
        dev.write(n);
        if stalled == 0 && rng.below(8) > 0 {
            dev.step_tx();
        }
        if stalled == 0 && rng.below(8) > 0 {
            dev.step_rx();
        }
        for (k, b) in dev.taken.iter().enumerate() {
            ensure!(
                taken + k < queued && *b == stream(ts, taken + k),
                "cycle {cycle}: byte {} of {queued} queued, transmitted as {b:#04x}, is not the one queued",
                taken + k
            );
        }
        taken += dev.taken.len();
        dev.taken.clear();
        if judge == Judge::Rx && hoarding == 0 && (rng.below(3) == 0 || arrived - read > 2000) {
            let n = if arrived - read > 2000 { 50_000 } else { rng.below(120) };
            let b = host.read(n)?;
            ensure!(
                n == 0 || !b.is_empty() || read == arrived,
                "cycle {cycle}: nothing read, {} bytes are buffered",
                arrived - read
            );
            for (k, b) in b.iter().enumerate() {
                ensure!(
                    read + k < arrived && *b == stream(rs, read + k),
                    "cycle {cycle}: byte {} of {arrived} received, read as {b:#04x}, is not the one presented",
                    read + k
                );
            }
            read += b.len();
        }
    }
    Ok(true)
}

pub fn transmit(i: u64) -> Result<bool, String> {
    serial(i, Judge::Tx)
}

pub fn receive(i: u64) -> Result<bool, String> {
    serial(i, Judge::Rx)
}

/// 70 000 cycles of a coupler with requests, always with the image written last.
pub fn outputs(i: u64) -> Result<bool, String> {
    let l = rack(i & 1 == 1);
    let mut real = l.coupler()?;
    let mut rng = Rng(i ^ 0x0074);
    let mut out = Fill::Seed(i).image(l.out_len());
    l.sanitize_out(&mut out);
    let outs: Vec<usize> = (0..l.slots.len()).filter(|k| l.slots[*k].m.k.has_outputs() && !l.slots[*k].m.k.is_com()).collect();
    let none = BTreeMap::new();
    let mut inp = vec![0; l.in_len()];
    for cycle in 1..=CYCLES {
        let mut req: BTreeMap<usize, BTreeMap<usize, GV>> = BTreeMap::new();
        // often nothing, sometimes many
        for _ in 0..[0, 0, 1, 3][rng.below(4)] {
            let k = outs[rng.below(outs.len())];
            let m = &l.slots[k].m;
            let c = rng.below(m.k.channels());
            let v = match m.k {
                K::Ao => GV::dec(rng.below(4000) as f32 / 100.0 - 10.0),
                K::Fcnt => GV::Fout {
                    secs: rng.below(8) as u64,
                    nanos: rng.below(1_000_000_000) as u32,
                    cmd: [None, Some(true), Some(false)][rng.below(3)],
                },
                _ => GV::Bit(rng.below(2) == 1),
            };
            real.set_output(&Address { module: k, channel: c }, v.v())
                .map_err(|e| format!("cycle {cycle}: request rejected: {e:?}"))?;
            req.entry(k).or_default().insert(c, v);
        }
        let f = rng.next();
        inp = if f % 2 == 0 { Fill::Seed(f) } else { Fill::Near(f) }.after(&inp);
        l.sanitize_in(&mut inp);
        let w = real
            .next(&to_words(&inp), &to_words(&out))
            .map_err(|e| format!("cycle {cycle} failed: {e:?}"))?;
        let got = to_bytes(&w);
        ensure!(got.len() == out.len(), "cycle {cycle}: {} bytes instead of {}", got.len(), out.len());
        let ei = l.expect_in(&inp).map_err(|()| "model")?;
        for (k, s) in l.slots.iter().enumerate() {
            if s.m.k.is_com() {
                continue;
            }
            all_agree(&format!("cycle {cycle}: inputs of module {k}"), &ei[k], &real.inputs()[k])?;
            if let Some(r) = s.out_range() {
                check_written(&s.m, &out[r.clone()], &got[r], req.get(&k).unwrap_or(&none))
                    .map_err(|e| format!("cycle {cycle}: module {k} ({:?}): {e}", s.m.k))?;
            }
        }
        out = got;
        l.sanitize_out(&mut out);
    }
    Ok(true)
}

pub fn sweep(name: &'static str, rule: &'static str, test: fn(u64) -> Result<bool, String>) -> Box<dyn Sub> {
    Box::new(Sweep { name, rule, size, test, describe })
}
