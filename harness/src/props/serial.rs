//! Hosts for a serial module: the message processor alone or a coupler with
//! neighbours, driven with the register contents of a simulated device.

use crate::{dev::*, engine::*, ensure, layout::*, model::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Write};
use ur20::{
    Address, ChannelValue,
    ur20_1com_232_485_422::{MessageProcessor, ProcessDataLength},
    ur20_fbc_mod_tcp::Coupler,
};

/// What drives the module.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Setup {
    Processor { long: bool },
    /// `pos`: index of the serial module under test
    Coupler { layout: Layout, pos: usize, fill: Fill },
}

impl Setup {
    pub fn user(&self) -> usize {
        match self {
            Setup::Processor { long: false } => 6,
            Setup::Processor { long: true } => 14,
            Setup::Coupler { layout, pos, .. } => layout.slots[*pos].m.user_len(),
        }
    }
    pub fn is_coupler(&self) -> bool {
        matches!(self, Setup::Coupler { .. })
    }
}

pub fn setups() -> BoxedStrategy<Setup> {
    let coupler = (
        proptest::collection::vec((mixed_kinds(), 0u8..10), 0..5),
        any::<prop::sample::Index>(),
        any::<[u8; 10]>(),
        any::<bool>(),
        fill(),
    )
        .prop_flat_map(|(mut ks, at, _, _, f)| {
            // one neighbour in four is a serial module, too
            for (k, w) in &mut ks {
                if *w < 2 {
                    *k = K::Com;
                }
            }
            let pos = at.index(ks.len() + 1);
            let mut kinds: Vec<K> = ks.into_iter().map(|x| x.0).collect();
            kinds.insert(pos, K::Com);
            let mods = kinds.into_iter().map(module).collect::<Vec<_>>();
            (mods, Just(pos), Just(f), any::<u64>())
        })
        .prop_map(|(mods, pos, fill, bits)| {
            let mods = mods
                .into_iter()
                .enumerate()
                .map(|(i, m)| (m, Hint::plain(bits >> (2 * i) & 1 == 1, bits >> (2 * i + 1) & 1 == 1)))
                .collect();
            Setup::Coupler {
                layout: place(mods, false),
                pos,
                fill,
            }
        });
    prop_oneof![
        2 => any::<bool>().prop_map(|long| Setup::Processor { long }),
        3 => coupler,
    ]
    .boxed()
}

pub enum Host {
    Processor(MessageProcessor),
    Coupler {
        c: Coupler,
        layout: Layout,
        pos: usize,
        inp: Vec<u8>,
        out: Vec<u8>,
    },
}

impl Host {
    pub fn new(s: &Setup) -> Result<Host, String> {
        Ok(match s {
            Setup::Processor { long } => Host::Processor(MessageProcessor::new(if *long {
                ProcessDataLength::SixteenBytes
            } else {
                ProcessDataLength::EightBytes
            })),
            Setup::Coupler { layout, pos, fill } => {
                let c = layout.coupler()?;
                let mut inp = fill.image(layout.in_len());
                let mut out = fill.image(layout.out_len());
                layout.sanitize_in(&mut inp);
                layout.sanitize_out(&mut out);
                Host::Coupler {
                    c,
                    layout: layout.clone(),
                    pos: *pos,
                    inp,
                    out,
                }
            }
        })
    }

    pub fn queue(&mut self, b: &[u8]) -> Result<(), String> {
        self.queue_how(b, 0)
    }

    /// Queues all of `b` by one of the ways a writer offers.
    pub fn queue_how(&mut self, b: &[u8], how: u8) -> Result<(), String> {
        let mut w: &mut dyn Write = match self {
            Host::Processor(p) => p,
            Host::Coupler { c, pos, .. } => c.writer(*pos).ok_or("no writer")?,
        };
        let fail = |e| format!("writing failed: {e}");
        let mut rest = b;
        match (how, std::str::from_utf8(b)) {
            (1, _) => {
                while !rest.is_empty() {
                    let n = w.write(rest).map_err(fail)?;
                    ensure!(0 < n && n <= rest.len(), "{n} of {} bytes written", rest.len());
                    rest = &rest[n..];
                }
                Ok(())
            }
            (2, _) => {
                while !rest.is_empty() {
                    let (x, y) = rest.split_at(rest.len() / 3);
                    let (y, z) = y.split_at(y.len() / 2);
                    let v = [x, &[], y, z].map(io::IoSlice::new);
                    let n = w.write_vectored(&v).map_err(fail)?;
                    ensure!(0 < n && n <= rest.len(), "{n} of {} bytes written", rest.len());
                    rest = &rest[n..];
                }
                Ok(())
            }
            (3, Ok(s)) => write!(w, "{s}").map_err(fail),
            (4, _) => {
                let n = io::copy(&mut rest, &mut w).map_err(fail)?;
                ensure!(n as usize == b.len(), "{n} of {} bytes copied", b.len());
                Ok(())
            }
            (5, _) => {
                let mut w = io::BufWriter::with_capacity(16, w);
                for c in b.chunks(5) {
                    w.write_all(c).map_err(fail)?;
                }
                w.flush().map_err(fail)
            }
            _ => w.write_all(b).map_err(fail),
        }
    }

    /// Flushing must not change anything that is observable.
    pub fn flush(&mut self) -> Result<(), String> {
        let w: &mut dyn Write = match self {
            Host::Processor(p) => p,
            Host::Coupler { c, pos, .. } => c.writer(*pos).ok_or("no writer")?,
        };
        w.flush().map_err(|e| format!("flushing failed: {e}"))
    }

    /// Request through the output value; in effect from the next cycle on.
    /// Returns false if there is no such way.
    pub fn request(&mut self, b: &[u8]) -> Result<bool, String> {
        match self {
            Host::Processor(_) => Ok(false),
            Host::Coupler { c, pos, .. } => {
                let a = Address {
                    module: *pos,
                    channel: 0,
                };
                c.set_output(&a, ChannelValue::Bytes(b.to_vec()))
                    .map_err(|e| format!("output rejected: {e:?}"))?;
                Ok(true)
            }
        }
    }

    /// Reads up to `n` bytes; the rest of the buffer must stay untouched.
    pub fn read(&mut self, n: usize) -> Result<Vec<u8>, String> {
        let r: &mut dyn Read = match self {
            Host::Processor(p) => p,
            Host::Coupler { c, pos, .. } => c.reader(*pos).ok_or("no reader")?,
        };
        let mut buf = vec![0xA5; n];
        let got = r.read(&mut buf).map_err(|e| format!("reading failed: {e}"))?;
        ensure!(got <= n, "{got} bytes read into a buffer of {n}");
        ensure!(
            buf[got..].iter().all(|b| *b == 0xA5),
            "a read of {got} bytes changed the buffer behind them"
        );
        buf.truncate(got);
        Ok(buf)
    }

    /// Reads by one of the other ways a reader offers; `pending` bytes are
    /// expected to be buffered.
    pub fn read_how(&mut self, n: usize, pending: usize, how: u8) -> Result<Vec<u8>, String> {
        let r: &mut dyn Read = match self {
            Host::Processor(p) => p,
            Host::Coupler { c, pos, .. } => c.reader(*pos).ok_or("no reader")?,
        };
        let fail = |e| format!("reading failed: {e}");
        let mut v = vec![];
        match how {
            1 => {
                let mut b = vec![0xA5; n];
                let (x, y) = b.split_at_mut(n / 3);
                let (y, z) = y.split_at_mut(y.len() / 2);
                let mut e = [];
                let mut bufs = [x, &mut e, y, z].map(io::IoSliceMut::new);
                let got = r.read_vectored(&mut bufs).map_err(fail)?;
                ensure!(got <= n, "{got} bytes read into buffers of {n}");
                ensure!(
                    b[got..].iter().all(|b| *b == 0xA5),
                    "a read of {got} bytes changed the buffers behind them"
                );
                // the first part may be empty
                if got == 0 && n > 0 {
                    return self.read(n);
                }
                b.truncate(got);
                return Ok(b);
            }
            2 => {
                // appends
                v.extend([0xA5; 3]);
                let k = r.read_to_end(&mut v).map_err(fail)?;
                ensure!(
                    v.starts_with(&[0xA5; 3]) && v.len() == k + 3,
                    "{k} bytes read to the end, {} bytes in the buffer that had 3",
                    v.len()
                );
                v.drain(..3);
                ensure!(k == pending, "{k} bytes read to the end, {pending} are buffered");
            }
            3 => {
                v.resize(n.min(pending), 0);
                r.read_exact(&mut v).map_err(fail)?;
            }
            4 => {
                for b in r.bytes().take(n) {
                    v.push(b.map_err(fail)?);
                }
                ensure!(v.len() == n.min(pending), "{} of {n} bytes read, {pending} are buffered", v.len());
            }
            5 => {
                io::copy(&mut r.take(n as u64), &mut v).map_err(fail)?;
                ensure!(v.len() == n.min(pending), "{} of {n} bytes copied, {pending} are buffered", v.len());
            }
            _ => return self.read(n),
        }
        Ok(v)
    }

    /// One cycle: registers as read -> registers to write.
    pub fn cycle(&mut self, i: &ComIn, o: &ComOut) -> Result<ComOut, String> {
        match self {
            Host::Processor(p) => Ok(ComOut::of(&p.next(&i.real(), &o.real()))),
            Host::Coupler {
                c,
                layout,
                pos,
                inp,
                out,
            } => {
                let s = &layout.slots[*pos];
                let user = s.m.user_len();
                let (ir, or) = (s.in_range().unwrap(), s.out_range().unwrap());
                inp[ir].copy_from_slice(&i.frame(user));
                out[or.clone()].copy_from_slice(&o.frame(user));
                let w = c
                    .next(&to_words(inp), &to_words(out))
                    .map_err(|e| format!("cycle failed: {e:?}"))?;
                let b = to_bytes(&w);
                ensure!(b.len() == out.len(), "{} bytes instead of {}", b.len(), out.len());
                out.copy_from_slice(&b);
                ComOut::decode(&b[or.clone()])
                    .ok_or_else(|| format!("malformed frame {:02x?} written", &b[or.clone()]))
            }
        }
    }

    /// Reported input / output value of the module, if there is one.
    pub fn reported(&self) -> Option<(ChannelValue, ChannelValue)> {
        match self {
            Host::Processor(_) => None,
            Host::Coupler { c, pos, .. } => {
                Some((c.inputs()[*pos][0].clone(), c.outputs()[*pos][0].clone()))
            }
        }
    }
}

/// One step of a serial history.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    /// queue through the writer
    Queue(Fill, u16),
    /// queue as output value
    Set(Fill, u16),
    /// host cycle; device steps between reading and writing the registers
    Cycle { tx: bool, rx: bool },
    /// device steps
    Tx,
    Rx,
    /// the device will present this segment next
    Present(Fill, u8),
    /// the device will have no data for a while
    Pause,
    Read(u16),
    /// flush the writer
    Flush,
    /// both directions and a cycle, that many times
    Run(u8),
    /// cycles during which the device stands still
    Idle(u16),
    /// the way of reading and writing from now on
    How(u8),
    /// other status flags of the device: nearly full, ready, data left in the
    /// registers when there is none available
    Flags(u8),
}

pub fn small_fill() -> BoxedStrategy<Fill> {
    prop_oneof![
        4 => any::<u64>().prop_map(Fill::Seed),
        3 => any::<u64>().prop_map(Fill::Special),
        1 => any::<u64>().prop_map(Fill::Dict),
        1 => any::<u8>().prop_map(Fill::Const),
        2 => proptest::collection::vec(any::<u8>(), 1..8).prop_map(Fill::Bytes),
    ]
    .boxed()
}

pub fn sizes() -> BoxedStrategy<u16> {
    prop_oneof![
        8 => 0u16..20,
        4 => proptest::sample::select(vec![1u16, 5, 6, 7, 12, 13, 14, 15, 28, 29]),
        3 => 20u16..100,
        1 => 100u16..400,
    ]
    .boxed()
}

pub fn read_sizes() -> BoxedStrategy<u16> {
    prop_oneof![
        6 => 0u16..12,
        4 => 0u16..80,
        2 => proptest::sample::select(vec![127u16, 128, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 32768, 65535]),
    ]
    .boxed()
}

pub fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => (small_fill(), sizes()).prop_map(|(f, n)| Op::Queue(f, n)),
        2 => (small_fill(), sizes()).prop_map(|(f, n)| Op::Set(f, n)),
        10 => (any::<bool>(), any::<bool>()).prop_map(|(tx, rx)| Op::Cycle { tx, rx }),
        4 => Just(Op::Cycle { tx: false, rx: false }),
        5 => Just(Op::Tx),
        5 => Just(Op::Rx),
        4 => (small_fill(), prop_oneof![1 => Just(0u8), 9 => 0u8..15]).prop_map(|(f, n)| Op::Present(f, n)),
        1 => Just(Op::Pause),
        1 => Just(Op::Flush),
        3 => read_sizes().prop_map(Op::Read),
        1 => (0u8..12).prop_map(Op::Run),
        1 => prop_oneof![20 => 2u16..24, 1 => 24u16..600].prop_map(Op::Idle),
        1 => (0u8..6).prop_map(Op::How),
        1 => (0u8..8).prop_map(Op::Flags),
    ]
    .boxed()
}

pub fn ops(max: usize) -> BoxedStrategy<Vec<Op>> {
    prop_oneof![
        1 => proptest::collection::vec(op(), 1..30),
        2 => proptest::collection::vec(op(), 20..max),
    ]
    .boxed()
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Case {
    pub setup: Setup,
    pub accept: Accept,
    pub input: ComIn,
    pub output: ComOut,
    pub ops: Vec<Op>,
}

pub fn cases(ops: fn() -> BoxedStrategy<Vec<Op>>) -> BoxedStrategy<Case> {
    (
        setups(),
        prop_oneof![Just(Accept::Changed), Just(Accept::Next)],
        com_in(14),
        com_out(14),
        any::<u8>(),
        ops(),
    )
        .prop_map(|(setup, accept, mut input, mut output, fresh, ops)| {
            input.data.truncate(setup.user());
            output.data.truncate(setup.user());
            if fresh < 80 {
                // a device after power-up
                (input.rx, input.ack, input.avail) = (0, 0, false);
                (output.tx, output.ack, output.reset) = (0, 0, false);
                input.data.clear();
                output.data.clear();
            }
            Case {
                setup,
                accept,
                input,
                output,
                ops,
            }
        })
        .boxed()
}

/// Runs a history and collects everything the properties talk about.
pub struct Link {
    pub host: Host,
    pub dev: Dev,
    pub user: usize,
    pub cycles: usize,
    /// everything queued so far, in order
    pub queued: Vec<u8>,
    /// queued as output value, not yet part of `queued`
    pub requested: Option<Vec<u8>>,
    pub queue_ops: usize,
    /// data of every segment the host has written (after start-up)
    pub written: Vec<u8>,
    pub written_segments: usize,
    /// concatenation of the reported output values from cycle 2 on
    pub reported: Vec<u8>,
    /// `written` at the beginning of the last cycle
    pub written_before: usize,
    /// segments the host has seen after start-up, each once
    pub expected_in: Vec<u8>,
    seen: Option<usize>,
    pub seen_segments: usize,
    pub read: Vec<u8>,
    pub last: ComOut,
    how: u8,
}

/// Which of the guarantees to judge.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Judge {
    Tx,
    Rx,
}

impl Link {
    pub fn new(c: &Case) -> Result<Link, String> {
        Ok(Link {
            host: Host::new(&c.setup)?,
            dev: Dev::new(c.accept, c.input.clone(), c.output.clone()),
            user: c.setup.user(),
            cycles: 0,
            queued: vec![],
            requested: None,
            queue_ops: 0,
            written: vec![],
            written_segments: 0,
            reported: vec![],
            written_before: 0,
            expected_in: vec![],
            seen: None,
            seen_segments: 0,
            read: vec![],
            last: c.output.clone(),
            how: 0,
        })
    }

    pub fn cycle(&mut self, tx: bool, rx: bool, j: Judge) -> Result<(), String> {
        self.cycles += 1;
        let (i, o) = (self.dev.input.clone(), self.dev.output.clone());
        if let Some(r) = self.requested.take() {
            self.queued.extend_from_slice(&r);
        }
        // between reading and writing the registers
        let presented = self.dev.presented;
        let n = self.host.cycle(&i, &o)?;
        if tx {
            self.dev.step_tx();
        }
        if rx {
            self.dev.step_rx();
        }
        let k = self.cycles;
        // receive side
        if k >= 3 && i.avail && self.seen != Some(presented) {
            self.seen = Some(presented);
            self.expected_in.extend_from_slice(&i.data);
            self.seen_segments += 1;
        }
        if j == Judge::Rx {
            ensure!(
                n.ack == i.rx,
                "cycle {k}: sequence number {} read, {} acknowledged",
                i.rx,
                n.ack
            );
            if let Some((v, _)) = self.host.reported() {
                let ok = match &v {
                    ChannelValue::Bytes(b) => i.avail && *b == i.data,
                    ChannelValue::None => !i.avail || i.data.is_empty(),
                    _ => false,
                };
                ensure!(ok, "cycle {k}: input value {v:?} reported for {i:?}");
            }
        }
        // transmit side
        self.written_before = self.written.len();
        let fresh = n.tx != o.tx && !n.data.is_empty();
        if fresh {
            self.written.extend_from_slice(&n.data);
            self.written_segments += 1;
        }
        if j == Judge::Tx {
            ensure!(
                n.data.len() <= self.user,
                "cycle {k}: segment of {} bytes, {} allowed",
                n.data.len(),
                self.user
            );
            if k >= 3 {
                if n.tx == o.tx {
                    ensure!(
                        n.data == o.data,
                        "cycle {k}: data of segment {} replaced: {:02x?} instead of {:02x?}",
                        o.tx,
                        n.data,
                        o.data
                    );
                } else {
                    ensure!(
                        o.data.is_empty() || i.ack == o.tx,
                        "cycle {k}: segment {} replaced by {} before it was acknowledged ({})",
                        o.tx,
                        n.tx,
                        i.ack
                    );
                }
            }
            ensure!(
                self.queued.starts_with(&self.written),
                "cycle {k}: bytes written {:02x?} are not a prefix of the bytes queued {:02x?}",
                tail(&self.written),
                tail(&self.queued)
            );
            if let Some((_, v)) = self.host.reported() {
                match &v {
                    ChannelValue::Bytes(b) if k > 1 => self.reported.extend_from_slice(b),
                    ChannelValue::Bytes(_) | ChannelValue::None => {}
                    v => return Err(format!("cycle {k}: output value {v:?} reported")),
                }
                ensure!(
                    self.reported == self.written[..self.written_before],
                    "cycle {k}: reported output {:02x?}, written before {:02x?}",
                    tail(&self.reported),
                    tail(&self.written[..self.written_before])
                );
            }
        }
        self.last = n.clone();
        self.dev.write(n);
        if j == Judge::Tx {
            self.check_taken()?;
        }
        Ok(())
    }

    pub fn check_taken(&self) -> Result<(), String> {
        ensure!(
            self.queued.starts_with(&self.dev.taken),
            "the device has taken over {:02x?}, queued {:02x?}",
            tail(&self.dev.taken),
            tail(&self.queued)
        );
        Ok(())
    }

    pub fn read(&mut self, n: usize, j: Judge) -> Result<(), String> {
        let pending = self.expected_in.len() - self.read.len().min(self.expected_in.len());
        let b = match j {
            Judge::Rx => self.host.read_how(n, pending, self.how)?,
            Judge::Tx => self.host.read(n)?,
        };
        if j == Judge::Rx {
            ensure!(
                !(b.is_empty() && n > 0 && pending > 0),
                "a read of {n} bytes gives nothing though {pending} are buffered"
            );
            self.read.extend_from_slice(&b);
            ensure!(
                self.expected_in.starts_with(&self.read),
                "bytes read {:02x?}, presented {:02x?}",
                tail(&self.read),
                tail(&self.expected_in)
            );
        }
        Ok(())
    }

    pub fn step(&mut self, op: &Op, j: Judge) -> Result<(), String> {
        match op {
            Op::Queue(f, n) => {
                // the order against a pending output value is not defined
                if self.requested.is_some() {
                    return Ok(());
                }
                let b = f.image(*n as usize);
                self.host.queue_how(&b, self.how)?;
                self.queue_ops += 1;
                self.queued.extend_from_slice(&b);
            }
            Op::Set(f, n) => {
                let b = f.image(*n as usize);
                self.queue_ops += 1;
                // only one value per cycle
                if self.requested.is_some() {
                    return Ok(());
                }
                if self.host.request(&b)? {
                    self.requested = Some(b);
                } else {
                    self.host.queue(&b)?;
                    self.queued.extend_from_slice(&b);
                }
            }
            Op::Cycle { tx, rx } => self.cycle(*tx, *rx, j)?,
            Op::Tx => {
                self.dev.step_tx();
                if j == Judge::Tx {
                    self.check_taken()?;
                }
            }
            Op::Rx => {
                self.dev.step_rx();
            }
            Op::Present(f, n) => {
                let b = f.image((*n as usize).min(self.user));
                self.dev.to_present.push_back(Some(b));
            }
            Op::Flush => self.host.flush()?,
            Op::How(k) => self.how = *k,
            Op::Flags(k) => self.dev.flags(*k),
            Op::Pause => self.dev.to_present.push_back(None),
            Op::Read(n) => self.read(*n as usize, j)?,
            Op::Idle(n) => {
                for _ in 0..*n {
                    self.cycle(false, false, j)?;
                }
            }
            Op::Run(n) => {
                for _ in 0..*n {
                    self.dev.step_tx();
                    self.dev.step_rx();
                    self.cycle(false, false, j)?;
                }
            }
        }
        Ok(())
    }

    /// A prompt device and regular cycles until everything is through.
    pub fn drain_tx(&mut self) -> Result<(), String> {
        let limit = 2 * self.queued.len() + 2 * self.requested.as_ref().map_or(0, Vec::len) + 20;
        for _ in 0..limit {
            if self.cycles >= 3
                && self.requested.is_none()
                && self.dev.taken == self.queued
                && self.written == self.queued
            {
                break;
            }
            self.cycle(false, false, Judge::Tx)?;
            self.dev.step_tx();
            self.check_taken()?;
        }
        ensure!(
            self.dev.taken == self.queued,
            "with a prompt device only {} of {} queued bytes are taken over",
            self.dev.taken.len(),
            self.queued.len()
        );
        // one more cycle reports the last segment; nothing else follows
        for _ in 0..3 {
            self.cycle(false, false, Judge::Tx)?;
            self.dev.step_tx();
        }
        ensure!(
            self.dev.taken == self.queued,
            "the device took over {:02x?} in excess",
            tail(&self.dev.taken[self.queued.len()..])
        );
        if self.host.reported().is_some() {
            ensure!(
                self.reported == self.queued,
                "reported output {:02x?}, queued {:02x?}",
                tail(&self.reported),
                tail(&self.queued)
            );
        }
        Ok(())
    }

    pub fn drain_rx(&mut self) -> Result<(), String> {
        for _ in 0..2 * self.dev.to_present.len() + 4 {
            self.dev.step_rx();
            self.cycle(false, false, Judge::Rx)?;
        }
        ensure!(
            self.dev.to_present.is_empty(),
            "the device can't get rid of its segments"
        );
        for n in [1usize, 3, 256, 1000, 7] {
            self.read(n, Judge::Rx)?;
        }
        while self.read.len() < self.expected_in.len() {
            self.read(500, Judge::Rx)?;
        }
        ensure!(
            self.read == self.expected_in,
            "bytes read {:02x?}, presented {:02x?}",
            tail(&self.read),
            tail(&self.expected_in)
        );
        self.read(50, Judge::Rx)?;
        ensure!(
            self.read == self.expected_in,
            "more bytes read than presented"
        );
        Ok(())
    }
}

pub fn tail(b: &[u8]) -> &[u8] {
    &b[b.len().saturating_sub(40)..]
}

pub fn label(c: &Case, l: &Link, st: &mut Stats) {
    st.label(if c.setup.is_coupler() { "through a coupler" } else { "message processor alone" });
    st.label_if(l.user == 6, "8 byte frames");
    st.label_if(c.accept == Accept::Next, "device insists on consecutive numbers");
    st.label_if(c.input.ack != c.output.tx, "registers out of step at start");
}
