//! C10: serial bytes are received completely, once and in order.

use super::serial::*;
use crate::{dev::*, engine::*, layout::*, model::*};
use proptest::prelude::*;

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    let mut l = Link::new(c)?;
    for op in &c.ops {
        l.step(op, Judge::Rx)?;
    }
    let late = l.cycles < 3;
    l.drain_rx()?;
    label(c, &l, st);
    st.nontrivial_if(l.seen_segments >= 3);
    st.label_if(l.seen_segments >= 9, "two wraps of the sequence number");
    st.label_if(late, "start-up completes while draining");
    st.label_if(l.expected_in.len() > 400, "more than 400 bytes");
    Ok(())
}

fn rx_op() -> BoxedStrategy<Op> {
    prop_oneof![
        1 => (small_fill(), sizes()).prop_map(|(f, n)| Op::Queue(f, n)),
        8 => (any::<bool>(), any::<bool>()).prop_map(|(tx, rx)| Op::Cycle { tx, rx }),
        4 => Just(Op::Cycle { tx: false, rx: false }),
        1 => Just(Op::Tx),
        7 => Just(Op::Rx),
        6 => (small_fill(), prop_oneof![1 => Just(0u8), 9 => 0u8..15]).prop_map(|(f, n)| Op::Present(f, n)),
        1 => Just(Op::Pause),
        3 => read_sizes().prop_map(Op::Read),
        2 => (0u8..12).prop_map(Op::Run),
        1 => prop_oneof![20 => 2u16..24, 1 => 24u16..600].prop_map(Op::Idle),
        1 => (0u8..6).prop_map(Op::How),
        1 => (0u8..8).prop_map(Op::Flags),
    ]
    .boxed()
}

fn history() -> BoxedStrategy<Vec<Op>> {
    prop_oneof![
        1 => proptest::collection::vec(rx_op(), 1..30),
        2 => proptest::collection::vec(rx_op(), 20..220),
    ]
    .boxed()
}

/// Much data before anything is read.
fn bulk() -> BoxedStrategy<Vec<Op>> {
    (proptest::collection::vec((any::<u64>(), 1u8..15), 100..6000), proptest::collection::vec(rx_op(), 0..10))
        .prop_map(|(segs, mut ops)| {
            let n = segs.len();
            for (s, len) in segs {
                ops.push(Op::Present(Fill::Seed(s), len));
            }
            for _ in 0..n.div_ceil(200) {
                ops.push(Op::Run(200));
            }
            ops
        })
        .boxed()
}

/// Every short interleaving of the receive side.
mod small {
    use super::*;
    use serde_json::Value;

    pub fn size(c: &Ctx) -> u64 {
        4u64.pow(if c.tier == Tier::Thorough { 12 } else { 9 }) * 32
    }

    pub fn case(i: u64) -> Case {
        let rx = (i & 3) as usize;
        let ack = (i >> 2 & 3) as usize;
        let avail = i >> 4 & 1 == 1;
        let input = ComIn {
            avail,
            nearly_full: false,
            rx,
            ack: 0,
            ready: true,
            data: if avail { vec![7, 8] } else { vec![] },
        };
        let output = ComOut {
            rx_flush: false,
            tx_flush: false,
            lock: false,
            tx: 0,
            ack,
            reset: false,
            data: vec![],
        };
        let mut rest = i >> 5;
        let mut ops = vec![];
        let mut n = 0u8;
        while rest > 0 {
            ops.push(match rest & 3 {
                0 => {
                    n += 1;
                    Op::Present(Fill::Const(n), 1 + n % 3)
                }
                1 => Op::Cycle { tx: false, rx: false },
                2 => Op::Cycle { tx: false, rx: true },
                _ => Op::Rx,
            });
            rest >>= 2;
        }
        ops.push(Op::Present(Fill::Const(200), 6));
        Case {
            setup: Setup::Processor { long: false },
            accept: Accept::Changed,
            input,
            output,
            ops,
        }
    }

    pub fn test(i: u64) -> Result<bool, String> {
        let c = case(i);
        let mut l = Link::new(&c)?;
        for op in &c.ops {
            l.step(op, Judge::Rx)?;
        }
        l.drain_rx()?;
        Ok(l.seen_segments >= 2)
    }

    pub fn describe(i: u64) -> Value {
        serde_json::to_value(case(i)).unwrap_or(Value::Null)
    }
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Sweep {
            name: "short-schedules",
            rule: "every sequence of up to 9 (thorough: 12) steps out of new segment / cycle / cycle overlapped by the device / device step, from every pair of sequence numbers left in the registers, with and without a segment already presented; non-trivial = at least 2 segments received",
            size: small::size,
            test: small::test,
            describe: small::describe,
        }),
        Box::new(Gen {
            name: "histories",
            rule: "histories of up to 220 device, cycle, read and queue steps from arbitrary registers, then drained; non-trivial = at least 3 segments received",
            cases: (120_000, 4_000_000),
            strategy: || cases(history),
            test,
        }),
        Box::new(Gen {
            name: "bulk",
            rule: "100 to 6000 segments received before the first read; non-trivial = at least 3 segments received",
            cases: (80, 4_000),
            strategy: || cases(bulk),
            test,
        }),
        super::endurance::sweep(
            "endurance",
            "70 000 segments received by a message processor or through a coupler, for each frame length and kind of device; every case is non-trivial",
            super::endurance::receive,
        ),
    ]
}
