//! C09: serial bytes are transmitted completely, once and in order.

use super::serial::*;
use crate::{dev::*, engine::*, model::*};
use proptest::prelude::*;

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    let mut l = Link::new(c)?;
    for op in &c.ops {
        l.step(op, Judge::Tx)?;
    }
    l.drain_tx()?;
    label(c, &l, st);
    st.nontrivial_if(l.written_segments >= 3 && l.queue_ops >= 2);
    st.label_if(l.written_segments >= 9, "two wraps of the sequence number");
    st.label_if(l.queued.iter().all(|b| *b == 0) && !l.queued.is_empty(), "only zero bytes");
    Ok(())
}

fn history() -> BoxedStrategy<Vec<Op>> {
    ops(220)
}

/// Long single transmissions.
fn bulk() -> BoxedStrategy<Vec<Op>> {
    let queue = (any::<u64>(), prop_oneof![3 => 300u16..3000, 2 => 1500u16..8000, 1 => 60_000u16..65_535]);
    (
        proptest::collection::vec((queue, any::<bool>(), 0u8..40), 1..4),
        proptest::collection::vec(op(), 0..10),
    )
        .prop_map(|(q, mut ops)| {
            for ((s, n), set, run) in q {
                let f = crate::layout::Fill::Seed(s);
                ops.push(if set { Op::Set(f, n) } else { Op::Queue(f, n) });
                ops.push(Op::Run(run));
            }
            ops
        })
        .boxed()
}

/// Every combination of a short schedule: the device and the host interleaved
/// in every possible way, from every initial pair of sequence numbers.
mod small {
    use super::*;
    use serde_json::{Value, json};

    /// 3^10 schedules x 16 x 2 x 2 (x 4 numbers left in the registers)
    const LEN: u32 = 9;
    pub fn size(c: &Ctx) -> u64 {
        let len = LEN + (c.tier == Tier::Thorough) as u32 * 3;
        4u64.pow(len) * 32
    }

    fn decode(i: u64) -> (Accept, ComIn, ComOut, Vec<Op>) {
        let ack = (i & 3) as usize;
        let tx = (i >> 2 & 3) as usize;
        let accept = if i >> 4 & 1 == 0 { Accept::Changed } else { Accept::Next };
        let mut input = ComIn { avail: false, nearly_full: false, rx: 0, ack, ready: true, data: vec![] };
        input.data.clear();
        let output = ComOut {
            rx_flush: false,
            tx_flush: false,
            lock: false,
            tx,
            ack: 0,
            reset: false,
            data: vec![9, 9],
        };
        let mut rest = i >> 5;
        let mut ops = vec![];
        // at most 12 steps; leading zeros are queue steps at the end
        let mut n = 0u8;
        while rest > 0 {
            ops.push(match rest & 3 {
                0 => {
                    n += 1;
                    Op::Queue(crate::layout::Fill::Const(n), 1 + 6 * u16::from(n % 2))
                }
                1 => Op::Cycle { tx: false, rx: false },
                2 => Op::Cycle { tx: true, rx: false },
                _ => Op::Tx,
            });
            rest >>= 2;
        }
        (accept, input, output, ops)
    }

    pub fn case(i: u64) -> Case {
        let (accept, input, output, mut ops) = decode(i);
        // start-up comes first in half of the cases, decided by parity of the schedule
        if (i >> 5) % 2 == 1 {
            ops.insert(0, Op::Cycle { tx: true, rx: false });
            ops.insert(0, Op::Cycle { tx: true, rx: false });
        }
        ops.push(Op::Queue(crate::layout::Fill::Const(200), 7));
        Case {
            setup: Setup::Processor { long: false },
            accept,
            input,
            output,
            ops,
        }
    }

    pub fn test(i: u64) -> Result<bool, String> {
        let c = case(i);
        let mut l = Link::new(&c)?;
        for op in &c.ops {
            l.step(op, Judge::Tx)?;
        }
        l.drain_tx()?;
        Ok(l.written_segments >= 3)
    }

    pub fn describe(i: u64) -> Value {
        serde_json::to_value(case(i)).unwrap_or(json!(i))
    }
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Sweep {
            name: "short-schedules",
            rule: "every sequence of up to 9 (thorough: 12) steps out of queue / cycle / cycle overlapped by the device / device step, from each of the 16 pairs of sequence numbers left in the registers, for both kinds of device; non-trivial = at least 3 segments sent",
            size: small::size,
            test: small::test,
            describe: small::describe,
        }),
        Box::new(Gen {
            name: "histories",
            rule: "histories of up to 220 queue, request, cycle and device steps from arbitrary registers, then drained by a prompt device; non-trivial = at least 3 segments sent and 2 pieces queued",
            cases: (120_000, 4_000_000),
            strategy: || cases(history),
            test,
        }),
        Box::new(Gen {
            name: "bulk",
            rule: "pieces of up to 65 kB, drained completely; non-trivial = at least 3 segments sent and 2 pieces queued",
            cases: (160, 6_000),
            strategy: || cases(bulk),
            test,
        }),
        super::endurance::sweep(
            "endurance",
            "70 000 segments transmitted by a message processor or through a coupler, for each frame length and kind of device; every case is non-trivial",
            super::endurance::transmit,
        ),
    ]
}
