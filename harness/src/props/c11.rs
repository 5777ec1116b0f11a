//! C11: start-up flushes, resets, then leaves the control bits alone.

use super::serial::*;
use crate::{engine::*, ensure, layout::*, model::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Case {
    setup: Setup,
    /// bytes queued before each cycle and the registers read by it
    cycles: Vec<(Option<(Fill, u16, bool)>, ComIn, ComOut)>,
    /// all of this that many times more, without queueing anything
    again: u32,
}

fn cases() -> BoxedStrategy<Case> {
    let queue = prop_oneof![
        3 => Just(None),
        2 => (small_fill(), sizes(), any::<bool>()).prop_map(Some),
    ];
    (
        setups(),
        proptest::collection::vec((queue, com_in(14), com_out(14)), 1..14),
        any::<u8>(),
    )
        .prop_map(|(setup, mut cycles, quiet)| {
            let user = setup.user();
            for (n, (q, i, o)) in cycles.iter_mut().enumerate() {
                i.data.truncate(user);
                o.data.truncate(user);
                // mostly: nothing queued after start-up or nothing at all
                if quiet < 100 || (quiet < 180 && n >= 2) {
                    *q = None;
                }
            }
            Case { setup, cycles, again: 0 }
        })
        .boxed()
}

/// Registers that stay as they are for a while or change little.
fn held() -> BoxedStrategy<Case> {
    (cases(), proptest::collection::vec((1usize..80, any::<u64>()), 14))
        .prop_map(|(mut c, reps)| {
            let mut v = vec![];
            for ((q, i, o), (n, s)) in c.cycles.into_iter().zip(reps) {
                let (mut i, mut o) = (i, o);
                v.push((q, i.clone(), o.clone()));
                for k in 1..n {
                    // one flag of 16 cycles or none
                    match s.wrapping_mul(k as u64 | 1) >> 60 {
                        0 => i.ready = !i.ready,
                        1 => i.nearly_full = !i.nearly_full,
                        2 => i.avail = !i.avail,
                        3 => o.reset = !o.reset,
                        4 => i.rx = (i.rx + 1) % 4,
                        _ => {}
                    }
                    v.push((None, i.clone(), o.clone()));
                }
            }
            c.cycles = v;
            c
        })
        .boxed()
}

/// ... for 70 000 cycles.
fn endless() -> BoxedStrategy<Case> {
    prop_oneof![cases(), held()]
        .prop_map(|mut c| {
            c.again = (super::endurance::CYCLES / c.cycles.len()) as u32;
            c
        })
        .boxed()
}

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    let mut host = Host::new(&c.setup)?;
    let user = c.setup.user();
    let mut waiting: Vec<u8> = vec![];
    let mut echoed = 0;
    let mut last = None;
    let n = c.cycles.len();
    for (k, (q, i, o)) in c.cycles.iter().cycle().take(n * (c.again as usize + 1)).enumerate() {
        let k = k + 1;
        if let (Some((f, n, set)), true) = (q, k <= n) {
            let b = f.image(*n as usize);
            if !*set || !host.request(&b)? {
                host.queue(&b)?;
            }
            waiting.extend(b);
        }
        let n = host.cycle(i, o)?;
        let ctx = || format!("cycle {k}, read {i:?} and {o:?}");
        ensure!(n.lock == o.lock, "{}: hardware buffer switched by {n:?}", ctx());
        match k {
            1 => {
                ensure!(n.rx_flush && n.tx_flush && !n.reset, "{}: first cycle writes {n:?}", ctx());
                ensure!(n.data.is_empty(), "{}: start-up sends data {n:?}", ctx());
                st.label_if(o.reset, "reset left over");
                st.label_if(!o.data.is_empty(), "data left over");
            }
            2 => {
                ensure!(!n.rx_flush && !n.tx_flush && n.reset, "{}: second cycle writes {n:?}", ctx());
                ensure!(n.data.is_empty(), "{}: start-up sends data {n:?}", ctx());
            }
            _ => {
                ensure!(
                    (n.rx_flush, n.tx_flush, n.lock, n.reset) == (o.rx_flush, o.tx_flush, o.lock, o.reset),
                    "{}: control bits changed to {n:?}",
                    ctx()
                );
                if waiting.is_empty() {
                    echoed += 1;
                    ensure!(
                        n.tx == o.tx && n.data == o.data,
                        "{}: nothing to send, but {n:?} is written",
                        ctx()
                    );
                } else if n.tx != o.tx || n.data != o.data {
                    st.label("data sent with arbitrary registers");
                    ensure!(
                        n.tx != o.tx && n.data.len() <= user && waiting.starts_with(&n.data),
                        "{}: {n:?} written, waiting to be sent {:02x?}",
                        ctx(),
                        waiting
                    );
                    waiting.drain(..n.data.len());
                } else {
                    st.label("data held back");
                }
            }
        }
        last = Some((i.clone(), n));
    }
    // What was queued early is sent in the end.
    let mut cycles = c.cycles.len();
    if cycles < 3 || !waiting.is_empty() {
        let (mut i, mut o) = last.ok_or("no cycle")?;
        st.label_if(!waiting.is_empty(), "data kept over start-up");
        let mut taken = vec![];
        // a segment still in the registers is one already accounted for
        i.ack = o.tx;
        for _ in 0..2 * waiting.len() + 6 {
            cycles += 1;
            let n = host.cycle(&i, &o)?;
            if cycles >= 3 {
                ensure!(
                    (n.rx_flush, n.tx_flush, n.lock, n.reset) == (o.rx_flush, o.tx_flush, o.lock, o.reset),
                    "cycle {cycles}: control bits of {o:?} changed to {n:?}"
                );
            }
            if n.tx != i.ack {
                i.ack = n.tx;
                taken.extend_from_slice(&n.data);
            }
            o = n;
        }
        ensure!(
            taken == waiting,
            "queued {:02x?}, sent after start-up {:02x?}",
            tail(&waiting),
            tail(&taken)
        );
    }
    st.label(if c.setup.is_coupler() { "through a coupler" } else { "message processor alone" });
    st.nontrivial_if(c.cycles.len() >= 2 && (echoed > 0 || !waiting.is_empty()));
    Ok(())
}

/// Every status byte of both frames in each of the first three cycles.
fn sweep(i: u64) -> Result<bool, String> {
    let (si, so) = (i as u8, (i >> 8) as u8);
    let len = (i >> 16) as usize % 3 * 3;
    let long = (i >> 16) / 3 == 1;
    let data: Vec<u8> = (0..len).map(|x| (i as usize * 31 + x) as u8 | 1).collect();
    let mut fi = vec![si, len as u8];
    fi.extend(&data);
    let mut fo = vec![so, len as u8];
    fo.extend(&data);
    let (inp, out) = (ComIn::decode(&fi).unwrap(), ComOut::decode(&fo).unwrap());
    let mut h = Host::new(&Setup::Processor { long })?;
    for k in 1..=5 {
        let n = h.cycle(&inp, &out)?;
        let want = match k {
            1 => (true, true, false, out.lock, vec![]),
            2 => (false, false, true, out.lock, vec![]),
            _ => (out.rx_flush, out.tx_flush, out.reset, out.lock, data.clone()),
        };
        let got = (n.rx_flush, n.tx_flush, n.reset, n.lock, n.data.clone());
        ensure!(got == want, "cycle {k} with {inp:?} and {out:?} writes {n:?}");
        ensure!(k < 3 || n.tx == out.tx, "cycle {k} with {inp:?} and {out:?} writes {n:?}");
    }
    Ok(true)
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Sweep {
            name: "every-status",
            rule: "every pair of input and output status bytes, without and with user data, held for five cycles, both data lengths; every case is non-trivial",
            size: |_| 65_536 * 6,
            test: sweep,
            describe: |i| json!({"input_status": i as u8, "output_status": (i >> 8) as u8, "variant": i >> 16}),
        }),
        Box::new(Gen {
            name: "arbitrary-registers",
            rule: "up to 13 cycles with unrelated arbitrary registers and data queued before any of them, then a prompt device; non-trivial = start-up completed and either echo or kept data was observed",
            cases: (400_000, 5_000_000),
            strategy: cases,
            test,
        }),
        Box::new(Gen {
            name: "held-registers",
            rule: "as above with up to about 1000 cycles in which the registers stay as they are or change little; non-trivial as above",
            cases: (20_000, 300_000),
            strategy: held,
            test,
        }),
        Box::new(Gen {
            name: "endurance",
            rule: "such registers again and again for 70 000 cycles; non-trivial as above",
            cases: (24, 400),
            strategy: endless,
            test,
        }),
    ]
}
