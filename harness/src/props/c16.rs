//! C16: a failed cycle loses nothing and poisons nothing.

use super::plant::*;
use crate::{engine::*, ensure, layout::*, model::*};
use std::collections::BTreeMap;

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    let l = &c.layout;
    // `a` experiences the failing cycles, `b` does not
    let mut a = l.coupler()?;
    let mut b = l.coupler()?;
    let mut pending: BTreeMap<(usize, usize), GV> = BTreeMap::new();
    let mut plant = Plant::new(c);
    for op in &c.ops {
        if let Op::Fails(_, k) = op {
            st.label(if *k > 10 { "more than 10 failures in a row" } else { "failures in a row" });
        }
    }
    let mut todo = unroll(&c.ops);
    let mut drained = false;
    let (mut cycles, mut failed, mut after) = (0, 0, 0);
    let mut n = 0;
    while n < todo.len() || !drained {
        if n == todo.len() {
            drained = true;
            todo.extend(plant.drain_ops());
            continue;
        }
        let op = todo[n].clone();
        n += 1;
        match &op {
            Op::Set(m, ch, v) => {
                set(&mut a, *m, *ch, v)?;
                pending.insert((*m, *ch), v.clone());
            }
            Op::Queue(m, f, k) => {
                let x = f.image(*k as usize);
                queue(&mut a, *m, &x)?;
                queue(&mut b, *m, &x)?;
            }
            Op::Read(m, k) => {
                let (x, y) = (read(&mut a, *m, *k)?, read(&mut b, *m, *k)?);
                ensure!(x == y, "step {n}: module {m} receives {x:02x?}, without the failed cycles {y:02x?}");
            }
            Op::Present(m, f, k) => plant.present(*m, f, *k),
            Op::Flags(m, k) => plant.flags(*m, *k),
            Op::Devices(t, r) => plant.devices(*t, *r),
            Op::Cycle(fi, fo) => {
                cycles += 1;
                after += usize::from(failed > 0);
                plant.refresh(fi, fo);
                for ((m, ch), v) in std::mem::take(&mut pending) {
                    set(&mut b, m, ch, &v)?;
                }
                let (i, o) = (with_slack(&plant.inp, fi), with_slack(&plant.out, fi));
                let x = a.next(&i, &o);
                let y = b.next(&i, &o).map_err(|e| format!("step {n}: cycle failed: {e:?}"))?;
                ensure!(
                    x.as_ref() == Ok(&y),
                    "step {n}: {x:04x?} written, without the failed cycles {y:04x?}"
                );
                ensure!(
                    a.inputs() == b.inputs() && a.outputs() == b.outputs(),
                    "step {n}: reported {:?} {:?}, without the failed cycles {:?} {:?}",
                    a.inputs(),
                    a.outputs(),
                    b.inputs(),
                    b.outputs()
                );
                plant.written(&y).map_err(|e| format!("step {n}: {e}"))?;
            }
            Op::Fails(..) | Op::Again(_) => {}
            Op::Fail(f) => {
                failed += 1;
                // unrelated or much like the cycle before
                plant.refresh(&if c.ops.len() % 2 == 0 { Fill::Seed(n as u64) } else { Fill::Near(n as u64) }, &None);
                let (mut i, mut o) = (plant.inp.clone(), plant.out.clone());
                let mut unencodable = false;
                match f {
                    Failing::ShortInput(k) => i.truncate(i.len() - 2 * *k as usize),
                    Failing::ShortOutput(k) => o.truncate(o.len() - 2 * *k as usize),
                    Failing::BadInputFrame(m, x) => i[l.slots[*m].in_range().unwrap().start + 1] = *x,
                    Failing::BadOutputFrame(m, x) => o[l.slots[*m].out_range().unwrap().start + 1] = *x,
                    Failing::Request(m, ch, v) => {
                        set(&mut a, *m, *ch, v)?;
                        unencodable = true;
                    }
                    Failing::ReadBack(m, d) => {
                        // overridden by a request for the channel
                        if pending.contains_key(&(*m, 0)) {
                            failed -= 1;
                            continue;
                        }
                        let r = l.slots[*m].out_range().unwrap().start;
                        let hi = (d >> 16) as u16;
                        o[r..r + 2].copy_from_slice(&hi.to_le_bytes());
                        o[r + 2..r + 4].copy_from_slice(&(*d as u16).to_le_bytes());
                        unencodable = true;
                    }
                }
                let x = a.next(&to_words(&i), &to_words(&o));
                ensure!(x.is_err(), "step {n}: cycle with {f:?} succeeds: {x:04x?}");
                if unencodable {
                    // the requests are gone, serial data is not
                    for ((m, _), v) in std::mem::take(&mut pending) {
                        if let (GV::Bytes(v), true) = (&v, plant.devs.contains_key(&m)) {
                            queue(&mut b, m, v)?;
                        }
                    }
                    st.label("value that can't be encoded");
                } else {
                    ensure!(
                        a.inputs() == b.inputs() && a.outputs() == b.outputs(),
                        "step {n}: after a failed cycle {:?} {:?} are reported, before {:?} {:?}",
                        a.inputs(),
                        a.outputs(),
                        b.inputs(),
                        b.outputs()
                    );
                    st.label("bad image");
                }
                st.label_if(cycles == 0, "failure before the first cycle");
                st.label_if(cycles == 1 || cycles == 2, "failure during start-up");
                st.label_if(!pending.is_empty(), "failure with pending requests");
            }
        }
    }
    st.nontrivial_if(failed > 0 && after >= 2);
    st.label_if(plant.devs.values().any(|d| d.taken_segments > 1) && failed > 0, "serial transmission around failures");
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Gen {
            name: "many-modules",
            rule: "as below with 6 to 64 modules; non-trivial = a failure with at least 2 cycles after it",
            cases: (6_000, 60_000),
            strategy: || cases(6..=64, 60, true),
            test,
        }),
        Box::new(Gen {
            name: "long-streaks",
            rule: "as below with streaks of up to 70 000 failing cycles; non-trivial = a failure with at least 2 cycles after it",
            cases: (24, 400),
            strategy: || {
                use proptest::prelude::*;
                cases(2..=4, 60, true)
                    .prop_map(|mut c| {
                        let mut n = 0;
                        for op in &mut c.ops {
                            if let Op::Fail(f) = op {
                                n += 1;
                                if n == 3 || n == 5 {
                                    *op = Op::Fails(f.clone(), if n == 3 { 70_000 } else { 300 });
                                }
                            }
                        }
                        c
                    })
                    .boxed()
            },
            test,
        }),
        Box::new(Gen {
            name: "endurance",
            rule: "a history of 2 to 4 modules repeated for 70 000 cycles; non-trivial = a failure with at least 2 cycles after it",
            cases: (24, 400),
            strategy: || {
                use proptest::prelude::*;
                cases(2..=4, 60, true).prop_map(endless).boxed()
            },
            test,
        }),
        Box::new(Gen {
        name: "with-and-without-failures",
        rule: "histories of a coupler with up to 5 modules and devices, in lockstep with a coupler that does not experience the failing cycles (short images, malformed frames, unencodable requests and read-back values); non-trivial = a failure with at least 2 cycles after it",
        cases: (200_000, 3_000_000),
        strategy: || cases(1..=5, 120, true),
        test,
    })]
}
