//! C15: modules behind one coupler do not influence each other.

use super::plant::*;
use crate::{engine::*, ensure, layout::*};

/// Runs `f` here or in a thread of its own.
fn on<R>(thread: bool, f: impl FnOnce() -> R) -> R {
    if !thread {
        return f();
    }
    // `f` is used by one thread at a time. No bound on the coupler, so that
    // this compiles whatever it is made of.
    struct Any<T>(T);
    unsafe impl<T> Send for Any<T> {}
    let f = Any(f);
    let r = std::thread::scope(|s| {
        s.spawn(move || {
            let f = f;
            Any((f.0)())
        })
        .join()
    });
    match r {
        Ok(r) => r.0,
        Err(p) => std::panic::resume_unwind(p),
    }
}

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    run(c, st, false)
}

fn test_threads(c: &Case, st: &mut Stats) -> Result<(), String> {
    run(c, st, true)
}

/// With `threads` the twin has a new thread for each call.
fn run(c: &Case, st: &mut Stats, threads: bool) -> Result<(), String> {
    let l = &c.layout;
    let mut all = l.coupler()?;
    let mut twin = on(threads, || l.coupler())?;
    // every module behind a coupler of its own, at the first byte
    let alone: Vec<Layout> = l
        .slots
        .iter()
        .map(|s| Layout {
            slots: vec![Slot {
                m: s.m.clone(),
                inp: s.inp.map(|_| 0),
                out: s.out.map(|_| 0),
            }],
        })
        .collect();
    let mut single: Vec<_> = alone.iter().map(Layout::coupler).collect::<Result<_, _>>()?;
    let mut plant = Plant::new(c);
    let mut todo = unroll(&c.ops);
    let mut drained = false;
    let (mut cycles, mut used, mut received) = (0, 0, 0);
    let mut n = 0;
    while n < todo.len() || !drained {
        if n == todo.len() {
            drained = true;
            todo.extend(plant.drain_ops());
            continue;
        }
        let op = todo[n].clone();
        n += 1;
        match &op {
            Op::Set(m, ch, v) => {
                used += 1;
                set(&mut all, *m, *ch, v)?;
                on(threads, || set(&mut twin, *m, *ch, v))?;
                set(&mut single[*m], 0, *ch, v)?;
            }
            Op::Queue(m, f, k) => {
                let b = f.image(*k as usize);
                queue(&mut all, *m, &b)?;
                on(threads, || queue(&mut twin, *m, &b))?;
                queue(&mut single[*m], 0, &b)?;
            }
            Op::Read(m, k) => {
                let a = read(&mut all, *m, *k)?;
                let b = read(&mut single[*m], 0, *k)?;
                ensure!(a == b, "step {n}: module {m} receives {a:02x?}, alone {b:02x?}");
                let t = on(threads, || read(&mut twin, *m, *k))?;
                ensure!(a == t, "step {n}: module {m} receives {a:02x?} or {t:02x?}");
                received += a.len();
            }
            Op::Present(m, f, k) => plant.present(*m, f, *k),
            Op::Flags(m, k) => plant.flags(*m, *k),
            Op::Devices(t, r) => plant.devices(*t, *r),
            Op::Cycle(fi, fo) => {
                cycles += 1;
                plant.refresh(fi, fo);
                let (i, o) = (plant.inp.clone(), plant.out.clone());
                let w = all
                    .next(&with_slack(&i, fi), &with_slack(&o, fi))
                    .map_err(|e| format!("step {n}: cycle failed: {e:?}"))?;
                let t = on(threads, || twin.next(&to_words(&i), &to_words(&o)));
                ensure!(
                    t.as_ref() == Ok(&w) && twin.inputs() == all.inputs() && twin.outputs() == all.outputs(),
                    "step {n}: the same history gives {w:04x?} or {t:04x?}"
                );
                let b = to_bytes(&w);
                ensure!(b.len() == o.len(), "step {n}: {} bytes instead of {}", b.len(), o.len());
                for (k, s) in l.slots.iter().enumerate() {
                    let cut = |img: &[u8], r: Option<std::ops::Range<usize>>| {
                        let mut v = r.map_or(vec![], |r| img[r].to_vec());
                        v.resize(even(v.len()), 0);
                        v
                    };
                    let w1 = single[k]
                        .next(&to_words(&cut(&i, s.in_range())), &to_words(&cut(&o, s.out_range())))
                        .map_err(|e| format!("step {n}: cycle of module {k} alone failed: {e:?}"))?;
                    ensure!(
                        to_bytes(&w1) == cut(&b, s.out_range()),
                        "step {n}: written for module {k} ({:?}): {:02x?}, alone {:02x?}",
                        s.m.k,
                        cut(&b, s.out_range()),
                        to_bytes(&w1)
                    );
                    ensure!(
                        all.inputs()[k] == single[k].inputs()[0],
                        "step {n}: inputs of module {k} ({:?}): {:?}, alone {:?}",
                        s.m.k,
                        all.inputs()[k],
                        single[k].inputs()[0]
                    );
                    ensure!(
                        all.outputs()[k] == single[k].outputs()[0],
                        "step {n}: outputs of module {k} ({:?}): {:?}, alone {:?}",
                        s.m.k,
                        all.outputs()[k],
                        single[k].outputs()[0]
                    );
                }
                plant.written(&w).map_err(|e| format!("step {n}: {e}"))?;
            }
            Op::Fail(_) | Op::Fails(..) | Op::Again(_) => {}
        }
    }
    let coms = plant.devs.len();
    st.nontrivial_if(l.slots.len() >= 2 && cycles >= 5 && used > 0);
    st.label_if(coms >= 2, "two or more serial modules");
    st.label_if(coms >= 3, "three or more serial modules");
    st.label_if(received > 20, "more than 20 bytes received");
    st.label_if(plant.devs.values().filter(|d| d.taken_segments > 0).count() >= 2, "two modules transmit");
    st.label_if(l.slots.len() > 8, "more than 8 modules");
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Gen {
            name: "against-single-couplers",
            rule: "up to 6 modules (about half of them serial) in lockstep with a second coupler of the same configuration and one coupler per module; non-trivial = 2 modules, 5 cycles and a request",
            cases: (100_000, 1_500_000),
            strategy: || cases(2..=6, 120, false),
            test,
        }),
        Box::new(Gen {
            name: "many-modules",
            rule: "as above with 7 to 64 modules; non-trivial = 2 modules, 5 cycles and a request",
            cases: (8_000, 60_000),
            strategy: || cases(7..=64, 80, false),
            test,
        }),
        Box::new(Gen {
            name: "endurance",
            rule: "as above, a history of 2 to 4 modules repeated for 70 000 cycles; non-trivial = 2 modules, 5 cycles and a request",
            cases: (16, 400),
            strategy: || {
                use proptest::prelude::*;
                cases(2..=4, 60, false).prop_map(endless).boxed()
            },
            test,
        }),
        Box::new(Gen {
            name: "threads",
            rule: "as above with up to 12 modules, the second coupler is created and called by another thread each time; non-trivial = 2 modules, 5 cycles and a request",
            cases: (4_000, 100_000),
            strategy: || cases(2..=12, 60, false),
            test: test_threads,
        }),
    ]
}
