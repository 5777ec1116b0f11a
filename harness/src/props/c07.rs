//! C07: frequency counter durations, counts and commands survive transport.

use crate::{engine::*, ensure, layout::*, model::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use ur20::ChannelValue;

fn field() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => any::<u32>(),
        4 => 0u32..0x0800_0000,
        2 => (0u32..32, -2i64..3).prop_map(|(s, d)| ((1i64 << s) + d) as u32),
        2 => proptest::sample::select(vec![0u32, 1, 0x07FF_FFFE, 0x07FF_FFFF, 0x0800_0000, 0xFFFF, 0x1_0000, u32::MAX]),
        1 => (0u32..2000).prop_map(|d| 0x07FF_FFFF - 1000 + d),
        1 => proptest::sample::select(&crate::dict::dict().dwords[..]),
    ]
    .boxed()
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct In {
    p: Vec<u16>,
    period: [u32; 2],
    count: [u32; 2],
    ctrl: [u16; 2],
    words: Option<usize>,
}

fn ins() -> BoxedStrategy<In> {
    (
        params(K::Fcnt),
        [field(), field()],
        [field(), field()],
        any::<[u16; 2]>(),
        proptest::option::weighted(0.05, 0usize..14),
    )
        .prop_map(|(p, period, count, ctrl, words)| In { p, period, count, ctrl, words })
        .boxed()
}

fn test_in(c: &In, st: &mut Stats) -> Result<(), String> {
    let m = M { k: K::Fcnt, p: c.p.clone() };
    let real = build(m.k, &m.p).map_err(|e| format!("{e:?}"))?;
    let mut w = vec![];
    for i in 0..2 {
        w.extend([(c.period[i] >> 16) as u16, c.period[i] as u16, (c.count[i] >> 16) as u16, c.count[i] as u16]);
    }
    w.extend(c.ctrl);
    if let Some(n) = c.words.filter(|n| *n != 10) {
        w.resize(n, 0);
        st.label("wrong word count");
        let r = real.process_input_data(&w);
        ensure!(r.is_err(), "{n} words accepted: {r:?}");
        return Ok(());
    }
    st.nontrivial();
    let got = real.process_input_data(&w).map_err(|e| format!("{w:04x?} rejected: {e:?}"))?;
    let exp = m.decode_in(&to_bytes(&w)).map_err(|()| "model")?;
    all_agree("inputs", &exp, &got).map_err(|e| format!("{w:04x?} {e}"))?;
    for (i, v) in got.iter().enumerate() {
        let ChannelValue::FcntIn(x) = v else { unreachable!() };
        ensure!(ChannelValue::from(x.clone()) == *v, "{x:?} becomes another channel value");
        let v = x;
        let hz = v.hertz();
        if c.period[i] >= 0x07FF_FFFF {
            st.label("no period");
            ensure!(hz.is_none(), "channel {i}: frequency {hz:?} without a period");
        } else if c.period[i] > 0 {
            st.label("period");
            let want = f64::from(c.count[i]) / (f64::from(c.period[i]) * 125e-9);
            let Some(hz) = hz else {
                return Err(format!("channel {i}: no frequency for {v:?}"));
            };
            ensure!(
                (f64::from(hz) - want).abs() <= want * 1e-6,
                "channel {i}: {hz} Hz instead of {want} for {v:?}"
            );
        } else {
            ensure!(hz.is_some(), "channel {i}: no frequency for a period of 0");
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Out {
    p: Vec<u16>,
    values: Vec<GV>,
    period: [u32; 2],
    cmd: [u8; 2],
    junk: [u16; 2],
    words: Option<usize>,
}

fn outs() -> BoxedStrategy<Out> {
    let val = prop_oneof![8 => fout(), 1 => long_fout(), 1 => Just(GV::Disabled), 1 => any_value()];
    let exact = prop_oneof![
        1 => Just(GV::Fout { secs: 8, nanos: 388_607_000, cmd: Some(true) }),
        1 => Just(GV::Fout { secs: 8, nanos: 388_607_001, cmd: None }),
        1 => Just(GV::Fout { secs: 4295, nanos: 0, cmd: None }),
        20 => fout(),
    ];
    let vals = prop_oneof![
        6 => proptest::collection::vec(exact, 2),
        3 => proptest::collection::vec(val.clone(), 2),
        1 => proptest::collection::vec(val, 0..5),
    ];
    (
        params(K::Fcnt),
        vals,
        [field(), field()],
        [0u8..3, 0u8..3],
        any::<[u16; 2]>(),
        proptest::option::weighted(0.05, 0usize..10),
    )
        .prop_map(|(p, values, period, cmd, junk, words)| Out { p, values, period, cmd, junk, words })
        .boxed()
}

fn test_out(c: &Out, st: &mut Stats) -> Result<(), String> {
    let m = M { k: K::Fcnt, p: c.p.clone() };
    let real = build(m.k, &m.p).map_err(|e| format!("{e:?}"))?;
    // words -> values
    let mut w = vec![];
    for i in 0..2 {
        w.extend([(c.period[i] >> 16) as u16, c.period[i] as u16]);
    }
    for i in 0..2 {
        w.push((c.junk[i] & !0x0300) | u16::from(c.cmd[i]) << 8);
    }
    if let Some(n) = c.words.filter(|n| *n != 6) {
        w.resize(n, 0);
        st.label("wrong word count");
        let r = real.process_output_data(&w);
        ensure!(r.is_err(), "{n} words accepted: {r:?}");
    } else {
        let got = real.process_output_data(&w).map_err(|e| format!("{w:04x?} rejected: {e:?}"))?;
        let exp = m.decode_out(&to_bytes(&w)).map_err(|()| "model")?;
        all_agree("outputs", &exp, &got).map_err(|e| format!("{w:04x?} {e}"))?;
        for v in &got {
            let ChannelValue::FcntOut(x) = v else { unreachable!() };
            ensure!(ChannelValue::from(x.clone()) == *v, "{x:?} becomes another channel value");
        }
        // and back, if short enough
        let again = real.process_output_values(&got);
        if c.period.iter().all(|p| *p <= 8_388_607) {
            let mut want = w.clone();
            for i in 0..2 {
                want[4 + i] &= 0x0300;
            }
            ensure!(
                again.as_deref() == Ok(&want[..]),
                "{w:04x?} is written back as {again:04x?}"
            );
            st.label("frame written back");
        } else {
            ensure!(again.is_err(), "{got:?} accepted: {again:?}");
        }
    }
    // values -> words -> values
    let got = real.process_output_values(&values(&c.values));
    if c.values.len() != 2 || !c.values.iter().all(|v| m.encodable(v)) {
        st.label("unencodable");
        ensure!(got.is_err(), "{:?} accepted: {got:?}", c.values);
        return Ok(());
    }
    let w = got.map_err(|e| format!("{:?} rejected: {e:?}", c.values))?;
    ensure!(w.len() == 6, "{} words", w.len());
    m.check_encoding(&c.values, &to_bytes(&w)).map_err(|e| format!("{:?}: {e}", c.values))?;
    let back = real.process_output_data(&w).map_err(|e| format!("{e:?}"))?;
    for (i, v) in c.values.iter().enumerate() {
        if let GV::Fout { secs, nanos, cmd } = v {
            st.nontrivial();
            let exp = E::Fout { micros: (*secs as u32) * 1_000_000 + nanos / 1000, cmd: *cmd };
            ensure!(agrees(&exp, &back[i]), "{v:?} comes back as {:?}", back[i]);
        }
    }
    Ok(())
}

/// Every duration in microseconds up to a bit above the limit, on both channels.
fn micros(i: u64) -> Result<bool, String> {
    let m = M { k: K::Fcnt, p: vec![0, 0] };
    let real = build(m.k, &m.p).map_err(|e| format!("{e:?}"))?;
    let lo = i * 256;
    for us in lo..lo + 256 {
        let other = (us * 7919) % 8_388_608;
        let mk = |us: u64, cmd| GV::Fout {
            secs: us / 1_000_000,
            nanos: (us % 1_000_000) as u32 * 1000,
            cmd,
        };
        let cmd = [None, Some(true), Some(false)][(us % 3) as usize];
        let mut v = vec![mk(us, cmd), mk(other, None)];
        if us % 2 == 1 {
            v.swap(0, 1);
        }
        let got = real.process_output_values(&values(&v));
        if us > 8_388_607 {
            ensure!(got.is_err(), "{v:?} accepted: {got:?}");
            continue;
        }
        let w = got.map_err(|e| format!("{v:?} rejected: {e:?}"))?;
        m.check_encoding(&v, &to_bytes(&w)).map_err(|e| format!("{v:?}: {e}"))?;
        let back = real.process_output_data(&w).map_err(|e| format!("{e:?}"))?;
        ensure!(back == values(&v), "{v:?} comes back as {back:?}");
    }
    Ok(lo <= 8_388_607)
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Sweep {
            name: "every-microsecond",
            rule: "each case encodes and decodes 256 consecutive durations; together every whole number of microseconds up to 8.454143 s, alternating channels and commands; non-trivial = within the limit",
            size: |_| 33_024,
            test: micros,
            describe: |i| json!({"first_micros": i * 256}),
        }),
        Box::new(Gen {
            name: "inputs",
            rule: "random and boundary period and count fields with arbitrary control words; non-trivial = right number of words",
            cases: (3_200_000, 40_000_000),
            strategy: ins,
            test: test_in,
        }),
        Box::new(Gen {
            name: "outputs",
            rule: "output frames with stray bits and channel values around the limits and of other kinds; non-trivial = encodable values with at least one duration",
            cases: (3_200_000, 40_000_000),
            strategy: outs,
            test: test_out,
        }),
    ]
}
