//! C06: digital channels and status flags map one bit to one channel.

use crate::{engine::*, ensure, layout::*, model::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

const KIN: &[K] = &[K::Di4, K::Di8, K::Pf];
const KOUT: &[K] = &[K::Do4, K::Do42A, K::Do8, K::Do16, K::Ro4];

/// Module registers that differ from case to case (they must not matter).
fn regs(k: K, i: u64) -> Vec<u16> {
    let mut x = i.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    k.registers()
        .iter()
        .map(|g| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            match g {
                Reg::Codes(n) => (x >> 20) as u16 % n,
                _ => 0,
            }
        })
        .collect()
}

fn in_case(i: u64) -> (M, Vec<u16>) {
    let k = KIN[(i / 65536) as usize];
    let m = M { k, p: regs(k, i) };
    let w = i as u16;
    let other = (i.wrapping_mul(0xD129_0DD3_1B5F_9A77) >> 30) as u16;
    (m, if k == K::Pf { vec![w, other] } else { vec![w] })
}

fn check_in(m: &M, words: &[u16]) -> Result<(), String> {
    let real = build(m.k, &m.p).map_err(|e| format!("{m:?}: {e:?}"))?;
    let got = real
        .process_input_data(words)
        .map_err(|e| format!("{m:?}: {words:04x?} rejected: {e:?}"))?;
    let exp = m
        .decode_in(&to_bytes(words)[..m.in_bytes()])
        .map_err(|()| "model")?;
    for v in &got {
        if let ur20::ChannelValue::SilPFIn(x) = v {
            ensure!(ur20::ChannelValue::from(x.clone()) == *v, "{x:?} becomes another channel value");
        }
    }
    all_agree("inputs", &exp, &got).map_err(|e| format!("{m:?} {words:04x?} {e}"))
}

fn out_case(i: u64) -> (M, u16) {
    let k = KOUT[(i / 65536) as usize];
    (M { k, p: regs(k, i) }, i as u16)
}

fn check_out(m: &M, w: u16) -> Result<(), String> {
    let real = build(m.k, &m.p).map_err(|e| format!("{m:?}: {e:?}"))?;
    let n = m.k.channels();
    // word -> values
    let got = real
        .process_output_data(&[w])
        .map_err(|e| format!("{m:?}: {w:04x} rejected: {e:?}"))?;
    let exp: Vec<E> = (0..n).map(|b| E::Bit(w >> b & 1 == 1)).collect();
    all_agree("outputs", &exp, &got).map_err(|e| format!("{m:?} {w:04x} {e}"))?;
    // values -> word
    let mask = if n == 16 { 0xFFFF } else { (1u16 << n) - 1 };
    let back = real
        .process_output_values(&got)
        .map_err(|e| format!("{m:?}: {got:?} rejected: {e:?}"))?;
    ensure!(
        back == [w & mask],
        "{m:?}: {got:?} is encoded as {back:04x?}, expected {:04x}",
        w & mask
    );
    Ok(())
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Case {
    m: M,
    values: Vec<GV>,
    words: Vec<u16>,
}

fn cases() -> BoxedStrategy<Case> {
    prop_oneof![proptest::sample::select(KOUT), proptest::sample::select(KIN)]
        .prop_flat_map(module)
        .prop_flat_map(|m| {
            let n = m.k.channels();
            let v = prop_oneof![
                6 => proptest::collection::vec(good_value(&m), n),
                2 => (proptest::collection::vec(good_value(&m), n.max(1)), any::<proptest::sample::Index>(), any_value())
                    .prop_map(|(mut v, i, x)| { let i = i.index(v.len()); v[i] = x; v }),
                1 => proptest::collection::vec(any::<bool>().prop_map(GV::Bit), 0..20),
            ];
            let w = prop_oneof![
                3 => proptest::collection::vec(any::<u16>(), 1..3),
                1 => proptest::collection::vec(any::<u16>(), 0..6),
            ];
            (Just(m), v, w)
        })
        .prop_map(|(m, values, words)| Case { m, values, words })
        .boxed()
}

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    let m = &c.m;
    let n = m.k.channels();
    let real = build(m.k, &m.p).map_err(|e| format!("{m:?}: {e:?}"))?;
    if m.k.has_inputs() {
        let need = if m.k == K::Pf { 2 } else { 1 };
        if c.words.len() == need {
            st.nontrivial();
            st.label("input words");
            check_in(m, &c.words)?;
        } else {
            st.label("wrong word count");
            let r = real.process_input_data(&c.words);
            ensure!(r.is_err(), "{m:?}: {} input words accepted: {r:?}", c.words.len());
        }
        return Ok(());
    }
    if c.words.len() == 1 {
        check_out(m, c.words[0])?;
    } else {
        st.label("wrong word count");
        let r = real.process_output_data(&c.words);
        ensure!(r.is_err(), "{m:?}: {} output words accepted: {r:?}", c.words.len());
    }
    let got = real.process_output_values(&values(&c.values));
    if c.values.len() != n || !c.values.iter().all(|v| m.encodable(v)) {
        st.label("wrong count or kind");
        ensure!(got.is_err(), "{m:?}: {:?} accepted: {got:?}", c.values);
        return Ok(());
    }
    st.nontrivial();
    st.label_if(c.values.contains(&GV::Disabled), "disabled channel");
    let w = got.map_err(|e| format!("{m:?}: {:?} rejected: {e:?}", c.values))?;
    ensure!(w.len() == 1, "{m:?}: {} words", w.len());
    let b = to_bytes(&w);
    ensure!(
        b[m.out_bytes()..].iter().all(|x| *x == 0),
        "{m:?}: bits outside the module in {w:04x?}"
    );
    m.check_encoding(&c.values, &b[..m.out_bytes()])
        .map_err(|e| format!("{m:?} {:?}: {e}", c.values))?;
    // inverted by decoding
    let back = real.process_output_data(&w).map_err(|e| format!("{e:?}"))?;
    let exp: Vec<E> = c.values.iter().map(|v| E::Bit(*v == GV::Bit(true))).collect();
    all_agree("decoded outputs", &exp, &back).map_err(|e| format!("{m:?} {w:04x?} {e}"))
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Sweep {
            name: "every-input-word",
            rule: "all 65536 words for both digital input modules and the power feed status (with a varying second word); all non-trivial",
            size: |_| KIN.len() as u64 * 65536,
            test: |i| {
                let (m, w) = in_case(i);
                check_in(&m, &w).map(|()| true)
            },
            describe: |i| {
                let (m, w) = in_case(i);
                json!({"module": m, "words": w})
            },
        }),
        Box::new(Sweep {
            name: "every-output-word",
            rule: "all 65536 words decoded and encoded back for all five digital and relay output modules; all non-trivial",
            size: |_| KOUT.len() as u64 * 65536,
            test: |i| {
                let (m, w) = out_case(i);
                check_out(&m, w).map(|()| true)
            },
            describe: |i| {
                let (m, w) = out_case(i);
                json!({"module": m, "word": w})
            },
        }),
        Box::new(Gen {
            name: "values-and-words",
            rule: "random channel values with disabled channels, foreign kinds, wrong counts, and wrong word counts; non-trivial = accepted",
            cases: (1_600_000, 40_000_000),
            strategy: cases,
            test,
        }),
    ]
}
