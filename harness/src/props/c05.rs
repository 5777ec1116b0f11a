//! C05: analog outputs encode the nearest code and never drift.

use crate::{engine::*, ensure, layout::*, model::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

const AO: &[K] = &[K::Ao, K::AoDiag];
const RUN: u64 = 256;
const PER: u64 = 65536 / RUN;

fn configs() -> u64 {
    2 * 4 * 9 * 2
}

fn setup(i: u64) -> (M, usize, u64) {
    let c = i / PER;
    let k = AO[(c % 2) as usize];
    let ch = (c / 2 % 4) as usize;
    let range = (c / 8 % 9) as u16;
    let format = (c / 72 % 2) as u16;
    let mut x = i.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let mut next = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 20) as u16
    };
    let mut p: Vec<u16> = k
        .registers()
        .iter()
        .map(|g| match g {
            Reg::Codes(n) => next() % n,
            _ => next(),
        })
        .collect();
    let w = p.len() / 4;
    p[w * ch] = format;
    p[w * ch + 1] = range;
    (M { k, p }, ch, x)
}

/// decode -> encode is the identity on enabled channels and zero on disabled ones.
fn sweep(i: u64) -> Result<bool, String> {
    let (m, ch, mut x) = setup(i);
    let real = build(m.k, &m.p).map_err(|e| format!("{m:?}: {e:?}"))?;
    let enabled: Vec<bool> = (0..4).map(|c| ui_range(m.fmt_range(c).1).is_some()).collect();
    for j in 0..RUN {
        let mut words: Vec<u16> = (0..4)
            .map(|s| {
                x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
                (x >> (20 + s)) as u16
            })
            .collect();
        words[ch] = ((i % PER) * RUN + j) as u16;
        rewrite(&m, real.as_ref(), &enabled, &words, 3)?;
    }
    Ok(enabled[ch])
}

fn rewrite(
    m: &M,
    real: &dyn ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData,
    enabled: &[bool],
    words: &[u16],
    times: usize,
) -> Result<(), String> {
    let want: Vec<u16> = words.iter().zip(enabled).map(|(w, e)| if *e { *w } else { 0 }).collect();
    let exp = m.decode_out(&to_bytes(words)).map_err(|()| "model")?;
    let mut cur = words.to_vec();
    for t in 0..times {
        let vals = real
            .process_output_data(&cur)
            .map_err(|e| format!("{m:?}: {cur:04x?} not decoded: {e:?}"))?;
        if t == 0 {
            all_agree("decoding", &exp, &vals).map_err(|e| format!("{m:?} {cur:04x?} {e}"))?;
        }
        cur = real
            .process_output_values(&vals)
            .map_err(|e| format!("{m:?}: {vals:?} not encoded: {e:?}"))?;
        ensure!(
            cur == want,
            "{m:?}: output words {words:04x?} become {cur:04x?} after {} rewrites (expected {want:04x?})",
            t + 1
        );
    }
    Ok(())
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Case {
    m: M,
    values: Vec<GV>,
    words: Vec<u16>,
}

/// A value at a given distance (in codes) from a code of the given channel.
fn near_code(m: &M, ch: usize) -> BoxedStrategy<GV> {
    let (f, r) = m.fmt_range(ch);
    let (off, span) = ui_range(r).unwrap_or((0.0, 1.0));
    (
        prop_oneof![
            6 => -32768i32..32768,
            1 => proptest::sample::select(vec![-32768, -32767, -1, 0, 1, 27648, 16384, -27648, 32766, 32767, 32768, -32769]),
        ],
        prop_oneof![
            3 => -0.7f64..0.7,
            1 => proptest::sample::select(vec![0.0, 0.44, -0.44, 0.49, -0.49, 0.25]),
        ],
    )
        .prop_map(move |(c, d)| {
            GV::dec((off + span * (f64::from(c) + d) / full_scale(f)) as f32)
        })
        .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    proptest::sample::select(AO)
        .prop_flat_map(module)
        .prop_flat_map(|m| {
            let vals = (0..4)
                .map(|c| {
                    prop_oneof![
                        6 => near_code(&m, c),
                        3 => any_f32().prop_map(GV::Dec),
                        1 => Just(GV::Disabled),
                    ]
                })
                .collect::<Vec<_>>();
            let edited = (vals.clone(), 0usize..4, any_value(), any::<u8>()).prop_map(|(mut v, i, x, how)| {
                match how {
                    0..=200 => v[i] = x,
                    201..=215 => {
                        v.remove(i);
                    }
                    216..=230 => v.insert(i, x),
                    231..=240 => v.truncate(i),
                    _ => v.push(x),
                }
                v
            });
            let words = prop_oneof![
                6 => proptest::collection::vec(edge_word(), 4),
                1 => proptest::collection::vec(any::<u16>(), 0..10),
            ];
            (Just(m), prop_oneof![7 => vals, 2 => edited], words)
        })
        .prop_map(|(m, values, words)| Case { m, values, words })
        .boxed()
}

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    let m = &c.m;
    let real = build(m.k, &m.p).map_err(|e| format!("{m:?}: {e:?}"))?;
    let enabled: Vec<bool> = (0..4).map(|c| ui_range(m.fmt_range(c).1).is_some()).collect();
    // words
    if c.words.len() == 4 {
        rewrite(m, real.as_ref(), &enabled, &c.words, 20)?;
    } else {
        st.label("wrong word count");
        let r = real.process_output_data(&c.words);
        ensure!(r.is_err(), "{} words accepted: {r:?}", c.words.len());
    }
    // values
    let got = real.process_output_values(&values(&c.values));
    let good = c.values.len() == 4 && c.values.iter().all(|v| m.encodable(v));
    if !good {
        st.label("unencodable");
        ensure!(got.is_err(), "{:?} accepted by {m:?}: {got:?}", c.values);
        return Ok(());
    }
    st.nontrivial_if(enabled.iter().any(|e| *e));
    let words = got.map_err(|e| format!("{:?} rejected by {m:?}: {e:?}", c.values))?;
    m.check_encoding(&c.values, &to_bytes(&words))
        .map_err(|e| format!("{m:?}: {e}"))?;
    for (i, v) in c.values.iter().enumerate() {
        if let GV::Dec(b) = v {
            let (f, r) = m.fmt_range(i);
            let x = scaled(f32::from_bits(*b), f, r);
            st.label_if(!(-32768.0..=32767.0).contains(&x), "saturating value");
            st.label_if(
                enabled[i] && (x - x.trunc()).abs() > 0.5 && x.abs() < 32767.0,
                "nearest code is away from zero",
            );
            st.label_if(!enabled[i], "value on a disabled channel");
        }
    }
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Sweep {
            name: "rewrite-every-word",
            rule: "each case decodes and re-encodes, three times over, 256 consecutive output words (together all 65536) on one channel under one range and format with random settings and words on the other channels; non-trivial = the channel is enabled",
            size: |_| configs() * PER,
            test: sweep,
            describe: |i| {
                let (m, ch, _) = setup(i);
                json!({"module": m, "channel": ch, "first_word": (i % PER) * RUN})
            },
        }),
        Box::new(Gen {
            name: "values",
            rule: "four values near codes, over the whole f32 range or of other kinds and counts, and four words rewritten 20 times; non-trivial = encodable values with an enabled channel",
            cases: (1_000_000, 25_000_000),
            strategy: cases,
            test,
        }),
    ]
}
