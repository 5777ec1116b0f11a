//! C04: analog inputs report the physical value for every raw word.

use crate::{engine::*, ensure, layout::*, model::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

const AI: &[K] = &[K::UiDiag, K::Ui12, K::Ui16, K::I8, K::Rtd, K::Tc];

/// One configuration: (kind, range code, format code) on one channel.
fn configs() -> &'static Vec<(K, usize, u16, u16)> {
    static C: std::sync::OnceLock<Vec<(K, usize, u16, u16)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        for &k in AI {
            let (ranges, formats) = match k {
                K::Rtd => (19, 1),
                K::Tc => (20, 1),
                K::I8 => (3, 2),
                _ => (9, 2),
            };
            for ch in 0..k.channels() {
                for r in 0..ranges {
                    for f in 0..formats {
                        v.push((k, ch, r, f));
                    }
                }
            }
        }
        v
    })
}

fn regs_of(k: K, ch: usize) -> (Option<usize>, usize) {
    // (data format register, range register)
    match k {
        K::UiDiag => (Some(5 * ch + 4), 5 * ch + 5),
        K::Ui12 | K::Ui16 => (Some(2 * ch + 1), 2 * ch + 2),
        K::I8 => (Some(4 * ch + 3), 4 * ch + 4),
        _ => (None, 7 * ch + 1),
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u16 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 20) as u16
    }
}

/// Words per sweep case: one module object decodes a run of words.
const RUN: u64 = 256;

fn setup(i: u64) -> (M, usize, Rng) {
    let (k, ch, range, format) = configs()[(i / (65536 / RUN)) as usize];
    let mut x = Rng(i.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    let mut p: Vec<u16> = k
        .registers()
        .iter()
        .map(|g| match g {
            Reg::Codes(n) => x.next() % n,
            Reg::Byte => x.next() % 256,
            Reg::Any => x.next(),
        })
        .collect();
    let (f, r) = regs_of(k, ch);
    p[r] = range;
    if let Some(f) = f {
        p[f] = format;
    }
    (M { k, p }, ch, x)
}

fn sweep(i: u64) -> Result<bool, String> {
    let (m, ch, mut x) = setup(i);
    let real = build(m.k, &m.p).map_err(|e| format!("{m:?}: {e:?}"))?;
    let n = m.k.channels();
    let mut buf = vec![0u16; n];
    for j in 0..RUN {
        for w in buf.iter_mut() {
            *w = x.next();
        }
        buf[ch] = ((i % (65536 / RUN)) * RUN + j) as u16;
        check(&m, real.as_ref(), &buf)?;
    }
    Ok(true)
}

fn check(m: &M, real: &dyn ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData, words: &[u16]) -> Result<(), String> {
    let got = real
        .process_input_data(words)
        .map_err(|e| format!("{m:?}: {words:?} rejected: {e:?}"))?;
    let exp = m.decode_in(&to_bytes(words)).map_err(|()| "model")?;
    all_agree("", &exp, &got).map_err(|e| format!("{m:?} {words:04x?}{e}"))
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Case {
    m: M,
    words: Vec<u16>,
}

fn cases() -> BoxedStrategy<Case> {
    proptest::sample::select(AI)
        .prop_flat_map(|k| {
            let n = k.channels();
            (
                module(k),
                prop_oneof![
                    7 => proptest::collection::vec(edge_word(), n),
                    1 => proptest::collection::vec(edge_word(), 0..2 * n + 3),
                ],
            )
        })
        .prop_map(|(m, words)| Case { m, words })
        .boxed()
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Sweep {
            name: "every-word-every-range",
            rule: "each case decodes 256 consecutive raw words (together all 65536) on one channel under one range and format, the other channels holding random settings and words that are checked as well; all non-trivial",
            size: |_| configs().len() as u64 * (65536 / RUN),
            test: sweep,
            describe: |i| {
                let (m, ch, _) = setup(i);
                json!({"module": m, "channel": ch, "first_word": (i % (65536 / RUN)) * RUN})
            },
        }),
        Box::new(Gen {
            name: "mixed-channels",
            rule: "random settings and boundary-weighted words on all channels, sometimes a wrong number of words; non-trivial = right number of words and at least one enabled channel",
            cases: (1_200_000, 30_000_000),
            strategy: cases,
            test: |c: &Case, st: &mut Stats| {
                let real = build(c.m.k, &c.m.p).map_err(|e| format!("{:?}: {e:?}", c.m))?;
                if c.words.len() != c.m.k.channels() {
                    st.label("wrong word count");
                    let r = real.process_input_data(&c.words);
                    ensure!(r.is_err(), "{} words accepted: {r:?}", c.words.len());
                    return Ok(());
                }
                let exp = c.m.decode_in(&to_bytes(&c.words)).map_err(|()| "model")?;
                st.nontrivial_if(exp.iter().any(|e| matches!(e, E::Dec(..))));
                st.label_if(exp.contains(&E::Disabled), "disabled channel");
                st.label_if(exp.contains(&E::None), "broken wire");
                check(&c.m, real.as_ref(), &c.words)
            },
        }),
    ]
}
