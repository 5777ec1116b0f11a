//! Configurations: module lists with the placement of every module in the
//! packed process images.

use crate::model::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use ur20::ur20_fbc_mod_tcp::{Coupler, CouplerConfig};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Slot {
    pub m: M,
    /// first byte within the input image
    pub inp: Option<u16>,
    /// first byte within the output image
    pub out: Option<u16>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Layout {
    pub slots: Vec<Slot>,
}

pub fn in_addr(byte: u16) -> u16 {
    byte * 8
}

pub fn out_addr(byte: u16) -> u16 {
    0x8000 + byte * 8
}

impl Slot {
    pub fn in_range(&self) -> Option<std::ops::Range<usize>> {
        self.inp.map(|b| b as usize..b as usize + self.m.in_bytes())
    }
    pub fn out_range(&self) -> Option<std::ops::Range<usize>> {
        self.out
            .map(|b| b as usize..b as usize + self.m.out_bytes())
    }
}

impl Layout {
    pub fn in_len(&self) -> usize {
        even(
            self.slots
                .iter()
                .filter_map(|s| s.in_range().map(|r| r.end))
                .max()
                .unwrap_or(0),
        )
    }
    pub fn out_len(&self) -> usize {
        even(
            self.slots
                .iter()
                .filter_map(|s| s.out_range().map(|r| r.end))
                .max()
                .unwrap_or(0),
        )
    }
    pub fn config(&self) -> CouplerConfig {
        CouplerConfig {
            modules: self.slots.iter().map(|s| s.m.k.module_type()).collect(),
            offsets: self
                .slots
                .iter()
                .flat_map(|s| {
                    [
                        s.out.map_or(0xFFFF, out_addr),
                        s.inp.map_or(0xFFFF, in_addr),
                    ]
                })
                .collect(),
            params: self.slots.iter().map(|s| s.m.p.clone()).collect(),
        }
    }
    pub fn coupler(&self) -> Result<Coupler, String> {
        Coupler::new(&self.config()).map_err(|e| format!("coupler not created: {e:?}"))
    }
    pub fn sanitize_in(&self, img: &mut [u8]) {
        for s in &self.slots {
            if let Some(r) = s.in_range() {
                s.m.sanitize_in(&mut img[r]);
            }
        }
    }
    pub fn sanitize_out(&self, img: &mut [u8]) {
        for s in &self.slots {
            if let Some(r) = s.out_range() {
                s.m.sanitize_out(&mut img[r]);
            }
        }
    }
    /// Expected decoding of an input image (bytes).
    pub fn expect_in(&self, img: &[u8]) -> Result<Vec<Vec<E>>, ()> {
        self.slots
            .iter()
            .map(|s| match s.in_range() {
                Some(r) => s.m.decode_in(img.get(r).ok_or(())?),
                None => Ok(vec![E::None; s.m.k.channels()]),
            })
            .collect()
    }
    pub fn expect_out(&self, img: &[u8]) -> Result<Vec<Vec<E>>, ()> {
        self.slots
            .iter()
            .map(|s| match s.out_range() {
                Some(r) => s.m.decode_out(img.get(r).ok_or(())?),
                None => Ok(vec![E::None; s.m.k.channels()]),
            })
            .collect()
    }
    pub fn has_com(&self) -> bool {
        self.slots.iter().any(|s| s.m.k.is_com())
    }
}

pub fn even(n: usize) -> usize {
    n + n % 2
}

pub fn to_words(b: &[u8]) -> Vec<u16> {
    b.chunks(2)
        .map(|c| u16::from(c[0]) + 256 * u16::from(*c.get(1).unwrap_or(&0)))
        .collect()
}

pub fn to_bytes(w: &[u16]) -> Vec<u8> {
    w.iter().flat_map(|w| [*w as u8, (*w >> 8) as u8]).collect()
}

/// Content of a process image.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fill {
    Const(u8),
    /// pseudo random bytes expanded from a generated seed
    Seed(u64),
    /// generated bytes, repeated
    Bytes(Vec<u8>),
    /// byte sequences that might be treated specially
    Special(u64),
    /// values out of the library's source
    Dict(u64),
    /// much like the image before: the same, or with a small change
    Near(u64),
}

/// Boundary codes (little endian words), line ends, control characters.
const SPECIAL: &[&[u8]] = &[
    &[0], &[0xFF], &[0, 0], &[0xFF, 0xFF], &[0, 0x80], &[1, 0x80], &[0xFF, 0x7F], &[0xFE, 0x7F], &[1, 0], &[0, 1],
    &[0xFF, 0x07, 0xFF, 0xFF], &[0xFF, 0x07, 0xFE, 0xFF], &[0x7F, 0, 0xFF, 0xFF], &[0x80, 0, 0, 0],
    &[0, 0x6C], &[0, 0x40], &[0, 0xC0], &[0x0D, 0x0A], &[0x0A], &[0x0D], &[0x11], &[0x13], &[0x1B], &[0x10],
    &[0x02], &[0x03], &[0x04], &[0x06], &[0x15], &[0x1A], &[0x7F], &[0x7E], &[0x7D], &[0xAA, 0x55], &[0x20], &[0x09],
    &[0xC3, 0xA4], &[0xEF, 0xBB, 0xBF], b"0", b"OK", b":", b"$", b"*", b"\\", b"%",
];

impl Fill {
    pub fn image(&self, len: usize) -> Vec<u8> {
        match self {
            Fill::Const(b) => vec![*b; len],
            Fill::Seed(s) | Fill::Near(s) => {
                let mut x = *s;
                (0..len)
                    .map(|_| {
                        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
                        let mut z = x;
                        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                        (z >> 32) as u8
                    })
                    .collect()
            }
            Fill::Special(s) => {
                let picks = Fill::Seed(*s).image(len + 1);
                let one = picks[0] % 4 == 0;
                let mut v: Vec<u8> = picks[1..]
                    .iter()
                    .flat_map(|p| SPECIAL[*p as usize % if one { 20 } else { SPECIAL.len() }])
                    .copied()
                    .collect();
                v.truncate(len);
                v
            }
            Fill::Dict(s) => {
                let picks = Fill::Seed(*s).image(3 * (len + 1));
                let mut v: Vec<u8> = picks
                    .chunks(3)
                    .flat_map(|p| crate::dict::bytes(p[0] as usize, p[1] as usize * 256 + p[2] as usize))
                    .collect();
                v.resize(len, 0);
                v
            }
            Fill::Bytes(b) if b.is_empty() => vec![0; len],
            Fill::Bytes(b) => (0..len).map(|i| b[i % b.len()]).collect(),
        }
    }

    /// The image following `prev` in the same registers.
    pub fn after(&self, prev: &[u8]) -> Vec<u8> {
        let Fill::Near(s) = self else {
            return self.image(prev.len());
        };
        let mut v = prev.to_vec();
        let n = v.len();
        if n < 2 {
            return v;
        }
        let r = Fill::Seed(*s).image(8);
        let pick = |k: usize| (usize::from(r[k]) * 256 + usize::from(r[k + 1])) % n;
        let (a, b) = (pick(1), pick(3));
        match r[0] % 8 {
            0..4 => {}
            4 => v[a] ^= 1 << (r[5] % 8),
            5 => v.swap(a, b),
            6 => v[a] = r[5],
            // the same sum
            _ => {
                v[a] = v[a].wrapping_add(1);
                v[b] = v[b].wrapping_sub(1);
            }
        }
        v
    }
}

/// Images of cycles: unrelated, or mostly much like the one before.
pub fn next_fill(near: bool) -> BoxedStrategy<Fill> {
    if !near {
        return fill();
    }
    prop_oneof![1 => fill(), 5 => any::<u64>().prop_map(Fill::Near)].boxed()
}

/// The image as a host reads it that asks for more registers than needed.
pub fn with_slack(image: &[u8], f: &Fill) -> Vec<u16> {
    use std::hash::{Hash, Hasher};
    let mut h = std::hash::DefaultHasher::new();
    f.hash(&mut h);
    let h = h.finish();
    let n = match h % 16 {
        _ if matches!(f, Fill::Near(_)) && h >> 20 & 7 > 0 => 0,
        0..10 => 0,
        10..13 => h >> 8 & 3,
        13 | 14 => h >> 8 & 127,
        _ => h >> 8 & 2047,
    };
    let mut w = to_words(image);
    w.extend(to_words(&Fill::Seed(h).image(2 * n as usize)));
    w
}

pub fn fill() -> BoxedStrategy<Fill> {
    prop_oneof![
        5 => any::<u64>().prop_map(Fill::Seed),
        2 => any::<u64>().prop_map(Fill::Special),
        1 => any::<u64>().prop_map(Fill::Dict),
        2 => proptest::collection::vec(any::<u8>(), 1..40).prop_map(Fill::Bytes),
        1 => Just(Fill::Const(0xFF)),
        1 => Just(Fill::Const(0)),
    ]
    .boxed()
}

/// Placement hints of one module.
#[derive(Debug, Clone)]
pub struct Hint {
    align_in: bool,
    align_out: bool,
    gap_in: u8,
    absent: u8,
}

impl Hint {
    pub fn plain(align_in: bool, align_out: bool) -> Hint {
        Hint {
            align_in,
            align_out,
            gap_in: 0,
            absent: 255,
        }
    }
}

fn hint(packed: bool) -> BoxedStrategy<Hint> {
    (any::<u8>(), any::<u8>(), 0u8..6, any::<u8>())
        .prop_map(move |(a, b, g, x)| Hint {
            align_in: if packed { a < 40 } else { a < 220 },
            align_out: if packed { b < 40 } else { b < 220 },
            gap_in: if g == 5 { a % 9 } else { 0 },
            absent: x,
        })
        .boxed()
}

/// Places modules one behind the other; outputs contiguously.
pub fn place(mods: Vec<(M, Hint)>, may_be_absent: bool) -> Layout {
    let (mut i, mut o) = (0usize, 0usize);
    let slots = mods
        .into_iter()
        .map(|(m, h)| {
            let mut s = Slot {
                inp: None,
                out: None,
                m,
            };
            let absent = may_be_absent && h.absent < 20;
            if s.m.k.has_inputs() && !absent {
                i += h.gap_in as usize;
                if h.align_in {
                    i = even(i);
                }
                s.inp = Some(i as u16);
                i += s.m.in_bytes();
            }
            if s.m.k.has_outputs() && !(may_be_absent && h.absent % 32 == 3) {
                if h.align_out {
                    o = even(o);
                }
                s.out = Some(o as u16);
                o += s.m.out_bytes();
            }
            s
        })
        .collect();
    Layout { slots }
}

/// Layouts the coupler can read and write: `n` modules of the given kinds.
pub fn layouts(
    kinds: BoxedStrategy<K>,
    n: std::ops::RangeInclusive<usize>,
    may_be_absent: bool,
) -> BoxedStrategy<Layout> {
    any::<bool>()
        .prop_flat_map(move |packed| {
            proptest::collection::vec(
                (kinds.clone().prop_flat_map(module), hint(packed)),
                n.clone(),
            )
        })
        .prop_map(move |v| place(v, may_be_absent))
        .boxed()
}

/// Kinds weighted towards modules with outputs and small modules.
pub fn mixed_kinds() -> BoxedStrategy<K> {
    prop_oneof![
        4 => any_kind(),
        4 => proptest::sample::select(vec![K::Di4, K::Di8, K::Do4, K::Do42A, K::Do8, K::Ro4]),
        3 => proptest::sample::select(vec![K::Do16, K::Ao, K::AoDiag, K::Fcnt]),
    ]
    .boxed()
}
