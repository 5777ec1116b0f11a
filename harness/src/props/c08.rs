//! C08: serial frames round-trip and malformed frames are rejected.

use crate::{engine::*, ensure, layout::*, model::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use ur20::{
    ChannelValue as V,
    ur20_1com_232_485_422::{ProcessDataLength, ProcessInput, ProcessOutput},
};

/// status byte x announced length x size of the frame (0..=16 and some more)
const SIZES: [usize; 24] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 40, 100, 256, 257, 300,
];

fn frame(i: u64) -> Vec<u8> {
    let size = SIZES[(i % 24) as usize];
    let len = (i / 24 % 256) as u8;
    let status = (i / (24 * 256)) as u8;
    let mut x = i.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let mut f: Vec<u8> = (0..size)
        .map(|_| {
            x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1);
            (x >> 40) as u8
        })
        .collect();
    if size > 0 {
        f[0] = status;
    }
    if size > 1 {
        f[1] = len;
    }
    f
}

fn sweep(i: u64) -> Result<bool, String> {
    let f = frame(i);
    let (ri, ro) = (ProcessInput::try_from_byte_message(&f), ProcessOutput::try_from_byte_message(&f));
    match (ComIn::decode(&f), ComOut::decode(&f)) {
        (Some(wi), Some(wo)) => {
            let ri = ri.map_err(|e| format!("input frame {f:02x?} rejected: {e:?}"))?;
            let ro = ro.map_err(|e| format!("output frame {f:02x?} rejected: {e:?}"))?;
            ensure!(ri == wi.real(), "input frame {f:02x?} decodes to {ri:?}, expected {:?}", wi.real());
            ensure!(ro == wo.real(), "output frame {f:02x?} decodes to {ro:?}, expected {:?}", wo.real());
            for (l, n) in [(ProcessDataLength::EightBytes, 6), (ProcessDataLength::SixteenBytes, 14)] {
                let b = ro.try_into_byte_message(&l);
                if ro.data.len() > n {
                    ensure!(b.is_err(), "{} bytes of user data accepted: {b:02x?}", ro.data.len());
                } else {
                    ensure!(
                        b.as_ref() == Ok(&wo.frame(n)),
                        "{ro:?} is encoded as {b:02x?}, expected {:02x?}",
                        wo.frame(n)
                    );
                }
            }
            Ok(true)
        }
        _ => {
            ensure!(ri.is_err(), "truncated input frame {f:02x?} accepted: {ri:?}");
            ensure!(ro.is_err(), "truncated output frame {f:02x?} accepted: {ro:?}");
            Ok(false)
        }
    }
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Case {
    m: M,
    /// register content
    bytes: Vec<u8>,
    msg: ComOut,
    values: Vec<GV>,
}

fn number() -> BoxedStrategy<usize> {
    prop_oneof![
        30 => 0usize..4,
        1 => 4usize..12,
        1 => any::<usize>(),
        1 => proptest::sample::select(vec![4usize, 256, 257, 259, 65536, 1 << 32, usize::MAX]),
    ]
    .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    module(K::Com)
        .prop_flat_map(|m| {
            let n = m.user_len();
            let frame = (
                proptest::collection::vec(any::<u8>(), n + 2),
                0..n + 4,
                any::<u8>(),
            )
                .prop_map(move |(mut b, l, r)| {
                    if r < 230 {
                        b[1] = l as u8;
                    }
                    b
                });
            let other = proptest::collection::vec(any::<u8>(), 0..20).prop_map(|mut b| {
                b.truncate(b.len() / 2 * 2);
                b
            });
            let data = prop_oneof![
                8 => bytes(n),
                2 => proptest::collection::vec(any::<u8>(), n),
                1 => proptest::collection::vec(any::<u8>(), n + 1),
                1 => proptest::collection::vec(any::<u8>(), n..40),
                1 => proptest::collection::vec(any::<u8>(), 254..300),
            ];
            let msg = (com_out(0), data, number(), number()).prop_map(|(mut o, d, t, a)| {
                (o.data, o.tx, o.ack) = (d, t, a);
                o
            });
            let values = prop_oneof![
                3 => any_value().prop_map(|v| vec![v]),
                1 => proptest::collection::vec(any_value(), 0..4),
                1 => proptest::collection::vec(com_out(6).prop_map(GV::ComOut), 0..4),
            ];
            (Just(m), prop_oneof![9 => frame, 1 => other], msg, values)
        })
        .prop_map(|(m, bytes, msg, values)| Case { m, bytes, msg, values })
        .boxed()
}

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    let m = &c.m;
    let n = m.user_len();
    let len = if n == 6 { ProcessDataLength::EightBytes } else { ProcessDataLength::SixteenBytes };
    ensure!(len.user_data_len() == n, "user data length {}", len.user_data_len());
    let real = build(m.k, &m.p).map_err(|e| format!("{m:?}: {e:?}"))?;
    ensure!(
        real.process_input_byte_count() == n + 2 && real.process_output_byte_count() == n + 2,
        "byte counts {} and {}",
        real.process_input_byte_count(),
        real.process_output_byte_count()
    );
    // registers -> message
    let w = to_words(&c.bytes);
    let (ri, ro) = (real.process_input_data(&w), real.process_output_data(&w));
    match (ComIn::decode(&c.bytes), ComOut::decode(&c.bytes)) {
        (Some(i), Some(o)) if c.bytes.len() == n + 2 => {
            let (i, o) = (V::ComRsIn(i.real()), V::ComRsOut(o.real()));
            ensure!(ri.as_ref() == Ok(&vec![i.clone()]), "registers {w:04x?} read as {ri:?}, expected {i:?}");
            ensure!(ro.as_ref() == Ok(&vec![o.clone()]), "registers {w:04x?} read as {ro:?}, expected {o:?}");
            st.nontrivial();
        }
        (Some(_), Some(_)) => {} // decodable, but not a frame of this module
        _ => {
            st.label("truncated frame");
            ensure!(ri.is_err() && ro.is_err(), "registers {w:04x?} read as {ri:?} and {ro:?}");
        }
    }
    // message -> registers -> message
    let o = c.msg.real();
    let b = o.try_into_byte_message(&len);
    let r = real.process_output_values(&[V::ComRsOut(o.clone())]);
    if c.msg.tx < 4 && c.msg.ack < 4 && c.msg.data.len() <= n {
        let f = c.msg.frame(n);
        ensure!(b.as_ref() == Ok(&f), "{o:?} is encoded as {b:02x?}, expected {f:02x?}");
        ensure!(r.as_ref() == Ok(&to_words(&f)), "{o:?} is encoded as {r:04x?}, expected {f:02x?}");
        let back = ProcessOutput::try_from_byte_message(&f);
        ensure!(back.as_ref() == Ok(&o), "{o:?} comes back as {back:?}");
        st.nontrivial();
        st.label_if(c.msg.data.len() == n, "full segment");
    } else {
        st.label("invalid message");
        ensure!(b.is_err(), "{o:?} is encoded as {b:02x?}");
        ensure!(r.is_err(), "{o:?} is encoded as {r:04x?}");
    }
    // anything else
    let v = real.process_output_values(&values(&c.values));
    if c.values.len() == 1 && m.encodable(&c.values[0]) {
        let w = v.map_err(|e| format!("{:?} rejected: {e:?}", c.values))?;
        m.check_encoding(&c.values, &to_bytes(&w))?;
    } else {
        st.label("other values");
        ensure!(v.is_err(), "{:?} is encoded as {v:04x?}", c.values);
    }
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Sweep {
            name: "every-header",
            rule: "every status byte, announced length and 24 frame sizes with arbitrary user data, decoded in both directions and encoded again for both data lengths; non-trivial = complete frames",
            size: |_| 256 * 256 * 24,
            test: sweep,
            describe: |i| json!({"frame": frame(i)}),
        }),
        Box::new(Gen {
            name: "messages",
            rule: "random frames and messages around the size and sequence number limits through a module with random parameters, and values of other kinds and counts; non-trivial = a complete frame or a valid message",
            cases: (1_000_000, 25_000_000),
            strategy: cases,
            test,
        }),
    ]
}
