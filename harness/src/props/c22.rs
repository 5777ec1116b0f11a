//! C22: every rejection names its cause.

use crate::{engine::*, ensure, layout::*, model::*, tables};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use ur20::{
    Address, Error, ModuleCategory, ModuleType, ur20_1com_232_485_422 as com, ur20_2fcnt_100 as fcnt,
    ur20_4ai_rtd_diag as rtd, ur20_4ai_ui_16_diag as uidiag, ur20_4ao_ui_16 as ao, ur20_4ao_ui_16_diag as aodiag,
    ur20_8ai_i_16_diag_hd as i8hd, ur20_ai_ui_generic as aig, ur20_fbc_mod_tcp::*,
};

/// A call with one defect.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Case {
    /// process data with another number of words
    Words { m: M, input: bool, n: usize, fill: Fill },
    /// number of output values
    Count { m: M, values: Vec<GV> },
    /// output value `at` of a kind (or size) that can't be encoded
    Kind { m: M, values: Vec<GV>, at: usize, bad: GV },
    /// serial message with a bad sequence number or too many bytes
    Message { m: M, o: ComOut },
    /// channel settings removed or added
    Settings { m: M, n: usize, fill: Fill, values: Vec<GV> },
    /// truncated serial frame
    Frame { b: Vec<u8>, input: bool },
    ListSize(Vec<u16>),
    ListId { ids: Vec<u32>, at: usize, bad: u32 },
    Name(String),
    /// configuration: number of parameter blocks
    Params { l: Layout, d: i8 },
    Offsets { l: Layout, d: i8 },
    Block { l: Layout, m: usize, missing: usize },
    Code { l: Layout, m: usize, r: usize, v: u16 },
    Address { l: Layout, m: usize, ch: usize, v: GV },
    /// cycle with an image that is too short
    Image { l: Layout, fill: (Fill, Fill), input: bool, missing: u16 },
    /// cycle with an offset inside a byte (1..=7) or outside the output area (0)
    Offset { l: Layout, m: usize, input: bool, bit: u16, to: u16 },
    /// cycle with a serial frame announcing more than it has
    BadFrame { l: Layout, m: usize, input: bool, n: u8 },
    /// cycle with a request that can't be encoded
    Request { l: Layout, m: usize, ch: usize, bad: GV },
    /// encoding of a wrong number of value lists
    Lists { l: Layout, d: i8 },
    /// encoding with a gap before a module
    Gap { l: Layout, m: usize, words: u16 },
    Io(String),
}

fn bad_for(m: &M) -> BoxedStrategy<GV> {
    let m = m.clone();
    prop_oneof![3 => any_value(), 1 => long_fout()]
        .prop_map(move |v| {
            let serial_kind = m.k.is_com() && matches!(v, GV::ComOut(_));
            if m.encodable(&v) || serial_kind {
                if m.k == K::Fcnt { GV::Bit(true) } else { GV::Bytes(vec![1]) }
            } else {
                v
            }
        })
        .boxed()
}

fn on_module() -> BoxedStrategy<Case> {
    any_kind()
        .prop_flat_map(module)
        .prop_flat_map(|m| {
            let n = m.k.channels();
            let good = proptest::collection::vec(good_value(&m), n);
            let words = (any::<bool>(), 0usize..14, fill()).prop_map({
                let m = m.clone();
                move |(input, n, fill)| Case::Words { m: m.clone(), input, n, fill }
            });
            let count = proptest::collection::vec(good_value(&m), 0..20).prop_map({
                let m = m.clone();
                move |values| Case::Count { m: m.clone(), values }
            });
            let kind = (good.clone(), any::<prop::sample::Index>(), bad_for(&m)).prop_map({
                let m = m.clone();
                move |(values, i, bad)| Case::Kind { at: if n == 0 { 0 } else { i.index(n) }, m: m.clone(), values, bad }
            });
            let settings = (0usize..12, fill(), good).prop_map(move |(n, fill, values)| Case::Settings {
                m: m.clone(),
                n,
                fill,
                values,
            });
            prop_oneof![words, count, kind, settings]
        })
        .boxed()
}

fn on_names() -> BoxedStrategy<Case> {
    let ids: Vec<u32> = tables::rows().iter().filter_map(|r| r.id).collect();
    let id = proptest::sample::select(ids);
    let message = (params(K::Com), com_out(20), 0usize..7, 0usize..7).prop_map(|(p, mut o, t, a)| {
        (o.tx, o.ack) = (t, a);
        Case::Message { m: M { k: K::Com, p }, o }
    });
    let names: Vec<String> = tables::rows().iter().map(|r| r.name.to_string()).collect();
    prop_oneof![
        2 => message,
        2 => (proptest::collection::vec(any::<u8>(), 0..30), any::<bool>()).prop_map(|(b, input)| Case::Frame { b, input }),
        2 => proptest::collection::vec(any::<u16>(), 0..40).prop_map(|mut v| { if v.len() % 2 == 0 { v.pop(); } Case::ListSize(v) }),
        2 => (proptest::collection::vec(id, 1..65), any::<prop::sample::Index>(), any::<u32>())
            .prop_map(|(ids, i, bad)| Case::ListId { at: i.index(ids.len()), ids, bad }),
        1 => "\\PC{0,20}".prop_map(Case::Name),
        1 => (proptest::sample::select(names), any::<prop::sample::Index>(), "[ -~]").prop_map(|(n, i, x)| {
            let k = i.index(n.len() + 1);
            Case::Name(format!("{}{x}{}", &n[..k], &n[k..]))
        }),
        1 => "\\PC{0,30}".prop_map(Case::Io),
    ]
    .boxed()
}

fn on_coupler() -> BoxedStrategy<Case> {
    let size = prop_oneof![6 => Just(1usize..=5), 1 => Just(6..=20)];
    size.prop_flat_map(|n| layouts(prop_oneof![mixed_kinds(), super::plant::kinds()].boxed(), n, true))
        .prop_flat_map(|l| {
            let n = l.slots.len();
            let s = l.clone();
            let fail = (0..n, any::<bool>(), any::<u16>(), any::<u16>(), any::<u8>(), (fill(), fill()));
            let bad = (0..n).prop_flat_map({
                let s = s.clone();
                move |i| (Just(i), 0..s.slots[i].m.k.channels().max(1), bad_for(&s.slots[i].m))
            });
            prop_oneof![
                1 => prop_oneof![-3i8..0, 1i8..4].prop_map({ let l = s.clone(); move |d| Case::Params { l: l.clone(), d } }),
                1 => prop_oneof![-5i8..0, 1i8..6].prop_map({ let l = s.clone(); move |d| Case::Offsets { l: l.clone(), d } }),
                1 => prop_oneof![-3i8..0, 1i8..4].prop_map({ let l = s.clone(); move |d| Case::Lists { l: l.clone(), d } }),
                2 => (0..n, 1usize..40).prop_map({ let l = s.clone(); move |(m, missing)| Case::Block { l: l.clone(), m, missing } }),
                2 => (0..n, 0usize..40, any::<u16>()).prop_map({ let l = s.clone(); move |(m, r, v)| Case::Code { l: l.clone(), m, r, v } }),
                2 => (0..n + 3, 0usize..20, any_value()).prop_map({ let l = s.clone(); move |(m, ch, v)| Case::Address { l: l.clone(), m, ch, v } }),
                2 => (0..n, 1u16..50).prop_map({ let l = s.clone(); move |(m, words)| Case::Gap { l: l.clone(), m, words } }),
                3 => bad.prop_map({ let l = s.clone(); move |(m, ch, bad)| Case::Request { l: l.clone(), m, ch, bad } }),
                8 => fail.prop_map(move |(m, input, a, b, k, fill)| match k % 3 {
                    0 => Case::Image { l: l.clone(), fill, input, missing: a },
                    1 => Case::Offset { l: l.clone(), m, input, bit: a % 8, to: b },
                    _ => Case::BadFrame { l: l.clone(), m, input, n: a as u8 },
                }),
            ]
        })
        .boxed()
}

fn expect<T: Debug>(what: &str, r: Result<T, Error>, e: &[Error]) -> Result<(), String> {
    match r {
        Ok(v) => Err(format!("{what}: accepted, giving {v:?}")),
        Err(x) if e.contains(&x) => Ok(()),
        Err(x) => Err(format!("{what}: reported as {x:?}, the cause is {:?}", e[0])),
    }
}

/// The module with `n` channel settings.
fn with_settings(m: &M, n: usize) -> Option<Box<dyn ProcessModbusTcpData>> {
    macro_rules! w {
        ($t:ty) => {{
            let mut x = <$t>::from_modbus_parameter_data(&m.p).ok()?;
            let first = x.ch_params.first()?.clone();
            x.ch_params.resize(n, first);
            Some(Box::new(x) as Box<dyn ProcessModbusTcpData>)
        }};
    }
    match m.k {
        K::Rtd => w!(rtd::Mod),
        K::UiDiag => w!(uidiag::Mod),
        K::Ui12 => w!(aig::Mod<aig::UR20_4AI_UI_12>),
        K::Ui16 => w!(aig::Mod<aig::UR20_4AI_UI_16>),
        K::I8 => w!(i8hd::Mod),
        K::Ao => w!(ao::Mod),
        K::AoDiag => w!(aodiag::Mod),
        K::Fcnt => w!(fcnt::Mod),
        _ => None,
    }
}

/// A coupler of the layout and images for a good cycle.
struct Ready {
    c: Coupler,
    i: Vec<u8>,
    o: Vec<u8>,
}

impl Ready {
    fn new(l: &Layout, cfg: &CouplerConfig, f: &(Fill, Fill)) -> Result<Ready, String> {
        let c = Coupler::new(cfg).map_err(|e| format!("coupler not created: {e:?}"))?;
        let mut i = f.0.image(l.in_len());
        let mut o = f.1.image(l.out_len());
        l.sanitize_in(&mut i);
        l.sanitize_out(&mut o);
        Ok(Ready { c, i, o })
    }
    /// Some cycles without a defect, with the requests they use up.
    fn warm(&mut self, l: &Layout, n: u64) -> Result<(), String> {
        for k in 0..n {
            for (i, s) in l.slots.iter().enumerate() {
                if k == 1 && s.m.k.has_outputs() && !s.m.k.is_com() && s.out.is_some() {
                    let v = self.c.outputs()[i][0].clone();
                    let a = Address { module: i, channel: 0 };
                    self.c.set_output(&a, v).map_err(|e| format!("request rejected: {e:?}"))?;
                }
            }
            self.next().map_err(|e| format!("cycle without defect failed: {e:?}"))?;
        }
        Ok(())
    }
    fn next(&mut self) -> Result<Vec<u16>, Error> {
        self.c.next(&to_words(&self.i), &to_words(&self.o))
    }
}

fn plain() -> (Fill, Fill) {
    (Fill::Seed(5), Fill::Seed(6))
}

/// Encodes the decoding of an image.
fn encode(l: &Layout, offsets: &[(Option<u16>, Option<u16>)], d: i8) -> Result<Result<Vec<u16>, Error>, String> {
    let real: Vec<_> = l
        .slots
        .iter()
        .map(|s| build(s.m.k, &s.m.p))
        .collect::<Result<_, _>>()
        .map_err(|e| format!("{e:?}"))?;
    let right: Vec<_> = l
        .slots
        .iter()
        .map(|s| ModuleOffset { input: s.inp.map(in_addr), output: s.out.map(out_addr) })
        .collect();
    let wrong: Vec<_> = offsets.iter().map(|(i, o)| ModuleOffset { input: *i, output: *o }).collect();
    let infos = |o| real.iter().map(|m| &**m).zip(o).collect::<Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)>>();
    let mut o = Fill::Seed(9).image(l.out_len());
    l.sanitize_out(&mut o);
    let mut v = process_output_data(&infos(&right), &to_words(&o)).map_err(|e| format!("decoding: {e:?}"))?;
    let n = (v.len() as i64 + i64::from(d)).max(0) as usize;
    v.resize(n, vec![]);
    Ok(process_output_values(&infos(&wrong), &v))
}

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    use Error as X;
    use std::hash::{Hash, Hasher};
    // how many cycles there are before the defect, and how often it is repeated
    let mut h = std::hash::DefaultHasher::new();
    c.hash(&mut h);
    let (warm, again) = (h.finish() % 5, h.finish() / 5 % 3 + 1);
    match c {
        Case::Words { m, input, n, fill } => {
            let bytes = if *input { m.in_bytes() } else { m.out_bytes() };
            let mut b = fill.image(2 * n);
            if m.k.is_com() {
                // the frame must be cut, not only of another size
                if let Some(x) = b.get_mut(1) {
                    *x = (*x).max((2 * n - 1) as u8);
                }
            } else if even(bytes) == 2 * n {
                return Ok(());
            }
            let real = build(m.k, &m.p).map_err(|e| format!("{e:?}"))?;
            let w = to_words(&b);
            let r = if *input { real.process_input_data(&w) } else { real.process_output_data(&w) };
            expect(&format!("{n} words for {:?} (input: {input})", m.k), r, &[X::BufferLength])?;
            st.label("number of words");
        }
        Case::Count { m, values: v } => {
            if v.len() == m.k.channels() || (v.is_empty() && !m.k.has_outputs()) {
                return Ok(());
            }
            let real = build(m.k, &m.p).map_err(|e| format!("{e:?}"))?;
            expect(&format!("{} values for {:?}", v.len(), m.k), real.process_output_values(&values(v)), &[X::ChannelValue])?;
            st.label("number of values");
        }
        Case::Kind { m, values: v, at, bad } => {
            // only modules with outputs judge values
            if m.encodable(bad) {
                return Ok(());
            }
            let real = build(m.k, &m.p).map_err(|e| format!("{e:?}"))?;
            let mut v = v.clone();
            v[*at] = bad.clone();
            expect(&format!("{bad:?} on channel {at} of {:?}", m.k), real.process_output_values(&values(&v)), &[X::ChannelValue])?;
            st.label("kind of value");
        }
        Case::Message { m, o } => {
            let number = o.tx > 3 || o.ack > 3;
            let long = o.data.len() > m.user_len();
            let e: &[Error] = match (number, long) {
                (true, false) => &[X::SequenceNumber],
                (false, true) => &[X::DataLength, X::BufferLength],
                _ => return Ok(()),
            };
            let len = if m.user_len() == 6 { com::ProcessDataLength::EightBytes } else { com::ProcessDataLength::SixteenBytes };
            expect(&format!("{o:?} as bytes"), o.real().try_into_byte_message(&len), e)?;
            let real = build(m.k, &m.p).map_err(|e| format!("{e:?}"))?;
            expect(&format!("{o:?} as value"), real.process_output_values(&[GV::ComOut(o.clone()).v()]), e)?;
            st.label(if number { "sequence number" } else { "oversized message" });
        }
        Case::Settings { m, n, fill, values: v } => {
            if *n == m.k.channels() {
                return Ok(());
            }
            let Some(real) = with_settings(m, *n) else {
                return Ok(());
            };
            let what = format!("{:?} with settings for {n} channels", m.k);
            if m.in_bytes() > 0 {
                let w = to_words(&fill.image(m.in_bytes()));
                expect(&format!("{what}: input"), real.process_input_data(&w), &[X::ChannelParameter])?;
            }
            if m.k.has_outputs() {
                expect(&format!("{what}: values"), real.process_output_values(&values(v)), &[X::ChannelParameter])?;
            }
            if matches!(m.k, K::Ao | K::AoDiag) {
                let w = to_words(&fill.image(m.out_bytes()));
                expect(&format!("{what}: output"), real.process_output_data(&w), &[X::ChannelParameter])?;
            }
            st.label("channel settings");
        }
        Case::Frame { b, input } => {
            let mut b = b.clone();
            if b.len() >= 2 {
                b[1] = b[1].max((b.len() - 1) as u8);
            }
            let what = format!("frame {b:02x?}");
            if *input {
                expect(&what, com::ProcessInput::try_from_byte_message(&b), &[X::BufferLength])?;
            } else {
                expect(&what, com::ProcessOutput::try_from_byte_message(&b), &[X::BufferLength])?;
            }
            st.label("truncated frame");
        }
        Case::ListSize(v) => {
            expect(&format!("{} registers", v.len()), module_list_from_registers(v), &[X::RegisterCount])?;
            st.label("size of the module list");
        }
        Case::ListId { ids, at, bad } => {
            if tables::rows().iter().any(|r| r.id == Some(*bad)) {
                return Ok(());
            }
            let mut ids = ids.clone();
            ids[*at] = *bad;
            let regs: Vec<u16> = ids.iter().flat_map(|i| [(*i >> 16) as u16, *i as u16]).collect();
            let what = format!("module id {bad:#010x}");
            expect(&what, module_list_from_registers(&regs), &[X::UnknownModule])?;
            expect(&what, ModuleType::try_from_u32(*bad), &[X::UnknownModule])?;
            st.label("module id");
        }
        Case::Name(s) => {
            let r = s.parse::<ModuleType>();
            if r.is_err() {
                expect(&format!("module name {s:?}"), r, &[X::UnknownModule])?;
                st.label("module name");
            }
            let r = s.parse::<ModuleCategory>();
            if r.is_err() {
                expect(&format!("category {s:?}"), r, &[X::UnknownCategory])?;
                st.label("category");
            }
        }
        Case::Params { l, d } => {
            let mut cfg = l.config();
            let n = cfg.params.len();
            cfg.params.resize((n as i64 + i64::from(*d)).max(0) as usize, vec![]);
            expect(&format!("{} parameter blocks for {n} modules", cfg.params.len()), Coupler::new(&cfg), &[X::BufferLength])?;
            st.label("number of parameter blocks");
        }
        Case::Offsets { l, d } => {
            let mut cfg = l.config();
            let n = cfg.offsets.len();
            cfg.offsets.resize((n as i64 + i64::from(*d)).max(0) as usize, 0xFFFF);
            expect(&format!("{} offsets instead of {n}", cfg.offsets.len()), Coupler::new(&cfg), &[X::ModuleOffset])?;
            st.label("number of offsets");
        }
        Case::Block { l, m, missing } => {
            let mut cfg = l.config();
            let k = cfg.params[*m].len();
            if k == 0 {
                cfg.params[*m] = vec![0; *missing];
            } else {
                cfg.params[*m].truncate(k.saturating_sub(*missing));
            }
            expect(
                &format!("{} parameter registers for {:?}", cfg.params[*m].len(), l.slots[*m].m.k),
                Coupler::new(&cfg),
                &[X::BufferLength],
            )?;
            st.label("size of a parameter block");
        }
        Case::Code { l, m, r, v } => {
            let regs = l.slots[*m].m.k.registers();
            if regs.is_empty() || regs[r % regs.len()].valid(*v) {
                return Ok(());
            }
            let mut cfg = l.config();
            cfg.params[*m][r % regs.len()] = *v;
            expect(
                &format!("code {v} in register {} of {:?}", r % regs.len(), l.slots[*m].m.k),
                Coupler::new(&cfg),
                &[X::ChannelParameter],
            )?;
            st.label("parameter code");
        }
        Case::Address { l, m, ch, v } => {
            let k = l.slots.get(*m).map_or(0, |s| s.m.k.channels());
            let a = Address { module: *m, channel: ch + k };
            let mut r = Ready::new(l, &l.config(), &plain())?;
            r.warm(l, warm)?;
            for _ in 0..again {
                expect(&format!("request for {a:?}"), r.c.set_output(&a, v.v()), &[X::Address])?;
            }
            st.label("address");
        }
        Case::Image { l, fill, input, missing } => {
            let mut r = Ready::new(l, &l.config(), fill)?;
            r.warm(l, warm)?;
            let img = if *input { &mut r.i } else { &mut r.o };
            let n = (img.len() / 2) as u16;
            if n == 0 {
                return Ok(());
            }
            img.truncate(2 * (n - 1 - missing % n) as usize);
            let what = format!("input image of {} bytes instead of {}, output image of {}", r.i.len(), l.in_len(), r.o.len());
            for _ in 0..again {
                expect(&what, r.next(), &[X::BufferLength])?;
            }
            st.label("short image");
        }
        Case::Offset { l, m, input, bit, to } => {
            let mut cfg = l.config();
            let at = 2 * m + usize::from(*input);
            if cfg.offsets[at] == 0xFFFF || (*input && *bit == 0) {
                return Ok(());
            }
            cfg.offsets[at] = match bit {
                0 => to % 0x8000 / 8 * 8,
                b => cfg.offsets[at] + b,
            };
            let mut r = Ready::new(l, &cfg, &plain())?;
            let what = format!("offset {:#06x} of {:?}", cfg.offsets[at], l.slots[*m].m.k);
            for _ in 0..again {
                expect(&what, r.next(), &[X::ModuleOffset])?;
            }
            if !*input {
                let o: Vec<_> = offsets_of_process_data(&cfg.offsets).into_iter().map(|o| (o.input, o.output)).collect();
                expect(&what, encode(l, &o, 0)?, &[X::ModuleOffset])?;
            }
            st.label(if *bit == 0 { "outside the output area" } else { "offset inside a byte" });
        }
        Case::BadFrame { l, m, input, n } => {
            let s = &l.slots[*m];
            let range = if *input { s.in_range() } else { s.out_range() };
            let (true, Some(x)) = (s.m.k.is_com(), range) else {
                return Ok(());
            };
            let mut r = Ready::new(l, &l.config(), &plain())?;
            r.warm(l, warm)?;
            let img = if *input { &mut r.i } else { &mut r.o };
            img[x.start + 1] = (*n).max(s.m.user_len() as u8 + 1);
            for _ in 0..again {
                expect(&format!("frame of module {m} announcing too much"), r.next(), &[X::BufferLength])?;
            }
            st.label("malformed frame");
        }
        Case::Request { l, m, ch, bad } => {
            let s = &l.slots[*m];
            if s.m.k.is_com() || s.out.is_none() || s.m.encodable(bad) {
                return Ok(());
            }
            let mut r = Ready::new(l, &l.config(), &plain())?;
            r.warm(l, warm)?;
            let a = Address { module: *m, channel: *ch };
            for _ in 0..again {
                r.c.set_output(&a, bad.v()).map_err(|e| format!("request rejected: {e:?}"))?;
                expect(&format!("cycle with {bad:?} requested for {:?}", s.m.k), r.next(), &[X::ChannelValue])?;
            }
            st.label("request");
        }
        Case::Lists { l, d } => {
            let o: Vec<_> = l.slots.iter().map(|s| (s.inp.map(in_addr), s.out.map(out_addr))).collect();
            expect(&format!("{d} value lists more than modules"), encode(l, &o, *d)?, &[X::ChannelValue])?;
            st.label("number of value lists");
        }
        Case::Gap { l, m, words } => {
            if l.slots[*m].out.is_none() {
                return Ok(());
            }
            let mut o: Vec<_> = l.slots.iter().map(|s| (s.inp.map(in_addr), s.out.map(out_addr))).collect();
            o[*m].1 = o[*m].1.map(|a| a + 16 * words);
            expect(&format!("gap of {words} words before module {m}"), encode(l, &o, 0)?, &[X::ModuleOffset])?;
            st.label("gap");
        }
        Case::Io(s) => {
            let e = Error::from(std::io::Error::other(s.clone()));
            ensure!(
                matches!(&e, Error::Io(t) if t.contains(s.as_str())) && e.to_string().contains(s.as_str()),
                "an I/O error {s:?} becomes {e:?}, displayed as {e}"
            );
            // no two causes look the same
            let all = [
                X::UnknownModule,
                X::UnknownCategory,
                X::BufferLength,
                X::SequenceNumber,
                X::DataLength,
                X::RegisterCount,
                X::ChannelParameter,
                X::ChannelValue,
                X::ModuleOffset,
                X::Address,
                e,
            ];
            for (i, a) in all.iter().enumerate() {
                ensure!(!a.to_string().is_empty(), "{a:?} is displayed as nothing");
                for b in &all[..i] {
                    ensure!(a.to_string() != b.to_string() || matches!(a, X::Io(_)), "{a:?} and {b:?} are displayed alike");
                }
            }
            st.label("I/O error");
        }
    }
    st.nontrivial();
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Gen {
            name: "modules",
            rule: "a module call with one defect: number of words, number, kind or size of values, channel settings; non-trivial = the generated variation is a defect for that module",
            cases: (1_000_000, 12_000_000),
            strategy: on_module,
            test,
        }),
        Box::new(Gen {
            name: "names-and-frames",
            rule: "module lists, ids, names, serial messages and frames with one defect, I/O errors; non-trivial = the generated variation is a defect",
            cases: (500_000, 6_000_000),
            strategy: on_names,
            test,
        }),
        Box::new(Gen {
            name: "couplers",
            rule: "configurations, requests, cycles and packed encodings with one defect; non-trivial = the generated variation is a defect for that configuration",
            cases: (600_000, 8_000_000),
            strategy: on_coupler,
            test,
        }),
    ]
}
