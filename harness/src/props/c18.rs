//! C18: no input makes the library panic.
//!
//! Every panic is reported by the engine; a case that does not return is
//! reported by its monitor. Hence most of the calls below ignore the result.

use super::serial::{op, sizes, small_fill};
use super::{endurance, plant};
use crate::{engine::*, ensure, layout::*, model::*, tables};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use ur20::ur20_fbc_mod_tcp::{
    Coupler, CouplerConfig, FromModbusParameterData as _, ModbusParameterRegisterCount,
    ModuleOffset, ProcessModbusTcpData, module_list_from_registers, offsets_of_process_data,
    param_addresses_and_register_counts, process_input_data, process_output_data,
    process_output_values, to_register_address,
};
use ur20::{
    Address, ChannelValue, ModuleCategory, ModuleType, ur20_1com_232_485_422 as com,
    ur20_2fcnt_100 as fcnt, ur20_4ai_rtd_diag as rtd, ur20_4ai_tc_diag as tc,
    ur20_4ai_ui_16_diag as uidiag, ur20_4ao_ui_16 as ao, ur20_4ao_ui_16_diag as aodiag,
    ur20_4ro_co_255 as ro, ur20_8ai_i_16_diag_hd as i8hd, ur20_16do_p as do16,
    ur20_ai_ui_generic as aig, ur20_di_generic as dig, ur20_do_generic as dog,
    ur20_pf_o_1di_sil as pf,
};

// ------------------------------------------------------------ edited modules

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Edit {
    None,
    Truncate(usize),
    Clear,
    Repeat(usize),
    Rotate(usize),
    Default,
}

fn apply<T: Clone>(v: &mut Vec<T>, e: &Edit) {
    match e {
        Edit::None | Edit::Default => {}
        Edit::Truncate(n) => v.truncate(*n),
        Edit::Clear => v.clear(),
        Edit::Repeat(n) => {
            for i in 0..*n {
                if let Some(x) = v.get(i).cloned() {
                    v.push(x);
                }
            }
        }
        Edit::Rotate(n) => {
            if !v.is_empty() {
                let k = n % v.len();
                v.rotate_left(k);
            }
        }
    }
}

/// A module whose public settings have been edited.
fn edited(m: &M, e: &Edit) -> Option<Box<dyn ProcessModbusTcpData>> {
    macro_rules! make {
        ($t:ty) => {{
            let mut x = if *e == Edit::Default {
                <$t>::default()
            } else {
                <$t>::from_modbus_parameter_data(&m.p).ok()?
            };
            apply(&mut x.ch_params, e);
            Box::new(x)
        }};
        (nodefault $t:ty) => {{
            let mut x = <$t>::from_modbus_parameter_data(&m.p).ok()?;
            apply(&mut x.ch_params, e);
            Box::new(x)
        }};
        (plain $t:ty) => {
            Box::new(<$t>::from_modbus_parameter_data(&m.p).ok()?)
        };
    }
    Some(match m.k {
        K::Di4 => make!(nodefault dig::Mod<dig::UR20_4DI_P>),
        K::Di8 => make!(nodefault dig::Mod<dig::UR20_8DI_P_2W>),
        K::Do4 => make!(nodefault dog::Mod<dog::UR20_4DO_P>),
        K::Do42A => make!(nodefault dog::Mod<dog::UR20_4DO_P_2A>),
        K::Do8 => make!(nodefault dog::Mod<dog::UR20_8DO_P>),
        K::Do16 => make!(plain do16::Mod),
        K::Ro4 => make!(ro::Mod),
        K::Ao => make!(ao::Mod),
        K::AoDiag => make!(aodiag::Mod),
        K::Rtd => make!(rtd::Mod),
        K::Tc => {
            let mut x = tc::Mod::from_modbus_parameter_data(&m.p).ok()?;
            if let Edit::Rotate(n) = e {
                x.ch_params.rotate_left(n % 4);
            }
            Box::new(x)
        }
        K::UiDiag => make!(uidiag::Mod),
        K::Ui12 => make!(nodefault aig::Mod<aig::UR20_4AI_UI_12>),
        K::Ui16 => make!(nodefault aig::Mod<aig::UR20_4AI_UI_16>),
        K::I8 => make!(i8hd::Mod),
        K::Fcnt => make!(fcnt::Mod),
        K::Com => {
            let mut x = com::Mod::from_modbus_parameter_data(&m.p).ok()?;
            apply(&mut x.ch_params, e);
            if matches!(e, Edit::Repeat(_) | Edit::Default) {
                x.mod_params.process_data_len = match x.mod_params.process_data_len {
                    com::ProcessDataLength::EightBytes => com::ProcessDataLength::SixteenBytes,
                    com::ProcessDataLength::SixteenBytes => com::ProcessDataLength::EightBytes,
                };
            }
            Box::new(x)
        }
        K::Pf => make!(plain pf::Mod),
    })
}

fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        3 => Just(Edit::None),
        3 => (0usize..8).prop_map(Edit::Truncate),
        1 => Just(Edit::Clear),
        2 => (1usize..9).prop_map(Edit::Repeat),
        1 => (0usize..9).prop_map(Edit::Rotate),
        1 => Just(Edit::Default),
    ]
    .boxed()
}

fn words() -> BoxedStrategy<Vec<u16>> {
    let w = prop_oneof![
        5 => any::<u16>(),
        1 => proptest::sample::select(vec![0u16, 1, 0x7FFF, 0x8000, 0xFFFF, 0x00FF, 0xFF00]),
        1 => 0u16..20,
    ];
    prop_oneof![
        8 => proptest::collection::vec(w.clone(), 0..14),
        1 => proptest::collection::vec(w.clone(), 14..60),
        1 => proptest::collection::vec(w, 250..300),
    ]
    .boxed()
}

fn wild_value() -> BoxedStrategy<GV> {
    prop_oneof![
        6 => any_value(),
        1 => (any::<u64>(), 0u32..1_000_000_000).prop_map(|(s, n)| GV::Fout { secs: s, nanos: n, cmd: Some(true) }),
        1 => Just(GV::Fout { secs: u64::MAX, nanos: 999_999_999, cmd: None }),
        1 => Just(GV::Fout { secs: 0, nanos: 0, cmd: None }),
        1 => (com_out(0), proptest::collection::vec(any::<u8>(), 0..300), any::<usize>(), any::<usize>())
            .prop_map(|(mut o, d, t, a)| { (o.data, o.tx, o.ack) = (d, t, a); GV::ComOut(o) }),
    ]
    .boxed()
}

fn wild_params(k: K) -> BoxedStrategy<Vec<u16>> {
    let n = k.registers().len();
    prop_oneof![
        8 => params(k),
        1 => proptest::collection::vec(prop_oneof![3 => 0u16..24, 1 => any::<u16>()], n),
        1 => proptest::collection::vec(prop_oneof![3 => 0u16..24, 1 => any::<u16>()], 0..70),
        1 => (params(k), proptest::collection::vec(any::<u16>(), 0..9)).prop_map(|(mut p, x)| { p.extend(x); p }),
    ]
    .boxed()
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct ModCase {
    m: M,
    edit: Edit,
    inputs: Vec<Vec<u16>>,
    /// words of the right size
    fitting: (Fill, Fill),
    values: Vec<Vec<GV>>,
}

fn mod_cases() -> BoxedStrategy<ModCase> {
    any_kind()
        .prop_flat_map(|k| {
            let right = proptest::collection::vec(wild_value(), k.channels());
            let any = proptest::collection::vec(wild_value(), 0..20);
            (
                wild_params(k).prop_map(move |p| M { k, p }),
                edit(),
                proptest::collection::vec(words(), 1..3),
                (fill(), fill()),
                proptest::collection::vec(prop_oneof![4 => right, 1 => any], 1..4),
            )
        })
        .prop_map(|(m, edit, inputs, fitting, values)| ModCase {
            m,
            edit,
            inputs,
            fitting,
            values,
        })
        .boxed()
}

fn use_module(m: &dyn ProcessModbusTcpData, c: &ModCase, st: &mut Stats) {
    let (ni, no) = (m.process_input_byte_count(), m.process_output_byte_count());
    let t = m.module_type();
    let _ = (t.channel_count(), ModuleCategory::from(t.clone()), t.param_register_count());
    let mut decoded = vec![];
    for (words, fit) in c
        .inputs
        .iter()
        .map(|w| (w.clone(), false))
        .chain([
            (to_words(&c.fitting.0.image(even(ni))), true),
            (to_words(&c.fitting.1.image(even(no))), true),
        ])
    {
        if let Ok(v) = m.process_input_data(&words) {
            for x in &v {
                if let ChannelValue::FcntIn(i) = x {
                    let _ = i.hertz();
                }
                let _ = format!("{x:?}");
            }
            st.label_if(fit, "input decoded");
        }
        if let Ok(v) = m.process_output_data(&words) {
            decoded.push(v);
        }
    }
    for v in c.values.iter().map(|v| values(v)).chain(decoded) {
        if let Ok(w) = m.process_output_values(&v) {
            st.label("output encoded");
            let _ = m.process_output_data(&w);
        }
    }
    let offs = [
        ModuleOffset { input: Some(8), output: Some(0x8000) },
        ModuleOffset { input: Some(0), output: Some(0x8000 + 8) },
    ];
    for o in &offs {
        let infos = [(m, o)];
        for w in &c.inputs {
            let _ = process_input_data(&infos, w);
            let _ = process_output_data(&infos, w);
        }
        for v in &c.values {
            let _ = process_output_values(&infos, &[values(v)]);
        }
    }
}

fn test_mod(c: &ModCase, st: &mut Stats) -> Result<(), String> {
    // (a module the library refuses to create is a rejected parameter block)
    if let Ok(m) = build(c.m.k, &c.m.p) {
        st.label("created");
        use_module(m.as_ref(), c, st);
        st.nontrivial();
    }
    if let Some(m) = edited(&c.m, &c.edit) {
        st.label_if(c.edit != Edit::None, "settings edited");
        use_module(m.as_ref(), c, st);
    }
    Ok(())
}

// ------------------------------------------------------------ couplers

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    Set(usize, usize, GV),
    Queue(usize, Fill, u16),
    Read(usize, u16),
    /// images: content and size in words, `None`: as long as needed
    Next(Fill, Fill, Option<(u16, u16)>),
    /// with the image written last
    Again(Fill),
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct CouplerCase {
    kinds: Vec<K>,
    params: Vec<Vec<u16>>,
    offsets: Vec<u16>,
    /// keep serial frames and counter durations of the images valid
    tame: bool,
    ops: Vec<Op>,
}

fn offset_word(base: u16) -> BoxedStrategy<u16> {
    prop_oneof![
        10 => (0u16..40).prop_map(move |b| base + 8 * b),
        2 => (0u16..0x8000).prop_map(move |b| base + b),
        2 => any::<u16>(),
        2 => Just(0xFFFFu16),
        1 => proptest::sample::select(vec![0u16, 8, 15, 0x7FF8, 0x7FFF, 0x8000, 0x8008, 0xFFF0, 0xFFF8, 0xFFFE]),
    ]
    .boxed()
}

fn coupler_cases() -> BoxedStrategy<CouplerCase> {
    let step = prop_oneof![
        6 => (0usize..8, prop_oneof![8 => 0usize..17, 1 => any::<usize>()], wild_value()).prop_map(|(m, c, v)| Op::Set(m, c, v)),
        2 => (0usize..8, small_fill(), sizes()).prop_map(|(m, f, n)| Op::Queue(m, f, n)),
        2 => (0usize..8, prop_oneof![6 => 0u16..300, 1 => Just(4096u16), 1 => Just(u16::MAX)]).prop_map(|(m, n)| Op::Read(m, n)),
        6 => (fill(), fill(), prop_oneof![3 => Just(None), 1 => (0u16..60, 0u16..60).prop_map(Some), 1 => (1000u16..1100, 1000u16..1100).prop_map(Some)])
            .prop_map(|(a, b, n)| Op::Next(a, b, n)),
        4 => fill().prop_map(Op::Again),
    ];
    let proper = layouts(super::plant::kinds(), 1..=6, true).prop_map(|l| {
        let c = l.config();
        (l.slots.iter().map(|s| s.m.k).collect::<Vec<_>>(), c.params, c.offsets)
    });
    let wild = proptest::collection::vec(super::plant::kinds(), 0..7).prop_flat_map(|k| {
        let p: Vec<_> = k.iter().map(|k| prop_oneof![15 => params(*k), 1 => wild_params(*k)]).collect();
        let o: Vec<_> = k.iter().map(|_| (offset_word(0x8000), offset_word(0)).prop_map(|(a, b)| [a, b])).collect();
        let extra = prop_oneof![20 => Just(0usize), 1 => 1usize..5];
        (Just(k), p, o, extra).prop_map(|(k, p, o, x)| {
            let mut o: Vec<u16> = o.into_iter().flatten().collect();
            o.truncate(o.len().saturating_sub(x));
            (k, p, o)
        })
    });
    // proper layouts with one bad offset reach furthest
    let nearly = (proper.clone(), any::<prop::sample::Index>(), prop_oneof![offset_word(0), offset_word(0x8000)])
        .prop_map(|((k, p, mut o), i, w)| {
            let i = i.index(o.len());
            o[i] = w;
            (k, p, o)
        });
    (
        prop_oneof![4 => proper, 2 => nearly, 2 => wild],
        any::<u8>(),
        proptest::collection::vec(step, 1..50),
    )
        .prop_map(|((kinds, params, offsets), tame, ops)| CouplerCase {
            kinds,
            params,
            offsets,
            tame: tame < 200,
            ops,
        })
        .boxed()
}

fn test_coupler(c: &CouplerCase, st: &mut Stats) -> Result<(), String> {
    let cfg = CouplerConfig {
        modules: c.kinds.iter().map(|k| k.module_type()).collect(),
        offsets: c.offsets.clone(),
        params: c.params.clone(),
    };
    let _ = param_addresses_and_register_counts(&cfg.modules);
    let Ok(mut real) = Coupler::new(&cfg) else {
        st.label("configuration rejected");
        return Ok(());
    };
    // images as long as needed, as far as that makes sense
    let mut need = (0usize, 0usize);
    let mut places = vec![];
    for (i, k) in c.kinds.iter().enumerate() {
        let m = M { k: *k, p: c.params[i].clone() };
        for (input, w, base) in [(false, c.offsets[2 * i], 0x8000u16), (true, c.offsets[2 * i + 1], 0)] {
            if w == 0xFFFF || w < base {
                continue;
            }
            let at = ((w - base) / 8) as usize;
            let n = if input { m.in_bytes() } else { m.out_bytes() };
            let end = even(at + n) + 2;
            let e = if input { &mut need.0 } else { &mut need.1 };
            *e = (*e).max(end);
            places.push((m.clone(), input, at..at + n));
        }
    }
    let tame = |img: &mut Vec<u8>, input: bool| {
        if c.tame {
            for (m, i, r) in &places {
                if let (true, Some(b)) = (*i == input, img.get_mut(r.clone())) {
                    if !b.is_empty() {
                        if input { m.sanitize_in(b) } else { m.sanitize_out(b) }
                    }
                }
            }
        }
    };
    let mut out = vec![0u8; need.1];
    let mut ok = 0;
    for op in &c.ops {
        match op {
            Op::Set(m, ch, v) => {
                let a = Address { module: *m, channel: *ch };
                let _ = real.set_output(&a, v.v());
            }
            Op::Queue(m, f, n) => {
                if let Some(w) = real.writer(*m) {
                    let _ = w.write(&f.image(*n as usize));
                    let _ = w.flush();
                }
            }
            Op::Read(m, n) => {
                if let Some(r) = real.reader(*m) {
                    let mut b = vec![0; *n as usize];
                    let k = r.read(&mut b).map_err(|e| e.to_string())?;
                    ensure!(k <= b.len(), "{k} bytes read into a buffer of {}", b.len());
                }
            }
            Op::Next(a, b, n) => {
                let (ni, no) = n.map_or(need, |(i, o)| (2 * i as usize, 2 * o as usize));
                let mut i = a.image(ni);
                let mut o = b.image(no);
                tame(&mut i, true);
                tame(&mut o, false);
                if let Ok(w) = real.next(&to_words(&i), &to_words(&o)) {
                    out = to_bytes(&w);
                    ok += 1;
                }
            }
            Op::Again(a) => {
                let mut i = a.image(need.0);
                tame(&mut i, true);
                out.resize(out.len().max(need.1), 0);
                if let Ok(w) = real.next(&to_words(&i), &to_words(&out)) {
                    out = to_bytes(&w);
                    ok += 1;
                }
            }
        }
        let _ = (real.inputs().len(), real.outputs().len());
    }
    st.nontrivial();
    st.label_if(ok > 0, "successful cycles");
    st.label_if(ok >= 5, "five successful cycles");
    Ok(())
}

// ------------------------------------------------------------ working systems

/// A coupler with devices behind its serial modules, with and without failing
/// cycles.
fn operate(c: &plant::Case, st: &mut Stats) -> Result<(), String> {
    use plant::{Failing, Op as S, Plant};
    let l = &c.layout;
    let mut real = l.coupler()?;
    let mut plant = Plant::new(c);
    let (mut cycles, mut taken) = (0usize, 0usize);
    for op in plant::unroll(&c.ops) {
        match &op {
            S::Set(m, ch, v) => {
                let _ = real.set_output(&Address { module: *m, channel: *ch }, v.v());
            }
            S::Queue(m, f, k) => {
                if let Some(w) = real.writer(*m) {
                    let _ = w.write_all(&f.image(*k as usize));
                }
            }
            S::Read(m, k) => {
                if let Some(r) = real.reader(*m) {
                    let _ = r.read(&mut vec![0; *k as usize]);
                }
            }
            S::Present(m, f, k) => plant.present(*m, f, *k),
            S::Flags(m, k) => plant.flags(*m, *k),
            S::Devices(t, r) => plant.devices(*t, *r),
            S::Cycle(fi, fo) => {
                cycles += 1;
                plant.refresh(fi, fo);
                if let Ok(w) = real.next(&with_slack(&plant.inp, fi), &with_slack(&plant.out, fi)) {
                    let _ = plant.written(&w);
                }
            }
            S::Fail(f) => {
                let (mut i, mut o) = (plant.inp.clone(), plant.out.clone());
                match f {
                    Failing::ShortInput(k) => i.truncate(i.len() - 2 * *k as usize),
                    Failing::ShortOutput(k) => o.truncate(o.len() - 2 * *k as usize),
                    Failing::BadInputFrame(m, x) => i[l.slots[*m].in_range().unwrap().start + 1] = *x,
                    Failing::BadOutputFrame(m, x) => o[l.slots[*m].out_range().unwrap().start + 1] = *x,
                    Failing::Request(m, ch, v) => {
                        let _ = real.set_output(&Address { module: *m, channel: *ch }, v.v());
                    }
                    Failing::ReadBack(m, d) => {
                        let r = l.slots[*m].out_range().unwrap().start;
                        o[r..r + 2].copy_from_slice(&((d >> 16) as u16).to_le_bytes());
                        o[r + 2..r + 4].copy_from_slice(&(*d as u16).to_le_bytes());
                    }
                }
                let _ = real.next(&to_words(&i), &to_words(&o));
            }
            S::Fails(..) | S::Again(_) => {}
        }
        for d in plant.devs.values_mut() {
            taken += d.taken.len();
            d.taken.clear();
        }
    }
    st.nontrivial_if(cycles >= 3);
    st.label_if(taken > 14, "serial data transmitted");
    st.label_if(cycles > 1000, "more than 1000 cycles");
    Ok(())
}

/// 70 000 segments, 0: transmitted, 1: received; only whether that ends.
fn segments(i: u64) -> Result<bool, String> {
    let _ = if i % 2 == 0 { endurance::transmit(i / 2) } else { endurance::receive(i / 2) };
    Ok(true)
}

// ------------------------------------------------------------ free functions

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct FreeCase {
    registers: Vec<u16>,
    text: String,
    bytes: Vec<u8>,
    msg: ComOut,
    number: u32,
    kinds: Vec<K>,
    offsets: Vec<(Option<u16>, Option<u16>)>,
    values: Vec<Vec<GV>>,
    ops: Vec<super::serial::Op>,
}

fn free_cases() -> BoxedStrategy<FreeCase> {
    let names: Vec<String> = tables::rows().into_iter().map(|r| r.name.to_string()).collect();
    let ids: Vec<u32> = tables::rows().into_iter().filter_map(|r| r.id).collect();
    let id = prop_oneof![4 => proptest::sample::select(ids), 1 => any::<u32>()];
    let regs = prop_oneof![
        2 => proptest::collection::vec(id.clone(), 0..70).prop_map(|v| v.into_iter().flat_map(|i| [(i >> 16) as u16, i as u16]).collect()),
        1 => proptest::collection::vec(any::<u16>(), 0..40),
    ];
    let text = prop_oneof![
        2 => "\\PC{0,30}",
        2 => (proptest::sample::select(names), any::<prop::sample::Index>(), "\\PC{0,3}").prop_map(|(n, i, x)| {
            let k = i.index(n.len() + 1);
            format!("{}{x}{}", &n[..k], &n[k..])
        }),
        1 => "[A-Za-z]{1,4}",
    ];
    (
        regs,
        text,
        proptest::collection::vec(any::<u8>(), 0..300),
        (com_out(0), proptest::collection::vec(any::<u8>(), 0..300), any::<usize>(), any::<usize>())
            .prop_map(|(mut o, d, t, a)| { (o.data, o.tx, o.ack) = (d, t, a); o }),
        id,
        proptest::collection::vec(any_kind(), 0..6),
        proptest::collection::vec((proptest::option::of(offset_word(0)), proptest::option::of(offset_word(0x8000))), 6),
        proptest::collection::vec(proptest::collection::vec(wild_value(), 0..17), 0..8),
        proptest::collection::vec(op(), 0..40),
    )
        .prop_map(|(registers, text, bytes, msg, number, kinds, offsets, values, ops)| FreeCase {
            registers,
            text,
            bytes,
            msg,
            number,
            kinds,
            offsets,
            values,
            ops,
        })
        .boxed()
}

fn test_free(c: &FreeCase, st: &mut Stats) -> Result<(), String> {
    if let Ok(l) = module_list_from_registers(&c.registers) {
        st.label("module list");
        for t in &l {
            let _ = (t.channel_count(), ModuleCategory::from(t.clone()));
        }
    }
    let _ = c.text.parse::<ModuleType>();
    let _ = c.text.parse::<ModuleCategory>();
    let _ = ModuleType::try_from_u32(c.number);
    let _ = offsets_of_process_data(&c.registers);
    for w in &c.registers {
        let _ = to_register_address(*w);
    }
    let _ = com::ProcessInput::try_from_byte_message(&c.bytes);
    let _ = com::ProcessOutput::try_from_byte_message(&c.bytes);
    for l in [com::ProcessDataLength::EightBytes, com::ProcessDataLength::SixteenBytes] {
        let _ = c.msg.real().try_into_byte_message(&l);
    }
    // packed images
    let real: Vec<_> = c
        .kinds
        .iter()
        .filter_map(|k| build(*k, &k.registers().iter().map(|_| 0).collect::<Vec<_>>()).ok())
        .collect();
    let offs: Vec<_> = c.offsets.iter().map(|(i, o)| ModuleOffset { input: *i, output: *o }).collect();
    let infos: Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> = real.iter().map(|m| &**m).zip(&offs).collect();
    let _ = process_input_data(&infos, &c.registers);
    let _ = process_output_data(&infos, &c.registers);
    let v: Vec<_> = c.values.iter().map(|v| values(v)).collect();
    if let Ok(w) = process_output_values(&infos, &v) {
        let _ = process_output_data(&infos, &w);
    }
    // messages straight into a processor, not following any protocol
    let mut p = com::MessageProcessor::new(if c.number % 2 == 0 {
        com::ProcessDataLength::EightBytes
    } else {
        com::ProcessDataLength::SixteenBytes
    });
    let mut o = com::ProcessOutput { tx_cnt: c.msg.tx, rx_cnt_ack: c.msg.ack, ..c.msg.real() };
    for (n, op) in c.ops.iter().enumerate() {
        use super::serial::Op as S;
        match op {
            S::Queue(f, k) | S::Set(f, k) => {
                let _ = p.write(&f.image(*k as usize));
            }
            S::Read(k) => {
                let _ = p.read(&mut vec![0; *k as usize]);
            }
            S::Present(f, k) => {
                let mut b = vec![n as u8 ^ c.number as u8, *k];
                b.extend(f.image(*k as usize));
                if let Ok(i) = com::ProcessInput::try_from_byte_message(&b) {
                    o = p.next(&i, &o);
                }
            }
            _ => {
                o = p.next(&com::ProcessInput::default(), &o);
            }
        }
    }
    st.nontrivial();
    Ok(())
}

// ------------------------------------------------------------ module types

/// Everything defined for a module type returns; the register count of
/// supported ones does, too.
fn types(i: u64) -> Result<bool, String> {
    let rows = tables::rows();
    let r = &rows[i as usize];
    let _ = (r.t.channel_count(), ModuleCategory::from(r.t.clone()), format!("{:?}", r.t));
    let k = KINDS.iter().find(|k| k.module_type() == r.t);
    if let Some(k) = k {
        let _ = r.t.param_register_count();
        let _ = build(*k, &[]);
    }
    Ok(k.is_some())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Sweep {
            name: "module-types",
            rule: "every module type; non-trivial = supported ones",
            size: |_| tables::rows().len() as u64,
            test: types,
            describe: |i| serde_json::json!({"type": format!("{:?}", tables::rows()[i as usize].t)}),
        }),
        Box::new(Gen {
            name: "modules",
            rule: "a module with documented or arbitrary parameters, also with channel settings removed, repeated or rotated, fed with words, images and values of any size and kind; non-trivial = the module was created",
            cases: (400_000, 12_000_000),
            strategy: mod_cases,
            test: test_mod,
        }),
        Box::new(Gen {
            name: "couplers",
            rule: "couplers with proper, slightly wrong and arbitrary offsets, driven through up to 49 requests, reads, writes and cycles with images of any size and content; non-trivial = the coupler was created",
            cases: (160_000, 5_000_000),
            strategy: coupler_cases,
            test: test_coupler,
        }),
        Box::new(Gen {
            name: "working-systems",
            rule: "up to 64 modules with serial devices behind them, histories of up to 119 steps with failing cycles; non-trivial = 3 cycles",
            cases: (30_000, 600_000),
            strategy: || prop_oneof![9 => plant::cases(1..=6, 120, true), 1 => plant::cases(7..=64, 60, true)].boxed(),
            test: operate,
        }),
        Box::new(Gen {
            name: "endurance",
            rule: "such histories of up to 4 modules repeated for 70 000 cycles; non-trivial = 3 cycles",
            cases: (24, 400),
            strategy: || plant::cases(1..=4, 60, true).prop_map(plant::endless).boxed(),
            test: operate,
        }),
        endurance::sweep(
            "segments",
            "70 000 serial segments transmitted or received by a message processor or a coupler; every case is non-trivial",
            segments,
        ),
        Box::new(Gen {
            name: "free-functions",
            rule: "identifiers, names, byte messages, packed images with arbitrary addresses and a message processor fed with arbitrary frames; every case is non-trivial",
            cases: (160_000, 5_000_000),
            strategy: free_cases,
            test: test_free,
        }),
    ]
}
