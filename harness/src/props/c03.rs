//! C03: parameter registers decode to the documented settings or are rejected.

use crate::{engine::*, ensure, model::*};
use proptest::prelude::*;
use serde_json::json;
use std::fmt::Debug;
use ur20::ur20_fbc_mod_tcp::FromModbusParameterData;
use ur20::{
    AnalogIRange, AnalogUIRange, ConnectionType, ConversionTime, DataFormat, Error,
    FrequencySuppression, InputDelay, InputFilter, RtdRange, TemperatureUnit,
    ur20_1com_232_485_422 as com, ur20_2fcnt_100 as fcnt, ur20_4ai_rtd_diag as rtd,
    ur20_4ai_tc_diag as tc, ur20_4ai_ui_16_diag as uidiag, ur20_4ao_ui_16 as ao,
    ur20_4ao_ui_16_diag as aodiag, ur20_4ro_co_255 as ro, ur20_8ai_i_16_diag_hd as i8hd,
    ur20_16do_p as do16, ur20_ai_ui_generic as aig, ur20_di_generic as dig,
    ur20_do_generic as dog, ur20_pf_o_1di_sil as pf,
};

// Documented code tables, in code order.
const FORMAT: [DataFormat; 2] = [DataFormat::S5, DataFormat::S7];
const UI: [AnalogUIRange; 9] = [
    AnalogUIRange::mA0To20,
    AnalogUIRange::mA4To20,
    AnalogUIRange::V0To10,
    AnalogUIRange::VMinus10To10,
    AnalogUIRange::V0To5,
    AnalogUIRange::VMinus5To5,
    AnalogUIRange::V1To5,
    AnalogUIRange::V2To10,
    AnalogUIRange::Disabled,
];
const I: [AnalogIRange; 3] = [
    AnalogIRange::mA0To20,
    AnalogIRange::mA4To20,
    AnalogIRange::Disabled,
];
const RTD: [RtdRange; 19] = [
    RtdRange::PT100,
    RtdRange::PT200,
    RtdRange::PT500,
    RtdRange::PT1000,
    RtdRange::NI100,
    RtdRange::NI120,
    RtdRange::NI200,
    RtdRange::NI500,
    RtdRange::NI1000,
    RtdRange::Cu10,
    RtdRange::R40,
    RtdRange::R80,
    RtdRange::R150,
    RtdRange::R300,
    RtdRange::R500,
    RtdRange::R1000,
    RtdRange::R2000,
    RtdRange::R4000,
    RtdRange::Disabled,
];
const TC: [tc::MeasurementRange; 20] = {
    use tc::MeasurementRange::*;
    [
        TC_Type_J,
        TC_Type_K,
        TC_Type_N,
        TC_Type_R,
        TC_Type_S,
        TC_Type_T,
        TC_Type_B,
        TC_Type_C,
        TC_Type_E,
        TC_Type_L,
        TC_Type_U,
        uVPlusMinus15625,
        uVPlusMinus31250,
        uVPlusMinus62500,
        mVPlusMinus125,
        mVPlusMinus250,
        mVPlusMinus500,
        VPlusMinus1,
        VPlusMinus2,
        Disabled,
    ]
};
const CJC: [tc::ColdJunctionCompensation; 5] = {
    use tc::ColdJunctionCompensation::*;
    [
        Internal,
        ExternalChannel0,
        ExternalChannel1,
        ExternalChannel2,
        ExternalChannel3,
    ]
};
const UNIT: [TemperatureUnit; 3] = [
    TemperatureUnit::Celsius,
    TemperatureUnit::Fahrenheit,
    TemperatureUnit::Kelvin,
];
const CONN: [ConnectionType; 3] = [
    ConnectionType::TwoWire,
    ConnectionType::ThreeWire,
    ConnectionType::FourWire,
];
const CONV: [ConversionTime; 6] = [
    ConversionTime::ms240,
    ConversionTime::ms130,
    ConversionTime::ms80,
    ConversionTime::ms55,
    ConversionTime::ms43,
    ConversionTime::ms36,
];
const FILTER: [InputFilter; 17] = [
    InputFilter::us5,
    InputFilter::us11,
    InputFilter::us21,
    InputFilter::us43,
    InputFilter::us83,
    InputFilter::us167,
    InputFilter::us333,
    InputFilter::us667,
    InputFilter::ms1,
    InputFilter::ms3,
    InputFilter::ms5,
    InputFilter::ms11,
    InputFilter::ms22,
    InputFilter::ms43,
    InputFilter::ms91,
    InputFilter::ms167,
    InputFilter::ms333,
];
const DELAY: [InputDelay; 6] = [
    InputDelay::no,
    InputDelay::us300,
    InputDelay::ms3,
    InputDelay::ms10,
    InputDelay::ms20,
    InputDelay::ms40,
];
const FREQ: [FrequencySuppression; 4] = [
    FrequencySuppression::Disabled,
    FrequencySuppression::Hz50,
    FrequencySuppression::Hz60,
    FrequencySuppression::Average16,
];
const LEN: [com::ProcessDataLength; 2] = [
    com::ProcessDataLength::EightBytes,
    com::ProcessDataLength::SixteenBytes,
];
const MODE: [com::OperatingMode; 4] = [
    com::OperatingMode::Disabled,
    com::OperatingMode::RS232,
    com::OperatingMode::RS485,
    com::OperatingMode::RS422,
];
const BAUD: [com::BaudRate; 12] = {
    use com::BaudRate::*;
    [
        Baud_300,
        Baud_600,
        Baud_1200,
        Baud_2400,
        Baud_4800,
        Baud_9600,
        Baud_14400,
        Baud_19200,
        Baud_28800,
        Baud_38400,
        Baud_57600,
        Baud_115200,
    ]
};
const STOP: [com::StopBit; 2] = [com::StopBit::OneBit, com::StopBit::TwoBits];
const PARITY: [com::Parity; 3] = [com::Parity::None, com::Parity::Even, com::Parity::Odd];
const FLOW: [com::FlowControl; 3] = [
    com::FlowControl::None,
    com::FlowControl::CTS_RTS,
    com::FlowControl::XON_XOFF,
];
const BITS: [com::DataBits; 2] = [com::DataBits::SevenBits, com::DataBits::EightBits];

fn eq<T: PartialEq + Debug>(what: &str, ch: usize, got: &T, table: &[T], code: u16) -> Result<(), String> {
    let exp = &table[code as usize];
    ensure!(
        got == exp,
        "channel {ch}: {what} code {code} gives {got:?}, expected {exp:?}"
    );
    Ok(())
}

fn flag(what: &str, ch: usize, got: bool, code: u16) -> Result<(), String> {
    ensure!(
        got == (code == 1),
        "channel {ch}: {what} code {code} gives {got}"
    );
    Ok(())
}

fn limit(what: &str, ch: usize, got: i16, w: u16) -> Result<(), String> {
    ensure!(
        i32::from(got) == if w >= 0x8000 { i32::from(w) - 0x10000 } else { i32::from(w) },
        "channel {ch}: {what} {w:#06x} gives {got}"
    );
    Ok(())
}

fn substitute(ch: usize, got: f32, fmt: u16, range: u16, w: u16) -> Result<(), String> {
    // For a disabled range there is no scale the word could be read on.
    if let Some((off, span)) = ui_range(range) {
        let part = f64::from(w as i16) * span / full_scale(fmt);
        ensure!(
            (f64::from(got) - part - off).abs() <= 1e-6 * (part.abs() + off) + 1e-30,
            "channel {ch}: substitute value {w:#06x} (format {fmt}, range {range}) gives {got}, expected {}",
            part + off
        );
    }
    Ok(())
}

fn count(got: usize, n: usize) -> Result<(), String> {
    ensure!(got == n, "{got} channel settings instead of {n}");
    Ok(())
}

/// The library's decoding of a block, compared with the documented one.
/// Returns whether the block is acceptable.
pub fn check_block(k: K, r: &[u16]) -> Result<bool, String> {
    let regs = k.registers();
    let n = regs.len();
    let expected = if (n == 0 && !r.is_empty()) || r.len() < n {
        Some(Error::BufferLength)
    } else if regs.iter().zip(r).any(|(g, w)| !g.valid(*w)) {
        Some(Error::ChannelParameter)
    } else {
        None
    };

    fn dec<T: FromModbusParameterData + ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData>(
        r: &[u16],
        expected: &Option<Error>,
    ) -> Result<Option<T>, String> {
        match (T::from_modbus_parameter_data(r), expected) {
            (Ok(m), None) => Ok(Some(m)),
            (Err(e), Some(x)) if e == *x => Ok(None),
            (Ok(_), Some(x)) => Err(format!("accepted, expected {x:?}")),
            (Err(e), x) => Err(format!("rejected with {e:?}, expected {x:?}")),
        }
    }

    let res = (|| -> Result<(), String> {
        match k {
            K::Di4 | K::Di8 => {
                let ch = if k == K::Di4 {
                    dec::<dig::Mod<dig::UR20_4DI_P>>(r, &expected)?.map(|m| m.ch_params)
                } else {
                    dec::<dig::Mod<dig::UR20_8DI_P_2W>>(r, &expected)?.map(|m| m.ch_params)
                };
                let Some(ch) = ch else { return Ok(()) };
                count(ch.len(), n)?;
                for (i, c) in ch.iter().enumerate() {
                    eq("input delay", i, &c.input_delay, &DELAY, r[i])?;
                }
            }
            K::Do4 | K::Do42A | K::Do8 => {
                let ch = match k {
                    K::Do4 => dec::<dog::Mod<dog::UR20_4DO_P>>(r, &expected)?.map(|m| m.ch_params),
                    K::Do42A => {
                        dec::<dog::Mod<dog::UR20_4DO_P_2A>>(r, &expected)?.map(|m| m.ch_params)
                    }
                    _ => dec::<dog::Mod<dog::UR20_8DO_P>>(r, &expected)?.map(|m| m.ch_params),
                };
                let Some(ch) = ch else { return Ok(()) };
                count(ch.len(), n)?;
                for (i, c) in ch.iter().enumerate() {
                    flag("substitute value", i, c.substitute_value, r[i])?;
                }
            }
            K::Ro4 => {
                let Some(m) = dec::<ro::Mod>(r, &expected)? else { return Ok(()) };
                count(m.ch_params.len(), n)?;
                for (i, c) in m.ch_params.iter().enumerate() {
                    flag("substitute value", i, c.substitute_value, r[i])?;
                }
            }
            K::Do16 => {
                dec::<do16::Mod>(r, &expected)?;
            }
            K::Pf => {
                dec::<pf::Mod>(r, &expected)?;
            }
            K::Ao => {
                let Some(m) = dec::<ao::Mod>(r, &expected)? else { return Ok(()) };
                count(m.ch_params.len(), 4)?;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let r = &r[3 * i..];
                    eq("data format", i, &c.data_format, &FORMAT, r[0])?;
                    eq("output range", i, &c.output_range, &UI, r[1])?;
                    substitute(i, c.substitute_value, r[0], r[1], r[2])?;
                }
            }
            K::AoDiag => {
                let Some(m) = dec::<aodiag::Mod>(r, &expected)? else { return Ok(()) };
                count(m.ch_params.len(), 4)?;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let r = &r[4 * i..];
                    eq("data format", i, &c.data_format, &FORMAT, r[0])?;
                    eq("output range", i, &c.output_range, &UI, r[1])?;
                    substitute(i, c.substitute_value, r[0], r[1], r[2])?;
                    flag("diagnostics", i, c.channel_diagnostics, r[3])?;
                }
            }
            K::Rtd => {
                let Some(m) = dec::<rtd::Mod>(r, &expected)? else { return Ok(()) };
                eq("unit", 0, &m.mod_params.temperature_unit, &UNIT, r[0])?;
                count(m.ch_params.len(), 4)?;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let r = &r[1 + 7 * i..];
                    eq("range", i, &c.measurement_range, &RTD, r[0])?;
                    eq("connection", i, &c.connection_type, &CONN, r[1])?;
                    eq("conversion time", i, &c.conversion_time, &CONV, r[2])?;
                    flag("diagnostics", i, c.channel_diagnostics, r[3])?;
                    flag("limit monitoring", i, c.limit_value_monitoring, r[4])?;
                    limit("high limit", i, c.high_limit_value, r[5])?;
                    limit("low limit", i, c.low_limit_value, r[6])?;
                }
            }
            K::Tc => {
                let Some(m) = dec::<tc::Mod>(r, &expected)? else { return Ok(()) };
                eq("unit", 0, &m.mod_params.temperature_unit, &UNIT, r[0])?;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let r = &r[1 + 7 * i..];
                    eq("range", i, &c.measurement_range, &TC, r[0])?;
                    eq("cold junction", i, &c.cold_junction_compensation, &CJC, r[1])?;
                    eq("conversion time", i, &c.conversion_time, &CONV, r[2])?;
                    flag("diagnostics", i, c.channel_diagnostics, r[3])?;
                    flag("limit monitoring", i, c.limit_value_monitoring, r[4])?;
                    limit("high limit", i, c.high_limit_value, r[5])?;
                    limit("low limit", i, c.low_limit_value, r[6])?;
                }
            }
            K::UiDiag => {
                let Some(m) = dec::<uidiag::Mod>(r, &expected)? else { return Ok(()) };
                eq("suppression", 0, &m.mod_params.frequency_suppression, &FREQ, r[0])?;
                count(m.ch_params.len(), 4)?;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let r = &r[1 + 5 * i..];
                    flag("diagnostics", i, c.channel_diagnostics, r[0])?;
                    flag("short circuit", i, c.diag_short_circuit, r[1])?;
                    flag("line break", i, c.diag_line_break, r[2])?;
                    eq("data format", i, &c.data_format, &FORMAT, r[3])?;
                    eq("range", i, &c.measurement_range, &UI, r[4])?;
                }
            }
            K::Ui12 | K::Ui16 => {
                let x = if k == K::Ui12 {
                    dec::<aig::Mod<aig::UR20_4AI_UI_12>>(r, &expected)?
                        .map(|m| (m.mod_params, m.ch_params))
                } else {
                    dec::<aig::Mod<aig::UR20_4AI_UI_16>>(r, &expected)?
                        .map(|m| (m.mod_params, m.ch_params))
                };
                let Some((mp, ch)) = x else { return Ok(()) };
                eq("suppression", 0, &mp.frequency_suppression, &FREQ, r[0])?;
                count(ch.len(), 4)?;
                for (i, c) in ch.iter().enumerate() {
                    let r = &r[1 + 2 * i..];
                    eq("data format", i, &c.data_format, &FORMAT, r[0])?;
                    eq("range", i, &c.measurement_range, &UI, r[1])?;
                }
            }
            K::I8 => {
                let Some(m) = dec::<i8hd::Mod>(r, &expected)? else { return Ok(()) };
                eq("suppression", 0, &m.mod_params.frequency_suppression, &FREQ, r[0])?;
                count(m.ch_params.len(), 8)?;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let r = &r[1 + 4 * i..];
                    flag("diagnostics", i, c.channel_diagnostics, r[0])?;
                    flag("short circuit", i, c.diag_short_circuit, r[1])?;
                    eq("data format", i, &c.data_format, &FORMAT, r[2])?;
                    eq("range", i, &c.measurement_range, &I, r[3])?;
                }
            }
            K::Fcnt => {
                let Some(m) = dec::<fcnt::Mod>(r, &expected)? else { return Ok(()) };
                count(m.ch_params.len(), 2)?;
                for (i, c) in m.ch_params.iter().enumerate() {
                    eq("input filter", i, &c.input_filter, &FILTER, r[i])?;
                }
            }
            K::Com => {
                let Some(m) = dec::<com::Mod>(r, &expected)? else { return Ok(()) };
                eq("data length", 0, &m.mod_params.process_data_len, &LEN, r[0])?;
                count(m.ch_params.len(), 1)?;
                let c = &m.ch_params[0];
                eq("mode", 0, &c.operating_mode, &MODE, r[1])?;
                eq("baud rate", 0, &c.baud_rate, &BAUD, r[2])?;
                eq("stop bits", 0, &c.stop_bit, &STOP, r[3])?;
                eq("parity", 0, &c.parity, &PARITY, r[4])?;
                eq("flow control", 0, &c.flow_control, &FLOW, r[5])?;
                eq("data bits", 0, &c.data_bits, &BITS, r[6])?;
                flag("terminating resistor", 0, c.terminating_resistor, r[7])?;
                ensure!(u32::from(c.XON_char) == u32::from(r[8]), "XON {:?} for {}", c.XON_char, r[8]);
                ensure!(u32::from(c.XOFF_char) == u32::from(r[9]), "XOFF {:?} for {}", c.XOFF_char, r[9]);
            }
        }
        Ok(())
    })();
    res.map_err(|e| format!("{k:?} {r:?}: {e}"))?;
    Ok(expected.is_none())
}

/// (kind, register) pairs.
fn positions() -> &'static Vec<(K, usize, Vec<Reg>)> {
    static P: std::sync::OnceLock<Vec<(K, usize, Vec<Reg>)>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        KINDS
            .iter()
            .flat_map(|k| (0..k.registers().len()).map(|i| (*k, i, k.registers())))
            .collect()
    })
}

fn swept_block(i: u64) -> (K, Vec<u16>) {
    let (k, pos, regs) = &positions()[(i / 65536) as usize];
    // a background of valid codes that varies from case to case
    let mut x = i.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let r = regs
        .iter()
        .enumerate()
        .map(|(j, g)| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            let w = (x >> 24) as u16;
            if j == *pos {
                i as u16
            } else {
                match g {
                    Reg::Codes(n) => w % n,
                    Reg::Byte => w % 256,
                    Reg::Any => w,
                }
            }
        })
        .collect();
    (*k, r)
}

fn any_block() -> BoxedStrategy<(K, Vec<u16>)> {
    any_kind()
        .prop_flat_map(|k| {
            let regs = k.registers();
            let n = regs.len();
            let word = |g: Reg| {
                prop_oneof![
                    60 => reg_value(g),
                    1 => any::<u16>(),
                    1 => match g {
                        Reg::Codes(n) => (n..n + 3).boxed(),
                        Reg::Byte => (256u16..260).boxed(),
                        Reg::Any => Just(0xFFFF).boxed(),
                    },
                    1 => match g {
                        Reg::Codes(n) => (0..n).prop_map(|c| c + 256).boxed(),
                        Reg::Byte => (0u16..256).prop_map(|c| c << 8).boxed(),
                        Reg::Any => any::<u16>().boxed(),
                    },
                ]
            };
            let full = regs.into_iter().map(word).collect::<Vec<_>>();
            let tail = prop_oneof![
                3 => Just(vec![]),
                2 => proptest::collection::vec(any::<u16>(), 1..40),
                1 => proptest::collection::vec(0u16..3, 1..40),
            ];
            let cut = prop_oneof![3 => Just(usize::MAX), 1 => 0..=n];
            (Just(k), full, tail, cut)
        })
        .prop_map(|(k, mut r, tail, cut)| {
            if cut < r.len() {
                r.truncate(cut);
            } else {
                r.extend(tail);
            }
            (k, r)
        })
        .boxed()
}


#[derive(Debug, Clone, Hash, serde::Serialize, serde::Deserialize)]
struct Block {
    k: K,
    regs: Vec<u16>,
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Sweep {
            name: "every-register-every-code",
            rule: "every parameter register of every supported module takes all 65536 words in front of a varying background of valid codes; non-trivial = the block is acceptable, so that all settings are compared",
            size: |_| positions().len() as u64 * 65536,
            test: |i| {
                let (k, r) = swept_block(i);
                check_block(k, &r)
            },
            describe: |i| {
                let (k, r) = swept_block(i);
                json!({"module": k, "registers": r})
            },
        }),
        Box::new(Gen {
            name: "blocks",
            rule: "blocks of mostly valid codes with bad codes mixed in, cut short or extended by up to 40 surplus registers; non-trivial = accepted, or rejected although it is not short",
            cases: (1_200_000, 24_000_000),
            strategy: || any_block().prop_map(|(k, regs)| Block { k, regs }).boxed(),
            test: |b: &Block, st: &mut Stats| {
                let n = b.k.registers().len();
                let ok = check_block(b.k, &b.regs)?;
                st.label_if(ok, "accepted");
                st.label_if(ok && b.regs.len() > n, "accepted with surplus registers");
                st.label_if(b.regs.len() < n, "short");
                st.label_if(!ok && b.regs.len() >= n, "bad code or surplus");
                st.nontrivial_if(ok || b.regs.len() >= n);
                Ok(())
            },
        }),
    ]
}
