//! Independent reference model of the supported modules: register layouts,
//! byte layouts and value semantics, written from the module documentation and
//! working on plain bytes and exact f64 arithmetic.

use crate::dict::dict;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use ur20::ur20_fbc_mod_tcp::{FromModbusParameterData as From_, ProcessModbusTcpData};
use ur20::{
    ChannelValue as V, Error, ModuleType, ur20_1com_232_485_422 as com, ur20_2fcnt_100 as fcnt,
    ur20_4ai_rtd_diag as rtd, ur20_4ai_tc_diag as tc, ur20_4ai_ui_16_diag as uidiag,
    ur20_4ao_ui_16 as ao, ur20_4ao_ui_16_diag as aodiag, ur20_4ro_co_255 as ro,
    ur20_8ai_i_16_diag_hd as i8hd, ur20_16do_p as do16, ur20_ai_ui_generic as aig,
    ur20_di_generic as dig, ur20_do_generic as dog, ur20_pf_o_1di_sil as pf,
};

/// The supported modules.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum K {
    Di4,
    Di8,
    Do4,
    Do42A,
    Do8,
    Do16,
    Ro4,
    Ao,
    AoDiag,
    Rtd,
    Tc,
    UiDiag,
    Ui12,
    Ui16,
    I8,
    Fcnt,
    Com,
    Pf,
}

pub const KINDS: &[K] = &[
    K::Di4,
    K::Di8,
    K::Do4,
    K::Do42A,
    K::Do8,
    K::Do16,
    K::Ro4,
    K::Ao,
    K::AoDiag,
    K::Rtd,
    K::Tc,
    K::UiDiag,
    K::Ui12,
    K::Ui16,
    K::I8,
    K::Fcnt,
    K::Com,
    K::Pf,
];

/// What a parameter register may contain.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Reg {
    /// codes `0..n`
    Codes(u16),
    /// one byte
    Byte,
    /// any word
    Any,
}

impl Reg {
    pub fn valid(self, w: u16) -> bool {
        match self {
            Reg::Codes(n) => w < n,
            Reg::Byte => w <= 255,
            Reg::Any => true,
        }
    }
}

const B: Reg = Reg::Codes(2);

impl K {
    pub fn module_type(self) -> ModuleType {
        use ModuleType::*;
        match self {
            K::Di4 => UR20_4DI_P,
            K::Di8 => UR20_8DI_P_2W,
            K::Do4 => UR20_4DO_P,
            K::Do42A => UR20_4DO_P_2A,
            K::Do8 => UR20_8DO_P,
            K::Do16 => UR20_16DO_P,
            K::Ro4 => UR20_4RO_CO_255,
            K::Ao => UR20_4AO_UI_16,
            K::AoDiag => UR20_4AO_UI_16_DIAG,
            K::Rtd => UR20_4AI_RTD_DIAG,
            K::Tc => UR20_4AI_TC_DIAG,
            K::UiDiag => UR20_4AI_UI_16_DIAG,
            K::Ui12 => UR20_4AI_UI_12,
            K::Ui16 => UR20_4AI_UI_16,
            K::I8 => UR20_8AI_I_16_DIAG_HD,
            K::Fcnt => UR20_2FCNT_100,
            K::Com => UR20_1COM_232_485_422,
            K::Pf => UR20_PF_O_1DI_SIL,
        }
    }

    pub fn channels(self) -> usize {
        match self {
            K::Di4 | K::Do4 | K::Do42A | K::Ro4 => 4,
            K::Di8 | K::Do8 | K::I8 => 8,
            K::Do16 => 16,
            K::Ao | K::AoDiag | K::Rtd | K::Tc | K::UiDiag | K::Ui12 | K::Ui16 => 4,
            K::Fcnt => 2,
            K::Com => 1,
            K::Pf => 0,
        }
    }

    /// Parameter registers, in order.
    pub fn registers(self) -> Vec<Reg> {
        use Reg::*;
        fn rep(head: &[Reg], ch: &[Reg], n: usize) -> Vec<Reg> {
            let mut v = head.to_vec();
            for _ in 0..n {
                v.extend_from_slice(ch);
            }
            v
        }
        match self {
            K::Di4 => rep(&[], &[Codes(6)], 4),
            K::Di8 => rep(&[], &[Codes(6)], 8),
            K::Do4 | K::Do42A | K::Ro4 => rep(&[], &[B], 4),
            K::Do8 => rep(&[], &[B], 8),
            K::Do16 | K::Pf => vec![],
            K::Ao => rep(&[], &[B, Codes(9), Any], 4),
            K::AoDiag => rep(&[], &[B, Codes(9), Any, B], 4),
            K::Rtd => rep(
                &[Codes(3)],
                &[Codes(19), Codes(3), Codes(6), B, B, Any, Any],
                4,
            ),
            K::Tc => rep(
                &[Codes(3)],
                &[Codes(20), Codes(5), Codes(6), B, B, Any, Any],
                4,
            ),
            K::UiDiag => rep(&[Codes(4)], &[B, B, B, B, Codes(9)], 4),
            K::Ui12 | K::Ui16 => rep(&[Codes(4)], &[B, Codes(9)], 4),
            K::I8 => rep(&[Codes(4)], &[B, B, B, Codes(3)], 8),
            K::Fcnt => rep(&[], &[Codes(17)], 2),
            K::Com => vec![
                Codes(2),
                Codes(4),
                Codes(12),
                Codes(2),
                Codes(3),
                Codes(3),
                Codes(2),
                B,
                Byte,
                Byte,
            ],
        }
    }

    pub fn is_com(self) -> bool {
        self == K::Com
    }

    pub fn has_inputs(self) -> bool {
        matches!(
            self,
            K::Di4
                | K::Di8
                | K::Rtd
                | K::Tc
                | K::UiDiag
                | K::Ui12
                | K::Ui16
                | K::I8
                | K::Fcnt
                | K::Com
                | K::Pf
        )
    }

    pub fn has_outputs(self) -> bool {
        matches!(
            self,
            K::Do4 | K::Do42A | K::Do8 | K::Do16 | K::Ro4 | K::Ao | K::AoDiag | K::Fcnt | K::Com
        )
    }
}

/// A configured module: its kind and its parameter registers.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct M {
    pub k: K,
    pub p: Vec<u16>,
}

/// Builds the module under test.
pub fn build(k: K, p: &[u16]) -> Result<Box<dyn ProcessModbusTcpData>, Error> {
    fn b<T: From_ + ProcessModbusTcpData + 'static>(
        p: &[u16],
    ) -> Result<Box<dyn ProcessModbusTcpData>, Error> {
        Ok(Box::new(T::from_modbus_parameter_data(p)?))
    }
    match k {
        K::Di4 => b::<dig::Mod<dig::UR20_4DI_P>>(p),
        K::Di8 => b::<dig::Mod<dig::UR20_8DI_P_2W>>(p),
        K::Do4 => b::<dog::Mod<dog::UR20_4DO_P>>(p),
        K::Do42A => b::<dog::Mod<dog::UR20_4DO_P_2A>>(p),
        K::Do8 => b::<dog::Mod<dog::UR20_8DO_P>>(p),
        K::Do16 => b::<do16::Mod>(p),
        K::Ro4 => b::<ro::Mod>(p),
        K::Ao => b::<ao::Mod>(p),
        K::AoDiag => b::<aodiag::Mod>(p),
        K::Rtd => b::<rtd::Mod>(p),
        K::Tc => b::<tc::Mod>(p),
        K::UiDiag => b::<uidiag::Mod>(p),
        K::Ui12 => b::<aig::Mod<aig::UR20_4AI_UI_12>>(p),
        K::Ui16 => b::<aig::Mod<aig::UR20_4AI_UI_16>>(p),
        K::I8 => b::<i8hd::Mod>(p),
        K::Fcnt => b::<fcnt::Mod>(p),
        K::Com => b::<com::Mod>(p),
        K::Pf => b::<pf::Mod>(p),
    }
}

// ---------------------------------------------------------------- expectations

/// An expected channel value.
#[derive(Debug, Clone, PartialEq)]
pub enum E {
    Bit(bool),
    /// exact value and tolerance
    Dec(f64, f64),
    Fin {
        nanos: Option<u64>,
        count: u32,
        active: bool,
    },
    Fout {
        micros: u32,
        cmd: Option<bool>,
    },
    ComIn(ComIn),
    ComOut(ComOut),
    Sil([bool; 7]),
    Disabled,
    None,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct ComIn {
    pub avail: bool,
    pub nearly_full: bool,
    pub rx: usize,
    pub ack: usize,
    pub ready: bool,
    pub data: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct ComOut {
    pub rx_flush: bool,
    pub tx_flush: bool,
    pub lock: bool,
    pub tx: usize,
    pub ack: usize,
    pub reset: bool,
    pub data: Vec<u8>,
}

impl ComIn {
    pub fn decode(f: &[u8]) -> Option<ComIn> {
        if f.len() < 2 || f.len() - 2 < f[1] as usize {
            return None;
        }
        let s = f[0];
        Some(ComIn {
            avail: s & 1 != 0,
            nearly_full: s & 2 != 0,
            rx: (s / 8 % 4) as usize,
            ack: (s / 32 % 4) as usize,
            ready: s & 128 != 0,
            data: f[2..2 + f[1] as usize].to_vec(),
        })
    }
    pub fn frame(&self, user: usize) -> Vec<u8> {
        let mut f = vec![0; user + 2];
        f[0] = self.avail as u8
            + 2 * self.nearly_full as u8
            + 8 * self.rx as u8
            + 32 * self.ack as u8
            + 128 * self.ready as u8;
        f[1] = self.data.len() as u8;
        f[2..2 + self.data.len()].copy_from_slice(&self.data);
        f
    }
    pub fn real(&self) -> com::ProcessInput {
        com::ProcessInput {
            data_available: self.avail,
            buffer_nearly_full: self.nearly_full,
            rx_cnt: self.rx,
            tx_cnt_ack: self.ack,
            ready: self.ready,
            data: self.data.clone(),
        }
    }
}

impl ComOut {
    pub fn decode(f: &[u8]) -> Option<ComOut> {
        if f.len() < 2 || f.len() - 2 < f[1] as usize {
            return None;
        }
        let s = f[0];
        Some(ComOut {
            rx_flush: s & 1 != 0,
            tx_flush: s & 2 != 0,
            lock: s & 4 != 0,
            tx: (s / 8 % 4) as usize,
            ack: (s / 32 % 4) as usize,
            reset: s & 128 != 0,
            data: f[2..2 + f[1] as usize].to_vec(),
        })
    }
    pub fn status(&self) -> u8 {
        self.rx_flush as u8
            + 2 * self.tx_flush as u8
            + 4 * self.lock as u8
            + 8 * self.tx as u8
            + 32 * self.ack as u8
            + 128 * self.reset as u8
    }
    pub fn frame(&self, user: usize) -> Vec<u8> {
        let mut f = vec![0; user + 2];
        f[0] = self.status();
        f[1] = self.data.len() as u8;
        f[2..2 + self.data.len()].copy_from_slice(&self.data);
        f
    }
    pub fn real(&self) -> com::ProcessOutput {
        com::ProcessOutput {
            rx_buf_flush: self.rx_flush,
            tx_buf_flush: self.tx_flush,
            disable_tx_hw_buffer: self.lock,
            tx_cnt: self.tx,
            rx_cnt_ack: self.ack,
            reset: self.reset,
            data: self.data.clone(),
        }
    }
    pub fn of(o: &com::ProcessOutput) -> ComOut {
        ComOut {
            rx_flush: o.rx_buf_flush,
            tx_flush: o.tx_buf_flush,
            lock: o.disable_tx_hw_buffer,
            tx: o.tx_cnt,
            ack: o.rx_cnt_ack,
            reset: o.reset,
            data: o.data.clone(),
        }
    }
}

/// Does the reported value agree with the expectation?
pub fn agrees(e: &E, v: &V) -> bool {
    match (e, v) {
        (E::Bit(a), V::Bit(b)) => a == b,
        (E::Dec(x, tol), V::Decimal32(f)) => (f64::from(*f) - x).abs() <= *tol,
        (
            E::Fin {
                nanos,
                count,
                active,
            },
            V::FcntIn(i),
        ) => {
            i.duration == nanos.map(Duration::from_nanos) && i.count == *count && i.active == *active
        }
        (E::Fout { micros, cmd }, V::FcntOut(o)) => {
            o.duration == Duration::from_micros(u64::from(*micros)) && cmd_of(o.command) == *cmd
        }
        (E::ComIn(a), V::ComRsIn(b)) => a.real() == *b,
        (E::ComOut(a), V::ComRsOut(b)) => a.real() == *b,
        (E::Sil(f), V::SilPFIn(p)) => {
            *f == [
                p.safety_input,
                p.autostart,
                p.manual_start,
                p.safety_input_channel_1,
                p.safety_input_channel_2,
                p.volt_24_safe_output,
                p.volt_24_dc,
            ]
        }
        (E::Disabled, V::Disabled) => true,
        (E::None, V::None) => true,
        _ => false,
    }
}

pub fn cmd_of(c: Option<fcnt::Command>) -> Option<bool> {
    c.map(|c| c == fcnt::Command::Start)
}

pub fn all_agree(what: &str, exp: &[E], got: &[V]) -> Result<(), String> {
    if exp.len() != got.len() {
        return Err(format!(
            "{what}: {} values instead of {}: {got:?}",
            got.len(),
            exp.len()
        ));
    }
    for (c, (e, v)) in exp.iter().zip(got).enumerate() {
        if !agrees(e, v) {
            return Err(format!("{what}: channel {c} is {v:?}, expected {e:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- analog ranges

/// Analog range as `offset + span * raw / full_scale` (None: disabled).
pub fn ui_range(code: u16) -> Option<(f64, f64)> {
    // (offset, span)
    match code {
        0 => Some((0.0, 20.0)), // 0..20 mA
        1 => Some((4.0, 16.0)), // 4..20 mA
        2 => Some((0.0, 10.0)), // 0..10 V
        3 => Some((0.0, 10.0)), // -10..10 V
        4 => Some((0.0, 5.0)),  // 0..5 V
        5 => Some((0.0, 5.0)),  // -5..5 V
        6 => Some((1.0, 4.0)),  // 1..5 V
        7 => Some((2.0, 8.0)),  // 2..10 V
        _ => None,
    }
}

pub fn full_scale(fmt: u16) -> f64 {
    if fmt == 0 { 16384.0 } else { 27648.0 }
}

fn single(part: f64, offset: f64) -> E {
    E::Dec(
        part + offset,
        1e-6 * (part.abs() + offset.abs()) + f64::from(f32::MIN_POSITIVE),
    )
}

fn ui_value(raw: u16, fmt: u16, range: u16) -> E {
    match ui_range(range) {
        Some((off, span)) => single(f64::from(raw as i16) * span / full_scale(fmt), off),
        None => E::Disabled,
    }
}

fn rtd_value(raw: u16, range: u16) -> E {
    const R: [f64; 8] = [40.0, 80.0, 150.0, 300.0, 500.0, 1000.0, 2000.0, 4000.0];
    match range {
        0..=9 => single(f64::from(raw as i16) / 10.0, 0.0),
        10..=17 => single(R[range as usize - 10] * f64::from(raw) / 27648.0, 0.0),
        _ => E::Disabled,
    }
}

fn tc_value(raw: u16, range: u16) -> E {
    const U: [f64; 8] = [
        0.015_625, 0.031_25, 0.062_5, 0.125, 0.25, 0.5, 1.0, 2.0,
    ];
    match range {
        0..=10 if raw == 0x7FFF => E::None,
        0..=10 => single(f64::from(raw as i16) / 10.0, 0.0),
        11..=18 => single(U[range as usize - 11] * f64::from(raw as i16) / 32767.0, 0.0),
        _ => E::Disabled,
    }
}

// ---------------------------------------------------------------- modules

impl M {
    pub fn user_len(&self) -> usize {
        if self.p[0] == 0 { 6 } else { 14 }
    }

    pub fn in_bytes(&self) -> usize {
        match self.k {
            K::Di4 | K::Di8 => 1,
            K::Rtd | K::Tc | K::UiDiag | K::Ui12 | K::Ui16 => 8,
            K::I8 => 16,
            K::Fcnt => 20,
            K::Com => self.user_len() + 2,
            K::Pf => 4,
            _ => 0,
        }
    }

    pub fn out_bytes(&self) -> usize {
        match self.k {
            K::Do4 | K::Do42A | K::Do8 | K::Ro4 => 1,
            K::Do16 => 2,
            K::Ao | K::AoDiag => 8,
            K::Fcnt => 12,
            K::Com => self.user_len() + 2,
            _ => 0,
        }
    }

    /// (data format, range) registers of an analog channel.
    pub fn fmt_range(&self, ch: usize) -> (u16, u16) {
        match self.k {
            K::Ao => (self.p[3 * ch], self.p[3 * ch + 1]),
            K::AoDiag => (self.p[4 * ch], self.p[4 * ch + 1]),
            K::UiDiag => (self.p[5 * ch + 4], self.p[5 * ch + 5]),
            K::Ui12 | K::Ui16 => (self.p[2 * ch + 1], self.p[2 * ch + 2]),
            K::I8 => {
                let r = self.p[4 * ch + 4];
                (self.p[4 * ch + 3], if r == 2 { 8 } else { r })
            }
            K::Rtd | K::Tc => (0, self.p[7 * ch + 1]),
            _ => (0, 0),
        }
    }

    /// Expected input values of the module's input bytes; `Err`: malformed.
    pub fn decode_in(&self, b: &[u8]) -> Result<Vec<E>, ()> {
        assert_eq!(b.len(), self.in_bytes());
        let word = |i: usize| u16::from(b[2 * i]) + 256 * u16::from(b[2 * i + 1]);
        Ok(match self.k {
            K::Di4 | K::Di8 => (0..self.k.channels()).map(|i| E::Bit(b[0] >> i & 1 == 1)).collect(),
            K::UiDiag | K::Ui12 | K::Ui16 | K::I8 => (0..self.k.channels())
                .map(|i| {
                    let (f, r) = self.fmt_range(i);
                    ui_value(word(i), f, r)
                })
                .collect(),
            K::Rtd => (0..4).map(|i| rtd_value(word(i), self.fmt_range(i).1)).collect(),
            K::Tc => (0..4).map(|i| tc_value(word(i), self.fmt_range(i).1)).collect(),
            K::Fcnt => (0..2)
                .map(|i| {
                    let ticks = u32::from(word(4 * i)) * 65536 + u32::from(word(4 * i + 1));
                    E::Fin {
                        nanos: (ticks < 0x07FF_FFFF).then_some(u64::from(ticks) * 125),
                        count: u32::from(word(4 * i + 2)) * 65536 + u32::from(word(4 * i + 3)),
                        active: b[17 + 2 * i] & 1 == 1,
                    }
                })
                .collect(),
            K::Com => vec![E::ComIn(ComIn::decode(b).ok_or(())?)],
            K::Pf => vec![E::Sil([
                b[0] & 1 != 0,
                b[0] & 4 != 0,
                b[0] & 8 != 0,
                b[0] & 16 != 0,
                b[0] & 32 != 0,
                b[1] & 1 != 0,
                b[1] & 4 != 0,
            ])],
            _ => vec![E::None; self.k.channels()],
        })
    }

    /// Expected output values of the module's output bytes; `Err`: malformed.
    pub fn decode_out(&self, b: &[u8]) -> Result<Vec<E>, ()> {
        assert_eq!(b.len(), self.out_bytes());
        let word = |i: usize| u16::from(b[2 * i]) + 256 * u16::from(b[2 * i + 1]);
        Ok(match self.k {
            K::Do4 | K::Do42A | K::Do8 | K::Ro4 | K::Do16 => (0..self.k.channels())
                .map(|i| E::Bit(b[i / 8] >> (i % 8) & 1 == 1))
                .collect(),
            K::Ao | K::AoDiag => (0..4)
                .map(|i| {
                    let (f, r) = self.fmt_range(i);
                    ui_value(word(i), f, r)
                })
                .collect(),
            K::Fcnt => (0..2)
                .map(|i| E::Fout {
                    micros: u32::from(word(2 * i)) * 65536 + u32::from(word(2 * i + 1)),
                    cmd: match b[9 + 2 * i] & 3 {
                        0 => None,
                        2 => Some(false),
                        _ => Some(true),
                    },
                })
                .collect(),
            K::Com => vec![E::ComOut(ComOut::decode(b).ok_or(())?)],
            _ => vec![E::None; self.k.channels()],
        })
    }

    /// May the value be encoded on this channel?
    pub fn encodable(&self, v: &GV) -> bool {
        match self.k {
            K::Do4 | K::Do42A | K::Do8 | K::Ro4 | K::Do16 => {
                matches!(v, GV::Bit(_) | GV::Disabled)
            }
            K::Ao | K::AoDiag => matches!(v, GV::Dec(_) | GV::Disabled),
            K::Fcnt => match v {
                GV::Disabled => true,
                GV::Fout { secs, nanos, .. } => {
                    (*secs, *nanos) <= (8, 388_607_000)
                }
                _ => false,
            },
            K::Com => match v {
                GV::ComOut(o) => o.tx < 4 && o.ack < 4 && o.data.len() <= self.user_len(),
                _ => false,
            },
            _ => true,
        }
    }

    /// Checks that `b` is a correct encoding of `values` (all encodable).
    pub fn check_encoding(&self, values: &[GV], b: &[u8]) -> Result<(), String> {
        assert_eq!(values.len(), self.k.channels());
        if b.len() != self.out_bytes() {
            return Err(format!("{} bytes instead of {}", b.len(), self.out_bytes()));
        }
        let word = |i: usize| u16::from(b[2 * i]) + 256 * u16::from(b[2 * i + 1]);
        match self.k {
            K::Do4 | K::Do42A | K::Do8 | K::Ro4 | K::Do16 => {
                let mut w = 0u16;
                for (i, v) in values.iter().enumerate() {
                    w += u16::from(*v == GV::Bit(true)) << i;
                }
                let got = b.iter().rev().fold(0u16, |a, x| a * 256 + u16::from(*x));
                if w != got {
                    return Err(format!("digital outputs {got:#06x} instead of {w:#06x}"));
                }
            }
            K::Ao | K::AoDiag => {
                for (i, v) in values.iter().enumerate() {
                    let (f, r) = self.fmt_range(i);
                    check_code(v, f, r, word(i)).map_err(|e| format!("channel {i}: {e}"))?;
                }
            }
            K::Fcnt => {
                for (i, v) in values.iter().enumerate() {
                    let (us, ctrl) = match v {
                        GV::Fout { secs, nanos, cmd } => (
                            secs * 1_000_000 + u64::from(*nanos) / 1000,
                            match cmd {
                                None => 0,
                                Some(true) => 0x0100,
                                Some(false) => 0x0200,
                            },
                        ),
                        _ => (0, 0),
                    };
                    let got = u64::from(word(2 * i)) * 65536 + u64::from(word(2 * i + 1));
                    if got != us || word(4 + i) != ctrl {
                        return Err(format!(
                            "channel {i}: {got} us, control {:#06x} instead of {us} us, {ctrl:#06x}",
                            word(4 + i)
                        ));
                    }
                }
            }
            K::Com => {
                if let GV::ComOut(o) = &values[0] {
                    let f = o.frame(self.user_len());
                    if f != b {
                        return Err(format!("frame {b:02x?} instead of {f:02x?}"));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// Makes a module's output bytes a state the device can hold and the
    /// library can write back (serial frame lengths, counter durations).
    pub fn sanitize_out(&self, b: &mut [u8]) {
        match self.k {
            K::Com => b[1] %= self.user_len() as u8 + 1,
            K::Fcnt => {
                for i in 0..2 {
                    b[4 * i + 1] = 0; // high byte of the high word
                    b[4 * i] &= 0x7F;
                    if b[9 + 2 * i] & 3 == 3 {
                        b[9 + 2 * i] &= !1; // start and stop at once is undefined
                    }
                }
            }
            _ => {}
        }
    }

    pub fn sanitize_in(&self, b: &mut [u8]) {
        if self.k == K::Com {
            b[1] %= self.user_len() as u8 + 1;
        }
    }
}

/// Scaled exact position of an analog output value.
pub fn scaled(v: f32, fmt: u16, range: u16) -> f64 {
    match ui_range(range) {
        Some((off, span)) => (f64::from(v) - off) * full_scale(fmt) / span,
        None => 0.0,
    }
}

/// Is `code` a nearest code of `v`? Single-precision rounding of the
/// conversion may move a value by a few hundredths of a code.
pub fn check_code(v: &GV, fmt: u16, range: u16, code: u16) -> Result<(), String> {
    let x = match v {
        GV::Dec(bits) => {
            let f = f32::from_bits(*bits);
            if f.is_nan() {
                return Ok(()); // no nearest code
            }
            scaled(f, fmt, range)
        }
        _ => 0.0,
    };
    let want = x.clamp(-32768.0, 32767.0);
    let c = f64::from(code as i16);
    if (c - want).abs() <= 0.55 {
        Ok(())
    } else {
        Err(format!(
            "{v:?} (format {fmt}, range {range}) is encoded as {c}, exact position {want}"
        ))
    }
}

// ---------------------------------------------------------------- generated values

/// A serialisable channel value.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum GV {
    Bit(bool),
    /// bits of an f32
    Dec(u32),
    Bytes(Vec<u8>),
    Fout {
        secs: u64,
        nanos: u32,
        cmd: Option<bool>,
    },
    Fin {
        nanos: Option<u64>,
        count: u32,
        active: bool,
    },
    ComIn(ComIn),
    ComOut(ComOut),
    Sil(u8),
    Disabled,
    None,
}

impl GV {
    pub fn dec(f: f32) -> GV {
        GV::Dec(f.to_bits())
    }
    pub fn v(&self) -> V {
        match self {
            GV::Bit(b) => V::Bit(*b),
            GV::Dec(b) => V::Decimal32(f32::from_bits(*b)),
            GV::Bytes(b) => V::Bytes(b.clone()),
            GV::Fout { secs, nanos, cmd } => V::FcntOut(fcnt::ProcessOutput {
                duration: Duration::new(*secs, *nanos),
                command: cmd.map(|c| {
                    if c {
                        fcnt::Command::Start
                    } else {
                        fcnt::Command::Stop
                    }
                }),
            }),
            GV::Fin {
                nanos,
                count,
                active,
            } => V::FcntIn(fcnt::ProcessInput {
                duration: nanos.map(Duration::from_nanos),
                count: *count,
                active: *active,
            }),
            GV::ComIn(c) => V::ComRsIn(c.real()),
            GV::ComOut(c) => V::ComRsOut(c.real()),
            GV::Sil(b) => V::SilPFIn(pf::ProcessInput {
                safety_input: b & 1 != 0,
                autostart: b & 2 != 0,
                manual_start: b & 4 != 0,
                safety_input_channel_1: b & 8 != 0,
                safety_input_channel_2: b & 16 != 0,
                volt_24_safe_output: b & 32 != 0,
                volt_24_dc: b & 64 != 0,
            }),
            GV::Disabled => V::Disabled,
            GV::None => V::None,
        }
    }
}

pub fn values(v: &[GV]) -> Vec<V> {
    v.iter().map(GV::v).collect()
}

// ---------------------------------------------------------------- strategies

pub fn any_f32() -> BoxedStrategy<u32> {
    prop_oneof![
        6 => (-11.0f32..21.0).prop_map(f32::to_bits),
        3 => (-40.0f32..40.0).prop_map(f32::to_bits),
        1 => any::<u32>(),
        1 => proptest::sample::select(vec![
            0.0f32, -0.0, 1.0, 2.0, 4.0, 5.0, 10.0, 20.0, -5.0, -10.0, 1e9, -1e9,
            f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::NAN,
        ]).prop_map(f32::to_bits),
        1 => proptest::sample::select(&dict().floats[..]).prop_map(f32::to_bits),
    ]
    .boxed()
}

pub fn fout() -> BoxedStrategy<GV> {
    let cmd = proptest::option::of(any::<bool>());
    prop_oneof![
        4 => (0u64..8, 0u32..1_000_000_000, cmd.clone()).prop_map(|(s, n, c)| GV::Fout { secs: s, nanos: n, cmd: c }),
        2 => (0u32..388_607_001, cmd.clone()).prop_map(|(n, c)| GV::Fout { secs: 8, nanos: n, cmd: c }),
        2 => (0u32..24, -3i64..4, cmd).prop_map(|(sh, d, c)| {
            let us = ((1i64 << sh) + d).clamp(0, 8_388_607);
            GV::Fout { secs: us as u64 / 1_000_000, nanos: (us as u32 % 1_000_000) * 1000, cmd: c }
        }),
        1 => (proptest::sample::select(&dict().ints[..]), 0u32..4, proptest::option::of(any::<bool>())).prop_map(|(n, unit, c)| {
            let ns = n.saturating_mul(1000u64.pow(unit)) % 8_388_607_001;
            GV::Fout { secs: ns / 1_000_000_000, nanos: (ns % 1_000_000_000) as u32, cmd: c }
        }),
    ]
    .boxed()
}

pub fn long_fout() -> BoxedStrategy<GV> {
    let cmd = proptest::option::of(any::<bool>());
    prop_oneof![
        (388_607_001u32..1_000_000_000, cmd.clone()).prop_map(|(n, c)| GV::Fout { secs: 8, nanos: n, cmd: c }),
        (9u64..10_000, 0u32..1_000_000_000, cmd.clone()).prop_map(|(s, n, c)| GV::Fout { secs: s, nanos: n, cmd: c }),
        (any::<u64>(), 0u32..1_000_000_000, cmd).prop_map(|(s, n, c)| GV::Fout { secs: s.max(9), nanos: n, cmd: c }),
    ]
    .boxed()
}

pub fn bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => proptest::collection::vec(any::<u8>(), 0..=max),
        1 => (any::<u64>(), 0..=max).prop_map(|(s, n)| crate::layout::Fill::Special(s).image(n)),
        1 => (any::<u64>(), 0..=max).prop_map(|(s, n)| crate::layout::Fill::Dict(s).image(n)),
    ]
    .boxed()
}

pub fn com_in(user: usize) -> BoxedStrategy<ComIn> {
    (any::<[bool; 3]>(), 0usize..4, 0usize..4, bytes(user))
        .prop_map(|([a, n, r], rx, ack, data)| ComIn {
            avail: a,
            nearly_full: n,
            rx,
            ack,
            ready: r,
            data,
        })
        .boxed()
}

pub fn com_out(user: usize) -> BoxedStrategy<ComOut> {
    (any::<[bool; 4]>(), 0usize..4, 0usize..4, bytes(user))
        .prop_map(|([a, b, c, r], tx, ack, data)| ComOut {
            rx_flush: a,
            tx_flush: b,
            lock: c,
            tx,
            ack,
            reset: r,
            data,
        })
        .boxed()
}

/// Any channel value at all.
pub fn any_value() -> BoxedStrategy<GV> {
    prop_oneof![
        3 => any::<bool>().prop_map(GV::Bit),
        3 => any_f32().prop_map(GV::Dec),
        2 => bytes(40).prop_map(GV::Bytes),
        2 => fout(),
        1 => long_fout(),
        1 => (proptest::option::of(0u64..1 << 40), any::<u32>(), any::<bool>())
            .prop_map(|(nanos, count, active)| GV::Fin { nanos, count, active }),
        1 => com_in(14).prop_map(GV::ComIn),
        2 => (com_out(20), 0usize..6, 0usize..6).prop_map(|(mut o, t, a)| { o.tx = t; o.ack = a; GV::ComOut(o) }),
        1 => any::<u8>().prop_map(GV::Sil),
        1 => Just(GV::Disabled),
        1 => Just(GV::None),
    ]
    .boxed()
}

/// A value the given module can encode on a channel.
pub fn good_value(m: &M) -> BoxedStrategy<GV> {
    match m.k {
        K::Do4 | K::Do42A | K::Do8 | K::Ro4 | K::Do16 => prop_oneof![
            9 => any::<bool>().prop_map(GV::Bit),
            1 => Just(GV::Disabled),
        ]
        .boxed(),
        K::Ao | K::AoDiag => prop_oneof![
            9 => any_f32().prop_map(GV::Dec),
            1 => Just(GV::Disabled),
        ]
        .boxed(),
        K::Fcnt => prop_oneof![9 => fout(), 1 => Just(GV::Disabled)].boxed(),
        K::Com => com_out(m.user_len()).prop_map(GV::ComOut).boxed(),
        _ => Just(GV::None).boxed(),
    }
}

/// Words, half of them at boundaries.
pub fn edge_word() -> BoxedStrategy<u16> {
    prop_oneof![
        4 => any::<u16>(),
        2 => proptest::sample::select(vec![0u16, 1, 0x7FFF, 0x7FFE, 0x8000, 0x8001, 0xFFFF, 16384, 27648, 0x6C01, 0xC000, 0x9400]),
        1 => (0u32..16, 0u16..3).prop_map(|(s, d)| (1u16 << s).wrapping_add(d).wrapping_sub(1)),
        1 => proptest::sample::select(&dict().words[..]),
    ]
    .boxed()
}

/// A documented code for a parameter register.
pub fn reg_value(r: Reg) -> BoxedStrategy<u16> {
    match r {
        Reg::Codes(n) => (0..n).boxed(),
        Reg::Byte => (0u16..256).boxed(),
        Reg::Any => edge_word(),
    }
}

pub fn params(k: K) -> BoxedStrategy<Vec<u16>> {
    let regs = k.registers();
    let alike = any::<u16>().prop_map({
        let regs = regs.clone();
        move |x| {
            regs.iter()
                .map(|g| match g {
                    Reg::Codes(n) => x % n,
                    Reg::Byte => x % 256,
                    Reg::Any => x,
                })
                .collect::<Vec<u16>>()
        }
    });
    prop_oneof![
        12 => regs.into_iter().map(reg_value).collect::<Vec<_>>(),
        1 => alike,
    ]
    .boxed()
}

pub fn module(k: K) -> BoxedStrategy<M> {
    params(k).prop_map(move |p| M { k, p }).boxed()
}

pub fn any_kind() -> BoxedStrategy<K> {
    proptest::sample::select(KINDS).boxed()
}
