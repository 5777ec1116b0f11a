//! C21: default module objects are complete and neutral.

use crate::{engine::*, ensure, layout::*, model::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use ur20::{
    ur20_1com_232_485_422 as com, ur20_2fcnt_100 as fcnt, ur20_4ai_rtd_diag as rtd,
    ur20_4ai_tc_diag as tc, ur20_4ai_ui_16_diag as uidiag, ur20_4ao_ui_16 as ao, ur20_4ao_ui_16_diag as aodiag,
    ur20_4ro_co_255 as ro, ur20_8ai_i_16_diag_hd as i8hd, ur20_16do_p as do16, ur20_ai_ui_generic as aig,
    ur20_di_generic as dig, ur20_do_generic as dog, ur20_pf_o_1di_sil as pf, ur20_fbc_mod_tcp::ProcessModbusTcpData,
};

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Case {
    k: K,
    fill: Fill,
    values: Vec<GV>,
}

/// The default object and its number of channel settings, if it has any.
fn default_of(k: K) -> (Box<dyn ProcessModbusTcpData>, Option<usize>) {
    macro_rules! d {
        ($t:ty) => {{
            let m = <$t>::default();
            let n = m.ch_params.len();
            (Box::new(m) as Box<dyn ProcessModbusTcpData>, Some(n))
        }};
    }
    match k {
        K::Di4 => d!(dig::Mod<dig::UR20_4DI_P>),
        K::Di8 => d!(dig::Mod<dig::UR20_8DI_P_2W>),
        K::Do4 => d!(dog::Mod<dog::UR20_4DO_P>),
        K::Do42A => d!(dog::Mod<dog::UR20_4DO_P_2A>),
        K::Do8 => d!(dog::Mod<dog::UR20_8DO_P>),
        K::Do16 => (Box::<do16::Mod>::default(), None),
        K::Ro4 => d!(ro::Mod),
        K::Ao => d!(ao::Mod),
        K::AoDiag => d!(aodiag::Mod),
        K::Rtd => d!(rtd::Mod),
        K::Tc => d!(tc::Mod),
        K::UiDiag => d!(uidiag::Mod),
        K::Ui12 => d!(aig::Mod<aig::UR20_4AI_UI_12>),
        K::Ui16 => d!(aig::Mod<aig::UR20_4AI_UI_16>),
        K::I8 => d!(i8hd::Mod),
        K::Fcnt => d!(fcnt::Mod),
        K::Com => d!(com::Mod),
        K::Pf => (Box::<pf::Mod>::default(), None),
    }
}

/// Parameters with the behaviour expected of the default object: all analog
/// channels disabled, long serial frames.
fn neutral(k: K) -> M {
    let mut p = vec![0; k.registers().len()];
    match k {
        K::Ao => (0..4).for_each(|i| p[3 * i + 1] = 8),
        K::AoDiag => (0..4).for_each(|i| p[4 * i + 1] = 8),
        K::UiDiag => (0..4).for_each(|i| p[5 * i + 5] = 8),
        K::Ui12 | K::Ui16 => (0..4).for_each(|i| p[2 * i + 2] = 8),
        K::I8 => (0..8).for_each(|i| p[4 * i + 4] = 2),
        K::Rtd => (0..4).for_each(|i| p[7 * i + 1] = 18),
        K::Tc => (0..4).for_each(|i| p[7 * i + 1] = 19),
        K::Com => p[0] = 1,
        _ => {}
    }
    M { k, p }
}

fn cases() -> BoxedStrategy<Case> {
    any_kind()
        .prop_flat_map(|k| {
            let m = neutral(k);
            let one = prop_oneof![6 => good_value(&m), 1 => any_value()];
            let n = k.channels();
            let v = prop_oneof![
                12 => proptest::collection::vec(good_value(&m), n),
                2 => proptest::collection::vec(one, n),
                1 => proptest::collection::vec(good_value(&m), 0..20),
            ];
            (Just(k), fill(), v)
        })
        .prop_map(|(k, fill, values)| Case { k, fill, values })
        .boxed()
}

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    let (k, m) = (c.k, neutral(c.k));
    let (d, settings) = default_of(k);
    let n = k.channels();
    ensure!(d.module_type() == k.module_type(), "the default {k:?} is a {:?}", d.module_type());
    if let Some(s) = settings {
        ensure!(s == n, "the default {k:?} has settings for {s} of {n} channels");
    }
    let sizes = (d.process_input_byte_count(), d.process_output_byte_count());
    ensure!(
        sizes == (m.in_bytes(), m.out_bytes()),
        "the default {k:?} announces {sizes:?} bytes, expected {} and {}",
        m.in_bytes(),
        m.out_bytes()
    );
    // any process data of that size
    let mut i = c.fill.image(m.in_bytes());
    let mut o = c.fill.image(m.out_bytes());
    if !i.is_empty() {
        m.sanitize_in(&mut i);
    }
    if !o.is_empty() {
        m.sanitize_out(&mut o);
    }
    let v = d
        .process_input_data(&to_words(&i))
        .map_err(|e| format!("the default {k:?} doesn't accept its input data: {e:?}"))?;
    all_agree(&format!("inputs of the default {k:?}"), &m.decode_in(&i).map_err(|()| "model")?, &v)?;
    let v = d
        .process_output_data(&to_words(&o))
        .map_err(|e| format!("the default {k:?} doesn't accept its output data: {e:?}"))?;
    all_agree(&format!("outputs of the default {k:?}"), &m.decode_out(&o).map_err(|()| "model")?, &v)?;
    // values
    let fits = c.values.len() == n && c.values.iter().all(|v| m.encodable(v));
    match d.process_output_values(&values(&c.values)) {
        Ok(w) => {
            if k.has_outputs() {
                ensure!(fits, "the default {k:?} encodes {:?}", c.values);
                let mut b = to_bytes(&w);
                ensure!(b.len() == even(m.out_bytes()), "{} bytes encoded", b.len());
                ensure!(b[m.out_bytes()..].iter().all(|x| *x == 0), "stray bytes {b:02x?}");
                b.truncate(m.out_bytes());
                if matches!(k, K::Ao | K::AoDiag) {
                    ensure!(b.iter().all(|x| *x == 0), "disabled outputs encoded as {b:02x?}");
                }
                m.check_encoding(&c.values, &b)?;
                st.label("encoded");
            } else {
                ensure!(w.is_empty(), "{k:?} without outputs encodes {w:04x?}");
            }
        }
        Err(e) => ensure!(!fits, "the default {k:?} doesn't encode {:?}: {e:?}", c.values),
    }
    // default messages request nothing
    let w = match k {
        K::Fcnt => d.process_output_values(&[fcnt::ProcessOutput::default().into(), fcnt::ProcessOutput::default().into()]),
        K::Com => d.process_output_values(&[ur20::ChannelValue::ComRsOut(com::ProcessOutput::default())]),
        _ => Ok(vec![]),
    };
    ensure!(
        w.as_ref().is_ok_and(|w| w.iter().all(|x| *x == 0)),
        "default output values of {k:?} are encoded as {w:04x?}"
    );
    st.nontrivial_if(m.in_bytes() + m.out_bytes() > 0);
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![Box::new(Gen {
        name: "defaults",
        rule: "the default object of each supported module with any process data and value lists; every case is non-trivial (every module has process data)",
        cases: (2_000_000, 6_000_000),
        strategy: cases,
        test,
    })]
}
