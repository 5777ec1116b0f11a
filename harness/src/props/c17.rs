//! C17: coupler setup is consistent for every supported configuration.

use crate::{engine::*, ensure, layout::*, model::*, tables};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::panic::{AssertUnwindSafe, catch_unwind};
use ur20::{
    Address, ModuleType,
    ur20_fbc_mod_tcp::{
        Coupler, CouplerConfig, ModbusParameterRegisterCount, ProcessModbusTcpData, param_addresses_and_register_counts,
    },
};

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Case {
    layout: Layout,
    edit: Edit,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Edit {
    None,
    /// offset list with more or fewer words
    Offsets(i8),
    /// parameter list with more or fewer blocks
    Params(i8),
    /// parameter block of a module cut by n registers
    Short(usize, usize),
    /// undocumented code in a register of a module
    Code(usize, usize, u16),
    /// an unsupported module instead
    Unsupported(usize, usize),
}

fn cases() -> BoxedStrategy<Case> {
    let n = prop_oneof![5 => Just(1usize..=5), 2 => Just(6..=20), 1 => Just(21..=64)];
    n.prop_flat_map(|n| layouts(prop_oneof![any_kind(), mixed_kinds()].boxed(), n, true))
        .prop_flat_map(|l| {
            let n = l.slots.len();
            let edit = prop_oneof![
                10 => Just(Edit::None),
                1 => prop_oneof![-5i8..0, 1i8..6].prop_map(Edit::Offsets),
                1 => prop_oneof![-3i8..0, 1i8..4].prop_map(Edit::Params),
                2 => (0..n, 1usize..40).prop_map(|(m, k)| Edit::Short(m, k)),
                2 => (0..n, 0usize..40, any::<u16>()).prop_map(|(m, r, v)| Edit::Code(m, r, v)),
                1 => (0..n, 0usize..100).prop_map(|(m, k)| Edit::Unsupported(m, k)),
            ];
            (Just(l), edit)
        })
        .prop_map(|(layout, edit)| Case { layout, edit })
        .boxed()
}

/// `None`: the constructor panicked.
fn create(cfg: &CouplerConfig) -> Option<Result<Coupler, ur20::Error>> {
    catch_unwind(AssertUnwindSafe(|| Coupler::new(cfg))).ok()
}

/// The announced process data sizes.
fn sizes(m: &M, real: &dyn ProcessModbusTcpData) -> Result<(), String> {
    let (i, o) = (real.process_input_byte_count(), real.process_output_byte_count());
    ensure!(
        (i, o) == (m.in_bytes(), m.out_bytes()),
        "{:?} announces {i} input and {o} output bytes, expected {} and {}",
        m.k,
        m.in_bytes(),
        m.out_bytes()
    );
    Ok(())
}

fn supported(t: &ModuleType) -> bool {
    KINDS.iter().any(|k| k.module_type() == *t)
}

fn test(c: &Case, st: &mut Stats) -> Result<(), String> {
    let l = &c.layout;
    let mut cfg = l.config();
    let n = cfg.modules.len();
    // what to read from the coupler
    let plan = param_addresses_and_register_counts(&cfg.modules);
    ensure!(plan.len() == n, "{} blocks for {n} modules", plan.len());
    for (i, (s, (addr, cnt))) in l.slots.iter().zip(&plan).enumerate() {
        let need = s.m.k.registers().len();
        ensure!(
            usize::from(*addr) == 0xC000 + 256 * i && usize::from(*cnt) == need,
            "module {i} ({:?}): {cnt} registers at {addr:#06x}, expected {need} at {:#06x}",
            s.m.k,
            0xC000 + 256 * i
        );
        ensure!(
            usize::from(cfg.modules[i].param_register_count()) == need,
            "{:?} needs {need} registers",
            s.m.k
        );
    }
    let rejected = |cfg: &CouplerConfig, what: String, may_panic: bool| match create(cfg) {
        Some(Ok(_)) => Err(format!("coupler created with {what}")),
        Some(Err(_)) => Ok(()),
        None if may_panic => Ok(()),
        None => Err(format!("panic instead of an error with {what}")),
    };
    match &c.edit {
        Edit::None => {}
        Edit::Offsets(d) => {
            st.label("offset list doesn't match");
            cfg.offsets.resize((2 * n as i64 + i64::from(*d)).max(0) as usize, 0xFFFF);
            if cfg.offsets.len() != 2 * n {
                return rejected(&cfg, format!("{} offsets for {n} modules", cfg.offsets.len()), false);
            }
        }
        Edit::Params(d) => {
            st.label("parameter list doesn't match");
            cfg.params.resize((n as i64 + i64::from(*d)).max(0) as usize, vec![]);
            return rejected(&cfg, format!("{} parameter blocks for {n} modules", cfg.params.len()), false);
        }
        Edit::Short(m, k) => {
            let have = cfg.params[*m].len();
            let keep = have.saturating_sub(*k);
            if keep == have {
                // no parameters: anything else is a bad block
                cfg.params[*m] = vec![0; *k];
            } else {
                cfg.params[*m].truncate(keep);
            }
            st.label("parameter block of a wrong size");
            return rejected(
                &cfg,
                format!("a block of {} registers for {:?}", cfg.params[*m].len(), cfg.modules[*m]),
                false,
            );
        }
        Edit::Code(m, r, v) => {
            let regs = l.slots[*m].m.k.registers();
            if !regs.is_empty() {
                let r = r % regs.len();
                if !regs[r].valid(*v) {
                    cfg.params[*m][r] = *v;
                    st.label("undocumented parameter code");
                    return rejected(&cfg, format!("code {v} in register {r} of {:?}", cfg.modules[*m]), false);
                }
            }
        }
        Edit::Unsupported(m, k) => {
            let others: Vec<ModuleType> = tables::rows()
                .into_iter()
                .map(|r| r.t.clone())
                .filter(|t| !supported(t))
                .collect();
            cfg.modules[*m] = others[k % others.len()].clone();
            st.label("unsupported module");
            return rejected(&cfg, format!("unsupported {:?}", cfg.modules[*m]), true);
        }
    }
    let mut real = match create(&cfg) {
        Some(Ok(r)) => r,
        Some(Err(e)) => return Err(format!("valid configuration rejected: {e:?}")),
        None => return Err("panic on a valid configuration".into()),
    };
    for (i, s) in l.slots.iter().enumerate() {
        let com = s.m.k.is_com();
        sizes(&s.m, &*build(s.m.k, &s.m.p).map_err(|e| format!("{e:?}"))?)?;
        ensure!(real.reader(i).is_some() == com, "reader for module {i} ({:?}): {}", s.m.k, !com);
        ensure!(real.writer(i).is_some() == com, "writer for module {i} ({:?}): {}", s.m.k, !com);
        // the channels that exist can be addressed, no others
        let k = s.m.k.channels();
        for ch in 0..k + 3 {
            let a = Address { module: i, channel: ch };
            let r = real.set_output(&a, ur20::ChannelValue::None);
            ensure!(r.is_ok() == (ch < k), "{:?} has {k} channels, request for {ch}: {r:?}", s.m.k);
        }
    }
    for i in [n, n + 1, usize::MAX] {
        ensure!(real.reader(i).is_none() && real.writer(i).is_none(), "reader or writer for slot {i} of {n}");
        let a = Address { module: i, channel: 0 };
        ensure!(real.set_output(&a, ur20::ChannelValue::None).is_err(), "slot {i} of {n} can be addressed");
    }
    // A fresh one, not disturbed by the requests: every slot has its own module.
    let mut real = l.coupler()?;
    let mut i = Fill::Seed(n as u64 * 77 + 1).image(l.in_len());
    let mut o = Fill::Seed(n as u64 * 99 + 2).image(l.out_len());
    l.sanitize_in(&mut i);
    l.sanitize_out(&mut o);
    real.next(&to_words(&i), &to_words(&o)).map_err(|e| format!("cycle failed: {e:?}"))?;
    ensure!(
        real.inputs().len() == n && real.outputs().len() == n,
        "{} and {} value lists for {n} modules",
        real.inputs().len(),
        real.outputs().len()
    );
    let ei = l.expect_in(&i).map_err(|()| "model")?;
    let eo = l.expect_out(&o).map_err(|()| "model")?;
    for (k, s) in l.slots.iter().enumerate() {
        if s.m.k.is_com() {
            ensure!(real.inputs()[k].len() == 1 && real.outputs()[k].len() == 1, "channels of module {k}");
            continue;
        }
        all_agree(&format!("slot {k} ({:?}) inputs", s.m.k), &ei[k], &real.inputs()[k])?;
        all_agree(&format!("slot {k} ({:?}) outputs", s.m.k), &eo[k], &real.outputs()[k])?;
    }
    st.nontrivial();
    st.label_if(n > 20, "more than 20 modules");
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Sweep {
            name: "every-slot-and-kind",
            rule: "each supported module in each of 64 slots behind modules of each other kind: address, register count, reported type and data sizes; every case is non-trivial",
            size: |_| 64 * 18 * 18,
            test: |i| {
                let (slot, k, o) = ((i % 64) as usize, KINDS[(i / 64 % 18) as usize], KINDS[(i / 64 / 18) as usize]);
                let mut t = vec![o.module_type(); slot];
                t.push(k.module_type());
                let plan = param_addresses_and_register_counts(&t);
                ensure!(plan.len() == slot + 1, "{} blocks for {} modules", plan.len(), slot + 1);
                for (j, p) in plan.iter().enumerate() {
                    let kk = if j == slot { k } else { o };
                    let want = ((0xC000 + 256 * j) as u16, kk.registers().len() as u16);
                    ensure!(*p == want, "{kk:?} in slot {j}: {p:?}, expected {want:?}");
                }
                let p: Vec<u16> = k.registers().iter().map(|_| 0).collect();
                let m = build(k, &p).map_err(|e| format!("{k:?}: {e:?}"))?;
                ensure!(m.module_type() == k.module_type(), "{k:?} reports {:?}", m.module_type());
                sizes(&M { k, p }, &*m)?;
                Ok(true)
            },
            describe: |i| serde_json::json!({"slot": i % 64, "module": format!("{:?}", KINDS[(i / 64 % 18) as usize]), "others": format!("{:?}", KINDS[(i / 64 / 18) as usize])}),
        }),
        Box::new(Gen {
            name: "configurations",
            rule: "1 to 64 modules with random valid parameters and placements, in 2 of 5 cases with one defect (list sizes, short block, undocumented code, unsupported module); non-trivial = created and run for a cycle",
            cases: (400_000, 4_000_000),
            strategy: cases,
            test,
        }),
    ]
}
