use crate::engine::Sub;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
pub mod endurance;
pub mod plant;
pub mod serial;

pub fn subs(prop: &str) -> Vec<Box<dyn Sub>> {
    match prop {
        "C01" => c01::subs(),
        "C02" => c02::subs(),
        "C03" => c03::subs(),
        "C04" => c04::subs(),
        "C05" => c05::subs(),
        "C06" => c06::subs(),
        "C07" => c07::subs(),
        "C08" => c08::subs(),
        "C09" => c09::subs(),
        "C10" => c10::subs(),
        "C11" => c11::subs(),
        "C12" => c12::subs(),
        "C13" => c13::subs(),
        "C14" => c14::subs(),
        "C15" => c15::subs(),
        "C16" => c16::subs(),
        "C17" => c17::subs(),
        "C18" => c18::subs(),
        "C19" => c19::subs(),
        "C20" => c20::subs(),
        "C21" => c21::subs(),
        "C22" => c22::subs(),
        _ => vec![],
    }
}

pub fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "the reference model (harness/src/model.rs, tables.rs) states the documented behaviour",
        "the library is built optimised with overflow checks and debug assertions on",
    ];
    match prop {
        "C02" => v.push("only ASCII case variants count as spellings of a name"),
        "C04" => v.push("single-precision rounding: relative error up to 1e-6 of the terms of the conversion"),
        "C05" => v.push("a code within 0.55 of the exact position counts as nearest; NaN has no nearest code"),
        "C07" => v.push("frames with start and stop bit both set are not generated"),
        "C09" | "C10" | "C11" => v.push(
            "the device takes over a segment when the sequence number differs from (or follows) the acknowledged one, and presents a new segment only after the previous one was acknowledged",
        ),
        "C13" => v.push("modules do not overlap in the output image"),
        "C18" => v.push("an unsupported module type given to Coupler::new may panic (documented), sequence numbers of received messages are 0..3"),
        _ => {}
    }
    v
}
