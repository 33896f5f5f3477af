use crate::runner::*;
use std::sync::Arc;

macro_rules! case {
    ($j:expr) => {
        match serde_json::from_str($j) {
            Ok(c) => c,
            Err(e) => {
                return crate::runner::Outcome {
                    error: Some(format!("bad case: {e}")),
                    evals: 1,
                    ..Default::default()
                }
            }
        }
    };
}

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;

pub fn get(id: &str) -> Option<PropBox> {
    Some(match id {
        "C01" => Arc::new(c01::C01),
        "C02" => Arc::new(c02::C02),
        "C03" => Arc::new(c03::C03),
        "C04" => Arc::new(c04::C04),
        "C05" => Arc::new(c05::C05),
        "C06" => Arc::new(c06::C06),
        "C07" => Arc::new(c07::C07),
        "C08" => Arc::new(c08::C08),
        "C09" => Arc::new(c09::C09),
        "C10" => Arc::new(c10::C10),
        "C11" => Arc::new(c11::C11),
        "C12" => Arc::new(c12::C12),
        "C13" => Arc::new(c13::C13),
        "C14" => Arc::new(c14::C14),
        "C15" => Arc::new(c15::C15),
        "C16" => Arc::new(c16::C16),
        _ => return None,
    })
}

pub fn extra_command(cmd: &str, args: &[String]) -> bool {
    match cmd {
        "mkref" => c14::mkref(std::path::Path::new(&args[0]), args[1].parse().unwrap()),
        "zygote9" => crate::trace::zygote_main(c09::create),
        _ => return false,
    }
    true
}
