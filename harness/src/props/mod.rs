use crate::engine::{Scenario, Tier};
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod mutops;
mod c22;
mod c23;
mod c16;
mod c17;
mod c18;
mod c15;
mod c19;
mod derived;
mod c20;
mod c21;
mod c25;
mod c26;
mod c27;
mod c28;
#[cfg(feature = "macros")]
mod c24;

pub fn scenarios(id: &str, t: Tier) -> Option<Vec<Scenario>> {
    Some(match id {
        "C01" => c01::scenarios(t),
        "C02" => c02::scenarios(t),
        "C03" => c03::scenarios(t),
        "C04" => c04::scenarios(t),
        "C05" => c05::scenarios(t),
        "C06" => c06::scenarios(t),
        "C07" => c07::scenarios(t),
        "C08" => c08::scenarios(t),
        "C09" => c09::scenarios(t),
        "C10" => c10::scenarios(t),
        "C11" => c11::scenarios(t),
        "C12" => c12::scenarios(t),
        "C13" => c13::scenarios(t),
        "C22" => c22::scenarios(t),
        "C23" => c23::scenarios(t),
        "C16" => c16::scenarios(t),
        "C17" => c17::scenarios(t),
        "C18" => c18::scenarios(t),
        "C14" => c14::scenarios(t),
        "C15" => c15::scenarios(t),
        "C19" => c19::scenarios(t),
        "C20" => c20::scenarios(t),
        "C21" => c21::scenarios(t),
        "C25" => c25::scenarios(t),
        "C26" => c26::scenarios(t),
        "C27" => c27::scenarios(t),
        "C28" => c28::scenarios(t),
        #[cfg(feature = "macros")]
        "C24" => c24::scenarios(t),
        _ => return None,
    })
}
