//! One module per property: the spaces that decide it.
use crate::engine::{Report, Tier};
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
pub mod c20;
mod c21;
mod c22;

pub fn report(id: &str, tier: Tier) -> Option<Report> {
    let (level, spaces, assumptions): (&'static str, _, Vec<&str>) = match id {
        "C01" => c01::spaces(tier),
        "C02" => c02::spaces(tier),
        "C03" => c03::spaces(tier),
        "C04" => c04::spaces(tier),
        "C05" => c05::spaces(tier),
        "C06" => c06::spaces(tier),
        "C07" => c07::spaces(tier),
        "C08" => c08::spaces(tier),
        "C09" => c09::spaces(tier),
        "C10" => c10::spaces(tier),
        "C11" => c11::spaces(tier),
        "C12" => c12::spaces(tier),
        "C14" => c14::spaces(tier),
        "C15" => c15::spaces(tier),
        "C16" => c16::spaces(tier),
        "C17" => c17::spaces(tier),
        "C18" => c18::spaces(tier),
        "C19" => c19::spaces(tier),
        "C20" => c20::spaces(tier),
        "C21" => c21::spaces(tier),
        "C22" => c22::spaces(tier),
        _ => return None,
    };
    let mut a: Vec<String> = vec![
        "the harness's readers, builders and oracles are right".into(),
        "x86-64 Linux, one parser used from one thread at a time (the API is &mut self)".into(),
    ];
    a.extend(assumptions.into_iter().map(String::from));
    Some(Report {
        property: id.into(),
        tier,
        level,
        spaces,
        assumptions: a,
    })
}
pub type Spec = (&'static str, Vec<crate::engine::Space>, Vec<&'static str>);
