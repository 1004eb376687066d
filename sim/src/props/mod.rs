use crate::core::PropFn;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c12m;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod newtx;

pub struct Property {
    pub id: &'static str,
    pub run: PropFn,
    pub quick: u64,
    pub thorough: u64,
    pub probes: &'static [(&'static str, PropFn)],
    pub state_rule: &'static str,
    pub must_reach: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub fn all() -> Vec<Property> {
    vec![c01::PROPERTY, c02::PROPERTY, c03::PROPERTY, c04::PROPERTY, c05::PROPERTY, c06::PROPERTY, c07::PROPERTY,
    c08::PROPERTY, c09::PROPERTY, c10::PROPERTY, c11::PROPERTY, c12::PROPERTY, c13::PROPERTY, c14::PROPERTY, c15::PROPERTY]
}
