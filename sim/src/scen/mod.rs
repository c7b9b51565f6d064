use crate::engine::Scenario;

pub mod alias;
pub mod asym;
pub mod ciph;
pub mod dig;
pub mod dss;
pub mod ecdh;
pub mod modeobj;
pub mod modeiv;
pub mod modes;
pub mod rsaenc;
pub mod rsakey;
pub mod rsasig;
pub mod sess;

pub fn all() -> Vec<Box<dyn Scenario>> {
    vec![
        Box::new(dig::D01),
        Box::new(dig::D02),
        Box::new(dig::D03),
        Box::new(sess::D04),
        Box::new(dig::M01),
        Box::new(dig::M02),
        Box::new(dig::M03),
        Box::new(sess::Z01),
        Box::new(modes::C01),
        Box::new(modes::C02),
        Box::new(modes::C03),
        Box::new(modes::C04),
        Box::new(modes::C05),
        Box::new(modeiv::C06),
        Box::new(modeiv::C07),
        Box::new(sess::B01),
        Box::new(alias::K01),
        Box::new(rsaenc::R01),
        Box::new(rsaenc::R02),
        Box::new(rsasig::R03),
        Box::new(rsasig::R04),
        Box::new(rsakey::R05),
        Box::new(rsakey::R06),
        Box::new(dss::S01),
        Box::new(dss::S02),
        Box::new(dss::S03),
        Box::new(ecdh::S04),
        Box::new(ecdh::S05),
        Box::new(ecdh::S06),
    ]
}
