use crate::core::{Property, Scenario};
use std::sync::OnceLock;

pub mod codec;
pub mod conn;
pub mod ends;
pub mod frag;
pub mod heap;
pub mod hostile;
pub mod peer;
pub mod rate;
pub mod stall;
pub mod stream;

pub fn sc(name: &'static str, quick: u64, thorough: u64, f: fn(&mut crate::core::Ctx)) -> Scenario {
    Scenario { name, quick, thorough, f }
}

pub fn all() -> &'static Vec<Property> {
    static ALL: OnceLock<Vec<Property>> = OnceLock::new();
    ALL.get_or_init(|| vec![stream::c01(), stream::c02(), hostile::c03(), frag::c04(), stream::c05(), frag::c06(), conn::c07(), conn::c08(), conn::c09(), conn::c10(), stall::c11(), peer::c12(), rate::c14(), peer::c15(), codec::c16(), heap::c19(), conn::c17(), conn::c18(), stream::c13(), stream::c20()])
}

pub fn find(id: &str) -> &'static Property {
    all().iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {}", id))
}
