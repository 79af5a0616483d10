pub mod c01;
pub mod c02;
pub mod c03;
pub mod common;
pub mod inputs;
pub mod judged;
pub mod lanes;
pub mod nets;
pub mod outputs;
pub mod steps;
pub mod wide;

use crate::case::Prop;

pub fn all() -> Vec<&'static Prop> {
    vec![&c01::PROP, &c02::PROP, &c03::PROP, &judged::C04, &judged::C05, &judged::C06, &judged::C07, &nets::C08, &judged::C09, &judged::C10, &judged::C11, &outputs::C12, &outputs::C13, &outputs::C14, &inputs::C15, &steps::C16, &lanes::C17]
}

pub fn get(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}
