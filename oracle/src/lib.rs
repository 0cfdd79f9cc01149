#![allow(unused_variables, unused_parens, dead_code)]
pub mod gen;
pub mod prelude;
pub mod prop;
pub mod spec {
    use crate::prelude::*;
    include!(concat!(env!("OUT_DIR"), "/spec.rs"));
}
