//@ prelude
pub mod rng {
use vstd::prelude::*;
// TRUSTED: rand::XorShiftRng is a source of arbitrary u32 values (nothing is assumed about them)
pub struct XorShiftRng { pub x: u64 }
impl XorShiftRng {
    #[verifier::external_body]
    pub fn new_unseeded() -> (r: XorShiftRng) { XorShiftRng { x: 0 } }
    #[verifier::external_body]
    pub fn next_u32(&mut self) -> (r: u32) { 0 }
}
}
//@ use rand::XorShiftRng => crate::rng::XorShiftRng
//@ use rand::Rng => -
