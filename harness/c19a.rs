//@ unit
//! C19 over a complete eight-bit address space.
use crate::a8::*;
use crate::c19::from_mask;
harnesses! {
    vf_h_c19_a8_from { from_mask::<A8>() }
}
