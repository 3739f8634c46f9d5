//@ unit
//! C17 over a complete eight-bit address space.
use crate::a8::*;
use crate::c17::pair;
harnesses! {
    vf_h_c17_a8_pair { pair::<A8>(false, false) }
}
