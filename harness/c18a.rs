//@ unit
//! C18 over a complete eight-bit address space.
use crate::a8::*;
use crate::c18::both;
harnesses! {
    vf_h_c18_a8 { both::<A8>(window_mask::<A8>(1)) }
}
