//! Entry points of the number types' reciprocal and square root (C22), one symbol each.
#[cfg(feature = "fixed")]
pub use f::*;
use minikalman::matrix::MatrixDataType as M;
#[no_mangle]
#[inline(never)]
pub fn vp_f32_recip(x: f32) -> f32 {
    M::recip(x)
}
#[no_mangle]
#[inline(never)]
pub fn vp_f32_sqrt(x: f32) -> f32 {
    M::square_root(x)
}
#[no_mangle]
#[inline(never)]
pub fn vp_f64_recip(x: f64) -> f64 {
    M::recip(x)
}
#[no_mangle]
#[inline(never)]
pub fn vp_f64_sqrt(x: f64) -> f64 {
    M::square_root(x)
}
#[cfg(feature = "fixed")]
mod f {
    use super::M;
    use fixed::types::*;
    #[no_mangle]
    #[inline(never)]
    pub fn vp_i16f16_recip(x: i32) -> i32 {
        M::recip(I16F16::from_bits(x)).to_bits()
    }
    #[no_mangle]
    #[inline(never)]
    pub fn vp_i16f16_sqrt(x: i32) -> i32 {
        M::square_root(I16F16::from_bits(x)).to_bits()
    }
    #[no_mangle]
    #[inline(never)]
    pub fn vp_i32f32_recip(x: i64) -> i64 {
        M::recip(I32F32::from_bits(x)).to_bits()
    }
    #[no_mangle]
    #[inline(never)]
    pub fn vp_i32f32_sqrt(x: i64) -> i64 {
        M::square_root(I32F32::from_bits(x)).to_bits()
    }
}
