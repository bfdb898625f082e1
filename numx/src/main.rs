//! native replay: `numx <function> <operand bits, hex>` prints the bits of the result, or PANIC
use numx::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = a[1].clone();
    let x = u64::from_str_radix(&a[2], 16).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(move || match f.as_str() {
        "vp_f32_recip" => vp_f32_recip(f32::from_bits(x as u32)).to_bits() as u64,
        "vp_f32_sqrt" => vp_f32_sqrt(f32::from_bits(x as u32)).to_bits() as u64,
        "vp_f64_recip" => vp_f64_recip(f64::from_bits(x)).to_bits(),
        "vp_f64_sqrt" => vp_f64_sqrt(f64::from_bits(x)).to_bits(),
        #[cfg(feature = "fixed")]
        "vp_i16f16_recip" => vp_i16f16_recip(x as u32 as i32) as u32 as u64,
        #[cfg(feature = "fixed")]
        "vp_i16f16_sqrt" => vp_i16f16_sqrt(x as u32 as i32) as u32 as u64,
        #[cfg(feature = "fixed")]
        "vp_i32f32_recip" => vp_i32f32_recip(x as i64) as u64,
        #[cfg(feature = "fixed")]
        "vp_i32f32_sqrt" => vp_i32f32_sqrt(x as i64) as u64,
        _ => panic!("unknown function"),
    });
    match r {
        Ok(v) => println!("{v:x}"),
        Err(_) => println!("PANIC"),
    }
}
