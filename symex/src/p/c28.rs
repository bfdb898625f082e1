//! C28: numeric trouble never makes an operation panic, hang or touch its inputs.
//!
//! The scenarios of the other properties are run again with every value an
//! arbitrary floating-point number (NaN and infinities included) and every
//! comparison possibly unordered.  Filter steps (C07's scenarios) must also leave
//! every input as it was, bit for bit; everywhere else only panics count.
use crate::env::Contents;
use crate::harness::{any, Scenario};

pub fn scenarios() -> Vec<Scenario> {
    let mut v: Vec<Scenario> = super::c07::base().into_iter().map(|s| any(s, Contents::Any)).collect();
    for s in [super::c12::base(), super::c13::base(), super::c14::scenarios(), super::c15::base(),
              super::c16::base(), super::c17::base(), super::c18::base()] {
        v.extend(s.into_iter().map(|s| any(s, Contents::AnyPanics)));
    }
    v
}
