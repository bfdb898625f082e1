//! Fixed-point scenarios (C24): the environment interface for rounding-aware
//! obligations, and the number type of their native replays.
use crate::env::{Env, NumEnv, SymEnv};
use crate::sym::{Event, Sym, ST};
use core::cmp::Ordering;
use core::ops::*;
use fixed_lib::types::I16F16;
use std::collections::HashMap;

/// Everything `Env` obligates is about exact numbers; these are about rounded ones.
pub trait FxEnv: Env {
    /// assumption: the exact value has magnitude at most n/d
    fn given(&mut self, a: Self::T, n: i64, d: i64);
    /// assumption: the exact value is at least n/d
    fn given_min(&mut self, a: Self::T, n: i64, d: i64);
    /// the computed (rounded) value as a number of its own
    fn rounded(&mut self, name: &str, a: Self::T) -> Self::T;
    fn abs(&mut self, a: Self::T) -> Self::T;
    /// k units in the last place
    fn units(&mut self, k: i64) -> Self::T;
    /// |computed got - exact want| <= tol, and nothing overflowed on the way to got
    fn within(&mut self, name: &str, got: Self::T, want: Self::T, tol: Self::T);
    /// run library code: nothing it computes may overflow, whether or not it is used
    fn real<R>(&mut self, f: impl FnOnce() -> R) -> R;
    /// |exact d| <= exact tol
    fn small(&mut self, name: &str, d: Self::T, tol: Self::T);
}

impl FxEnv for SymEnv {
    fn given(&mut self, a: Sym, n: i64, d: i64) {
        ST.with(|s| s.borrow_mut().events.push(Event::Given("abs", a.0, n, d)));
    }
    fn given_min(&mut self, a: Sym, n: i64, d: i64) {
        ST.with(|s| s.borrow_mut().events.push(Event::Given("min", a.0, n, d)));
    }
    fn rounded(&mut self, name: &str, a: Sym) -> Sym {
        let v = Sym::var(&format!("computed {name}"));
        ST.with(|s| s.borrow_mut().events.push(Event::Alias(v.0, a.0)));
        v
    }
    fn abs(&mut self, a: Sym) -> Sym {
        let v = Sym::var(&format!("|{}|", a.0));
        ST.with(|s| s.borrow_mut().events.push(Event::Abs(v.0, a.0)));
        v
    }
    fn units(&mut self, k: i64) -> Sym {
        Sym::rat(k as i128, 65536)
    }
    fn within(&mut self, name: &str, got: Sym, want: Sym, tol: Sym) {
        ST.with(|s| s.borrow_mut().events.push(Event::Within(name.to_string(), got.0, want.0, tol.0)));
    }
    fn real<R>(&mut self, f: impl FnOnce() -> R) -> R {
        ST.with(|s| s.borrow_mut().record = true);
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                ST.with(|s| s.borrow_mut().record = false);
            }
        }
        let _off = Off;
        f()
    }
    fn small(&mut self, name: &str, d: Sym, tol: Sym) {
        ST.with(|s| s.borrow_mut().events.push(Event::Small(name.to_string(), d.0, tol.0)));
    }
}

/// What the 16.16 arithmetic computes, next to the exact value of the same formula.
/// `fix` is `None` after an overflow (where `I16F16` itself would panic or wrap).
#[derive(Copy, Clone, Debug, Default)]
pub struct Fx {
    pub fix: Option<I16F16>,
    pub exact: f64,
}
thread_local! {
    static OVERFLOWED: core::cell::Cell<bool> = const { core::cell::Cell::new(false) };
}
/// take note where I16F16 itself panics
fn fits(x: Option<I16F16>) -> Option<I16F16> {
    if x.is_none() {
        OVERFLOWED.with(|o| o.set(true));
    }
    x
}
impl Fx {
    pub fn new(x: f64) -> Fx {
        let g = (x * 65536.0).round() / 65536.0;
        Fx { fix: I16F16::checked_from_num(g), exact: g }
    }
    fn both(self, o: Fx, f: impl Fn(I16F16, I16F16) -> Option<I16F16>, exact: f64) -> Fx {
        Fx { fix: match (self.fix, o.fix) { (Some(a), Some(b)) => fits(f(a, b)), _ => None }, exact }
    }
}
impl Add for Fx { type Output = Fx; fn add(self, o: Fx) -> Fx { self.both(o, |a, b| a.checked_add(b), self.exact + o.exact) } }
impl Sub for Fx { type Output = Fx; fn sub(self, o: Fx) -> Fx { self.both(o, |a, b| a.checked_sub(b), self.exact - o.exact) } }
impl Mul for Fx { type Output = Fx; fn mul(self, o: Fx) -> Fx { self.both(o, |a, b| a.checked_mul(b), self.exact * o.exact) } }
impl Div for Fx { type Output = Fx; fn div(self, o: Fx) -> Fx { self.both(o, |a, b| a.checked_div(b), self.exact / o.exact) } }
impl AddAssign for Fx { fn add_assign(&mut self, o: Fx) { *self = *self + o } }
impl SubAssign for Fx { fn sub_assign(&mut self, o: Fx) { *self = *self - o } }
impl Neg for Fx { type Output = Fx; fn neg(self) -> Fx { Fx { fix: self.fix.and_then(|a| fits(a.checked_neg())), exact: -self.exact } } }
impl PartialEq for Fx { fn eq(&self, o: &Fx) -> bool { self.partial_cmp(o) == Some(Ordering::Equal) } }
impl PartialOrd for Fx {
    fn partial_cmp(&self, o: &Fx) -> Option<Ordering> {
        match (self.fix, o.fix) { (Some(a), Some(b)) => a.partial_cmp(&b), _ => self.exact.partial_cmp(&o.exact) }
    }
}
impl core::iter::Sum for Fx { fn sum<I: Iterator<Item = Fx>>(i: I) -> Fx { i.fold(Fx::new(0.0), |a, b| a + b) } }
impl num_traits::Zero for Fx {
    fn zero() -> Fx { Fx::new(0.0) }
    fn is_zero(&self) -> bool { *self == Fx::new(0.0) }
}
impl num_traits::One for Fx { fn one() -> Fx { Fx::new(1.0) } }
impl num_traits::FromPrimitive for Fx {
    fn from_i64(n: i64) -> Option<Fx> { Some(Fx::new(n as f64)) }
    fn from_u64(n: u64) -> Option<Fx> { Some(Fx::new(n as f64)) }
    fn from_f64(n: f64) -> Option<Fx> { Some(Fx::new(n)) }
}
impl minikalman::matrix::MatrixDataType for Fx {
    fn recip(self) -> Fx { Fx { fix: self.fix.and_then(|a| fits(I16F16::ONE.checked_div(a))), exact: 1.0 / self.exact } }
    fn square_root(self) -> Fx {
        // the real implementation, where it does not panic
        let fix = self.fix.and_then(|a| if a < I16F16::ZERO { fits(None) } else { Some(<I16F16 as minikalman::matrix::MatrixDataType>::square_root(a)) });
        Fx { fix, exact: self.exact.sqrt() }
    }
}
impl NumEnv<Fx> {
    pub fn native(values: HashMap<String, f64>) -> Self {
        NumEnv { values, from: Fx::new, to: |x| x.fix.map(|f| f.to_num::<f64>()).unwrap_or(f64::NAN), tol: 0.0, failed: vec![], assumptions: vec![], checked: 0, results: vec![] }
    }
}
impl FxEnv for NumEnv<Fx> {
    fn given(&mut self, a: Fx, n: i64, d: i64) {
        if !(a.exact.abs() <= n as f64 / d as f64) {
            self.assumptions.push(format!("|{}| <= {n}/{d}", a.exact));
        }
    }
    fn given_min(&mut self, a: Fx, n: i64, d: i64) {
        if !(a.exact >= n as f64 / d as f64) {
            self.assumptions.push(format!("{} >= {n}/{d}", a.exact));
        }
    }
    fn rounded(&mut self, _name: &str, a: Fx) -> Fx {
        Fx { fix: a.fix, exact: a.fix.map(|f| f.to_num::<f64>()).unwrap_or(f64::NAN) }
    }
    fn abs(&mut self, a: Fx) -> Fx {
        Fx { fix: a.fix.and_then(|f| f.checked_abs()), exact: a.exact.abs() }
    }
    fn units(&mut self, k: i64) -> Fx {
        Fx::new(k as f64 / 65536.0)
    }
    fn real<R>(&mut self, f: impl FnOnce() -> R) -> R {
        OVERFLOWED.with(|o| o.set(false));
        let r = f();
        if OVERFLOWED.with(|o| o.get()) {
            self.failed.push("an intermediate result overflows".to_string());
        }
        r
    }
    fn small(&mut self, name: &str, d: Fx, tol: Fx) {
        self.checked += 1;
        if !(d.exact.abs() <= tol.exact + 1e-9) {
            self.failed.push(format!("{name}: {} exceeds {}", d.exact, tol.exact));
        }
    }
    fn within(&mut self, name: &str, got: Fx, want: Fx, tol: Fx) {
        self.checked += 1;
        match got.fix {
            None => self.failed.push(format!("{name}: overflow, the exact result is {}", want.exact)),
            Some(f) => {
                let g: f64 = f.to_num();
                self.results.push((name.to_string(), g, want.exact));
                if !((g - want.exact).abs() <= tol.exact + 1e-9) {
                    self.failed.push(format!("{name}: computed {g}, exact {}, allowed deviation {}", want.exact, tol.exact));
                }
            }
        }
    }
}
