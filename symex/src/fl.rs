//! Accuracy scenarios (C29): obligations about rounded results, and the number type of their
//! native replays (single precision next to the exact value of the same formula).
use crate::env::{Env, NumEnv, SymEnv};
use crate::sym::{Event, Sym, ST};
use core::cmp::Ordering;
use core::ops::*;
use minikalman::matrix::MatrixDataType;
use std::collections::HashMap;

pub trait FlEnv: Env {
    /// an input assumed to be >= 0
    fn nonneg(&mut self, name: &str) -> Self::T;
    /// the computed (rounded) value as a number of its own
    fn rounded(&mut self, name: &str, a: Self::T) -> Self::T;
    /// |computed got - exact sum of the terms| <= k u sum |terms|
    fn accurate(&mut self, name: &str, got: Self::T, terms: &[Self::T], k: i64);
    /// |exact sum of the terms| <= k u sum |terms|, where the terms are made of computed values:
    /// entry `got` over pivot `pivot` (or the pivot itself) of a factor
    fn residual(&mut self, name: &str, got: Self::T, pivot: Self::T, terms: &[Self::T], k: i64);
}

impl FlEnv for SymEnv {
    fn nonneg(&mut self, name: &str) -> Sym {
        let v = Sym::var(name);
        ST.with(|s| s.borrow_mut().events.push(Event::Assume("le", 0, v.0)));
        v
    }
    fn rounded(&mut self, name: &str, a: Sym) -> Sym {
        let v = Sym::var(&format!("computed {name}"));
        ST.with(|s| s.borrow_mut().events.push(Event::Alias(v.0, a.0)));
        v
    }
    fn accurate(&mut self, name: &str, got: Sym, terms: &[Sym], k: i64) {
        let t = terms.iter().map(|x| x.0).collect();
        ST.with(|s| s.borrow_mut().events.push(Event::Terms(name.to_string(), got.0, t, k)));
    }
    fn residual(&mut self, name: &str, got: Sym, pivot: Sym, terms: &[Sym], k: i64) {
        let t = terms.iter().map(|x| x.0).collect();
        ST.with(|s| s.borrow_mut().events.push(Event::Resid(name.to_string(), got.0, pivot.0, t, k)));
    }
}

#[derive(Copy, Clone, Debug, Default)]
pub struct Fl {
    pub v: f32,
    pub exact: f64,
}
thread_local! {
    static LEFT_RANGE: core::cell::Cell<bool> = const { core::cell::Cell::new(false) };
}
impl Fl {
    pub fn new(x: f64) -> Fl {
        Fl { v: x as f32, exact: x as f32 as f64 }
    }
    /// note overflow and underflow, which are outside the claim
    fn op(v: f32, exact: f64, vanishes: bool) -> Fl {
        if !v.is_finite() || v.is_subnormal() || (v == 0.0 && vanishes) {
            LEFT_RANGE.with(|o| o.set(true));
        }
        Fl { v, exact }
    }
}
impl Add for Fl { type Output = Fl; fn add(self, o: Fl) -> Fl { Fl::op(self.v + o.v, self.exact + o.exact, false) } }
impl Sub for Fl { type Output = Fl; fn sub(self, o: Fl) -> Fl { Fl::op(self.v - o.v, self.exact - o.exact, false) } }
impl Mul for Fl { type Output = Fl; fn mul(self, o: Fl) -> Fl { Fl::op(self.v * o.v, self.exact * o.exact, self.v != 0.0 && o.v != 0.0) } }
impl Div for Fl { type Output = Fl; fn div(self, o: Fl) -> Fl { Fl::op(self.v / o.v, self.exact / o.exact, self.v != 0.0) } }
impl AddAssign for Fl { fn add_assign(&mut self, o: Fl) { *self = *self + o } }
impl SubAssign for Fl { fn sub_assign(&mut self, o: Fl) { *self = *self - o } }
impl Neg for Fl { type Output = Fl; fn neg(self) -> Fl { Fl { v: -self.v, exact: -self.exact } } }
impl PartialEq for Fl { fn eq(&self, o: &Fl) -> bool { self.v == o.v } }
impl PartialOrd for Fl { fn partial_cmp(&self, o: &Fl) -> Option<Ordering> { self.v.partial_cmp(&o.v) } }
impl core::iter::Sum for Fl { fn sum<I: Iterator<Item = Fl>>(i: I) -> Fl { i.fold(Fl::new(0.0), |a, b| a + b) } }
impl num_traits::Zero for Fl {
    fn zero() -> Fl { Fl::new(0.0) }
    fn is_zero(&self) -> bool { self.v == 0.0 }
}
impl num_traits::One for Fl { fn one() -> Fl { Fl::new(1.0) } }
impl num_traits::FromPrimitive for Fl {
    fn from_i64(n: i64) -> Option<Fl> { Some(Fl::new(n as f64)) }
    fn from_u64(n: u64) -> Option<Fl> { Some(Fl::new(n as f64)) }
    fn from_f64(n: f64) -> Option<Fl> { Some(Fl { v: n as f32, exact: n }) }
}
impl MatrixDataType for Fl {
    fn recip(self) -> Fl { Fl::op(<f32 as MatrixDataType>::recip(self.v), 1.0 / self.exact, true) }
    fn square_root(self) -> Fl { Fl::op(<f32 as MatrixDataType>::square_root(self.v), self.exact.sqrt(), false) }
}
impl NumEnv<Fl> {
    pub fn native(values: HashMap<String, f64>) -> Self {
        LEFT_RANGE.with(|o| o.set(false));
        NumEnv { values, from: Fl::new, to: |x| x.v as f64, tol: 0.0, failed: vec![], assumptions: vec![], checked: 0, results: vec![] }
    }
    fn compare(&mut self, name: &str, got: f64, terms: &[Fl], k: i64, shown: f64) {
        self.checked += 1;
        if LEFT_RANGE.with(|o| o.get()) {
            self.assumptions.push(format!("{name}: a value overflows or underflows"));
            return;
        }
        let (sum, mass): (f64, f64) = terms.iter().fold((0.0, 0.0), |(s, m), t| (s + t.exact, m + t.exact.abs()));
        self.results.push((name.to_string(), got, sum));
        // the reference itself is rounded in double precision
        let tol = mass * (k as f64 / (1u64 << 24) as f64 + 1e-12);
        if !((got - sum).abs() <= tol) {
            self.failed.push(format!("{name}: computed {shown}, off by {:e}, allowed {tol:e} ({k} roundings of the terms' total {mass})", (got - sum).abs()));
        }
    }
}
impl FlEnv for NumEnv<Fl> {
    fn nonneg(&mut self, name: &str) -> Fl {
        let v = self.var(name);
        Fl { v: v.v.abs(), exact: v.exact.abs() }
    }
    fn rounded(&mut self, _name: &str, a: Fl) -> Fl {
        Fl { v: a.v, exact: a.v as f64 }
    }
    fn accurate(&mut self, name: &str, got: Fl, terms: &[Fl], k: i64) {
        self.compare(name, got.v as f64, terms, k, got.v as f64);
    }
    fn residual(&mut self, name: &str, got: Fl, _pivot: Fl, terms: &[Fl], k: i64) {
        self.compare(name, 0.0, terms, k, got.v as f64);
    }
}
