//! The scenario environment: where inputs come from and where obligations go.
//! Every scenario is written once, generic over `Env`, and is run with
//! `SymEnv` (symbolic, for the solver) and `NumEnv<T>` (native numbers, for
//! replaying a counterexample against the real code).

use crate::sym::{Event, Sym, ST};
use minikalman::matrix::MatrixDataType;
use std::collections::HashMap;

pub trait Env {
    type T: MatrixDataType + Default + core::fmt::Debug + 'static;
    /// A fresh unconstrained input.
    fn var(&mut self, name: &str) -> Self::T;
    /// An input assumed to be > 0.
    fn pos(&mut self, name: &str) -> Self::T;
    /// An input assumed to be <= 0.
    fn nonpos(&mut self, name: &str) -> Self::T;
    /// An input assumed to be != 0.
    fn nonzero(&mut self, name: &str) -> Self::T;
    /// An input holding leftover garbage of a scratch buffer.  Natively it is
    /// some arbitrary finite number as well.
    fn junk(&mut self, name: &str) -> Self::T {
        self.var(name)
    }
    /// Obligation: the two values are equal.
    fn eq(&mut self, name: &str, got: Self::T, want: Self::T);
    /// Obligation decided by the run itself (shapes, return values, counts).
    fn ok(&mut self, name: &str, holds: bool);
    /// Obligation: a <= b.
    fn le(&mut self, name: &str, a: Self::T, b: Self::T);
    /// Obligation (floating-point scenarios only): the value is neither infinite nor NaN.
    fn finite(&mut self, name: &str, a: Self::T);
    /// Obligation: a copy, the same value bit for bit.
    fn kept(&mut self, name: &str, got: Self::T, want: Self::T);
    fn is_symbolic(&self) -> bool;
    /// The very same term (the very same number): nothing to decide.
    fn same(&self, a: Self::T, b: Self::T) -> bool;

    fn num(&mut self, n: i64) -> Self::T {
        <Self::T as num_traits::FromPrimitive>::from_i64(n).unwrap()
    }
    fn vec(&mut self, name: &str, n: usize) -> Vec<Self::T> {
        (0..n).map(|i| self.var(&format!("{name}[{i}]"))).collect()
    }
    fn mat(&mut self, name: &str, r: usize, c: usize) -> Vec<Self::T> {
        let mut v = vec![];
        for i in 0..r {
            for j in 0..c {
                v.push(self.var(&format!("{name}[{i},{j}]")));
            }
        }
        v
    }
    fn symmetric(&mut self, name: &str, n: usize) -> Vec<Self::T> {
        let mut v = vec![<Self::T as num_traits::Zero>::zero(); n * n];
        for i in 0..n {
            for j in 0..=i {
                let x = self.var(&format!("{name}[{i},{j}]"));
                v[i * n + j] = x;
                v[j * n + i] = x;
            }
        }
        v
    }
    fn junks(&mut self, name: &str, n: usize) -> Vec<Self::T> {
        (0..n).map(|i| self.junk(&format!("{name}?{i}"))).collect()
    }
    /// Lower triangular matrix with positive diagonal.
    fn lower(&mut self, name: &str, n: usize) -> Vec<Self::T> {
        let mut v = vec![<Self::T as num_traits::Zero>::zero(); n * n];
        for i in 0..n {
            for j in 0..i {
                v[i * n + j] = self.var(&format!("{name}[{i},{j}]"));
            }
            v[i * n + i] = self.pos(&format!("{name}[{i},{i}]"));
        }
        v
    }
    fn kept_all(&mut self, name: &str, got: &[Self::T], want: &[Self::T]) {
        self.ok(&format!("{name}.len"), got.len() == want.len());
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            self.kept(&format!("{name}({i})"), *g, *w);
        }
    }
    fn eq_all(&mut self, name: &str, got: &[Self::T], want: &[Self::T]) {
        self.ok(&format!("{name}.len"), got.len() == want.len());
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            self.eq(&format!("{name}({i})"), *g, *w);
        }
    }
}

#[derive(Default)]
pub struct SymEnv;

thread_local! {
    static FIXED: std::cell::RefCell<Vec<&'static str>> = const { std::cell::RefCell::new(vec![]) };
}
/// Run a scenario in which the inputs with these base names (the part before
/// step numbers and indices) are fixed small integers instead of variables:
/// larger dimensions and longer runs stay within reach that way.
pub fn fixing<R>(names: &[&'static str], f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            FIXED.with(|x| x.borrow_mut().clear());
        }
    }
    FIXED.with(|x| *x.borrow_mut() = names.to_vec());
    let _reset = Reset;
    f()
}
#[derive(Clone, Copy, PartialEq)]
pub enum Contents {
    /// real numbers within the scenario's assumptions
    Assumed,
    /// any floating-point value, NaN and infinities included; obligations compare identities
    Any,
    /// any floating-point value; only panics count
    AnyPanics,
    /// any floating-point value; only `ok` and `kept` obligations count
    AnyCopies,
}
thread_local! {
    static CONTENTS: std::cell::Cell<Contents> = const { std::cell::Cell::new(Contents::Assumed) };
}
/// Run a scenario over arbitrary numeric contents instead of its assumptions.
pub fn contents<R>(c: Contents, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            CONTENTS.with(|x| x.set(Contents::Assumed));
        }
    }
    CONTENTS.with(|x| x.set(c));
    let _reset = Reset;
    f()
}
fn mode() -> Contents {
    CONTENTS.with(|x| x.get())
}
/// Are comparisons of computed values left out?
fn uncompared() -> bool {
    matches!(mode(), Contents::AnyPanics | Contents::AnyCopies)
}

fn fixed_value(name: &str, positive: bool) -> Option<i64> {
    let (head, index) = name.split_once('[').unwrap_or((name, ""));
    let base = head.split('@').next().unwrap().trim_end_matches(|c: char| c.is_ascii_digit());
    if !FIXED.with(|x| x.borrow().contains(&base)) {
        return None;
    }
    let h = name.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) >> 20;
    let diagonal = matches!(index.trim_end_matches(']').split_once(','), Some((i, j)) if i == j);
    Some(match (positive, diagonal) {
        (true, _) => 1 + (h % 3) as i64,
        (_, true) => 4 + (h % 4) as i64,
        _ => (h % 5) as i64 - 2,
    })
}

impl SymEnv {
    fn ev(&mut self, e: Event) {
        ST.with(|s| s.borrow_mut().events.push(e));
    }
}

impl Env for SymEnv {
    type T = Sym;
    fn var(&mut self, name: &str) -> Sym {
        if mode() != Contents::Assumed {
            return Sym::var(&format!("any:{name}"));
        }
        if let Some(c) = fixed_value(name, false) {
            return Sym::rat(c as i128, 1);
        }
        Sym::var(name)
    }
    fn pos(&mut self, name: &str) -> Sym {
        if mode() != Contents::Assumed {
            return Sym::var(&format!("any:{name}"));
        }
        if let Some(c) = fixed_value(name, true) {
            return Sym::rat(c as i128, 1);
        }
        let v = Sym::var(name);
        self.ev(Event::Assume("lt", 0, v.0));
        v
    }
    fn nonpos(&mut self, name: &str) -> Sym {
        if mode() != Contents::Assumed {
            return Sym::var(&format!("any:{name}"));
        }
        let v = Sym::var(name);
        self.ev(Event::Assume("le", v.0, 0));
        v
    }
    fn nonzero(&mut self, name: &str) -> Sym {
        if mode() != Contents::Assumed {
            return Sym::var(&format!("any:{name}"));
        }
        let v = Sym::var(name);
        self.ev(Event::Assume("ne", v.0, 0));
        v
    }
    fn kept(&mut self, name: &str, got: Sym, want: Sym) {
        match mode() {
            Contents::Assumed => self.eq(name, got, want),
            Contents::AnyPanics => {}
            _ => self.ev(Event::Fact(name.to_string(), got.0 == want.0)),
        }
    }
    fn eq(&mut self, name: &str, got: Sym, want: Sym) {
        if uncompared() {
            return;
        }
        if mode() == Contents::Any {
            // never written: the same value, bit for bit
            return self.ev(Event::Fact(name.to_string(), got.0 == want.0));
        }
        self.ev(Event::Oblig(name.to_string(), "eq", got.0, want.0));
    }
    fn ok(&mut self, name: &str, holds: bool) {
        if mode() == Contents::AnyPanics {
            return;
        }
        self.ev(Event::Fact(name.to_string(), holds));
    }
    fn le(&mut self, name: &str, a: Sym, b: Sym) {
        if uncompared() {
            return;
        }
        self.ev(Event::Oblig(name.to_string(), "le", a.0, b.0));
    }
    fn finite(&mut self, name: &str, a: Sym) {
        if uncompared() {
            return;
        }
        self.ev(Event::Oblig(name.to_string(), "finite", a.0, a.0));
    }
    fn is_symbolic(&self) -> bool {
        true
    }
    fn same(&self, a: Sym, b: Sym) -> bool {
        a.0 == b.0
    }
}

/// Native numbers: values by name, obligations compared with a tolerance.
pub struct NumEnv<T> {
    pub values: HashMap<String, f64>,
    pub from: fn(f64) -> T,
    pub to: fn(T) -> f64,
    pub tol: f64,
    pub failed: Vec<String>,
    /// assumptions the given inputs do not meet
    pub assumptions: Vec<String>,
    pub checked: usize,
    /// largest magnitude seen, to scale the tolerance
    pub results: Vec<(String, f64, f64)>,
}

#[cfg(all(any(feature = "std", feature = "libm"), not(any(feature = "c24", feature = "c29"))))]
impl NumEnv<f64> {
    pub fn native(values: HashMap<String, f64>) -> Self {
        NumEnv { values, from: |x| x, to: |x| x, tol: 1e-7, failed: vec![], assumptions: vec![], checked: 0, results: vec![] }
    }
}

impl<T> NumEnv<T> {
    fn look(&mut self, name: &str, dflt: f64) -> T {
        let v = *self.values.get(name).unwrap_or(&dflt);
        (self.from)(v)
    }
    fn close(&self, a: f64, b: f64) -> bool {
        a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= self.tol * (1.0 + a.abs().max(b.abs()))
    }
}

impl<T: MatrixDataType + Default + core::fmt::Debug + 'static> Env for NumEnv<T> {
    type T = T;
    fn var(&mut self, name: &str) -> T {
        if mode() != Contents::Assumed {
            return self.look(&format!("any:{name}"), 0.5);
        }
        if let Some(c) = fixed_value(name, false) {
            return (self.from)(c as f64);
        }
        self.look(name, 0.5)
    }
    fn pos(&mut self, name: &str) -> T {
        if mode() != Contents::Assumed {
            return self.look(&format!("any:{name}"), 0.5);
        }
        if let Some(c) = fixed_value(name, true) {
            return (self.from)(c as f64);
        }
        self.look(name, 1.0)
    }
    fn nonpos(&mut self, name: &str) -> T {
        if mode() != Contents::Assumed {
            return self.look(&format!("any:{name}"), 0.5);
        }
        self.look(name, -1.0)
    }
    fn nonzero(&mut self, name: &str) -> T {
        if mode() != Contents::Assumed {
            return self.look(&format!("any:{name}"), 0.5);
        }
        self.look(name, 1.0)
    }
    fn kept(&mut self, name: &str, got: T, want: T) {
        match mode() {
            Contents::Assumed => return self.eq(name, got, want),
            Contents::AnyPanics => return,
            _ => {}
        }
        self.checked += 1;
        let (g, w) = ((self.to)(got), (self.to)(want));
        if g.to_bits() != w.to_bits() && !(g.is_nan() && w.is_nan()) {
            self.failed.push(format!("{name}: got {g:?}, stored {w:?}"));
        }
    }
    fn eq(&mut self, name: &str, got: T, want: T) {
        if uncompared() {
            return;
        }
        if mode() == Contents::Any {
            self.checked += 1;
            let (g, w) = ((self.to)(got), (self.to)(want));
            if g != w && !(g.is_nan() && w.is_nan()) {
                self.failed.push(format!("{name}: got {g:?}, expected {w:?}"));
            }
            return;
        }
        self.checked += 1;
        let (g, w) = ((self.to)(got), (self.to)(want));
        self.results.push((name.to_string(), g, w));
        if !self.close(g, w) {
            self.failed.push(format!("{name}: got {g:?}, expected {w:?}"));
        }
    }
    fn ok(&mut self, name: &str, holds: bool) {
        if mode() == Contents::AnyPanics {
            return;
        }
        self.checked += 1;
        if !holds {
            self.failed.push(format!("{name}: does not hold"));
        }
    }
    fn le(&mut self, name: &str, a: T, b: T) {
        if uncompared() {
            return;
        }
        self.checked += 1;
        let (g, w) = ((self.to)(a), (self.to)(b));
        if !(g <= w || self.close(g, w)) {
            self.failed.push(format!("{name}: {g:?} should be <= {w:?}"));
        }
    }
    fn finite(&mut self, name: &str, a: T) {
        if uncompared() {
            return;
        }
        self.checked += 1;
        let g = (self.to)(a);
        if !g.is_finite() {
            self.failed.push(format!("{name}: {g:?} is not finite"));
        }
    }
    fn is_symbolic(&self) -> bool {
        false
    }
    fn same(&self, a: T, b: T) -> bool {
        (self.to)(a).to_bits() == (self.to)(b).to_bits()
    }
}

/// The number type of native replays: `f64` itself where the crate supports it
/// with an exact backend, otherwise a thin wrapper around it.
#[cfg(all(any(feature = "std", feature = "libm"), not(any(feature = "c24", feature = "c29"))))]
pub type Native = f64;
#[cfg(feature = "c24")]
pub use crate::fx::Fx as Native;
#[cfg(feature = "c29")]
pub use crate::fl::Fl as Native;
#[cfg(not(any(feature = "std", feature = "libm", feature = "c24", feature = "c29")))]
pub use wrapped::Native;

#[cfg(not(any(feature = "std", feature = "libm", feature = "c24", feature = "c29")))]
mod wrapped {
    use core::ops::*;
    #[derive(Copy, Clone, Debug, Default, PartialEq, PartialOrd)]
    pub struct Native(pub f64);
    macro_rules! bin {
        ($($t:ident $f:ident),*) => {$(impl $t for Native { type Output = Native; fn $f(self, o: Native) -> Native { Native(self.0.$f(o.0)) } })*};
    }
    bin!(Add add, Sub sub, Mul mul, Div div);
    impl AddAssign for Native {
        fn add_assign(&mut self, o: Native) {
            self.0 += o.0
        }
    }
    impl SubAssign for Native {
        fn sub_assign(&mut self, o: Native) {
            self.0 -= o.0
        }
    }
    impl Neg for Native {
        type Output = Native;
        fn neg(self) -> Native {
            Native(-self.0)
        }
    }
    impl core::iter::Sum for Native {
        fn sum<I: Iterator<Item = Native>>(i: I) -> Native {
            Native(i.map(|x| x.0).sum())
        }
    }
    impl num_traits::Zero for Native {
        fn zero() -> Native {
            Native(0.0)
        }
        fn is_zero(&self) -> bool {
            self.0 == 0.0
        }
    }
    impl num_traits::One for Native {
        fn one() -> Native {
            Native(1.0)
        }
    }
    impl num_traits::FromPrimitive for Native {
        fn from_i64(n: i64) -> Option<Native> {
            Some(Native(n as f64))
        }
        fn from_u64(n: u64) -> Option<Native> {
            Some(Native(n as f64))
        }
        fn from_f64(n: f64) -> Option<Native> {
            Some(Native(n))
        }
    }
    impl minikalman::matrix::MatrixDataType for Native {
        fn square_root(self) -> Native {
            Native(self.0.sqrt())
        }
    }
    impl super::NumEnv<Native> {
        pub fn native(values: std::collections::HashMap<String, f64>) -> Self {
            super::NumEnv { values, from: Native, to: |x| x.0, tol: 1e-7, failed: vec![], assumptions: vec![], checked: 0, results: vec![] }
        }
    }
}
