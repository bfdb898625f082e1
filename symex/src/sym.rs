//! Symbolic number type.
//!
//! `Sym` is a handle to a node of a hash-consed expression DAG kept per thread.
//! Running the real (monomorphised, compiled) minikalman code with `T = Sym`
//! executes it symbolically: arithmetic builds DAG nodes, and every comparison
//! whose outcome is not fixed by constants is a fork point.  The explorer
//! (`explore`) re-runs the scenario once per decision sequence until every path
//! has been taken.

use num_traits::{FromPrimitive, One, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;

// as large as a double in the configurations with libm, as a single elsewhere
#[derive(Clone, Copy)]
#[cfg_attr(feature = "libm", repr(align(8)))]
pub struct Sym(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    /// rational constant `num / den` (decimal strings keep this exact)
    Const(i128, i128),
    Var(String),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Neg(u32),
    Sqrt(u32),
}

/// An observable event of a path, in program order.
#[derive(Clone, Debug)]
pub enum Event {
    /// fork outcome: (op, a, b, taken); op one of lt le eq
    Cond(&'static str, u32, u32, bool),
    /// fork outcome with floating-point comparisons: (a, b, still possible
    /// relations: 1 '<', 2 '=', 4 '>', 8 unordered)
    Rel(u32, u32, u8),
    /// assumption: (op, a, b) with op one of lt le eq ne
    Assume(&'static str, u32, u32),
    /// obligation: name, op in eq/le/lt/ne, a, b
    Oblig(String, &'static str, u32, u32),
    /// obligation already decided concretely on this path
    Fact(String, bool),
    /// fixed-point scenarios: assumption on an exact value, "abs" (|a| <= n/d) or "min" (a >= n/d)
    Given(&'static str, u32, i64, i64),
    /// fixed-point scenarios: |rounded(got) - exact(want)| <= exact(tol)
    Within(String, u32, u32, u32),
    /// fixed-point scenarios: |exact(d)| <= exact(tol)
    Small(String, u32, u32),
    /// fixed-point scenarios: variable = rounded value of a node
    Alias(u32, u32),
    /// fixed-point scenarios: variable = |exact value of a node|
    Abs(u32, u32),
    /// accuracy scenarios: computed node, the terms whose exact sum it stands for, units allowed
    Terms(String, u32, Vec<u32>, i64),
    /// accuracy scenarios: computed entry and computed pivot of a factor, the terms of the
    /// residual (which sum to zero for an exact factor), units allowed
    Resid(String, u32, u32, Vec<u32>, i64),
    /// fixed-point scenarios: a value computed by library code
    Op(u32),
}

pub struct State {
    pub nodes: Vec<Node>,
    /// enclosure of the exact value of nodes without variables
    pub range: Vec<Option<(f64, f64)>>,
    pub index: HashMap<Node, u32>,
    pub events: Vec<Event>,
    /// decision prefix to replay and the decisions made so far
    pub script: Vec<bool>,
    pub taken: Vec<bool>,
    /// per ordered pair: still possible relations, bit 0 '<', 1 '=', 2 '>'
    pub rel: HashMap<(u32, u32), u8>,
    pub max_decisions: usize,
    pub ops: u64,
    /// comparisons may be unordered (NaN)
    pub fp: bool,
    /// fixed-point scenarios: keep every operation as an event
    pub record: bool,
    /// the exploration gives up here
    pub deadline: Option<std::time::Instant>,
}

impl State {
    fn new() -> Self {
        let mut s = State {
            nodes: vec![],
            range: vec![],
            index: HashMap::new(),
            events: vec![],
            script: vec![],
            taken: vec![],
            rel: HashMap::new(),
            max_decisions: 64,
            ops: 0,
            fp: false,
            record: false,
            deadline: None,
        };
        // id 0 is the constant zero: zero-initialised statics are zero.
        s.mk(Node::Const(0, 1));
        s.mk(Node::Const(1, 1));
        s
    }
    pub fn mk(&mut self, n: Node) -> u32 {
        // floating-point sums and products commute
        let n = match n {
            Node::Add(a, b) if self.fp && a > b => Node::Add(b, a),
            Node::Mul(a, b) if self.fp && a > b => Node::Mul(b, a),
            n => n,
        };
        let i = self.node(n);
        if self.record && !self.events.iter().rev().take(8).any(|e| matches!(e, Event::Op(k) if *k == i)) {
            self.events.push(Event::Op(i));
        }
        i
    }
    /// Sound enclosure of a variable-free node's exact real value.
    fn enclose(&self, n: &Node) -> Option<(f64, f64)> {
        let r = |i: &u32| self.range[*i as usize];
        let wide = |lo: f64, hi: f64| {
            let ok = lo.is_finite() && hi.is_finite() && lo.abs() < 1e200 && hi.abs() < 1e200;
            ok.then(|| (lo.next_down().next_down(), hi.next_up().next_up()))
        };
        let hull = |v: [f64; 4]| wide(v.iter().copied().fold(f64::MAX, f64::min), v.iter().copied().fold(f64::MIN, f64::max));
        match n {
            Node::Const(a, b) if *b == 1 && a.abs() < 1 << 52 => Some((*a as f64, *a as f64)),
            Node::Const(a, b) => {
                let q = *a as f64 / *b as f64;
                let d = q.abs() * 1e-15;
                wide(q - d, q + d)
            }
            Node::Var(_) => None,
            Node::Add(a, b) => {
                let (a, b) = (r(a)?, r(b)?);
                wide(a.0 + b.0, a.1 + b.1)
            }
            Node::Sub(a, b) => {
                let (a, b) = (r(a)?, r(b)?);
                wide(a.0 - b.1, a.1 - b.0)
            }
            Node::Mul(a, b) => {
                let (a, b) = (r(a)?, r(b)?);
                hull([a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1])
            }
            Node::Div(a, b) => {
                let (a, b) = (r(a)?, r(b)?);
                if b.0 <= 0.0 && b.1 >= 0.0 {
                    return None;
                }
                hull([a.0 / b.0, a.0 / b.1, a.1 / b.0, a.1 / b.1])
            }
            Node::Neg(a) => r(a).map(|a| (-a.1, -a.0)),
            Node::Sqrt(a) => {
                let a = r(a)?;
                if a.0 < 0.0 {
                    return None;
                }
                wide(a.0.sqrt(), a.1.sqrt())
            }
        }
    }
    fn node(&mut self, n: Node) -> u32 {
        self.ops += 1;
        if self.ops % 4096 == 0 && self.deadline.is_some_and(|d| std::time::Instant::now() > d) && !std::thread::panicking() {
            std::panic::panic_any(TOO_DEEP);
        }
        if let Some(&i) = self.index.get(&n) {
            return i;
        }
        let i = self.nodes.len() as u32;
        if self.nodes.len() > MAX_NODES && !std::thread::panicking() {
            std::panic::panic_any(TOO_DEEP);
        }
        self.nodes.push(n.clone());
        let r = self.enclose(&n);
        self.range.push(r);
        self.index.insert(n, i);
        i
    }
}

thread_local! {
    pub static ST: RefCell<State> = RefCell::new(State::new());
}

pub fn reset_all() {
    ST.with(|s| *s.borrow_mut() = State::new());
}

fn mk(n: Node) -> Sym {
    crate::heap::quiet(|| Sym(ST.with(|s| s.borrow_mut().mk(n))))
}

/// more terms than this are left undecided
const MAX_NODES: usize = 2_000_000;
pub const TOO_DEEP: &str = "symex: decision limit reached";

impl Sym {
    pub fn var(name: &str) -> Sym {
        mk(Node::Var(name.to_string()))
    }
    pub fn rat(n: i128, d: i128) -> Sym {
        fn gcd(a: i128, b: i128) -> i128 {
            if b == 0 { a.abs() } else { gcd(b, a % b) }
        }
        let g = gcd(n, d).max(1);
        let sg = if d < 0 { -1 } else { 1 };
        mk(Node::Const(sg * n / g, sg * d / g))
    }
    fn konst(self) -> Option<(i128, i128)> {
        ST.with(|s| match s.borrow().nodes[self.0 as usize] {
            Node::Const(a, b) => Some((a, b)),
            _ => None,
        })
    }
}

fn decide(a: Sym, b: Sym, mask: u8) -> bool {
    crate::heap::quiet(|| decision(a, b, mask))
}
/// Decide whether `a REL b` holds, where `mask` is the set of relations
/// (1 '<', 2 '=', 4 '>') for which the answer is yes.
fn decision(a: Sym, b: Sym, mask: u8) -> bool {
    let fp = ST.with(|s| s.borrow().fp);
    if a.0 == b.0 && !fp {
        return mask & 2 != 0;
    }
    if let (Some((an, ad)), Some((bn, bd))) = (a.konst(), b.konst()) {
        let o = (an * bd).cmp(&(bn * ad));
        return match o {
            Ordering::Less => mask & 1 != 0,
            Ordering::Equal => mask & 2 != 0,
            Ordering::Greater => mask & 4 != 0,
        };
    }
    // constant expressions whose enclosures are apart (exact reading only)
    let apart = ST.with(|s| {
        let s = s.borrow();
        if fp || s.record {
            return None;
        }
        let (p, q) = (s.range[a.0 as usize]?, s.range[b.0 as usize]?);
        if p.1 < q.0 { Some(1) } else if p.0 > q.1 { Some(4) } else { None }
    });
    if let Some(bit) = apart {
        return mask & bit != 0;
    }
    // canonical order of the pair
    let (x, y, m) = if a.0 < b.0 {
        (a.0, b.0, mask)
    } else {
        (b.0, a.0, (mask & 10) | ((mask & 1) << 2) | ((mask & 4) >> 2))
    };
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let all = if fp && x == y { 10 } else if fp { 15 } else { 7 };
        let possible = *s.rel.get(&(x, y)).unwrap_or(&all);
        let yes = possible & m;
        let no = possible & !m;
        if yes == 0 {
            return false;
        }
        if no == 0 {
            return true;
        }
        let k = s.taken.len();
        let choice = if k < s.script.len() { s.script[k] } else { false };
        if k >= s.max_decisions {
            drop(s);
            std::panic::panic_any(TOO_DEEP);
        }
        s.taken.push(choice);
        let left = if choice { yes } else { no };
        s.rel.insert((x, y), left);
        let ev = match left {
            m if fp => Event::Rel(x, y, m),
            1 => Event::Cond("lt", x, y, true),
            2 => Event::Cond("eq", x, y, true),
            4 => Event::Cond("lt", y, x, true),
            3 => Event::Cond("le", x, y, true),
            6 => Event::Cond("le", y, x, true),
            _ => Event::Cond("eq", x, y, false),
        };
        s.events.push(ev);
        choice
    })
}

macro_rules! bin {
    ($tr:ident, $f:ident, $node:ident, $tra:ident, $fa:ident) => {
        impl core::ops::$tr for Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                mk(Node::$node(self.0, o.0))
            }
        }
        impl<'a> core::ops::$tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $f(self, o: &'a Sym) -> Sym {
                mk(Node::$node(self.0, o.0))
            }
        }
        impl core::ops::$tra for Sym {
            fn $fa(&mut self, o: Sym) {
                *self = mk(Node::$node(self.0, o.0))
            }
        }
    };
}
bin!(Add, add, Add, AddAssign, add_assign);
bin!(Sub, sub, Sub, SubAssign, sub_assign);
bin!(Mul, mul, Mul, MulAssign, mul_assign);
bin!(Div, div, Div, DivAssign, div_assign);

impl core::ops::Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        mk(Node::Neg(self.0))
    }
}
impl core::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        // same association as the float and fixed-point impls
        it.fold(Sym::zero(), |a, b| a + b)
    }
}
impl core::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::one(), |a, b| a * b)
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym(0)
    }
    fn is_zero(&self) -> bool {
        decide(*self, Sym(0), 2)
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym(1)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        Sym(0)
    }
}
impl core::fmt::Debug for Sym {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "#{}", self.0)
    }
}
impl core::fmt::Display for Sym {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "#{}", self.0)
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        decide(*self, *o, 2)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if decide(*self, *o, 1) {
            Some(Ordering::Less)
        } else if decide(*self, *o, 2) {
            Some(Ordering::Equal)
        } else if decide(*self, *o, 4) {
            Some(Ordering::Greater)
        } else {
            None
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        decide(*self, *o, 1)
    }
    fn le(&self, o: &Sym) -> bool {
        decide(*self, *o, 3)
    }
    fn gt(&self, o: &Sym) -> bool {
        decide(*self, *o, 4)
    }
    fn ge(&self, o: &Sym) -> bool {
        decide(*self, *o, 6)
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(Sym::rat(n as i128, 1))
    }
    fn from_u64(n: u64) -> Option<Sym> {
        Some(Sym::rat(n as i128, 1))
    }
    fn from_f64(x: f64) -> Option<Sym> {
        if !x.is_finite() {
            return None;
        }
        let mut d: i128 = 1;
        let mut v = x;
        while v != v.trunc() && d < (1i128 << 80) {
            v *= 2.0;
            d *= 2;
        }
        if v.abs() > 1e30 {
            return None;
        }
        Some(Sym::rat(v as i128, d))
    }
    fn from_f32(x: f32) -> Option<Sym> {
        Sym::from_f64(x as f64)
    }
}

impl minikalman::matrix::MatrixDataType for Sym {
    // `recip` is left to the library's default on purpose: it is code under test.
    fn square_root(self) -> Sym {
        mk(Node::Sqrt(self.0))
    }
}

pub struct Path {
    pub events: Vec<Event>,
    pub panic: Option<String>,
}

/// Run `f` once per decision sequence (generational search: the default
/// decision is "no", and scripts with fewer deviations from it come first, so
/// that a truncated exploration still covers every small combination).
/// Returns the paths and whether the exploration is complete.
pub fn explore(mut f: impl FnMut(), max_paths: usize, max_decisions: usize) -> (Vec<Path>, bool) {
    let mut paths = vec![];
    let mut queue: std::collections::VecDeque<Vec<bool>> = Default::default();
    queue.push_back(vec![]);
    let mut complete = true;
    while let Some(script) = queue.pop_front() {
        if paths.len() >= max_paths || ST.with(|s| s.borrow().deadline).is_some_and(|d| std::time::Instant::now() > d) {
            return (paths, false);
        }
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.events.clear();
            s.rel.clear();
            s.taken.clear();
            s.script = script.clone();
            s.max_decisions = max_decisions;
        });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        let (events, taken) = ST.with(|s| {
            let s = s.borrow();
            (s.events.clone(), s.taken.clone())
        });
        let panic = match r {
            Ok(()) => None,
            Err(e) => Some(if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            }),
        };
        for k in script.len()..taken.len() {
            let mut t = taken[..k].to_vec();
            t.push(!taken[k]);
            queue.push_back(t);
        }
        if panic.as_deref() == Some(TOO_DEEP) {
            complete = false;
        } else {
            paths.push(Path { events, panic });
        }
    }
    (paths, complete)
}
