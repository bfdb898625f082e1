//! Matrices over every storage kind, and whole-memory snapshots.
#![allow(clippy::all)]

pub use crate::kf::arr;
pub use minikalman::matrix::*;

/// number of extra elements behind the matrix' own ones
pub const TAIL: usize = 7;

/// `mx!(kind e, name; m, mem, R, C, values)` declares the matrix `m`; slice kinds live in `mem`.
/// Oversized kinds are followed by `TAIL` unconstrained values.
#[macro_export]
macro_rules! mx {
    (array $e:expr, $n:expr; $m:ident, $mem:ident, $r:literal, $c:literal, $v:expr) => {
        #[allow(unused)] let $mem = ();
        #[allow(unused_mut)] let mut $m = $crate::mx::MatrixData::new_array::<$r, $c, { $r * $c }, _>($crate::mx::arr($v.to_vec()));
    };
    (arrayx $e:expr, $n:expr; $m:ident, $mem:ident, $r:literal, $c:literal, $v:expr) => {
        #[allow(unused)] let $mem = ();
        #[allow(unused_mut)] let mut $m = $crate::mx::MatrixData::new_array::<$r, $c, { $r * $c + $crate::mx::TAIL }, _>($crate::mx::arr([$v.to_vec(), $e.junks($n, $crate::mx::TAIL)].concat()));
    };
    (boxed $e:expr, $n:expr; $m:ident, $mem:ident, $r:literal, $c:literal, $v:expr) => {
        #[allow(unused)] let $mem = ();
        #[allow(unused_mut)] let mut $m = $crate::mx::MatrixData::new_boxed::<$r, $c, _, _>($v.to_vec());
    };
    (slice $e:expr, $n:expr; $m:ident, $mem:ident, $r:literal, $c:literal, $v:expr) => {
        let mut $mem = [$v.to_vec(), $e.junks($n, $crate::mx::TAIL)].concat();
        #[allow(unused_mut)] let mut $m = $crate::mx::MatrixData::new_mut::<$r, $c, _>(&mut $mem);
    };
    (cref $e:expr, $n:expr; $m:ident, $mem:ident, $r:literal, $c:literal, $v:expr) => {
        let $mem = [$v.to_vec(), $e.junks($n, $crate::mx::TAIL)].concat();
        let $m = $crate::mx::MatrixData::new_ref::<$r, $c, _>(&$mem);
    };
    (rowmajor $e:expr, $n:expr; $m:ident, $mem:ident, $r:literal, $c:literal, $v:expr) => {
        let mut $mem = [$v.to_vec(), $e.junks($n, $crate::mx::TAIL)].concat();
        #[allow(unused_mut)] let mut $m = $crate::mx::MatrixData::new_mut_from::<$r, $c, _, _>($crate::mx::MatrixData::new_mut::<$r, $c, _>(&mut $mem));
    };
    (crowmajor $e:expr, $n:expr; $m:ident, $mem:ident, $r:literal, $c:literal, $v:expr) => {
        #[allow(unused)] let $mem = ();
        let $m = $crate::mx::MatrixData::new_from::<$r, $c, _, _>($crate::mx::MatrixData::new_array::<$r, $c, { $r * $c + $crate::mx::TAIL }, _>($crate::mx::arr([$v.to_vec(), $e.junks($n, $crate::mx::TAIL)].concat())));
    };
}

/// the positions compared in a matrix too large to compare every element by a query: both ends,
/// and both sides of the places where an 8, 15 or 16 bit position would start over
pub fn places(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n.min(80)).collect();
    for at in [256, 32_768, 65_536, n] {
        v.extend((at.max(40) - 40..at + 20).filter(|i| *i < n));
    }
    v.extend((80..n).step_by(911));
    v.sort();
    v.dedup();
    v
}
/// `got` and `want` agree, element by element, at `places`
pub fn some<E: crate::env::Env>(e: &mut E, name: &str, got: &[E::T], want: &[E::T]) {
    e.ok(&format!("{name}: length"), got.len() == want.len());
    for i in places(want.len().min(got.len())) {
        e.eq(&format!("{name} [{i}]"), got[i], want[i]);
    }
}
