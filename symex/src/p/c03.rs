//! C03: applying a control adds B u to the state and B Q B^T to the covariance.
use crate::env::Env;
use crate::kf::*;
use crate::{history, ld, rd, scen, setup_c, setup_f, spec};
use minikalman::regular::*;

pub fn tr_filter<const N: usize, T, F: KalmanFilterApplyControl<N, T>, C: KalmanFilterControlApplyToFilter<N, T>>(f: &mut F, c: &mut C) {
    f.control(c)
}
pub fn tr_control<const N: usize, T, X: StateVectorMut<N, T>, P: EstimateCovarianceMatrix<N, T>, C: KalmanFilterControlApplyToFilter<N, T>>(
    c: &mut C, x: &mut X, p: &mut P) {
    c.apply_to(x, p)
}

/// how = 0 filter.control, 1 filter trait, 2 control.apply_control on free-standing
/// state and covariance, 3 the control trait's apply_to
macro_rules! body {
    ($kind:ident, $e:ident, $N:ident, $C:ident, $NN:ident, $NC:ident, $CC:ident, $how:expr, $steps:expr) => {{
        setup_f!($kind regular $e, "", $N, $NN; f);
        setup_c!($kind $e, "", $N, $C, $NC, $CC; c);
        history!(regular $e, f, $N; control c, $C);
        let (n, k) = ($N, $C);
        let mut x = $e.vec("x", n);
        let mut p = $e.symmetric("P", n);
        let mut b = $e.mat("B", n, k);
        let mut u = $e.vec("u", k);
        let mut q = $e.symmetric("Qc", k);
        ld!(f.state_vector_mut(), x);
        ld!(f.estimate_covariance_mut(), p);
        ld!(c.control_matrix_mut(), b);
        ld!(c.control_vector_mut(), u);
        ld!(c.process_noise_covariance_mut(), q);
        let mut xv = x.clone();
        let mut pv = p.clone();
        for s in 0..$steps {
            if s == 2 {
                // new values take effect at the next application
                b = $e.mat("B2", n, k);
                u = $e.vec("u2", k);
                q = $e.symmetric("Qc2", k);
                ld!(c.control_matrix_mut(), b);
                ld!(c.control_vector_mut(), u);
                ld!(c.process_noise_covariance_mut(), q);
            }
            let (xs, ps) = match $how {
                0 => {
                    f.control(&mut c);
                    (rd!(f.state_vector(), n), rd!(f.estimate_covariance(), n * n))
                }
                1 => {
                    tr_filter::<$N, _, _, _>(&mut f, &mut c);
                    (rd!(f.state_vector(), n), rd!(f.estimate_covariance(), n * n))
                }
                h => {
                    let mut xb = StateVectorBuffer::<$N, _, _>::from(xv.as_mut_slice());
                    let mut pb = EstimateCovarianceMatrixBuffer::<$N, _, _>::from(pv.as_mut_slice());
                    if h == 2 {
                        c.apply_control(&mut xb, &mut pb);
                    } else {
                        tr_control::<$N, _, _, _, _>(&mut c, &mut xb, &mut pb);
                    }
                    (xv.clone(), pv.clone())
                }
            };
            x = spec::add(&x, &spec::mul(&b, &u, n, k, 1));
            p = spec::add(&p, &spec::sandwich(&b, &q, n, k));
            $e.eq_all(&format!("x@{s}"), &xs, &x);
            $e.eq_all(&format!("P@{s}"), &ps, &p);
        }
    }};
}
#[cfg(feature = "alloc")]
pub fn boxed<const N: usize, const C: usize, const NN: usize, const NC: usize, const CC: usize, E: Env>(e: &mut E, how: usize, steps: usize) {
    body!(boxed, e, N, C, NN, NC, CC, how, steps)
}
pub fn slices<const N: usize, const C: usize, const NN: usize, const NC: usize, const CC: usize, E: Env>(e: &mut E, how: usize, steps: usize) {
    body!(slices, e, N, C, NN, NC, CC, how, steps)
}
pub fn arrays<const N: usize, const C: usize, const NN: usize, const NC: usize, const CC: usize, E: Env>(e: &mut E, how: usize, steps: usize) {
    body!(arrays, e, N, C, NN, NC, CC, how, steps)
}

#[cfg(feature = "c03")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! nc {
        ($($k:ident $f:ident $n:literal $c:literal $how:literal $steps:literal),* $(,)?) => {$(
            scen!(v, $k, concat!(stringify!($f), " n=", $n, " c=", $c, " way=", $how, " steps=", $steps),
                |e| $f::<$n, $c, {$n*$n}, {$n*$c}, {$c*$c}, _>(e, $how, $steps));
        )*};
    }
    nc!(core arrays 1 1 0 3, core arrays 1 2 1 1, core arrays 2 1 2 1, core arrays 2 2 3 3, core arrays 2 3 0 1,
        core arrays 3 1 1 1, core arrays 3 2 2 1, core arrays 3 3 3 1, core arrays 4 1 0 1, core arrays 4 2 0 1,
        core arrays 1 3 2 1, core arrays 1 4 0 1, core arrays 2 4 1 1, core arrays 3 4 0 1, core arrays 4 4 1 1,
        core boxed 3 2 0 3, core boxed 2 2 1 3, core boxed 2 3 2 3, core boxed 3 1 3 3,
        core slices 3 2 0 3, core slices 2 2 1 3, core slices 2 3 2 3, core slices 3 1 3 3,
        extra arrays 6 2 0 1, extra arrays 5 5 3 1, extra boxed 6 6 0 1, extra boxed 2 8 0 1, extra boxed 8 3 0 1);
    macro_rules! wide {
        ($($f:ident $n:literal $c:literal $how:literal $steps:literal $fix:expr),* $(,)?) => {$(
            scen!(v, core, format!("wide {} n={} c={} way={} steps={} fixed={:?}", stringify!($f), $n, $c, $how, $steps, $fix),
                |e| crate::env::fixing(&$fix, || $f::<$n, $c, {$n*$n}, {$n*$c}, {$c*$c}, _>(e, $how, $steps)));
        )*};
    }
    wide!(boxed 16 16 0 1 ["B"], slices 17 2 2 1 ["B"], arrays 2 17 3 1 ["B"], boxed 10 10 1 3 ["B"], boxed 1 1 0 30 ["B"], boxed 2 2 0 12 ["B"]);
    // every pair of small dimensions
    macro_rules! sweep {
        ($($n:literal: $($c:literal)*;)*) => {$($(
            scen!(v, core, concat!("wide sweep n=", $n, " c=", $c), |e| crate::env::fixing(&["B", "Qc"], || boxed::<$n, $c, 1, 1, 1, _>(e, ($n + $c) % 4, 3)));
        )*)*};
    }
    sweep!(1: 1 2 3 4 5 6 7 8 9; 2: 1 2 3 4 5 6 7 8; 3: 1 2 3 4 5 6 7 8; 4: 1 2 3 4 5 6 7 8; 5: 1 2 3 4 5 6 7 8; 6: 1 2 3 4 5 6 7 8;
           7: 1 2 3 4 5 6 7 8; 8: 1 2 3 4 5 6 7 8; 9: 1 2 3 9; 10: 1 2 3; 11: 1 2 4; 12: 1 2 3 6; 13: 1 2; 14: 1 3; 15: 1 2 3; 18: 1; 20: 2;);
    for k in MANY {
        scen!(v, core, format!("long after {k} uses boxed n=1 c=1"), clone(k) |e| long_after(k, || boxed::<1, 1, 1, 1, 1, _>(e, 0, 1)));
    }
    scen!(v, core, "long after 5000 uses slices n=2 c=1 way=2", |e| long_after(5_000, || slices::<2, 1, 4, 2, 1, _>(e, 2, 3)));
    scen!(v, core, "long after 300 uses arrays n=2 c=3", |e| long_after(300, || arrays::<2, 3, 4, 6, 9, _>(e, 1, 1)));
    nc!(extra boxed 8 8 0 1, extra boxed 12 4 0 1, extra boxed 3 12 1 1, extra slices 10 2 2 3, extra arrays 4 3 3 3);
    v
}
