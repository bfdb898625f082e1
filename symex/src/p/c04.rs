//! C04: the linear correction is the exact Kalman correction.
//!
//! The innovation covariance is parametrised by its Cholesky factor: L is an
//! arbitrary lower triangular matrix with positive diagonal and
//! R := L L^T - H P H^T, so that S = H P H^T + R ranges over exactly the
//! positive definite matrices.
use crate::env::Env;
use crate::kf::*;
use crate::{filter_arrays, filter_over, history, ld, observation_arrays, observation_over, rd, scen, spec};
use minikalman::regular::*;

pub fn tr_correct<const N: usize, T, F: KalmanFilterUpdate<N, T>, M: KalmanFilterObservationCorrectFilter<N, T>>(f: &mut F, m: &mut M) {
    f.correct(m)
}
pub fn tr_obs<const N: usize, T, X: StateVectorMut<N, T>, P: EstimateCovarianceMatrix<N, T>, M: KalmanFilterObservationCorrectFilter<N, T>>(
    m: &mut M, x: &mut X, p: &mut P) {
    m.correct(x, p)
}

/// how = 0: filter.correct, 1: through the filter trait, 2: observation.correct on
/// free-standing state and covariance, 3: the same through the observation trait
macro_rules! body {
    ($e:ident, $f:ident, $o:ident, $N:ident, $M:ident, $how:expr) => {{
        history!(regular $e, $f, $N; observe $o, $M);
        let (n, m) = ($N, $M);
        let l = $e.lower("L", m);
        let x = $e.vec("x", n);
        let p = $e.symmetric("P", n);
        let h = $e.mat("H", m, n);
        let z = $e.vec("z", m);
        let s = spec::llt(&l, m);
        let r = spec::sub(&s, &spec::sandwich(&h, &p, m, n));
        ld!($f.state_vector_mut(), x);
        ld!($f.estimate_covariance_mut(), p);
        ld!($o.observation_matrix_mut(), h);
        ld!($o.measurement_vector_mut(), z);
        ld!($o.measurement_noise_covariance_mut(), r);
        let (xs, ps) = match $how {
            0 => {
                $f.correct(&mut $o);
                (rd!($f.state_vector(), n), rd!($f.estimate_covariance(), n * n))
            }
            1 => {
                tr_correct::<$N, _, _, _>(&mut $f, &mut $o);
                (rd!($f.state_vector(), n), rd!($f.estimate_covariance(), n * n))
            }
            k => {
                let mut xv = x.clone();
                let mut pv = p.clone();
                let mut xb = StateVectorBuffer::<$N, _, _>::from(xv.as_mut_slice());
                let mut pb = EstimateCovarianceMatrixBuffer::<$N, _, _>::from(pv.as_mut_slice());
                if k == 2 {
                    $o.correct(&mut xb, &mut pb);
                } else {
                    tr_obs::<$N, _, _, _, _>(&mut $o, &mut xb, &mut pb);
                }
                (xv, pv)
            }
        };
        let si = spec::lltinv(&l, m);
        let pht = spec::mul(&p, &spec::tr(&h, m, n), n, n, m);
        let k = spec::mul(&pht, &si, n, m, m);
        let y = spec::sub(&z, &spec::mul(&h, &x, m, n, 1));
        let x2 = spec::add(&x, &spec::mul(&k, &y, n, m, 1));
        let p2 = spec::sub(&p, &spec::mul(&k, &spec::mul(&h, &p, m, n, n), n, m, n));
        $e.eq_all("x", &xs, &x2);
        $e.eq_all("P", &ps, &p2);
    }};
}

#[cfg(feature = "alloc")]
pub fn boxed<const N: usize, const M: usize, E: Env>(e: &mut E, how: usize) {
    let b = builder::KalmanFilterBuilder::<N, E::T>::default();
    let mut f = b.build();
    let mut o = b.observations().build::<M>();
    body!(e, f, o, N, M, how)
}
pub fn slices<const N: usize, const M: usize, E: Env>(e: &mut E, how: usize, extra: usize) {
    let mut m = FMem::new(e, "", N, extra);
    let mut om = OMem::new(e, "", N, M, extra);
    let mut f = filter_over!(RegularKalmanBuilder, m, N);
    let mut o = observation_over!(RegularObservationBuilder, om, N, M);
    body!(e, f, o, N, M, how)
}
pub fn arrays<const N: usize, const M: usize, const NN: usize, const NM: usize, const MM: usize, E: Env>(e: &mut E, how: usize) {
    let mut f = filter_arrays!(RegularKalmanBuilder, e, "", N, NN);
    let mut o = observation_arrays!(RegularObservationBuilder, e, "", N, M, NN, NM, MM);
    body!(e, f, o, N, M, how)
}

#[cfg(feature = "c04")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! nm {
        ($($k:ident $n:literal $m:literal),* $(,)?) => {$(
            scen!(v, $k, concat!("arrays n=", $n, " m=", $m), |e| arrays::<$n, $m, {$n*$n}, {$n*$m}, {$m*$m}, _>(e, ($n + $m) % 2));
        )*};
    }
    nm!(core 1 1, core 2 1, core 3 1, core 1 2, core 2 2, core 3 2, core 4 1, core 4 2, core 2 3, core 3 3,
        extra 6 1, extra 5 2, extra 6 2, extra 4 3, extra 5 3, extra 4 4, extra 1 4, extra 2 4, extra 3 4, extra 6 3);
    // larger dimensions with part of the inputs fixed
    macro_rules! wide {
        ($($n:literal $m:literal $how:literal $fix:expr),* $(,)?) => {$(
            scen!(v, core, format!("wide arrays n={} m={} way={} fixed={:?}", $n, $m, $how, $fix), |e|
                crate::env::fixing(&$fix, || arrays::<$n, $m, {$n*$n}, {$n*$m}, {$m*$m}, _>(e, $how)));
        )*};
    }
    wide!(5 4 0 ["L", "H"], 5 4 1 ["L", "P"], 4 5 0 ["L", "H"], 5 5 0 ["L", "P"], 7 5 1 ["L", "H"], 8 4 0 ["L", "P"], 6 6 0 ["L", "H"], 10 3 0 ["L", "H"],
        9 2 0 ["L", "P"], 3 8 0 ["L", "P"], 3 8 0 ["L", "H"], 8 8 1 ["L", "H"], 12 4 0 ["L", "H"], 17 1 0 ["L", "H"],
        4 4 0 ["P", "H"], 5 5 0 ["P", "H"], 6 6 0 ["P", "H"], 7 7 0 ["P", "H"],
        8 8 0 ["P", "H", "L"], 16 2 0 ["P", "H", "L"], 12 12 0 ["P", "H", "L"]);
    #[cfg(feature = "thorough")]
    wide!(6 6 0 ["L", "P"], 10 3 0 ["L", "P"], 8 8 0 ["L", "P"], 9 9 1 ["L", "H"], 12 6 0 ["L", "H"], 16 4 0 ["L", "H"], 12 12 1 ["L", "H"],
        8 8 0 ["P", "H"], 9 9 1 ["P", "H"], 10 10 1 ["P", "H"], 12 2 0 ["L", "P"], 17 17 0 ["P", "H", "L"]);
    // every pair of small dimensions
    macro_rules! sweep {
        ($($n:literal: $($m:literal)*;)*) => {$($(
            scen!(v, core, concat!("wide sweep n=", $n, " m=", $m), |e| crate::env::fixing(&["P", "H", "L"], || boxed::<$n, $m, _>(e, ($n + $m) % 4)));
        )*)*};
    }
    sweep!(1: 1 2 3 4 5 6 7 8 9; 2: 1 2 3 4 5 6 7 8; 3: 1 2 3 4 5 6 7 8; 4: 1 2 3 4 5 6 7 8; 5: 1 2 3 4 5 6 7 8; 6: 1 2 3 4 5 6 7 8;
           7: 1 2 3 4 5 6 7 8; 8: 1 2 3 4 5 6 7 8; 9: 1 2 3 4 9; 10: 1 2 3 10; 11: 1 2 4; 12: 1 2 3 6; 13: 1 2; 14: 1 3; 15: 1 2 3; 16: 1 3 4; 18: 1; 20: 2;);
    for k in MANY {
        scen!(v, core, format!("long after {k} uses boxed n=1 m=1"), clone(k) |e| long_after(k, || boxed::<1, 1, _>(e, 0)));
    }
    scen!(v, core, "long after 5000 uses slices n=2 m=1", |e| long_after(5_000, || slices::<2, 1, _>(e, 2, 1)));
    scen!(v, core, "long after 300 uses arrays n=2 m=2", |e| long_after(300, || arrays::<2, 2, 4, 4, 4, _>(e, 1)));
    scen!(v, core, "boxed n=2 m=2 observation", |e| boxed::<2, 2, _>(e, 2));
    scen!(v, core, "boxed n=3 m=1 observation trait", |e| boxed::<3, 1, _>(e, 3));
    scen!(v, core, "boxed n=3 m=2", |e| boxed::<3, 2, _>(e, 0));
    scen!(v, core, "slices n=3 m=2", |e| slices::<3, 2, _>(e, 0, 3));
    scen!(v, core, "slices n=2 m=2 trait", |e| slices::<2, 2, _>(e, 1, 0));
    scen!(v, core, "slices n=2 m=3 observation trait", |e| slices::<2, 3, _>(e, 3, 1));
    v
}
