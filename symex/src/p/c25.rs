//! C25: the correction is the optimal one.
//!
//! No other linear update of the same measurement has a smaller covariance, the
//! corrected estimate solves the weighted least-squares problem, and a sequence of
//! measurements gives the same estimate as the batch solution, in any order.
use crate::env::Env;
use crate::kf::*;
use crate::{history, ld, rd, scen, setup_f, setup_o, spec};
use minikalman::extended::*;
use minikalman::regular::*;
use num_traits::{One, Zero};

macro_rules! body {
    ($kind:ident, $e:ident, $N:ident, $M:ident, $NN:ident, $NM:ident, $MM:ident, $ekf:expr) => {{
        let (n, m) = ($N, $M);
        let l = $e.lower("L", m);
        let x = $e.vec("x", n);
        let p = $e.symmetric("P", n);
        let h = $e.mat("H", m, n);
        let w = $e.vec("w", m);
        let s = spec::llt(&l, m);
        let r = spec::sub(&s, &spec::sandwich(&h, &p, m, n));
        // w = R^-1 (z - H x)
        let hx = spec::mul(&h, &x, m, n, 1);
        let z = spec::add(&hx, &spec::mul(&r, &w, m, m, 1));
        let (x2, p2) = if $ekf {
            setup_f!($kind extended $e, "", $N, $NN; f);
            setup_o!($kind extended $e, "", $N, $M, $NN, $NM, $MM; o);
            history!(extended $e, f, $N; observe o, $M);
            ld!(f.state_vector_mut(), x);
            ld!(f.estimate_covariance_mut(), p);
            ld!(o.observation_jacobian_matrix_mut(), h);
            ld!(o.measurement_vector_mut(), z);
            ld!(o.measurement_noise_covariance_mut(), r);
            f.correct_nonlinear(&mut o, |_, y| set_col::<$M, _, _>(y, &hx));
            (rd!(f.state_vector(), n), rd!(f.estimate_covariance(), n * n))
        } else {
            setup_f!($kind regular $e, "", $N, $NN; f);
            setup_o!($kind regular $e, "", $N, $M, $NN, $NM, $MM; o);
            history!(regular $e, f, $N; observe o, $M);
            ld!(f.state_vector_mut(), x);
            ld!(f.estimate_covariance_mut(), p);
            ld!(o.observation_matrix_mut(), h);
            ld!(o.measurement_vector_mut(), z);
            ld!(o.measurement_noise_covariance_mut(), r);
            f.correct(&mut o);
            (rd!(f.state_vector(), n), rd!(f.estimate_covariance(), n * n))
        };
        let ht = spec::tr(&h, m, n);
        let pht = spec::mul(&p, &ht, n, n, m);
        let k = spec::mul(&pht, &spec::lltinv(&l, m), n, m, m);
        let p2ht = spec::mul(&p2, &ht, n, n, m);
        // normal equations of min (x'-x)^T P^-1 (x'-x) + (z-Hx')^T R^-1 (z-Hx')
        $e.eq_all("x' - x = P' H^T R^-1 (z - H x)", &spec::sub(&x2, &x), &spec::mul(&p2ht, &w, n, m, 1));
        $e.eq_all("P' H^T = P H^T S^-1 R", &p2ht, &spec::mul(&k, &r, n, m, m));
        // any other gain
        let g = $e.mat("G", n, m);
        let igh = spec::sub(&spec::eye(n), &spec::mul(&g, &h, n, m, n));
        let other = spec::add(&spec::sandwich(&igh, &p, n, n), &spec::sandwich(&g, &r, n, m));
        let d = spec::mul(&spec::sub(&g, &k), &l, n, m, m);
        let gap = spec::mul(&d, &spec::tr(&d, n, m), n, m, n);
        $e.eq_all("covariance under gain G - P' = ((G-K) L)((G-K) L)^T", &spec::sub(&other, &p2), &gap);
    }};
}
macro_rules! kinds {
    ($($f:ident $kind:ident),*) => {$(
        #[allow(unused)]
        fn $f<const N: usize, const M: usize, const NN: usize, const NM: usize, const MM: usize, E: Env>(e: &mut E, ekf: bool) {
            body!($kind, e, N, M, NN, NM, MM, ekf)
        }
    )*};
}
kinds!(boxed boxed, slices slices, arrays arrays);

/// k measurements of a constant scalar: information adds up, the estimate is the weighted mean
fn fusion<E: Env>(e: &mut E, k: usize, ekf: bool, reverse: bool) {
    const N: usize = 1;
    const M: usize = 1;
    setup_f!(arrays regular e, "", N, N; f);
    setup_f!(arrays extended e, "", N, N; g);
    setup_o!(arrays regular e, "", N, M, N, N, N; o);
    setup_o!(arrays extended e, "", N, M, N, N, N; w);
    let x = e.var("x");
    let p = e.pos("P");
    f.state_vector_mut()[0] = x;
    f.estimate_covariance_mut()[0] = p;
    g.state_vector_mut()[0] = x;
    g.estimate_covariance_mut()[0] = p;
    let (mut info, mut mean) = (E::T::one() / p, x / p);
    let order: Vec<usize> = if reverse { (0..k).rev().collect() } else { (0..k).collect() };
    for i in order {
        let (h, r, z) = (e.var(&format!("h{i}")), e.pos(&format!("r{i}")), e.var(&format!("z{i}")));
        if ekf {
            w.observation_jacobian_matrix_mut()[0] = h;
            w.measurement_noise_covariance_mut()[0] = r;
            w.measurement_vector_mut()[0] = z;
            g.correct_nonlinear(&mut w, |x, y| y[0] = h * x[0]);
        } else {
            o.observation_matrix_mut()[0] = h;
            o.measurement_noise_covariance_mut()[0] = r;
            o.measurement_vector_mut()[0] = z;
            f.correct(&mut o);
        }
        info = info + h * h / r;
        mean = mean + h * z / r;
    }
    let (xs, ps) = if ekf { (g.state_vector()[0], g.estimate_covariance()[0]) } else { (f.state_vector()[0], f.estimate_covariance()[0]) };
    e.eq("P' = 1 / (1/P + sum h^2/r)", ps, E::T::one() / info);
    e.eq("x' = P' (x/P + sum h z / r)", xs, mean / info);
    e.le("variance is not negative", E::T::zero(), ps);
    e.le("variance does not grow", ps, p);
}

#[cfg(feature = "c25")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($f:ident $n:literal $m:literal $ekf:literal $fix:expr);* $(;)?) => {$(
            scen!(v, core, format!("{} n={} m={} ekf={} fixed={:?}", stringify!($f), $n, $m, $ekf, $fix), |e|
                crate::env::fixing(&$fix, || $f::<$n, $m, {$n*$n}, {$n*$m}, {$m*$m}, _>(e, $ekf)));
        )*};
    }
    const NONE: [&str; 0] = [];
    s!(arrays 1 1 false NONE; boxed 2 1 false NONE; slices 3 1 false NONE; arrays 4 1 true NONE; arrays 1 2 false NONE; arrays 2 2 true NONE; boxed 3 2 false NONE;
       arrays 2 3 false NONE; arrays 5 1 false NONE;
       arrays 4 3 false ["L", "H"]; boxed 5 4 true ["L", "H"]; arrays 4 4 false ["L", "P"]; arrays 3 3 true ["P", "H"]; arrays 6 5 false ["L", "H"];
       boxed 8 2 false ["L", "H"]; boxed 9 1 true ["L", "P"]; arrays 3 4 false ["P", "H"]);
    #[cfg(feature = "thorough")]
    s!(arrays 4 2 false NONE; arrays 3 3 false NONE; boxed 6 1 true NONE; boxed 8 8 false ["L", "H"]; boxed 6 6 false ["L", "P"]; boxed 5 5 true ["P", "H"]);
    macro_rules! sweep {
        ($($n:literal: $($m:literal)*;)*) => {$($(
            scen!(v, core, concat!("wide sweep n=", $n, " m=", $m), |e|
                crate::env::fixing(&["P", "H", "L"], || boxed::<$n, $m, 1, 1, 1, _>(e, ($n + $m) % 2 == 0)));
        )*)*};
    }
    sweep!(1: 1 2 3 4 5 6; 2: 1 2 3 4 5 6; 3: 1 2 3 4 5 6; 4: 1 2 3 4 5; 5: 1 2 3 4; 6: 1 2 3; 7: 1 2 3; 8: 1 2; 9: 1 2; 10: 1 2; 11: 1; 12: 1; 13: 1; 16: 1;);
    macro_rules! long {
        ($($f:ident $n:literal $m:literal $ekf:literal $k:expr),* $(,)?) => {$(
            scen!(v, core, format!("long after {} uses {} n={} m={} ekf={}", $k, stringify!($f), $n, $m, $ekf), |e|
                long_after($k, || $f::<$n, $m, {$n*$n}, {$n*$m}, {$m*$m}, _>(e, $ekf)));
        )*};
    }
    long!(boxed 1 1 false 300, boxed 1 1 true 300, arrays 2 1 false 5_000, slices 1 2 true 5_000, boxed 1 1 false 70_000);
    macro_rules! fuse {
        ($($k:literal $fix:expr);* $(;)?) => {$(
            scen!(v, core, format!("fusion of {} fixed={:?}", $k, $fix), |e| crate::env::fixing(&$fix, || fusion(e, $k, false, false)));
            scen!(v, core, format!("nonlinear fusion of {} reversed fixed={:?}", $k, $fix), |e| crate::env::fixing(&$fix, || fusion(e, $k, true, true)));
        )*};
    }
    fuse!(1 NONE; 2 NONE; 3 ["h"]; 4 ["h", "r"]; 6 ["h", "r", "P"]; 40 ["h", "r", "P"]);
    #[cfg(feature = "thorough")]
    fuse!(3 NONE; 3 ["r"]; 4 ["h"]; 5 ["h", "r"]; 100 ["h", "r", "P"]);
    v
}
