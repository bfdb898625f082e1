//! C06: the extended correction uses h(x) of the a-priori state exactly once.
//! Parametrisation of S as in C04.
use crate::env::Env;
use crate::kf::*;
use crate::{history, ld, rd, scen, setup_f, setup_o, spec};
use minikalman::extended::*;

pub fn tr_filter<const N: usize, const M: usize, T: Copy, F: KalmanFilterNonlinearUpdate<N, T>, O: KalmanFilterNonlinearObservationCorrectFilter<N, M, T>>(
    f: &mut F, o: &mut O, hx: &[T], calls: &mut usize, seen: &mut Vec<T>) {
    f.correct_nonlinear(o, |x, y| {
        *calls += 1;
        *seen = col::<N, _, _>(x);
        set_col::<M, _, _>(y, hx);
    })
}
pub fn tr_obs<const N: usize, const M: usize, T: Copy, X: StateVectorMut<N, T>, P: EstimateCovarianceMatrix<N, T>, O: KalmanFilterNonlinearObservationCorrectFilter<N, M, T>>(
    o: &mut O, x: &mut X, p: &mut P, hx: &[T], calls: &mut usize, seen: &mut Vec<T>) {
    o.correct_nonlinear(x, p, |x: &X, y| {
        *calls += 1;
        *seen = col::<N, _, _>(x);
        set_col::<M, _, _>(y, hx);
    })
}

/// how as in C04; `steps` corrections, each with a new measurement, Jacobian and R
macro_rules! body {
    ($kind:ident, $e:ident, $N:ident, $M:ident, $NN:ident, $NM:ident, $MM:ident, $how:expr, $steps:expr) => {{
        setup_f!($kind extended $e, "", $N, $NN; f);
        setup_o!($kind extended $e, "", $N, $M, $NN, $NM, $MM; o);
        history!(extended $e, f, $N; observe o, $M);
        let (n, m) = ($N, $M);
        let mut x = $e.vec("x", n);
        let mut p = $e.symmetric("P", n);
        ld!(f.state_vector_mut(), x);
        ld!(f.estimate_covariance_mut(), p);
        let mut xv = x.clone();
        let mut pv = p.clone();
        for t in 0..$steps {
            let l = $e.lower(&format!("L{t}"), m);
            let h = $e.mat(&format!("H{t}"), m, n);
            let z = $e.vec(&format!("z{t}"), m);
            let hx = $e.vec(&format!("hx{t}"), m);
            let s = spec::llt(&l, m);
            let r = spec::sub(&s, &spec::sandwich(&h, &p, m, n));
            ld!(o.observation_jacobian_matrix_mut(), h);
            ld!(o.measurement_vector_mut(), z);
            ld!(o.measurement_noise_covariance_mut(), r);
            let (mut calls, mut seen) = (0, vec![]);
            let before = if $how < 2 { rd!(f.state_vector(), n) } else { xv.clone() };
            let (xs, ps) = match $how {
                0 => {
                    f.correct_nonlinear(&mut o, |x, y| {
                        calls += 1;
                        seen = rd!(x, n);
                        ld!(y, hx);
                    });
                    (rd!(f.state_vector(), n), rd!(f.estimate_covariance(), n * n))
                }
                1 => {
                    tr_filter::<$N, $M, _, _, _>(&mut f, &mut o, &hx, &mut calls, &mut seen);
                    (rd!(f.state_vector(), n), rd!(f.estimate_covariance(), n * n))
                }
                k => {
                    let mut xb = StateVectorBuffer::<$N, _, _>::from(xv.as_mut_slice());
                    let mut pb = EstimateCovarianceMatrixBuffer::<$N, _, _>::from(pv.as_mut_slice());
                    if k == 2 {
                        o.correct_nonlinear(&mut xb, &mut pb, |x, y| {
                            calls += 1;
                            seen = rd!(x, n);
                            ld!(y, hx);
                        });
                    } else {
                        tr_obs::<$N, $M, _, _, _, _>(&mut o, &mut xb, &mut pb, &hx, &mut calls, &mut seen);
                    }
                    (xv.clone(), pv.clone())
                }
            };
            $e.ok("h called exactly once", calls == 1);
            $e.kept_all(&format!("argument of h@{t}"), &seen, &before);
            let si = spec::lltinv(&l, m);
            let pht = spec::mul(&p, &spec::tr(&h, m, n), n, n, m);
            let k = spec::mul(&pht, &si, n, m, m);
            let y = spec::sub(&z, &hx);
            x = spec::add(&x, &spec::mul(&k, &y, n, m, 1));
            p = spec::sub(&p, &spec::mul(&k, &spec::mul(&h, &p, m, n, n), n, m, n));
            $e.eq_all(&format!("x@{t}"), &xs, &x);
            $e.eq_all(&format!("P@{t}"), &ps, &p);
        }
    }};
}
#[cfg(feature = "alloc")]
pub fn boxed<const N: usize, const M: usize, const NN: usize, const NM: usize, const MM: usize, E: Env>(e: &mut E, how: usize, steps: usize) {
    body!(boxed, e, N, M, NN, NM, MM, how, steps)
}
pub fn slices<const N: usize, const M: usize, const NN: usize, const NM: usize, const MM: usize, E: Env>(e: &mut E, how: usize, steps: usize) {
    body!(slices, e, N, M, NN, NM, MM, how, steps)
}
pub fn arrays<const N: usize, const M: usize, const NN: usize, const NM: usize, const MM: usize, E: Env>(e: &mut E, how: usize, steps: usize) {
    body!(arrays, e, N, M, NN, NM, MM, how, steps)
}

#[cfg(feature = "c06")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    crate::harness::also_any(base, crate::env::Contents::AnyCopies, |name| crate::harness::small(name, 3))
}
#[cfg(feature = "c06")]
fn base() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! nm {
        ($($k:ident $f:ident $n:literal $m:literal $how:literal $steps:literal),* $(,)?) => {$(
            scen!(v, $k, concat!(stringify!($f), " n=", $n, " m=", $m, " way=", $how, " steps=", $steps),
                |e| $f::<$n, $m, {$n*$n}, {$n*$m}, {$m*$m}, _>(e, $how, $steps));
        )*};
    }
    nm!(core arrays 1 1 0 1, core arrays 2 1 1 1, core arrays 3 1 2 1, core arrays 1 2 3 1, core arrays 2 2 0 1, core arrays 3 2 1 1,
        core arrays 4 1 0 1, core arrays 4 2 3 1, core arrays 2 3 2 1, core arrays 3 3 0 1,
        core boxed 2 2 2 1, core boxed 3 1 3 1, core boxed 3 2 0 1, core boxed 2 2 1 1,
        core slices 3 2 0 1, core slices 2 2 1 1, core slices 2 2 2 1, core slices 2 3 3 1,
        core boxed 2 1 0 2, core arrays 2 2 1 2, core slices 1 2 2 2, core slices 2 1 3 2,
        extra arrays 6 1 0 1, extra arrays 5 2 1 1, extra arrays 6 2 0 1, extra arrays 4 3 0 1, extra arrays 4 4 0 1, extra arrays 1 4 0 1,
        extra arrays 3 4 0 1, extra arrays 6 3 0 1);
    // larger dimensions with part of the inputs fixed
    macro_rules! wide {
        ($($f:ident $n:literal $m:literal $how:literal $steps:literal $fix:expr),* $(,)?) => {$(
            scen!(v, core, format!("wide {} n={} m={} way={} steps={} fixed={:?}", stringify!($f), $n, $m, $how, $steps, $fix), |e|
                crate::env::fixing(&$fix, || $f::<$n, $m, {$n*$n}, {$n*$m}, {$m*$m}, _>(e, $how, $steps)));
        )*};
    }
    wide!(arrays 5 4 0 1 ["L", "H"], arrays 5 4 1 1 ["L", "P"], arrays 4 5 2 1 ["L", "H"], arrays 5 5 3 1 ["L", "P"], boxed 7 5 1 1 ["L", "H"],
        arrays 6 6 0 1 ["L", "H"], boxed 10 3 0 1 ["L", "H"], arrays 9 2 0 1 ["L", "P"], arrays 3 8 0 1 ["L", "P"], slices 3 8 0 1 ["L", "H"],
        arrays 8 8 1 1 ["L", "H"], boxed 12 4 0 1 ["L", "H"], arrays 17 1 0 1 ["L", "H"], arrays 4 4 0 1 ["P", "H"], boxed 5 5 0 1 ["P", "H"],
        arrays 6 6 0 1 ["P", "H"], arrays 8 8 0 1 ["P", "H", "L"], arrays 12 12 0 1 ["P", "H", "L"],
        boxed 3 2 0 3 ["L", "H", "P"], arrays 4 3 1 2 ["L", "H", "P"], boxed 2 1 0 4 ["L", "H", "P"]);
    // every pair of small dimensions
    macro_rules! sweep {
        ($($n:literal: $($m:literal)*;)*) => {$($(
            scen!(v, core, concat!("wide sweep n=", $n, " m=", $m), |e| crate::env::fixing(&["P", "H", "L"], || boxed::<$n, $m, 1, 1, 1, _>(e, ($n + $m) % 4, 1)));
        )*)*};
    }
    sweep!(1: 1 2 3 4 5 6 7 8 9; 2: 1 2 3 4 5 6 7 8; 3: 1 2 3 4 5 6 7 8; 4: 1 2 3 4 5 6 7 8; 5: 1 2 3 4 5 6 7 8; 6: 1 2 3 4 5 6 7 8;
           7: 1 2 3 4 5 6 7 8; 8: 1 2 3 4 5 6 7 8; 9: 1 2 3 4 9; 10: 1 2 3 10; 11: 1 2 4; 12: 1 2 3 6; 13: 1 2; 14: 1 3; 15: 1 2 3; 16: 1 3 4; 18: 1; 20: 2;);
    for k in MANY {
        scen!(v, core, format!("long after {k} uses boxed n=1 m=1"), clone(k) |e| long_after(k, || boxed::<1, 1, 1, 1, 1, _>(e, 0, 1)));
    }
    scen!(v, core, "long after 5000 uses slices n=2 m=1 way=2", |e| long_after(5_000, || slices::<2, 1, 4, 2, 1, _>(e, 2, 1)));
    scen!(v, core, "long after 300 uses arrays n=2 m=2", |e| long_after(300, || arrays::<2, 2, 4, 4, 4, _>(e, 1, 1)));
    #[cfg(feature = "thorough")]
    wide!(arrays 6 6 0 1 ["L", "P"], arrays 10 3 0 1 ["L", "P"], arrays 8 8 0 1 ["L", "P"], arrays 9 9 1 1 ["L", "H"], arrays 12 6 0 1 ["L", "H"],
        arrays 16 4 0 1 ["L", "H"], arrays 8 8 0 1 ["P", "H"], arrays 9 9 1 1 ["P", "H"]);
    #[cfg(feature = "thorough")]
    nm!(extra boxed 8 1 0 1, extra boxed 8 2 1 1, extra boxed 2 5 0 1, extra boxed 3 3 0 2, extra boxed 3 2 1 3, extra arrays 5 5 0 1,
        extra arrays 8 4 0 1);
    v
}
