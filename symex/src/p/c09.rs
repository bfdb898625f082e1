//! C09: the extended filter with linear functions equals the regular filter.
use crate::env::Env;
use crate::kf::*;
use crate::{history, ld, rd, scen, setup_f, setup_o, spec};
use minikalman::extended::*;
use minikalman::regular::*;

macro_rules! body {
    ($kr:ident, $ke:ident, $e:ident, $N:ident, $M:ident, $NN:ident, $NM:ident, $MM:ident, $steps:expr) => {{
        setup_f!($kr regular $e, "r.", $N, $NN; f);
        setup_o!($kr regular $e, "r.", $N, $M, $NN, $NM, $MM; o);
        setup_f!($ke extended $e, "e.", $N, $NN; g);
        setup_o!($ke extended $e, "e.", $N, $M, $NN, $NM, $MM; w);
        history!(regular $e, f, $N; observe o, $M);
        history!(extended $e, g, $N; observe w, $M);
        let (n, m) = ($N, $M);
        let x = $e.vec("x", n);
        let mut p = $e.symmetric("P", n);
        let q = $e.symmetric("Q", n);
        ld!(f.state_vector_mut(), x);
        ld!(g.state_vector_mut(), x);
        ld!(f.estimate_covariance_mut(), p);
        ld!(g.estimate_covariance_mut(), p);
        ld!(f.direct_process_noise_mut(), q);
        ld!(g.direct_process_noise_mut(), q);
        for (t, s) in $steps.chars().enumerate() {
            let a = $e.mat(&format!("A{t}"), n, n);
            match s {
                'o' => {
                    let l = $e.lower(&format!("L{t}"), m);
                    let h = $e.mat(&format!("H{t}"), m, n);
                    let z = $e.vec(&format!("z{t}"), m);
                    let r = spec::sub(&spec::llt(&l, m), &spec::sandwich(&h, &p, m, n));
                    ld!(o.observation_matrix_mut(), h);
                    ld!(w.observation_jacobian_matrix_mut(), h);
                    ld!(o.measurement_vector_mut(), z);
                    ld!(w.measurement_vector_mut(), z);
                    ld!(o.measurement_noise_covariance_mut(), r);
                    ld!(w.measurement_noise_covariance_mut(), r);
                    f.correct(&mut o);
                    g.correct_nonlinear(&mut w, |x, y| set_col::<$M, _, _>(y, &spec::mul(&h, &col::<$N, _, _>(x), m, n, 1)));
                    // (only needed to parametrise the next R)
                    let k = spec::mul(&spec::mul(&p, &spec::tr(&h, m, n), n, n, m), &spec::lltinv(&l, m), n, m, m);
                    p = spec::sub(&p, &spec::mul(&k, &spec::mul(&h, &p, m, n, n), n, m, n));
                }
                _ => {
                    ld!(f.state_transition_mut(), a);
                    ld!(g.state_transition_jacobian_mut(), a);
                    let fun = |x: &_, y: &mut _| set_col::<$N, _, _>(y, &spec::mul(&a, &col::<$N, _, _>(x), n, n, 1));
                    p = spec::sandwich(&a, &p, n, n);
                    if s == 't' {
                        let lam = $e.pos(&format!("lambda{t}"));
                        f.predict_tuned(lam);
                        g.predict_tuned_nonlinear(lam, fun);
                        p = spec::scale(&p, <E::T as num_traits::One>::one() / (lam * lam));
                    } else {
                        f.predict();
                        g.predict_nonlinear(fun);
                    }
                    p = spec::add(&p, &q);
                }
            }
            $e.eq_all(&format!("x after {t}"), &rd!(g.state_vector(), n), &rd!(f.state_vector(), n));
            $e.eq_all(&format!("P after {t}"), &rd!(g.estimate_covariance(), n * n), &rd!(f.estimate_covariance(), n * n));
        }
    }};
}
macro_rules! kinds {
    ($($f:ident $kr:ident $ke:ident),*) => {$(
        #[allow(unused)]
        fn $f<const N: usize, const M: usize, const NN: usize, const NM: usize, const MM: usize, E: Env>(e: &mut E, steps: &str) {
            body!($kr, $ke, e, N, M, NN, NM, MM, steps)
        }
    )*};
}
kinds!(boxed boxed boxed, arrays arrays arrays, slices slices slices, mixed arrays boxed);

#[cfg(feature = "c09")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($k:ident $f:ident $n:literal $m:literal $st:literal),* $(,)?) => {$(
            scen!(v, $k, concat!(stringify!($f), " n=", $n, " m=", $m, " steps=", $st), |e| $f::<$n, $m, {$n*$n}, {$n*$m}, {$m*$m}, _>(e, $st));
        )*};
    }
    s!(core arrays 1 1 "pto", core boxed 2 1 "p", core boxed 2 1 "t", core boxed 2 1 "o", core mixed 3 1 "p", core mixed 3 1 "t", core mixed 3 2 "o",
       core slices 4 1 "p", core slices 4 1 "t", core slices 2 2 "o", core arrays 1 2 "o", core arrays 2 3 "o", core arrays 3 3 "o", core arrays 4 1 "o",
       core boxed 2 1 "po", core boxed 2 1 "to", core mixed 2 1 "op", core mixed 2 2 "po", core slices 2 1 "tpo", core arrays 1 2 "oo", core arrays 5 1 "p",
       core arrays 6 1 "t", core arrays 3 1 "po",
       extra boxed 2 1 "opo", extra mixed 2 1 "oo", extra arrays 4 4 "o", extra mixed 6 2 "o", extra boxed 6 1 "pt", extra slices 3 1 "tpo");
    // larger dimensions and longer runs with part of the inputs fixed
    macro_rules! wide {
        ($($f:ident $n:literal $m:literal $st:expr, $fix:expr);* $(;)?) => {$(
            scen!(v, core, format!("wide {} n={} m={} steps={} fixed={:?}", stringify!($f), $n, $m, $st, $fix), |e|
                crate::env::fixing(&$fix, || $f::<$n, $m, {$n*$n}, {$n*$m}, {$m*$m}, _>(e, $st)));
        )*};
    }
    wide!(arrays 6 5 "o", ["L", "H"]; boxed 5 5 "o", ["L", "P"]; mixed 8 8 "o", ["L", "H"]; arrays 5 5 "o", ["P", "H"]; slices 12 3 "o", ["L", "H"];
        boxed 17 1 "o", ["L", "H"]; arrays 9 1 "p", ["A"]; arrays 9 1 "t", ["P", "lambda"]; mixed 12 1 "p", ["A"]; mixed 12 1 "t", ["A"];
        boxed 3 2 "ptoopo", ["A", "H", "L", "lambda"]);
    wide!(arrays 9 9 "o", ["L", "H"]; boxed 8 8 "o", ["L", "P"]; arrays 8 8 "o", ["P", "H"]; arrays 16 1 "p", ["A"]; arrays 16 1 "t", ["A"];
        boxed 4 3 "ptoopo", ["A", "H", "L", "lambda"]);
    macro_rules! sweep {
        ($($n:literal: $($m:literal)*;)*) => {$($(
            scen!(v, core, concat!("wide sweep n=", $n, " m=", $m), |e|
                crate::env::fixing(&["P", "H", "L", "A", "lambda"], || boxed::<$n, $m, 1, 1, 1, _>(e, if $m == 1 { "pto" } else { "o" })));
        )*)*};
    }
    sweep!(1: 1 2 3 4 5 6 7 8; 2: 1 2 3 4 5 6 7 8; 3: 1 2 3 4 5 6 7; 4: 1 2 3 4 5 6; 5: 1 2 3 4 5; 6: 1 2 3 4; 7: 1 2 3 7; 8: 1 2 3; 9: 1 2; 10: 1 2; 11: 1; 12: 1; 13: 1; 14: 1; 15: 1; 16: 1; 20: 1;);
    macro_rules! long {
        ($($f:ident $n:literal $m:literal $st:literal $k:expr),* $(,)?) => {$(
            scen!(v, core, format!("long after {} uses {} n={} m={} steps={}", $k, stringify!($f), $n, $m, $st), |e|
                long_after($k, || $f::<$n, $m, {$n*$n}, {$n*$m}, {$m*$m}, _>(e, $st)));
        )*};
    }
    long!(boxed 1 1 "pto" 300, boxed 1 1 "o" 5_000, mixed 1 1 "po" 70_000, slices 2 1 "p" 5_000, arrays 2 2 "o" 300);
    s!(extra arrays 1 3 "oo", extra boxed 3 2 "po", extra boxed 4 2 "po", extra boxed 8 2 "o", extra boxed 8 1 "p", extra boxed 10 1 "t", extra boxed 2 2 "opo", extra boxed 3 1 "popo");
    v
}
