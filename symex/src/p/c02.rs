//! C02: predict_tuned scales the propagated covariance by 1/lambda^2 only.
use crate::env::Env;
use crate::kf::*;
use crate::{history, ld, rd, scen, setup_f, spec};
use minikalman::extended::*;
use minikalman::regular::*;
use num_traits::One;

/// how: 0 arbitrary lambda > 0, 1 lambda = 1 against the untuned prediction
macro_rules! regular_body {
    ($kind:ident, $e:ident, $N:ident, $NN:ident, $one:expr, $steps:expr) => {{
        setup_f!($kind regular $e, "", $N, $NN; f);
        history!(regular $e, f, $N);
        let n = $N;
        let a = $e.mat("A", n, n);
        let mut x = $e.vec("x", n);
        let mut p = $e.symmetric("P", n);
        let q = $e.symmetric("Q", n);
        ld!(f.state_transition_mut(), a);
        ld!(f.state_vector_mut(), x);
        ld!(f.estimate_covariance_mut(), p);
        ld!(f.direct_process_noise_mut(), q);
        for s in 0..$steps {
            let lam = if $one { E::T::one() } else { $e.pos(&format!("lambda{s}")) };
            f.predict_tuned(lam);
            x = spec::mul(&a, &x, n, n, 1);
            p = spec::add(&spec::scale(&spec::sandwich(&a, &p, n, n), E::T::one() / (lam * lam)), &q);
            $e.eq_all(&format!("x@{s}"), &rd!(f.state_vector(), n), &x);
            $e.eq_all(&format!("P@{s}"), &rd!(f.estimate_covariance(), n * n), &p);
        }
        if $one {
            setup_f!($kind regular $e, "g.", $N, $NN; g);
            let x = $e.vec("x", n);
            let p = $e.symmetric("P", n);
            ld!(g.state_transition_mut(), a);
            ld!(g.state_vector_mut(), x);
            ld!(g.estimate_covariance_mut(), p);
            ld!(g.direct_process_noise_mut(), q);
            for _ in 0..$steps {
                g.predict();
            }
            $e.eq_all("same x", &rd!(f.state_vector(), n), &rd!(g.state_vector(), n));
            $e.eq_all("same P", &rd!(f.estimate_covariance(), n * n), &rd!(g.estimate_covariance(), n * n));
        }
    }};
}
macro_rules! extended_body {
    ($kind:ident, $e:ident, $N:ident, $NN:ident, $one:expr, $steps:expr) => {{
        setup_f!($kind extended $e, "", $N, $NN; f);
        history!(extended $e, f, $N);
        let n = $N;
        let a = $e.mat("A", n, n);
        let mut x = $e.vec("x", n);
        let mut p = $e.symmetric("P", n);
        let q = $e.symmetric("Q", n);
        ld!(f.state_transition_jacobian_mut(), a);
        ld!(f.state_vector_mut(), x);
        ld!(f.estimate_covariance_mut(), p);
        ld!(f.direct_process_noise_mut(), q);
        for s in 0..$steps {
            let lam = if $one { E::T::one() } else { $e.pos(&format!("lambda{s}")) };
            let fx = $e.vec(&format!("fx{s}"), n);
            let (mut calls, mut seen) = (0, vec![]);
            f.predict_tuned_nonlinear(lam, |cur, next| {
                calls += 1;
                seen = col::<$N, _, _>(cur);
                set_col::<$N, _, _>(next, &fx);
            });
            $e.ok("f called once", calls == 1);
            $e.eq_all(&format!("argument@{s}"), &seen, &x);
            x = fx;
            p = spec::add(&spec::scale(&spec::sandwich(&a, &p, n, n), E::T::one() / (lam * lam)), &q);
            $e.eq_all(&format!("x@{s}"), &rd!(f.state_vector(), n), &x);
            $e.eq_all(&format!("P@{s}"), &rd!(f.estimate_covariance(), n * n), &p);
        }
        if $one {
            setup_f!($kind extended $e, "g.", $N, $NN; g);
            let x = $e.vec("x", n);
            let p = $e.symmetric("P", n);
            ld!(g.state_transition_jacobian_mut(), a);
            ld!(g.state_vector_mut(), x);
            ld!(g.estimate_covariance_mut(), p);
            ld!(g.direct_process_noise_mut(), q);
            for s in 0..$steps {
                let fx = $e.vec(&format!("fx{s}"), n);
                g.predict_nonlinear(|_, next| set_col::<$N, _, _>(next, &fx));
            }
            $e.eq_all("same x", &rd!(f.state_vector(), n), &rd!(g.state_vector(), n));
            $e.eq_all("same P", &rd!(f.estimate_covariance(), n * n), &rd!(g.estimate_covariance(), n * n));
        }
    }};
}
macro_rules! kinds {
    ($body:ident, $b:ident, $s:ident, $a:ident) => {
        #[cfg(feature = "alloc")]
        pub fn $b<const N: usize, const NN: usize, E: Env>(e: &mut E, one: bool, steps: usize) {
            $body!(boxed, e, N, NN, one, steps)
        }
        pub fn $s<const N: usize, const NN: usize, E: Env>(e: &mut E, one: bool, steps: usize) {
            $body!(slices, e, N, NN, one, steps)
        }
        pub fn $a<const N: usize, const NN: usize, E: Env>(e: &mut E, one: bool, steps: usize) {
            $body!(arrays, e, N, NN, one, steps)
        }
    };
}
kinds!(regular_body, rb, rs, ra);
kinds!(extended_body, eb, es, ea);

#[cfg(feature = "c02")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! n {
        ($($k:ident $n:literal $nn:literal),*) => {$(
            scen!(v, $k, concat!("regular arrays n=", $n), |e| ra::<$n, $nn, _>(e, false, 1));
            scen!(v, $k, concat!("extended arrays n=", $n), |e| ea::<$n, $nn, _>(e, false, 1));
        )*};
    }
    n!(core 1 1, core 2 4, core 3 9, core 4 16, core 5 25, core 6 36, extra 8 64);
    n!(extra 7 49, extra 9 81, extra 12 144);
    macro_rules! wide {
        ($($n:literal $nn:literal $fix:expr),*) => {$(
            scen!(v, core, format!("wide regular arrays n={} fixed={:?}", $n, $fix), |e| crate::env::fixing(&$fix, || ra::<$n, $nn, _>(e, false, 1)));
            scen!(v, core, format!("wide extended arrays n={} fixed={:?}", $n, $fix), |e| crate::env::fixing(&$fix, || ea::<$n, $nn, _>(e, false, 1)));
        )*};
    }
    wide!(16 256 ["A"], 17 289 ["A", "P"]);
    scen!(v, core, "long regular boxed n=1", |e| crate::env::fixing(&["A", "lambda"], || rb::<1, 1, _>(e, false, 12)));
    scen!(v, core, "long extended boxed n=1", |e| crate::env::fixing(&["A", "lambda"], || eb::<1, 1, _>(e, false, 12)));
    macro_rules! sweep {
        ($($n:literal)*) => {$(
            scen!(v, core, concat!("wide sweep regular n=", $n), |e| crate::env::fixing(&["A"], || rb::<$n, 1, _>(e, false, 1)));
            scen!(v, core, concat!("wide sweep extended n=", $n), |e| crate::env::fixing(&["A"], || eb::<$n, 1, _>(e, false, 1)));
        )*};
    }
    sweep!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 24 32 33);
    #[cfg(feature = "thorough")]
    n!(extra 10 100, extra 16 256);
    for k in MANY {
        scen!(v, core, format!("long after {k} uses regular boxed n=1"), clone(k) |e| long_after(k, || rb::<1, 1, _>(e, false, 1)));
        scen!(v, core, format!("long after {k} uses extended arrays n=1"), clone(k) |e| long_after(k, || ea::<1, 1, _>(e, false, 1)));
    }
    scen!(v, core, "long after 5000 uses regular slices n=2", |e| long_after(5_000, || rs::<2, 4, _>(e, false, 1)));
    scen!(v, core, "long after 5000 uses extended boxed n=2", |e| long_after(5_000, || eb::<2, 4, _>(e, false, 1)));
    scen!(v, core, "regular boxed n=3 two steps", |e| rb::<3, 9, _>(e, false, 2));
    scen!(v, core, "regular slices n=3", |e| rs::<3, 9, _>(e, false, 1));
    scen!(v, core, "extended boxed n=2 two steps", |e| eb::<2, 4, _>(e, false, 2));
    scen!(v, core, "extended slices n=3", |e| es::<3, 9, _>(e, false, 1));
    scen!(v, core, "regular boxed n=3 lambda=1", |e| rb::<3, 9, _>(e, true, 1));
    scen!(v, core, "regular arrays n=2 lambda=1 two steps", |e| ra::<2, 4, _>(e, true, 2));
    scen!(v, core, "extended boxed n=3 lambda=1", |e| eb::<3, 9, _>(e, true, 1));
    scen!(v, core, "extended slices n=2 lambda=1 two steps", |e| es::<2, 4, _>(e, true, 2));
    v
}
