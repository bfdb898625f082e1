//! C05: the extended prediction applies f to the a-priori state exactly once.
use crate::env::Env;
use crate::kf::*;
use crate::{history, ld, rd, scen, setup_f, spec};
use minikalman::extended::*;
use minikalman::prelude::*;

pub fn via_trait<const N: usize, T: Copy, F: KalmanFilterNonlinearPredict<N, T>>(f: &mut F, fx: &[T], calls: &mut usize, seen: &mut Vec<T>) {
    f.predict_nonlinear(|cur, next| {
        *calls += 1;
        *seen = col::<N, _, _>(cur);
        set_col::<N, _, _>(next, fx);
    })
}

macro_rules! body {
    ($kind:ident, $e:ident, $N:ident, $NN:ident, $tr:expr, $steps:expr) => {{
        setup_f!($kind extended $e, "", $N, $NN; f);
        history!(extended $e, f, $N);
        let n = $N;
        let mut x = $e.vec("x", n);
        let mut p = $e.symmetric("P", n);
        let q = $e.symmetric("Q", n);
        ld!(f.state_vector_mut(), x);
        ld!(f.estimate_covariance_mut(), p);
        ld!(f.direct_process_noise_mut(), q);
        for s in 0..$steps {
            // a new Jacobian every step
            let a = $e.mat(&format!("F{s}"), n, n);
            ld!(f.state_transition_jacobian_mut(), a);
            let fx = $e.vec(&format!("fx{s}"), n);
            let (mut calls, mut seen) = (0, vec![]);
            if $tr {
                via_trait::<$N, _, _>(&mut f, &fx, &mut calls, &mut seen);
            } else {
                f.predict_nonlinear(|cur, next| {
                    calls += 1;
                    seen = rd!(cur, n);
                    ld!(next, fx);
                });
            }
            $e.ok("f called exactly once", calls == 1);
            $e.kept_all(&format!("argument of f@{s}"), &seen, &x);
            x = fx;
            p = spec::add(&spec::sandwich(&a, &p, n, n), &q);
            $e.kept_all(&format!("x@{s}"), &rd!(f.state_vector(), n), &x);
            $e.eq_all(&format!("P@{s}"), &rd!(f.estimate_covariance(), n * n), &p);
        }
    }};
}
/// the tuned variant: f once, on the a-priori state, and the state is what f wrote
macro_rules! tuned_body {
    ($kind:ident, $e:ident, $N:ident, $NN:ident) => {{
        setup_f!($kind extended $e, "", $N, $NN; f);
        history!(extended $e, f, $N);
        let n = $N;
        let mut x = $e.vec("x", n);
        let p = $e.symmetric("P", n);
        let q = $e.symmetric("Q", n);
        ld!(f.state_vector_mut(), x);
        ld!(f.estimate_covariance_mut(), p);
        ld!(f.direct_process_noise_mut(), q);
        for s in 0..2 {
            let a = $e.mat(&format!("F{s}"), n, n);
            ld!(f.state_transition_jacobian_mut(), a);
            let fx = $e.vec(&format!("fx{s}"), n);
            let lambda = $e.pos(&format!("lambda{s}"));
            let (mut calls, mut seen) = (0, vec![]);
            f.predict_tuned_nonlinear(lambda, |cur, next| {
                calls += 1;
                seen = rd!(cur, n);
                ld!(next, fx);
            });
            $e.ok("f called exactly once", calls == 1);
            $e.kept_all(&format!("argument of f@{s}"), &seen, &x);
            x = fx;
            $e.kept_all(&format!("x@{s}"), &rd!(f.state_vector(), n), &x);
        }
    }};
}
pub fn tuned<const N: usize, const NN: usize, E: Env>(e: &mut E) {
    tuned_body!(arrays, e, N, NN)
}
#[cfg(feature = "alloc")]
pub fn tuned_boxed<const N: usize, const NN: usize, E: Env>(e: &mut E) {
    tuned_body!(boxed, e, N, NN)
}
#[cfg(feature = "alloc")]
pub fn boxed<const N: usize, const NN: usize, E: Env>(e: &mut E, tr: bool, steps: usize) {
    body!(boxed, e, N, NN, tr, steps)
}
pub fn slices<const N: usize, const NN: usize, E: Env>(e: &mut E, tr: bool, steps: usize) {
    body!(slices, e, N, NN, tr, steps)
}
pub fn arrays<const N: usize, const NN: usize, E: Env>(e: &mut E, tr: bool, steps: usize) {
    body!(arrays, e, N, NN, tr, steps)
}

#[cfg(feature = "c05")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    crate::harness::also_any(base, crate::env::Contents::AnyCopies, |name| crate::harness::small(name, 4))
}
#[cfg(feature = "c05")]
fn base() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! n {
        ($($k:ident $n:literal $nn:literal),*) => {$(
            scen!(v, $k, concat!("arrays n=", $n), |e| arrays::<$n, $nn, _>(e, false, 1));
            scen!(v, $k, concat!("boxed trait n=", $n), |e| boxed::<$n, $nn, _>(e, true, 1));
            scen!(v, $k, concat!("slices n=", $n), |e| slices::<$n, $nn, _>(e, false, 1));
        )*};
    }
    n!(core 1 1, core 2 4, core 3 9, core 4 16, core 5 25, core 6 36, extra 8 64);
    n!(extra 7 49, extra 9 81, extra 12 144);
    macro_rules! wide {
        ($($n:literal $nn:literal $fix:expr),*) => {$(
            scen!(v, core, format!("wide arrays n={} fixed={:?}", $n, $fix), |e| crate::env::fixing(&$fix, || arrays::<$n, $nn, _>(e, false, 1)));
            scen!(v, core, format!("wide boxed n={} fixed={:?}", $n, $fix), |e| crate::env::fixing(&$fix, || boxed::<$n, $nn, _>(e, true, 1)));
        )*};
    }
    wide!(16 256 ["F"], 17 289 ["P"]);
    scen!(v, core, "long boxed n=1", |e| crate::env::fixing(&["F"], || boxed::<1, 1, _>(e, false, 24)));
    macro_rules! sweep {
        ($($n:literal)*) => {$(
            scen!(v, core, concat!("wide sweep n=", $n), |e| crate::env::fixing(&["F"], || boxed::<$n, 1, _>(e, $n % 2 == 0, 1)));
        )*};
    }
    sweep!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 24 32 33);
    for k in MANY {
        scen!(v, core, format!("long after {k} uses boxed n=1"), clone(k) |e| long_after(k, || boxed::<1, 1, _>(e, false, 1)));
    }
    scen!(v, core, "long after 5000 uses slices n=2", |e| long_after(5_000, || slices::<2, 4, _>(e, true, 1)));
    scen!(v, core, "long after 5000 uses tuned arrays n=2", |e| long_after(5_000, || tuned::<2, 4, _>(e)));
    #[cfg(feature = "thorough")]
    n!(extra 10 100, extra 16 256);
    scen!(v, core, "boxed n=3 two steps", |e| boxed::<3, 9, _>(e, false, 2));
    scen!(v, core, "arrays trait n=2 three steps", |e| arrays::<2, 4, _>(e, true, 3));
    scen!(v, core, "slices trait n=3", |e| slices::<3, 9, _>(e, true, 2));
    scen!(v, core, "tuned arrays n=1", |e| tuned::<1, 1, _>(e));
    scen!(v, core, "tuned arrays n=3", |e| tuned::<3, 9, _>(e));
    scen!(v, core, "tuned boxed n=2", |e| tuned_boxed::<2, 4, _>(e));
    v
}
