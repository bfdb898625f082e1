//! C01: x' = A x, P' = A P A^T + Q
use crate::env::Env;
use crate::kf::*;
use crate::{filter_arrays, filter_over, history, ld, rd, scen, spec};
use minikalman::regular::*;

pub fn via_trait<const N: usize, T, F: KalmanFilterPredict<N, T>>(f: &mut F) {
    f.predict()
}

macro_rules! body {
    ($e:ident, $f:ident, $N:ident, $via_trait:expr, $steps:expr) => {{
        history!(regular $e, $f, $N);
        let n = $N;
        let a = $e.mat("A", n, n);
        let mut x = $e.vec("x", n);
        let mut p = $e.symmetric("P", n);
        let q = $e.symmetric("Q", n);
        ld!($f.state_transition_mut(), a);
        ld!($f.state_vector_mut(), x);
        ld!($f.estimate_covariance_mut(), p);
        ld!($f.direct_process_noise_mut(), q);
        for s in 0..$steps {
            if $via_trait {
                via_trait::<N, _, _>(&mut $f);
            } else {
                $f.predict();
            }
            x = spec::mul(&a, &x, n, n, 1);
            p = spec::add(&spec::sandwich(&a, &p, n, n), &q);
            $e.eq_all(&format!("x@{s}"), &rd!($f.state_vector(), n), &x);
            $e.eq_all(&format!("P@{s}"), &rd!($f.estimate_covariance(), n * n), &p);
        }
    }};
}

#[cfg(feature = "alloc")]
pub fn boxed<const N: usize, E: Env>(e: &mut E, tr: bool, steps: usize) {
    let mut f = builder::KalmanFilterBuilder::<N, E::T>::default().build();
    body!(e, f, N, tr, steps)
}
pub fn slices<const N: usize, E: Env>(e: &mut E, tr: bool, extra: usize) {
    let mut m = FMem::new(e, "", N, extra);
    let mut f = filter_over!(RegularKalmanBuilder, m, N);
    body!(e, f, N, tr, 1)
}
pub fn arrays<const N: usize, const NN: usize, E: Env>(e: &mut E, tr: bool) {
    let mut f = filter_arrays!(RegularKalmanBuilder, e, "", N, NN);
    body!(e, f, N, tr, 1)
}

#[cfg(feature = "c01")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! n {
        ($($k:ident $n:literal $nn:literal),*) => {$(
            scen!(v, $k, concat!("arrays n=", $n), |e| arrays::<$n, $nn, _>(e, false));
            scen!(v, $k, concat!("boxed trait n=", $n), |e| boxed::<$n, _>(e, true, 1));
            scen!(v, $k, concat!("slices n=", $n), |e| slices::<$n, _>(e, false, 3));
        )*};
    }
    n!(core 1 1, core 2 4, core 3 9, core 4 16, core 5 25, core 6 36, extra 7 49, extra 8 64, extra 9 81);
    macro_rules! wide {
        ($($f:ident $n:literal $nn:literal $fix:expr),*) => {$(
            scen!(v, core, format!("wide boxed n={} fixed={:?}", $n, $fix), |e| crate::env::fixing(&$fix, || boxed::<$n, _>(e, false, 1)));
            scen!(v, core, format!("wide slices n={} fixed={:?}", $n, $fix), |e| crate::env::fixing(&$fix, || slices::<$n, _>(e, true, 1)));
        )*};
    }
    n!(extra 12 144);
    wide!(boxed 16 256 ["A"], boxed 17 289 ["P", "Q"], boxed 13 169 ["A"]);
    scen!(v, core, "long boxed n=1", |e| crate::env::fixing(&["A"], || boxed::<1, _>(e, false, 40)));
    scen!(v, core, "long boxed n=3", |e| crate::env::fixing(&["A"], || boxed::<3, _>(e, false, 12)));
    macro_rules! sweep {
        ($($n:literal)*) => {$(
            scen!(v, core, concat!("wide sweep n=", $n), |e| crate::env::fixing(&["A"], || boxed::<$n, _>(e, $n % 2 == 0, 1)));
        )*};
    }
    sweep!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 24 32 33);
    #[cfg(feature = "thorough")]
    n!(extra 16 256, extra 17 289);
    #[cfg(feature = "thorough")]
    wide!(boxed 24 576 ["A"], boxed 33 1089 ["A"]);
    for k in MANY {
        scen!(v, core, format!("long after {k} uses boxed n=1"), clone(k) |e| long_after(k, || boxed::<1, _>(e, false, 1)));
    }
    scen!(v, core, "long after 5000 uses slices trait n=2", |e| long_after(5_000, || slices::<2, _>(e, true, 1)));
    scen!(v, core, "long after 300 uses arrays n=3", |e| long_after(300, || arrays::<3, 9, _>(e, false)));
    scen!(v, core, "boxed n=3 two steps", |e| boxed::<3, _>(e, false, 2));
    scen!(v, core, "boxed n=2 three steps", |e| boxed::<2, _>(e, true, 3));
    scen!(v, core, "arrays trait n=3", |e| arrays::<3, 9, _>(e, true));
    scen!(v, core, "slices trait n=3", |e| slices::<3, _>(e, true, 0));
    v
}
