//! C10: the covariance stays symmetric and moves in the right direction.
//!
//! Semidefinite statements are decided through exact certificates:
//!   predict  P = G G^T, Q = M M^T  =>  P' = (A G)(A G)^T + M M^T
//!   control  P' - P = (B M)(B M)^T
//!   correct  P - P' = W^T W with W = L^-1 H P, and
//!            P' = (I - K H) P (I - K H)^T + K R K^T   (Joseph form)
use crate::env::Env;
use crate::kf::*;
use crate::{history, ld, rd, scen, setup_c, setup_f, setup_o, spec};
use minikalman::extended::*;
use minikalman::regular::*;
use num_traits::{One, Zero};

fn symmetric<E: Env>(e: &mut E, name: &str, p: &[E::T], n: usize) {
    for i in 0..n {
        for j in 0..i {
            e.eq(&format!("{name} symmetric ({i},{j})"), p[i * n + j], p[j * n + i]);
        }
    }
}

/// steps: p t c o; each checked for symmetry and its certificate
macro_rules! body {
    ($kind:ident, $e:ident, $N:ident, $M:ident, $C:ident, $NN:ident, $NM:ident, $NC:ident, $MM:ident, $CC:ident, $steps:expr, $ekf:expr) => {{
        setup_f!($kind regular $e, "", $N, $NN; f);
        setup_f!($kind extended $e, "", $N, $NN; g);
        setup_c!($kind $e, "", $N, $C, $NC, $CC; c);
        setup_o!($kind regular $e, "", $N, $M, $NN, $NM, $MM; o);
        setup_o!($kind extended $e, "", $N, $M, $NN, $NM, $MM; w);
        history!(regular $e, f, $N; control c, $C; observe o, $M);
        history!(extended $e, g, $N; observe w, $M);
        let (n, m, k) = ($N, $M, $C);
        let mut x = $e.vec("x", n);
        let mut p = $e.symmetric("P", n);
        for (t, s) in $steps.chars().enumerate() {
            let fac = |r: &[E::T], a: usize, b: usize| spec::mul(r, &spec::tr(r, a, b), a, b, a);
            let got;
            match s {
                'p' | 't' => {
                    let a = $e.mat(&format!("A{t}"), n, n);
                    let mq = $e.mat(&format!("M{t}"), n, n);
                    let q = fac(&mq, n, n);
                    // before the first step the covariance is an arbitrary Gram matrix
                    let gm = $e.mat("G", n, n);
                    let gram = t == 0;
                    if gram {
                        p = fac(&gm, n, n);
                    }
                    let lam = $e.pos(&format!("lambda{t}"));
                    let fx = $e.vec(&format!("fx{t}"), n);
                    if $ekf {
                        ld!(g.state_transition_jacobian_mut(), a);
                        ld!(g.state_vector_mut(), x);
                        ld!(g.estimate_covariance_mut(), p);
                        ld!(g.direct_process_noise_mut(), q);
                        if s == 'p' {
                            g.predict_nonlinear(|_, y| set_col::<$N, _, _>(y, &fx));
                        } else {
                            g.predict_tuned_nonlinear(lam, |_, y| set_col::<$N, _, _>(y, &fx));
                        }
                        got = rd!(g.estimate_covariance(), n * n);
                        x = rd!(g.state_vector(), n);
                    } else {
                        ld!(f.state_transition_mut(), a);
                        ld!(f.state_vector_mut(), x);
                        ld!(f.estimate_covariance_mut(), p);
                        ld!(f.direct_process_noise_mut(), q);
                        if s == 'p' {
                            f.predict();
                        } else {
                            f.predict_tuned(lam);
                        }
                        got = rd!(f.estimate_covariance(), n * n);
                        x = rd!(f.state_vector(), n);
                    }
                    if gram {
                        let mut ag = spec::mul(&a, &gm, n, n, n);
                        if s == 't' {
                            ag = spec::scale(&ag, E::T::one() / lam);
                        }
                        $e.eq_all(&format!("P' = (A G)(A G)^T + M M^T @{t}"), &got, &spec::add(&fac(&ag, n, n), &q));
                    }
                }
                'c' => {
                    let b = $e.mat(&format!("B{t}"), n, k);
                    let u = $e.vec(&format!("u{t}"), k);
                    let mq = $e.mat(&format!("Mc{t}"), k, k);
                    ld!(c.control_matrix_mut(), b);
                    ld!(c.control_vector_mut(), u);
                    ld!(c.process_noise_covariance_mut(), fac(&mq, k, k));
                    ld!(f.state_vector_mut(), x);
                    ld!(f.estimate_covariance_mut(), p);
                    f.control(&mut c);
                    got = rd!(f.estimate_covariance(), n * n);
                    x = rd!(f.state_vector(), n);
                    let bm = spec::mul(&b, &mq, n, k, k);
                    $e.eq_all(&format!("P' - P = (B M)(B M)^T @{t}"), &spec::sub(&got, &p), &fac(&bm, n, k));
                }
                _ => {
                    let l = $e.lower(&format!("L{t}"), m);
                    let h = $e.mat(&format!("H{t}"), m, n);
                    let z = $e.vec(&format!("z{t}"), m);
                    let r = spec::sub(&spec::llt(&l, m), &spec::sandwich(&h, &p, m, n));
                    if $ekf {
                        let hx = $e.vec(&format!("hx{t}"), m);
                        ld!(w.observation_jacobian_matrix_mut(), h);
                        ld!(w.measurement_vector_mut(), z);
                        ld!(w.measurement_noise_covariance_mut(), r);
                        ld!(g.state_vector_mut(), x);
                        ld!(g.estimate_covariance_mut(), p);
                        g.correct_nonlinear(&mut w, |_, y| set_col::<$M, _, _>(y, &hx));
                        got = rd!(g.estimate_covariance(), n * n);
                        x = rd!(g.state_vector(), n);
                    } else {
                        ld!(o.observation_matrix_mut(), h);
                        ld!(o.measurement_vector_mut(), z);
                        ld!(o.measurement_noise_covariance_mut(), r);
                        ld!(f.state_vector_mut(), x);
                        ld!(f.estimate_covariance_mut(), p);
                        f.correct(&mut o);
                        got = rd!(f.estimate_covariance(), n * n);
                        x = rd!(f.state_vector(), n);
                    }
                    let ww = spec::mul(&spec::linv(&l, m), &spec::mul(&h, &p, m, n, n), m, m, n);
                    let wtw = spec::mul(&spec::tr(&ww, m, n), &ww, n, m, n);
                    $e.eq_all(&format!("P - P' = W^T W @{t}"), &spec::sub(&p, &got), &wtw);
                    let kk = spec::mul(&spec::mul(&p, &spec::tr(&h, m, n), n, n, m), &spec::lltinv(&l, m), n, m, m);
                    // K S = P H^T and P' = (I - K H) P; by `joseph` below these give the Joseph form
                    let pht = spec::mul(&p, &spec::tr(&h, m, n), n, n, m);
                    $e.eq_all(&format!("K S = P H^T @{t}"), &spec::mul(&kk, &spec::llt(&l, m), n, m, m), &pht);
                    $e.eq_all(&format!("P' = P - K H P @{t}"), &got, &spec::sub(&p, &spec::mul(&kk, &spec::mul(&h, &p, m, n, n), n, m, n)));
                }
            }
            symmetric($e, &format!("P' @{t}"), &got, n);
            p = got;
        }
        let _ = x;
    }};
}
macro_rules! kinds {
    ($($f:ident $kind:ident),*) => {$(
        #[allow(unused)]
        fn $f<const N: usize, const M: usize, const C: usize, const NN: usize, const NM: usize, const NC: usize, const MM: usize, const CC: usize, E: Env>(e: &mut E, steps: &str, ekf: bool) {
            body!($kind, e, N, M, C, NN, NM, NC, MM, CC, steps, ekf)
        }
    )*};
}
kinds!(boxed boxed, slices slices, arrays arrays);

/// for all K, P = P^T, H, R: (I - K H) P (I - K H)^T + K R K^T = (I - K H) P - (P H^T - K (H P H^T + R)) K^T
fn joseph<E: Env>(e: &mut E, n: usize, m: usize) {
    let k = e.mat("K", n, m);
    let h = e.mat("H", m, n);
    let p = e.symmetric("P", n);
    let r = e.symmetric("R", m);
    let s = spec::add(&spec::sandwich(&h, &p, m, n), &r);
    let ikh = spec::sub(&spec::eye(n), &spec::mul(&k, &h, n, m, n));
    let jo = spec::add(&spec::sandwich(&ikh, &p, n, n), &spec::sandwich(&k, &r, n, m));
    let res = spec::sub(&spec::mul(&p, &spec::tr(&h, m, n), n, n, m), &spec::mul(&k, &s, n, m, m));
    let rhs = spec::sub(&spec::mul(&ikh, &p, n, n, n), &spec::mul(&res, &spec::tr(&k, n, m), n, m, n));
    e.eq_all("Joseph identity", &jo, &rhs);
}

/// the scalar filter directly: 0 <= P' <= P + ..., as inequalities
fn scalar<E: Env>(e: &mut E, ekf: bool) {
    let g = e.var("g");
    let r = e.var("r");
    let s = e.pos("s");
    let h = e.var("h");
    let p = g * g;
    let zero = E::T::zero();
    // R = r^2 + s > 0
    let rr = r * r + s;
    let b = minikalman::regular::builder::KalmanFilterBuilder::<1, E::T>::default();
    let (mut f, mut o) = (b.build(), b.observations().build::<1>());
    let b = minikalman::extended::builder::KalmanFilterBuilder::<1, E::T>::default();
    let (mut fe, mut oe) = (b.build(), b.observations().build::<1>());
    let z = e.var("z");
    let got = if ekf {
        fe.estimate_covariance_mut()[0] = p;
        oe.observation_jacobian_matrix_mut()[0] = h;
        oe.measurement_noise_covariance_mut()[0] = rr;
        oe.measurement_vector_mut()[0] = z;
        fe.correct_nonlinear(&mut oe, |x, y| y[0] = h * x[0]);
        fe.estimate_covariance()[0]
    } else {
        f.estimate_covariance_mut()[0] = p;
        o.observation_matrix_mut()[0] = h;
        o.measurement_noise_covariance_mut()[0] = rr;
        o.measurement_vector_mut()[0] = z;
        f.correct(&mut o);
        f.estimate_covariance()[0]
    };
    e.le("P' <= P", got, p);
    e.le("0 <= P'", zero, got);
}

#[cfg(feature = "c10")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($k:ident $f:ident $n:literal $m:literal $c:literal $st:literal $ekf:literal),* $(,)?) => {$(
            scen!(v, $k, concat!(stringify!($f), " n=", $n, " m=", $m, " c=", $c, " steps=", $st, " ekf=", $ekf),
                |e| $f::<$n, $m, $c, {$n*$n}, {$n*$m}, {$n*$c}, {$m*$m}, {$c*$c}, _>(e, $st, $ekf));
        )*};
    }
    s!(core arrays 1 1 1 "p" false, core arrays 2 1 1 "p" false, core boxed 3 1 1 "p" false, core arrays 4 1 1 "p" false, core slices 3 1 1 "t" false,
       core arrays 2 1 1 "t" true, core boxed 3 1 1 "p" true, core arrays 4 1 1 "t" true,
       core arrays 1 1 2 "c" false, core boxed 2 1 1 "c" false, core slices 3 1 2 "c" false, core arrays 2 1 3 "c" false, core arrays 4 1 4 "c" false,
       core arrays 1 1 1 "o" false, core boxed 2 1 1 "o" false, core slices 3 1 1 "o" false, core arrays 2 2 1 "o" false, core arrays 3 2 1 "o" false,
       core arrays 1 2 1 "o" false, core arrays 4 1 1 "o" false,
       core boxed 2 1 1 "o" true, core arrays 2 2 1 "o" true, core slices 3 2 1 "o" true, core arrays 1 2 1 "o" true,
       core boxed 2 1 1 "po" false, core arrays 2 1 2 "pc" false, core arrays 2 1 1 "co" false, core boxed 2 1 1 "to" true, core arrays 2 1 1 "op" false,
       extra arrays 2 1 1 "pco" false, extra arrays 3 3 1 "o" false, extra arrays 2 3 1 "o" false, extra arrays 4 2 1 "o" false, extra arrays 3 3 1 "o" true,
       extra boxed 6 1 1 "p" false, extra boxed 6 1 2 "c" false, extra boxed 6 1 1 "o" false, extra arrays 2 1 1 "oo" false);
    #[cfg(feature = "thorough")]
    s!(extra boxed 8 1 1 "p" false, extra boxed 8 1 8 "c" true, extra boxed 8 2 1 "o" false, extra boxed 4 4 1 "o" true, extra boxed 3 1 1 "po" false,
       extra boxed 3 2 1 "po" true, extra boxed 2 2 1 "po" false, extra boxed 2 1 1 "opo" false);
    // larger dimensions with part of the inputs fixed
    macro_rules! wide {
        ($($f:ident $n:literal $m:literal $c:literal $st:literal $ekf:literal $fix:expr),* $(,)?) => {$(
            scen!(v, core, format!("wide {} n={} m={} c={} steps={} ekf={} fixed={:?}", stringify!($f), $n, $m, $c, $st, $ekf, $fix), |e|
                crate::env::fixing(&$fix, || $f::<$n, $m, $c, {$n*$n}, {$n*$m}, {$n*$c}, {$m*$m}, {$c*$c}, _>(e, $st, $ekf)));
        )*};
    }
    wide!(arrays 5 4 1 "o" false ["L", "H"], boxed 5 5 1 "o" true ["L", "P"], arrays 6 6 1 "o" false ["L", "H"], arrays 8 4 1 "o" true ["L", "H"],
        arrays 5 5 1 "o" false ["P", "H"], slices 10 2 1 "o" false ["L", "H"], boxed 12 1 1 "o" false ["L", "H"],
        arrays 8 1 1 "p" false ["A"], boxed 9 1 1 "p" true ["G", "M"], arrays 9 1 1 "t" false ["A"], boxed 12 1 1 "p" false ["A"],
        arrays 9 1 9 "c" false ["B"], boxed 4 1 12 "c" false ["Mc"]);
    #[cfg(feature = "thorough")]
    wide!(arrays 8 8 1 "o" false ["L", "H"], boxed 8 8 1 "o" true ["L", "P"], arrays 8 8 1 "o" false ["P", "H"], boxed 16 1 1 "p" false ["A"], boxed 12 4 1 "o" false ["L", "H"]);
    macro_rules! long {
        ($($f:ident $n:literal $m:literal $c:literal $st:literal $ekf:literal $k:expr),* $(,)?) => {$(
            scen!(v, core, format!("long after {} uses {} n={} m={} c={} steps={} ekf={}", $k, stringify!($f), $n, $m, $c, $st, $ekf),
                |e| long_after($k, || $f::<$n, $m, $c, {$n*$n}, {$n*$m}, {$n*$c}, {$m*$m}, {$c*$c}, _>(e, $st, $ekf)));
        )*};
    }
    long!(boxed 1 1 1 "p" false 300, boxed 1 1 1 "o" false 70_000, slices 2 1 1 "c" false 5_000, arrays 2 1 1 "o" true 5_000, boxed 2 1 1 "t" true 300);
    macro_rules! j {
        ($($n:literal $m:literal),*) => {$(scen!(v, core, concat!("Joseph identity n=", $n, " m=", $m), |e| joseph(e, $n, $m));)*};
    }
    j!(1 1, 2 1, 3 1, 4 1, 6 1, 1 2, 2 2, 3 2, 4 2, 2 3, 3 3);
    scen!(v, core, "scalar correction inequalities", |e| scalar(e, false));
    scen!(v, core, "scalar nonlinear correction inequalities", |e| scalar(e, true));
    v
}
