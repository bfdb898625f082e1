//! C08: a step depends only on current values, never on scratch or history.
//!
//! A long-lived filter (with its control and observation objects, which a second
//! filter also uses) runs a whole sequence of steps and value changes; before
//! every step its current values are copied into brand-new objects with other
//! garbage in their scratch buffers, and the step must give the same result there.
use crate::env::Env;
use crate::kf::*;
use crate::{ld, rd, scen, setup_c, setup_f, setup_o};
use minikalman::extended::*;
use minikalman::regular::*;

/// uses that a step word asks for: more than any 8 bit, 12 bit or 16 bit counter holds
fn warm(s: char) -> usize {
    match s {
        'w' => 300,
        'v' => 5_000,
        'W' => 70_000,
        _ => 0,
    }
}
/// the results of a repeated step, against those of its first use
fn again<E: Env>(e: &mut E, first: &mut Vec<Vec<E::T>>, left: &mut usize, i: usize, step: usize, x: &[E::T], p: &[E::T]) {
    if i == 0 {
        first.push([x, p].concat());
        e.ok("repeated", true);
        return;
    }
    if *left == 0 {
        return; // enough differences to decide
    }
    for (k, v) in x.iter().chain(p).enumerate() {
        if !e.same(*v, first[step][k]) {
            e.eq(&format!("use {i} of step {step} ({k})"), *v, first[step][k]);
            first[step][k] = *v;
            *left = left.saturating_sub(1);
        }
    }
}

macro_rules! regular_body {
    ($kind:ident, $e:ident, $N:ident, $M:ident, $C:ident, $NN:ident, $NM:ident, $NC:ident, $MM:ident, $CC:ident, $steps:expr) => {{
        setup_f!($kind regular $e, "", $N, $NN; f);
        setup_f!($kind regular $e, "other.", $N, $NN; g);
        setup_c!($kind $e, "", $N, $C, $NC, $CC; c);
        setup_o!($kind regular $e, "", $N, $M, $NN, $NM, $MM; o);
        let (n, m, k) = ($N, $M, $C);
        {
            let v = ($e.mat("gA", n, n), $e.vec("gx", n), $e.symmetric("gP", n), $e.symmetric("gQ", n));
            ld!(g.state_transition_mut(), v.0);
            ld!(g.state_vector_mut(), v.1);
            ld!(g.estimate_covariance_mut(), v.2);
            ld!(g.direct_process_noise_mut(), v.3);
        }
        for (t, s) in format!("r{}", $steps).chars().enumerate() {
            let all = s == 'r';
            if all || s == 'A' { let w = $e.mat(&format!("A@{t}"), n, n); ld!(f.state_transition_mut(), w); }
            if all || s == 'X' { let w = $e.vec(&format!("x@{t}"), n); ld!(f.state_vector_mut(), w); }
            if all || s == 'P' { let w = $e.symmetric(&format!("P@{t}"), n); ld!(f.estimate_covariance_mut(), w); }
            if all || s == 'Q' { let w = $e.symmetric(&format!("Q@{t}"), n); ld!(f.direct_process_noise_mut(), w); }
            if all || s == 'B' { let w = $e.mat(&format!("B@{t}"), n, k); ld!(c.control_matrix_mut(), w); }
            if all || s == 'u' { let w = $e.vec(&format!("u@{t}"), k); ld!(c.control_vector_mut(), w); }
            if all || s == 'V' { let w = $e.symmetric(&format!("V@{t}"), k); ld!(c.process_noise_covariance_mut(), w); }
            if all || s == 'H' { let w = $e.mat(&format!("H@{t}"), m, n); ld!(o.observation_matrix_mut(), w); }
            if all || s == 'z' { let w = $e.vec(&format!("z@{t}"), m); ld!(o.measurement_vector_mut(), w); }
            if all || s == 'R' { let w = $e.symmetric(&format!("R@{t}"), m); ld!(o.measurement_noise_covariance_mut(), w); }
            // the other filter uses the shared objects
            if s == 'd' { g.control(&mut c); }
            if s == 'q' { g.correct(&mut o); }
            // many uses with the same values, each with the same results
            if warm(s) > 0 {
                let (a, x, pp, q) = ($e.mat("wA", n, n), $e.vec("wx", n), $e.symmetric("wP", n), $e.symmetric("wQ", n));
                let (b, u, vc) = ($e.mat("wB", n, k), $e.vec("wu", k), $e.symmetric("wV", k));
                let (h, z, r, l) = ($e.mat("wH", m, n), $e.vec("wz", m), $e.symmetric("wR", m), $e.pos("wl"));
                let (mut first, mut left): (Vec<Vec<E::T>>, usize) = (vec![], 60);
                for i in 0..warm(s) {
                    for step in 0..4 {
                        ld!(f.state_transition_mut(), a);
                        ld!(f.state_vector_mut(), x);
                        ld!(f.estimate_covariance_mut(), pp);
                        ld!(f.direct_process_noise_mut(), q);
                        ld!(c.control_matrix_mut(), b);
                        ld!(c.control_vector_mut(), u);
                        ld!(c.process_noise_covariance_mut(), vc);
                        ld!(o.observation_matrix_mut(), h);
                        ld!(o.measurement_vector_mut(), z);
                        ld!(o.measurement_noise_covariance_mut(), r);
                        match step {
                            0 => f.correct(&mut o),
                            1 => f.predict(),
                            2 => f.control(&mut c),
                            _ => f.predict_tuned(l),
                        }
                        again($e, &mut first, &mut left, i, step, f.state_vector().as_slice(), f.estimate_covariance().as_slice());
                    }
                }
            }
            if !"ptco".contains(s) {
                continue;
            }
            let p = format!("fresh{t}.");
            setup_f!(arrays regular $e, p, $N, $NN; f2);
            setup_c!(arrays $e, p, $N, $C, $NC, $CC; c2);
            setup_o!(arrays regular $e, p, $N, $M, $NN, $NM, $MM; o2);
            ld!(f2.state_transition_mut(), rd!(f.state_transition(), n * n));
            ld!(f2.state_vector_mut(), rd!(f.state_vector(), n));
            ld!(f2.estimate_covariance_mut(), rd!(f.estimate_covariance(), n * n));
            ld!(f2.direct_process_noise_mut(), rd!(f.direct_process_noise(), n * n));
            ld!(c2.control_matrix_mut(), rd!(c.control_matrix(), n * k));
            ld!(c2.control_vector_mut(), rd!(c.control_vector(), k));
            ld!(c2.process_noise_covariance_mut(), rd!(c.process_noise_covariance(), k * k));
            ld!(o2.observation_matrix_mut(), rd!(o.observation_matrix(), n * m));
            ld!(o2.measurement_vector_mut(), rd!(o.measurement_vector(), m));
            ld!(o2.measurement_noise_covariance_mut(), rd!(o.measurement_noise_covariance(), m * m));
            let lam = $e.pos(&format!("lambda@{t}"));
            match s {
                'p' => { f.predict(); f2.predict() }
                't' => { f.predict_tuned(lam); f2.predict_tuned(lam) }
                'c' => { f.control(&mut c); f2.control(&mut c2) }
                _ => { f.correct(&mut o); f2.correct(&mut o2) }
            }
            $e.eq_all(&format!("x after step {t}"), &rd!(f.state_vector(), n), &rd!(f2.state_vector(), n));
            $e.eq_all(&format!("P after step {t}"), &rd!(f.estimate_covariance(), n * n), &rd!(f2.estimate_covariance(), n * n));
        }
    }};
}
macro_rules! extended_body {
    ($kind:ident, $e:ident, $N:ident, $M:ident, $C:ident, $NN:ident, $NM:ident, $NC:ident, $MM:ident, $CC:ident, $steps:expr) => {{
        setup_f!($kind extended $e, "", $N, $NN; f);
        setup_f!($kind extended $e, "other.", $N, $NN; g);
        setup_o!($kind extended $e, "", $N, $M, $NN, $NM, $MM; o);
        let (n, m) = ($N, $M);
        {
            let v = ($e.mat("gA", n, n), $e.vec("gx", n), $e.symmetric("gP", n), $e.symmetric("gQ", n));
            ld!(g.state_transition_jacobian_mut(), v.0);
            ld!(g.state_vector_mut(), v.1);
            ld!(g.estimate_covariance_mut(), v.2);
            ld!(g.direct_process_noise_mut(), v.3);
        }
        for (t, s) in format!("r{}", $steps).chars().enumerate() {
            let all = s == 'r';
            let fx = $e.vec(&format!("fx@{t}"), n);
            let hx = $e.vec(&format!("hx@{t}"), m);
            if all || s == 'A' { let w = $e.mat(&format!("A@{t}"), n, n); ld!(f.state_transition_jacobian_mut(), w); }
            if all || s == 'X' { let w = $e.vec(&format!("x@{t}"), n); ld!(f.state_vector_mut(), w); }
            if all || s == 'P' { let w = $e.symmetric(&format!("P@{t}"), n); ld!(f.estimate_covariance_mut(), w); }
            if all || s == 'Q' { let w = $e.symmetric(&format!("Q@{t}"), n); ld!(f.direct_process_noise_mut(), w); }
            if all || s == 'H' { let w = $e.mat(&format!("H@{t}"), m, n); ld!(o.observation_jacobian_matrix_mut(), w); }
            if all || s == 'z' { let w = $e.vec(&format!("z@{t}"), m); ld!(o.measurement_vector_mut(), w); }
            if all || s == 'R' { let w = $e.symmetric(&format!("R@{t}"), m); ld!(o.measurement_noise_covariance_mut(), w); }
            if s == 'q' { g.correct_nonlinear(&mut o, |_, y| set_col::<$M, _, _>(y, &hx)); }
            // many uses with the same values, each with the same results
            if warm(s) > 0 {
                let (a, x, pp, q) = ($e.mat("wA", n, n), $e.vec("wx", n), $e.symmetric("wP", n), $e.symmetric("wQ", n));
                let (h, z, r, l) = ($e.mat("wH", m, n), $e.vec("wz", m), $e.symmetric("wR", m), $e.pos("wl"));
                let (mut first, mut left): (Vec<Vec<E::T>>, usize) = (vec![], 60);
                for i in 0..warm(s) {
                    for step in 0..3 {
                        ld!(f.state_transition_jacobian_mut(), a);
                        ld!(f.state_vector_mut(), x);
                        ld!(f.estimate_covariance_mut(), pp);
                        ld!(f.direct_process_noise_mut(), q);
                        ld!(o.observation_jacobian_matrix_mut(), h);
                        ld!(o.measurement_vector_mut(), z);
                        ld!(o.measurement_noise_covariance_mut(), r);
                        match step {
                            0 => f.correct_nonlinear(&mut o, |_, y| set_col::<$M, _, _>(y, &hx)),
                            1 => f.predict_nonlinear(|_, y| set_col::<$N, _, _>(y, &fx)),
                            _ => f.predict_tuned_nonlinear(l, |_, y| set_col::<$N, _, _>(y, &fx)),
                        }
                        again($e, &mut first, &mut left, i, step, f.state_vector().as_slice(), f.estimate_covariance().as_slice());
                    }
                }
            }
            if !"pto".contains(s) {
                continue;
            }
            let p = format!("fresh{t}.");
            setup_f!(arrays extended $e, p, $N, $NN; f2);
            setup_o!(arrays extended $e, p, $N, $M, $NN, $NM, $MM; o2);
            ld!(f2.state_transition_jacobian_mut(), rd!(f.state_transition_jacobian(), n * n));
            ld!(f2.state_vector_mut(), rd!(f.state_vector(), n));
            ld!(f2.estimate_covariance_mut(), rd!(f.estimate_covariance(), n * n));
            ld!(f2.direct_process_noise_mut(), rd!(f.direct_process_noise(), n * n));
            ld!(o2.observation_jacobian_matrix_mut(), rd!(o.observation_jacobian_matrix(), n * m));
            ld!(o2.measurement_vector_mut(), rd!(o.measurement_vector(), m));
            ld!(o2.measurement_noise_covariance_mut(), rd!(o.measurement_noise_covariance(), m * m));
            let lam = $e.pos(&format!("lambda@{t}"));
            match s {
                'p' => {
                    f.predict_nonlinear(|_, y| set_col::<$N, _, _>(y, &fx));
                    f2.predict_nonlinear(|_, y| set_col::<$N, _, _>(y, &fx))
                }
                't' => {
                    f.predict_tuned_nonlinear(lam, |_, y| set_col::<$N, _, _>(y, &fx));
                    f2.predict_tuned_nonlinear(lam, |_, y| set_col::<$N, _, _>(y, &fx))
                }
                _ => {
                    f.correct_nonlinear(&mut o, |_, y| set_col::<$M, _, _>(y, &hx));
                    f2.correct_nonlinear(&mut o2, |_, y| set_col::<$M, _, _>(y, &hx))
                }
            }
            $e.eq_all(&format!("x after step {t}"), &rd!(f.state_vector(), n), &rd!(f2.state_vector(), n));
            $e.eq_all(&format!("P after step {t}"), &rd!(f.estimate_covariance(), n * n), &rd!(f2.estimate_covariance(), n * n));
        }
    }};
}
macro_rules! kinds {
    ($body:ident, $($f:ident $kind:ident),*) => {$(
        #[allow(unused)]
        fn $f<const N: usize, const M: usize, const C: usize, const NN: usize, const NM: usize, const NC: usize, const MM: usize, const CC: usize, E: Env>(e: &mut E, steps: &str) {
            $body!($kind, e, N, M, C, NN, NM, NC, MM, CC, steps)
        }
    )*};
}
kinds!(regular_body, rboxed boxed, rslices slices, rarrays arrays);
kinds!(extended_body, eboxed boxed, eslices slices, earrays arrays);

fn words(alpha: &str, last: &str, len: usize) -> Vec<String> {
    let mut w = vec![String::new()];
    for i in 0..len {
        let a = if i + 1 == len { last } else { alpha };
        w = w.iter().flat_map(|p| a.chars().map(move |c| format!("{p}{c}"))).collect();
    }
    w
}

#[cfg(feature = "c08")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    // leftovers of every kind, NaN and infinities included, for short histories
    crate::harness::also_any(base, crate::env::Contents::Any, |name| {
        let word = name.rsplit_once("steps=").map_or("", |x| x.1);
        crate::harness::small(name, 3) && (word.len() < 3 || word.starts_with(['p', 'o']) && word.ends_with(['p', 'o']) && word.len() < 4)
    })
}
#[cfg(feature = "c08")]
fn base() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($f:ident $n:literal $m:literal $c:literal, $words:expr) => {
            for w in $words {
                scen!(v, core, format!("{} n={} m={} c={} steps={}", stringify!($f), $n, $m, $c, w), clone(w) |e|
                    $f::<$n, $m, $c, {$n*$n}, {$n*$m}, {$n*$c}, {$m*$m}, {$c*$c}, _>(e, &w));
            }
        };
    }
    let th = cfg!(feature = "thorough");
    // long runs: the covariances and the observation matrix are fixed numbers (new ones at every
    // full replacement), everything else stays symbolic
    macro_rules! long {
        ($f:ident $n:literal $m:literal $c:literal, $fix:expr, $words:expr) => {
            for w in $words {
                let short = if w.len() > 24 { format!("{}..({})", &w[..12], w.len()) } else { w.clone() };
                scen!(v, core, format!("long {} n={} m={} c={} fixed={:?} steps={}", stringify!($f), $n, $m, $c, $fix, short), clone(w) |e|
                    crate::env::fixing(&$fix, || $f::<$n, $m, $c, {$n*$n}, {$n*$m}, {$n*$c}, {$m*$m}, {$c*$c}, _>(e, &w)));
            }
        };
    }
    let r = if th { 5 } else { 1 };
    long!(rboxed 1 1 1, ["P", "H", "R"], ["rprtrcro".repeat(12 * r), "ro".repeat(70 * r), "rp".repeat(70 * r), "rc".repeat(70 * r), "rt".repeat(70 * r)]);
    long!(rarrays 2 1 1, ["P", "H", "R"], ["rprtrcro".repeat(8 * r)]);
    long!(rslices 1 2 2, ["P", "H", "R"], ["rcrorprt".repeat(6 * r)]);
    long!(eboxed 1 1 1, ["P", "H", "R"], ["rprtro".repeat(12 * r), "ro".repeat(70 * r), "rp".repeat(70 * r), "rt".repeat(70 * r)]);
    long!(earrays 2 1 1, ["P", "H", "R"], ["rprtro".repeat(8 * r)]);
    // the same after hundreds to tens of thousands of uses
    let hist: Vec<String> = ["wrprtrcro", "vrorcrtrp", "Wrorprtrc"].map(String::from).to_vec();
    long!(rboxed 1 1 1, ["P", "H", "R"], hist.clone());
    long!(rslices 2 2 1, ["P", "H", "R"], [hist[0].clone()]);
    long!(rarrays 2 1 1, ["P", "H", "R"], [hist[2].clone()]);
    let hist: Vec<String> = ["wrprtro", "vrortrp", "Wrorprt"].map(String::from).to_vec();
    long!(eboxed 1 1 1, ["P", "H", "R"], hist.clone());
    long!(eslices 2 2 1, ["P", "H", "R"], [hist[0].clone()]);
    long!(earrays 2 1 1, ["P", "H", "R"], [hist[2].clone()]);
    // nothing is replaced: repeated measurements, a steady loop, changes of single inputs in between
    long!(rboxed 1 1 1, ["P", "H", "R", "A", "Q", "B", "V"], ["o".repeat(70 * r), "po".repeat(8), "pPo".repeat(30 * r), "pc".repeat(35 * r), "XuzpcoXzo".repeat(8 * r)]);
    long!(rarrays 2 1 1, ["P", "H", "R", "A", "Q", "B", "V"], ["pcXuzo".repeat(6)]);
    long!(eboxed 1 1 1, ["P", "H", "R", "A", "Q"], ["o".repeat(70 * r), "po".repeat(8), "pPo".repeat(30 * r), "XzpoXzo".repeat(8 * r)]);
    long!(earrays 2 1 1, ["P", "H", "R", "A", "Q"], ["pXzo".repeat(8)]);
    // every word over steps, uses of the shared objects by another filter, and full replacement
    s!(rarrays 2 1 2, words("ptcordq", "ptco", if th { 4 } else { 3 }));
    s!(rboxed 2 2 1, words("ptcordq", "ptco", 2));
    s!(rslices 3 1 3, words("ptcordq", "ptco", 2));
    s!(earrays 2 1 1, words("ptorq", "pto", if th { 4 } else { 3 }));
    s!(eboxed 2 2 1, words("ptorq", "pto", 2));
    s!(eslices 3 1 1, words("ptorq", "pto", 2));
    s!(rboxed 1 2 1, words("ptcordq", "ptco", 2));
    s!(eboxed 1 2 1, words("ptorq", "pto", 2));
    // one input changed between two uses of the same step
    let ch: Vec<String> = "ptco".chars().flat_map(|a| "AXPQBuVHzR".chars().map(move |i| format!("{a}{i}{a}"))).collect();
    s!(rboxed 2 1 1, ch.clone());
    s!(rarrays 3 2 2, ch);
    let ch: Vec<String> = "pto".chars().flat_map(|a| "AXPQHzR".chars().map(move |i| format!("{a}{i}{a}"))).collect();
    s!(eboxed 2 1 1, ch.clone());
    s!(earrays 3 2 1, ch);
    if th {
        s!(rboxed 2 2 2, words("ptcordq", "ptco", 3));
        s!(eboxed 2 2 1, words("ptorq", "pto", 3));
        s!(rarrays 3 3 1, words("ptcoq", "ptco", 2));
        s!(rboxed 2 1 1, ["pcopcopcopco".to_string(), "ooooo".to_string(), "poqpoqpo".to_string()]);
        s!(eboxed 2 1 1, ["popopopo".to_string(), "ooooo".to_string(), "poqpoqpo".to_string()]);
    }
    v
}
