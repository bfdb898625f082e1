//! C07: steps never modify the model or the inputs; accessors return what was stored.
use crate::env::Env;
use crate::kf::*;
use crate::{history, ld, rd, scen, setup_c, setup_f, setup_o};
use minikalman::extended::*;
use minikalman::prelude::*;
use minikalman::regular::*;

// the same accessors through the traits
fn t_f<const N: usize, T: Copy, F>(f: &F) -> Vec<T>
where
    F: KalmanFilterStateTransition<N, T> + KalmanFilterNumStates<N>,
{
    mat::<N, N, _, _>(f.state_transition())
}
fn t_x<const N: usize, T: Copy, F>(f: &F) -> (Vec<T>, Vec<T>)
where
    F: KalmanFilterStateVector<N, T> + KalmanFilterEstimateCovariance<N, T>,
{
    (mat::<N, 1, _, _>(f.state_vector()), mat::<N, N, _, _>(f.estimate_covariance()))
}
fn t_fx<const N: usize, T: Copy, F>(f: &F) -> (Vec<T>, Vec<T>)
where
    F: ExtendedKalmanFilterStateTransition<N, T> + KalmanFilterDirectProcessNoiseCovariance<N, T>,
{
    (mat::<N, N, _, _>(f.state_transition_jacobian()), mat::<N, N, _, _>(f.direct_process_noise()))
}
fn t_c<const N: usize, const C: usize, T: Copy, F>(f: &F) -> (Vec<T>, Vec<T>, Vec<T>)
where
    F: KalmanFilterControlTransition<N, C, T> + KalmanFilterControlVector<C, T> + KalmanFilterControlProcessNoiseCovariance<C, T>,
{
    (mat::<N, C, _, _>(f.control_matrix()), mat::<C, 1, _, _>(f.control_vector()), mat::<C, C, _, _>(f.process_noise_covariance()))
}
fn t_o<const N: usize, const M: usize, T: Copy, F>(f: &F) -> (Vec<T>, Vec<T>, Vec<T>)
where
    F: KalmanFilterObservationTransformation<N, M, T> + KalmanFilterMeasurementVector<M, T> + KalmanFilterMeasurementNoiseCovariance<M, T>,
{
    (mat::<M, N, _, _>(f.observation_matrix()), mat::<M, 1, _, _>(f.measurement_vector()), mat::<M, M, _, _>(f.measurement_noise_covariance()))
}
fn t_ox<const N: usize, const M: usize, T: Copy, F>(f: &F) -> (Vec<T>, Vec<T>, Vec<T>)
where
    F: ExtendedKalmanFilterObservationTransformation<N, M, T> + KalmanFilterMeasurementVector<M, T> + KalmanFilterMeasurementNoiseCovariance<M, T>,
{
    (mat::<M, N, _, _>(f.observation_jacobian_matrix()), mat::<M, 1, _, _>(f.measurement_vector()), mat::<M, M, _, _>(f.measurement_noise_covariance()))
}
// writing through the traits
fn w_f<const N: usize, T: Copy, F>(f: &mut F, a: &[T], x: &[T], p: &[T])
where
    F: KalmanFilterStateTransitionMut<N, T> + KalmanFilterStateVectorMut<N, T> + KalmanFilterEstimateCovarianceMut<N, T>,
{
    put::<N, N, _, _>(f.state_transition_mut(), a);
    put::<N, 1, _, _>(f.state_vector_mut(), x);
    put::<N, N, _, _>(f.estimate_covariance_mut(), p);
}
fn w_fx<const N: usize, T: Copy, F>(f: &mut F, a: &[T], x: &[T], p: &[T], q: &[T])
where
    F: ExtendedKalmanFilterStateTransitionMut<N, T> + KalmanFilterStateVectorMut<N, T> + KalmanFilterEstimateCovarianceMut<N, T> + KalmanFilterDirectProcessNoiseMut<N, T>,
{
    put::<N, N, _, _>(f.state_transition_jacobian_mut(), a);
    put::<N, 1, _, _>(f.state_vector_mut(), x);
    put::<N, N, _, _>(f.estimate_covariance_mut(), p);
    put::<N, N, _, _>(f.direct_process_noise_mut(), q);
}
fn w_c<const N: usize, const C: usize, T: Copy, F>(f: &mut F, b: &[T], u: &[T], q: &[T])
where
    F: KalmanFilterControlTransitionMut<N, C, T> + KalmanFilterControlVectorMut<C, T> + KalmanFilterControlProcessNoiseMut<C, T>,
{
    put::<N, C, _, _>(f.control_matrix_mut(), b);
    put::<C, 1, _, _>(f.control_vector_mut(), u);
    put::<C, C, _, _>(f.process_noise_covariance_mut(), q);
}
fn w_o<const N: usize, const M: usize, T: Copy, F>(f: &mut F, h: &[T], z: &[T], r: &[T])
where
    F: KalmanFilterObservationTransformationMut<N, M, T> + KalmanFilterObservationVectorMut<M, T> + KalmanFilterMeasurementNoiseCovarianceMut<M, T>,
{
    put::<M, N, _, _>(f.observation_matrix_mut(), h);
    put::<M, 1, _, _>(f.measurement_vector_mut(), z);
    put::<M, M, _, _>(f.measurement_noise_covariance_mut(), r);
}
fn w_ox<const N: usize, const M: usize, T: Copy, F>(f: &mut F, h: &[T], z: &[T], r: &[T])
where
    F: ExtendedKalmanFilterObservationTransformationMut<N, M, T> + KalmanFilterObservationVectorMut<M, T> + KalmanFilterMeasurementNoiseCovarianceMut<M, T>,
{
    put::<M, N, _, _>(f.observation_jacobian_matrix_mut(), h);
    put::<M, 1, _, _>(f.measurement_vector_mut(), z);
    put::<M, M, _, _>(f.measurement_noise_covariance_mut(), r);
}

macro_rules! regular_body {
    ($kind:ident, $e:ident, $N:ident, $M:ident, $C:ident, $NN:ident, $NM:ident, $NC:ident, $MM:ident, $CC:ident, $steps:expr, $tr:expr) => {{
        setup_f!($kind regular $e, "", $N, $NN; f);
        setup_c!($kind $e, "", $N, $C, $NC, $CC; c);
        setup_o!($kind regular $e, "", $N, $M, $NN, $NM, $MM; o);
        history!(regular $e, f, $N; control c, $C; observe o, $M);
        let (n, m, k) = ($N, $M, $C);
        let (a, x, p, q) = ($e.mat("A", n, n), $e.vec("x", n), $e.mat("P", n, n), $e.mat("Q", n, n));
        let (b, u, qc) = ($e.mat("B", n, k), $e.vec("u", k), $e.mat("Qc", k, k));
        let (h, z, r) = ($e.mat("H", m, n), $e.vec("z", m), $e.mat("R", m, m));
        if $tr {
            w_f::<$N, _, _>(&mut f, &a, &x, &p);
            w_c::<$N, $C, _, _>(&mut c, &b, &u, &qc);
            w_o::<$N, $M, _, _>(&mut o, &h, &z, &r);
        } else {
            ld!(f.state_transition_mut(), a);
            ld!(f.state_vector_mut(), x);
            ld!(f.estimate_covariance_mut(), p);
            ld!(c.control_matrix_mut(), b);
            ld!(c.control_vector_mut(), u);
            ld!(c.process_noise_covariance_mut(), qc);
            ld!(o.observation_matrix_mut(), h);
            ld!(o.measurement_vector_mut(), z);
            ld!(o.measurement_noise_covariance_mut(), r);
        }
        ld!(f.direct_process_noise_mut(), q);
        $e.eq_all("x", &rd!(f.state_vector(), n), &x);
        $e.eq_all("P", &rd!(f.estimate_covariance(), n * n), &p);
        let (tx, tp) = t_x::<$N, _, _>(&f);
        $e.eq_all("trait x", &tx, &x);
        $e.eq_all("trait P", &tp, &p);
        for s in $steps {
            match s {
                'p' => f.predict(),
                't' => {
                    let l = $e.pos("lambda");
                    f.predict_tuned(l)
                }
                'c' => f.control(&mut c),
                _ => f.correct(&mut o),
            }
            // what the estimate accessors show agrees between the two ways
            let (tx, tp) = t_x::<$N, _, _>(&f);
            $e.eq_all("trait x after", &tx, &rd!(f.state_vector(), n));
            $e.eq_all("trait P after", &tp, &rd!(f.estimate_covariance(), n * n));
            $e.eq_all("A", &rd!(f.state_transition(), n * n), &a);
            $e.eq_all("A mut", &rd!(f.state_transition_mut(), n * n), &a);
            $e.eq_all("trait A", &t_f::<$N, _, _>(&f), &a);
            $e.eq_all("Q", &rd!(f.direct_process_noise(), n * n), &q);
            $e.eq_all("Q mut", &rd!(f.direct_process_noise_mut(), n * n), &q);
            $e.eq_all("B", &rd!(c.control_matrix(), n * k), &b);
            $e.eq_all("B mut", &rd!(c.control_matrix_mut(), n * k), &b);
            $e.eq_all("u", &rd!(c.control_vector(), k), &u);
            $e.eq_all("u mut", &rd!(c.control_vector_mut(), k), &u);
            $e.eq_all("Qc", &rd!(c.process_noise_covariance(), k * k), &qc);
            $e.eq_all("Qc mut", &rd!(c.process_noise_covariance_mut(), k * k), &qc);
            let (tb, tu, tq) = t_c::<$N, $C, _, _>(&c);
            $e.eq_all("trait B", &tb, &b);
            $e.eq_all("trait u", &tu, &u);
            $e.eq_all("trait Qc", &tq, &qc);
            $e.eq_all("H", &rd!(o.observation_matrix(), n * m), &h);
            $e.eq_all("H mut", &rd!(o.observation_matrix_mut(), n * m), &h);
            $e.eq_all("z", &rd!(o.measurement_vector(), m), &z);
            $e.eq_all("z mut", &rd!(o.measurement_vector_mut(), m), &z);
            $e.eq_all("R", &rd!(o.measurement_noise_covariance(), m * m), &r);
            $e.eq_all("R mut", &rd!(o.measurement_noise_covariance_mut(), m * m), &r);
            let (th, tz, tr) = t_o::<$N, $M, _, _>(&o);
            $e.eq_all("trait H", &th, &h);
            $e.eq_all("trait z", &tz, &z);
            $e.eq_all("trait R", &tr, &r);
        }
    }};
}
macro_rules! extended_body {
    ($kind:ident, $e:ident, $N:ident, $M:ident, $C:ident, $NN:ident, $NM:ident, $NC:ident, $MM:ident, $CC:ident, $steps:expr, $tr:expr) => {{
        setup_f!($kind extended $e, "", $N, $NN; f);
        setup_o!($kind extended $e, "", $N, $M, $NN, $NM, $MM; o);
        history!(extended $e, f, $N; observe o, $M);
        let (n, m) = ($N, $M);
        let (a, x, p, q) = ($e.mat("A", n, n), $e.vec("x", n), $e.mat("P", n, n), $e.mat("Q", n, n));
        let (h, z, r) = ($e.mat("H", m, n), $e.vec("z", m), $e.mat("R", m, m));
        if $tr {
            w_fx::<$N, _, _>(&mut f, &a, &x, &p, &q);
            w_ox::<$N, $M, _, _>(&mut o, &h, &z, &r);
        } else {
            ld!(f.state_transition_jacobian_mut(), a);
            ld!(f.state_vector_mut(), x);
            ld!(f.estimate_covariance_mut(), p);
            ld!(f.direct_process_noise_mut(), q);
            ld!(o.observation_jacobian_matrix_mut(), h);
            ld!(o.measurement_vector_mut(), z);
            ld!(o.measurement_noise_covariance_mut(), r);
        }
        $e.eq_all("x", &rd!(f.state_vector(), n), &x);
        $e.eq_all("P", &rd!(f.estimate_covariance(), n * n), &p);
        let (tx, tp) = t_x::<$N, _, _>(&f);
        $e.eq_all("trait x", &tx, &x);
        $e.eq_all("trait P", &tp, &p);
        let fx = $e.vec("fx", n);
        let hx = $e.vec("hx", m);
        for s in $steps {
            match s {
                'p' => f.predict_nonlinear(|_, next| set_col::<$N, _, _>(next, &fx)),
                't' => {
                    let l = $e.pos("lambda");
                    f.predict_tuned_nonlinear(l, |_, next| set_col::<$N, _, _>(next, &fx))
                }
                _ => f.correct_nonlinear(&mut o, |_, y| set_col::<$M, _, _>(y, &hx)),
            }
            let (tx, tp) = t_x::<$N, _, _>(&f);
            $e.eq_all("trait x after", &tx, &rd!(f.state_vector(), n));
            $e.eq_all("trait P after", &tp, &rd!(f.estimate_covariance(), n * n));
            $e.eq_all("F", &rd!(f.state_transition_jacobian(), n * n), &a);
            $e.eq_all("F mut", &rd!(f.state_transition_jacobian_mut(), n * n), &a);
            $e.eq_all("Q", &rd!(f.direct_process_noise(), n * n), &q);
            $e.eq_all("Q mut", &rd!(f.direct_process_noise_mut(), n * n), &q);
            let (ta, tq) = t_fx::<$N, _, _>(&f);
            $e.eq_all("trait F", &ta, &a);
            $e.eq_all("trait Q", &tq, &q);
            $e.eq_all("H", &rd!(o.observation_jacobian_matrix(), n * m), &h);
            $e.eq_all("H mut", &rd!(o.observation_jacobian_matrix_mut(), n * m), &h);
            $e.eq_all("z", &rd!(o.measurement_vector(), m), &z);
            $e.eq_all("z mut", &rd!(o.measurement_vector_mut(), m), &z);
            $e.eq_all("R", &rd!(o.measurement_noise_covariance(), m * m), &r);
            $e.eq_all("R mut", &rd!(o.measurement_noise_covariance_mut(), m * m), &r);
            let (th, tz, tr) = t_ox::<$N, $M, _, _>(&o);
            $e.eq_all("trait H", &th, &h);
            $e.eq_all("trait z", &tz, &z);
            $e.eq_all("trait R", &tr, &r);
        }
    }};
}
macro_rules! kinds {
    ($body:ident, $($f:ident $kind:ident),*) => {$(
        #[allow(unused)]
        fn $f<const N: usize, const M: usize, const C: usize, const NN: usize, const NM: usize, const NC: usize, const MM: usize, const CC: usize, E: Env>(e: &mut E, steps: &[char], tr: bool) {
            let steps = steps.iter().copied();
            $body!($kind, e, N, M, C, NN, NM, NC, MM, CC, steps, tr)
        }
    )*};
}
kinds!(regular_body, rboxed boxed, rslices slices, rarrays arrays);
kinds!(extended_body, eboxed boxed, eslices slices, earrays arrays);

#[cfg(all(feature = "c07", not(feature = "c28")))]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    crate::harness::also_any(base, crate::env::Contents::Any, |name| crate::harness::small(name, 4))
}
#[cfg(feature = "c07")]
pub fn base() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($k:ident $f:ident $n:literal $m:literal $c:literal $steps:literal $tr:literal),* $(,)?) => {$(
            scen!(v, $k, concat!(stringify!($f), " n=", $n, " m=", $m, " c=", $c, " steps=", $steps, " trait=", $tr), |e| {
                let st: Vec<char> = $steps.chars().collect();
                $f::<$n, $m, $c, {$n*$n}, {$n*$m}, {$n*$c}, {$m*$m}, {$c*$c}, _>(e, &st, $tr)
            });
        )*};
    }
    s!(core rarrays 1 1 1 "ptco" false, core rarrays 2 1 3 "ptco" true, core rarrays 1 2 2 "ptco" false, core rarrays 2 2 1 "opct" true,
       core rarrays 3 2 2 "ptco" false, core rarrays 3 3 1 "o" false, core rarrays 4 1 4 "ptco" true, core rarrays 2 3 2 "o" true,
       core rboxed 2 1 2 "ptco" true, core rboxed 3 2 1 "oc" false, core rslices 2 1 2 "ptco" true, core rslices 3 2 2 "oc" false, core rslices 2 3 1 "o" true,
       core earrays 1 1 1 "pto" false, core earrays 2 1 1 "pto" true, core earrays 1 2 1 "pto" false, core earrays 3 2 1 "opt" true,
       core earrays 3 3 1 "o" false, core earrays 4 1 1 "pto" true, core earrays 2 3 1 "o" true,
       core eboxed 2 1 1 "pto" true, core eboxed 3 2 1 "o" false, core eslices 2 1 1 "pto" true, core eslices 3 2 1 "o" false, core eslices 2 3 1 "o" true,
       extra rarrays 5 4 3 "ptco" false, extra rboxed 6 2 6 "ptco" true, extra eboxed 6 4 1 "pto" true, extra rboxed 2 1 1 "ooptcco" false,
       extra eboxed 2 1 1 "oopto" false);
    macro_rules! long {
        ($($f:ident $n:literal $m:literal $c:literal $steps:literal $k:expr),* $(,)?) => {$(
            scen!(v, core, format!("long after {} uses {} n={} m={} c={} steps={}", $k, stringify!($f), $n, $m, $c, $steps), |e| long_after($k, || {
                let st: Vec<char> = $steps.chars().collect();
                $f::<$n, $m, $c, {$n*$n}, {$n*$m}, {$n*$c}, {$m*$m}, {$c*$c}, _>(e, &st, false)
            }));
        )*};
    }
    long!(rboxed 1 1 1 "ptco" 300, rarrays 2 1 1 "ptc" 5_000, rboxed 1 1 1 "o" 70_000, rslices 1 2 2 "co" 300,
          eboxed 1 1 1 "pto" 300, earrays 2 1 1 "pt" 5_000, eboxed 1 1 1 "o" 70_000, eslices 1 2 1 "o" 300);
    // larger dimensions, the covariances fixed
    macro_rules! wide {
        ($($f:ident $n:literal $m:literal $c:literal $steps:literal $tr:literal $fix:expr),* $(,)?) => {$(
            scen!(v, core, format!("wide {} n={} m={} c={} steps={} trait={} fixed={:?}", stringify!($f), $n, $m, $c, $steps, $tr, $fix), |e| crate::env::fixing(&$fix, || {
                let st: Vec<char> = $steps.chars().collect();
                $f::<$n, $m, $c, {$n*$n}, {$n*$m}, {$n*$c}, {$m*$m}, {$c*$c}, _>(e, &st, $tr)
            }));
        )*};
    }
    wide!(rboxed 9 7 8 "ptc" false ["A"], rboxed 7 5 2 "o" true ["P", "H", "R", "A"], rslices 8 4 9 "cpto" false ["P", "H", "R", "A", "Q", "B"], eboxed 9 1 1 "pt" true ["A"],
          eboxed 7 5 1 "o" false ["P", "H", "R", "A"], eslices 5 6 1 "o" true ["P", "H", "R"], rarrays 17 1 17 "cpt" true ["A", "P"], earrays 17 1 1 "tp" true ["A", "P"]);
    // every small combination of dimensions
    macro_rules! sweep {
        ($($n:literal: $($m:literal)*;)*) => {$($(
            scen!(v, core, concat!("wide sweep regular n=", $n, " m=", $m), |e| crate::env::fixing(&["P", "H", "R", "A", "Q", "B"], || {
                rboxed::<$n, $m, { ($n + 3 * $m) % 7 + 1 }, 1, 1, 1, 1, 1, _>(e, &['p', 't', 'c', 'o'], $m % 2 == 0)
            }));
            scen!(v, core, concat!("wide sweep extended n=", $n, " m=", $m), |e| crate::env::fixing(&["P", "H", "R", "A", "Q"], || {
                eboxed::<$n, $m, 1, 1, 1, 1, 1, 1, _>(e, &['p', 't', 'o'], $m % 2 == 1)
            }));
        )*)*};
    }
    sweep!(1: 1 2 3 4 5 6; 2: 1 2 3 4 5 6; 3: 1 2 3 4 5; 4: 1 2 3 4 5; 5: 1 2 3 4; 6: 1 2 3 6; 7: 1 2 3; 8: 1 2; 9: 2; 10: 1; 11: 1; 12: 2; 13: 1; 14: 1; 15: 1; 16: 1; 20: 1;);
    v
}
