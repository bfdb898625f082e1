//! C21: builders and macros create zeroed, correctly sized, independent parts.
use crate::bufs::*;
use crate::env::Env;
use crate::kf::set_col;
use crate::scen;
use minikalman::extended::*;
use minikalman::regular::*;
use minikalman::*;
use num_traits::Zero;

fn zero<E: Env, const R: usize, const K: usize, M: RowMajorSequentialData<R, K, E::T>>(e: &mut E, n: &str, m: &M) {
    e.ok(&format!("{n}: holds exactly rows x columns elements"), m.buffer_len() == R * K);
    e.ok(&format!("{n}: length"), m.len() == R * K && m.is_valid());
    let s = m.as_slice().to_vec();
    e.eq_all(&format!("{n} starts zero"), &s, &vec![<E::T as Zero>::zero(); R * K]);
}
fn holds<E: Env, const R: usize, const K: usize, M: RowMajorSequentialData<R, K, E::T>>(e: &mut E, n: &str, m: &M, v: &[E::T]) {
    e.ok(&format!("{n}: holds exactly rows x columns elements"), m.buffer_len() == R * K);
    e.ok(&format!("{n}: length"), m.len() == R * K && m.is_valid());
    let s = m.as_slice().to_vec();
    e.eq_all(n, &s, v);
}
/// write fresh values to every element; returns them
fn write<E: Env, const R: usize, const K: usize, M: MatrixMut<R, K, E::T>>(e: &mut E, n: &str, m: &mut M) -> Vec<E::T> {
    let mut v = vec![];
    for i in 0..R {
        for j in 0..K {
            let w = e.var(&format!("{n}({i},{j})"));
            m.set(i, j, w);
            v.push(w);
        }
    }
    v
}

fn regular_all<E: Env, const N: usize, const M: usize, const C: usize>(e: &mut E) {
    let b = minikalman::regular::builder::KalmanFilterBuilder::<N, E::T>::default();
    let (mut f, mut g) = (b.build(), b.build());
    let cb = b.controls();
    let (mut c, mut d) = (cb.build::<C>(), cb.build::<C>());
    let ob = b.observations();
    let (mut o, mut q) = (ob.build::<M>(), ob.build::<M>());
    e.ok("states", f.states() == N && KalmanFilterNumStates::<N>::states(&f) == N);
    e.ok("controls", c.states() == N && c.controls() == C && KalmanFilterNumControls::<C>::controls(&c) == C);
    e.ok("measurements", o.states() == N && o.measurements() == M && KalmanFilterNumObservations::<M>::observations(&o) == M);
    macro_rules! all { ($h:ident, $f:ident $c:ident $o:ident $(, $x:expr)*) => {
        $h::<_, N, N, _>(e, "A", $f.state_transition());
        $h::<_, N, 1, _>(e, "x", $f.state_vector());
        $h::<_, N, N, _>(e, "P", $f.estimate_covariance());
        $h::<_, N, N, _>(e, "Q", $f.direct_process_noise());
        $h::<_, N, C, _>(e, "B", $c.control_matrix());
        $h::<_, C, 1, _>(e, "u", $c.control_vector());
        $h::<_, C, C, _>(e, "V", $c.process_noise_covariance());
        $h::<_, M, N, _>(e, "H", $o.observation_matrix());
        $h::<_, M, 1, _>(e, "z", $o.measurement_vector());
        $h::<_, M, M, _>(e, "R", $o.measurement_noise_covariance());
    } }
    all!(zero, f c o);
    all!(zero, g d q);
    let w = vec![
        write::<_, N, N, _>(e, "A", f.state_transition_mut()), write::<_, N, 1, _>(e, "x", f.state_vector_mut()), write::<_, N, N, _>(e, "P", f.estimate_covariance_mut()), write::<_, N, N, _>(e, "Q", f.direct_process_noise_mut()),
        write::<_, N, C, _>(e, "B", c.control_matrix_mut()), write::<_, C, 1, _>(e, "u", c.control_vector_mut()), write::<_, C, C, _>(e, "V", c.process_noise_covariance_mut()),
        write::<_, M, N, _>(e, "H", o.observation_matrix_mut()), write::<_, M, 1, _>(e, "z", o.measurement_vector_mut()), write::<_, M, M, _>(e, "R", o.measurement_noise_covariance_mut()),
    ];
    // every part holds what was stored in it: parts do not overlap
    holds::<_, N, N, _>(e, "A", f.state_transition(), &w[0]);
    holds::<_, N, 1, _>(e, "x", f.state_vector(), &w[1]);
    holds::<_, N, N, _>(e, "P", f.estimate_covariance(), &w[2]);
    holds::<_, N, N, _>(e, "Q", f.direct_process_noise(), &w[3]);
    holds::<_, N, C, _>(e, "B", c.control_matrix(), &w[4]);
    holds::<_, C, 1, _>(e, "u", c.control_vector(), &w[5]);
    holds::<_, C, C, _>(e, "V", c.process_noise_covariance(), &w[6]);
    holds::<_, M, N, _>(e, "H", o.observation_matrix(), &w[7]);
    holds::<_, M, 1, _>(e, "z", o.measurement_vector(), &w[8]);
    holds::<_, M, M, _>(e, "R", o.measurement_noise_covariance(), &w[9]);
    // and the siblings, and anything built afterwards, are still zero
    all!(zero, g d q);
    let (h, i, j) = (b.build(), cb.build::<C>(), ob.build::<M>());
    all!(zero, h i j);
    // the hidden parts are large enough for every step, and a step leaves siblings alone
    f.predict();
    f.control(&mut c);
    f.correct(&mut o);
    all!(zero, g d q);
    // objects created through the other entry points
    let (k, l, m) = (
        minikalman::regular::builder::KalmanFilterBuilder::<N, E::T>::new().build(),
        minikalman::regular::builder::KalmanFilterBuilder::<N, E::T>::new().controls().build::<C>(),
        minikalman::regular::builder::KalmanFilterBuilder::<N, E::T>::new().observations().build::<M>(),
    );
    all!(zero, k l m);
    let _ = (&mut g, &mut d, &mut q);
}

fn extended_all<E: Env, const N: usize, const M: usize>(e: &mut E) {
    let b = minikalman::extended::builder::KalmanFilterBuilder::<N, E::T>::default();
    let (mut f, g) = (b.build(), b.build());
    let ob = b.observations();
    let (mut o, q) = (ob.build::<M>(), ob.build::<M>());
    e.ok("states", f.states() == N && KalmanFilterNumStates::<N>::states(&f) == N);
    e.ok("measurements", o.states() == N && o.measurements() == M && KalmanFilterNumObservations::<M>::observations(&o) == M);
    macro_rules! all { ($h:ident, $f:ident $o:ident) => {
        $h::<_, N, N, _>(e, "A", $f.state_transition_jacobian());
        $h::<_, N, 1, _>(e, "x", $f.state_vector());
        $h::<_, N, N, _>(e, "P", $f.estimate_covariance());
        $h::<_, N, N, _>(e, "Q", $f.direct_process_noise());
        $h::<_, M, N, _>(e, "H", $o.observation_jacobian_matrix());
        $h::<_, M, 1, _>(e, "z", $o.measurement_vector());
        $h::<_, M, M, _>(e, "R", $o.measurement_noise_covariance());
    } }
    all!(zero, f o);
    all!(zero, g q);
    let w = vec![
        write::<_, N, N, _>(e, "A", f.state_transition_jacobian_mut()), write::<_, N, 1, _>(e, "x", f.state_vector_mut()), write::<_, N, N, _>(e, "P", f.estimate_covariance_mut()), write::<_, N, N, _>(e, "Q", f.direct_process_noise_mut()),
        write::<_, M, N, _>(e, "H", o.observation_jacobian_matrix_mut()), write::<_, M, 1, _>(e, "z", o.measurement_vector_mut()), write::<_, M, M, _>(e, "R", o.measurement_noise_covariance_mut()),
    ];
    holds::<_, N, N, _>(e, "A", f.state_transition_jacobian(), &w[0]);
    holds::<_, N, 1, _>(e, "x", f.state_vector(), &w[1]);
    holds::<_, N, N, _>(e, "P", f.estimate_covariance(), &w[2]);
    holds::<_, N, N, _>(e, "Q", f.direct_process_noise(), &w[3]);
    holds::<_, M, N, _>(e, "H", o.observation_jacobian_matrix(), &w[4]);
    holds::<_, M, 1, _>(e, "z", o.measurement_vector(), &w[5]);
    holds::<_, M, M, _>(e, "R", o.measurement_noise_covariance(), &w[6]);
    all!(zero, g q);
    let (h, j) = (b.build(), ob.build::<M>());
    all!(zero, h j);
    let (fx, hx) = (e.vec("fx", N), e.vec("hx", M));
    f.predict_nonlinear(|_, y| set_col::<N, _, _>(y, &fx));
    f.correct_nonlinear(&mut o, |_, y| set_col::<M, _, _>(y, &hx));
    all!(zero, g q);
    let (k, m) = (minikalman::extended::builder::KalmanFilterBuilder::<N, E::T>::new().build(), minikalman::extended::builder::KalmanFilterBuilder::<N, E::T>::new().observations().build::<M>());
    all!(zero, k m);
}

/// all buffers of the buffer builder
fn buffers<E: Env, const N: usize, const M: usize, const C: usize>(e: &mut E) {
    macro_rules! b {
        ($($n:ident [$($d:ident),*] $t:ident $r:ident x $c:tt),* $(,)?) => {$(
            let name = stringify!($n);
            let mut a: $t::<$($d,)* E::T, _> = BufferBuilder::$n::<$($d),*>().new();
            let b: $t::<$($d,)* E::T, _> = BufferBuilder::$n::<$($d),*>().new();
            zero::<_, $r, $c, _>(e, name, &a);
            let w = write::<_, $r, $c, _>(e, name, &mut a);
            holds::<_, $r, $c, _>(e, name, &a, &w);
            zero::<_, $r, $c, _>(e, name, &b);
            let init = e.var(&format!("{name} init"));
            let k = BufferBuilder::$n::<$($d),*>();
            let i: $t::<$($d,)* E::T, _> = k.new_with(init);
            holds::<_, $r, $c, _>(e, name, &i, &vec![init; $r * $c]);
            let j: $t::<$($d,)* E::T, _> = k.new();
            zero::<_, $r, $c, _>(e, name, &j);
            e.ok(&format!("{name} inherent length"), a.len() == $r * $c && a.is_empty() == ($r * $c == 0) && a.is_valid());
        )*};
    }
    b!(state_vector_x [N] StateVectorBuffer N x 1, system_matrix_A [N] StateTransitionMatrixMutBuffer N x N, estimate_covariance_P [N] EstimateCovarianceMatrixBuffer N x N,
       direct_process_noise_covariance_Q [N] DirectProcessNoiseCovarianceMatrixMutBuffer N x N, control_vector_u [C] ControlVectorBuffer C x 1, control_matrix_B [N, C] ControlMatrixMutBuffer N x C,
       control_process_noise_covariance_Q [C] ControlProcessNoiseCovarianceMatrixMutBuffer C x C, measurement_vector_z [M] MeasurementVectorBuffer M x 1, observation_matrix_H [M, N] ObservationMatrixMutBuffer M x N,
       observation_covariance_R [M] MeasurementNoiseCovarianceMatrixBuffer M x M, innovation_vector_y [M] InnovationVectorBuffer M x 1, innovation_covariance_S [M] InnovationCovarianceMatrixBuffer M x M,
       kalman_gain_K [N, M] KalmanGainMatrixBuffer N x M, state_prediction_temp_x [N] PredictedStateEstimateVectorBuffer N x 1, temp_system_covariance_P [N] TemporaryStateMatrixBuffer N x N,
       temp_BQ [N, C] TemporaryBQMatrixBuffer N x C, temp_S_inv [M] TemporaryResidualCovarianceInvertedMatrixBuffer M x M, temp_HP [M, N] TemporaryHPMatrixBuffer M x N,
       temp_PHt [N, M] TemporaryPHTMatrixBuffer N x M, temp_KHP [N] TemporaryKHPMatrixBuffer N x N);
}

/// all buffer macros, in every form
#[allow(non_snake_case, static_mut_refs)]
fn macros<E: Env>(e: &mut E) {
    const N: usize = 3;
    const M: usize = 4;
    const C: usize = 2;
    macro_rules! m {
        ($($mac:ident $size:ident [$($d:ident),*] $t:ident $r:ident x $c:tt),* $(,)?) => {$({
            let name = stringify!($mac);
            e.ok(&format!("{name} size"), $size!($($d),*) == $r * $c);
            let init = e.var(&format!("{name} init"));
            let zero_ = <E::T as Zero>::zero();
            $mac!(mut a, $($d,)* E::T, init);
            $mac!(b, $($d,)* E::T, zero_);
            $mac!(let mut c, $($d,)* E::T, init);
            $mac!(let d, $($d,)* E::T, init);
            zero::<_, $r, $c, $t<$($d,)* E::T, _>>(e, name, &b);
            for x in [&a, &c, &d] {
                holds::<_, $r, $c, $t<$($d,)* E::T, _>>(e, name, x, &vec![init; $r * $c]);
                e.ok(&format!("{name} inherent length"), x.len() == $r * $c && x.is_valid());
            }
            let w = write::<_, $r, $c, _>(e, name, &mut a);
            let w2 = write::<_, $r, $c, _>(e, &format!("{name} 2"), &mut c);
            holds::<_, $r, $c, _>(e, name, &a, &w);
            holds::<_, $r, $c, _>(e, name, &c, &w2);
            zero::<_, $r, $c, _>(e, name, &b);
            holds::<_, $r, $c, _>(e, name, &d, &vec![init; $r * $c]);
            $mac!(static S, $($d,)* f64, 0.25);
            $mac!(static mut SM, $($d,)* f64, 0.0);
            e.ok(&format!("{name} static"), S.buffer_len() == $r * $c && S.as_slice().iter().all(|x| *x == 0.25));
            #[allow(unused_unsafe)]
            let sm: &mut $t<$($d,)* f64, _> = unsafe { &mut *core::ptr::addr_of_mut!(SM) };
            e.ok(&format!("{name} static mut"), sm.buffer_len() == $r * $c && sm.as_slice().iter().all(|x| *x == 0.0));
            sm.set($r - 1, $c - 1, 2.0);
            e.ok(&format!("{name} static mut written"), sm.get($r - 1, $c - 1) == 2.0 && S.as_slice().iter().all(|x| *x == 0.25));
            sm.set($r - 1, $c - 1, 0.0);
        })*};
    }
    m!(impl_buffer_x size_buffer_x [N] StateVectorBuffer N x 1, impl_buffer_A size_buffer_A [N] StateTransitionMatrixMutBuffer N x N, impl_buffer_P size_buffer_P [N] EstimateCovarianceMatrixBuffer N x N,
       impl_buffer_Q_direct size_buffer_Q_direct [N] DirectProcessNoiseCovarianceMatrixMutBuffer N x N, impl_buffer_u size_buffer_u [C] ControlVectorBuffer C x 1, impl_buffer_B size_buffer_B [N, C] ControlMatrixMutBuffer N x C,
       impl_buffer_Q_control size_buffer_Q_control [C] ControlProcessNoiseCovarianceMatrixMutBuffer C x C, impl_buffer_z size_buffer_z [M] MeasurementVectorBuffer M x 1, impl_buffer_H size_buffer_H [M, N] ObservationMatrixMutBuffer M x N,
       impl_buffer_R size_buffer_R [M] MeasurementNoiseCovarianceMatrixBuffer M x M, impl_buffer_y size_buffer_y [M] InnovationVectorBuffer M x 1, impl_buffer_S size_buffer_S [M] InnovationCovarianceMatrixBuffer M x M,
       impl_buffer_K size_buffer_K [N, M] KalmanGainMatrixBuffer N x M, impl_buffer_temp_x size_buffer_temp_x [N] PredictedStateEstimateVectorBuffer N x 1, impl_buffer_temp_P size_buffer_temp_P [N] TemporaryStateMatrixBuffer N x N,
       impl_buffer_temp_BQ size_buffer_temp_BQ [N, C] TemporaryBQMatrixBuffer N x C, impl_buffer_temp_S_inv size_buffer_temp_S_inv [M] TemporaryResidualCovarianceInvertedMatrixBuffer M x M,
       impl_buffer_temp_HP size_buffer_temp_HP [M, N] TemporaryHPMatrixBuffer M x N, impl_buffer_temp_PHt size_buffer_temp_PHt [N, M] TemporaryPHTMatrixBuffer N x M, impl_buffer_temp_KHP size_buffer_temp_KHP [N] TemporaryKHPMatrixBuffer N x N);
}
/// the size macros accept constant expressions
fn sizes<E: Env>(e: &mut E) {
    macro_rules! z { ($($mac:ident($($d:expr),*) = $want:expr),* $(,)?) => {$( e.ok(stringify!($mac), $mac!($($d),*) == $want); )*} }
    macro_rules! at { ($($N:literal $M:literal $C:literal),*) => {$({
        const N: usize = $N;
        const M: usize = $M;
        const C: usize = $C;
        z!(size_buffer_A(N) = N * N, size_buffer_P(N) = N * N, size_buffer_x(N) = N, size_buffer_Q_direct(N) = N * N, size_buffer_u(C) = C,
           size_buffer_B(N, C) = N * C, size_buffer_Q_control(C) = C * C, size_buffer_z(M) = M, size_buffer_H(M, N) = M * N, size_buffer_R(M) = M * M,
           size_buffer_y(M) = M, size_buffer_S(M) = M * M, size_buffer_K(N, M) = N * M, size_buffer_temp_x(N) = N, size_buffer_temp_P(N) = N * N,
           size_buffer_temp_BQ(N, C) = N * C, size_buffer_temp_S_inv(M) = M * M, size_buffer_temp_HP(M, N) = M * N, size_buffer_temp_PHt(N, M) = N * M, size_buffer_temp_KHP(N) = N * N);
        z!(size_buffer_A(N + 1) = (N + 1) * (N + 1), size_buffer_P(N + 1) = (N + 1) * (N + 1), size_buffer_x(N + 1) = N + 1, size_buffer_Q_direct(N + 1) = (N + 1) * (N + 1), size_buffer_u(C + 1) = C + 1,
           size_buffer_B(N + 1, C + 2) = (N + 1) * (C + 2), size_buffer_Q_control(C + 1) = (C + 1) * (C + 1), size_buffer_z(M + 1) = M + 1, size_buffer_H(M + 1, N + 2) = (M + 1) * (N + 2), size_buffer_R(M + 1) = (M + 1) * (M + 1),
           size_buffer_y(M + 1) = M + 1, size_buffer_S(M + 1) = (M + 1) * (M + 1), size_buffer_K(N + 1, M + 2) = (N + 1) * (M + 2), size_buffer_temp_x(N + 1) = N + 1, size_buffer_temp_P(N + 1) = (N + 1) * (N + 1),
           size_buffer_temp_BQ(N + 1, C + 2) = (N + 1) * (C + 2), size_buffer_temp_S_inv(M + 1) = (M + 1) * (M + 1), size_buffer_temp_HP(M + 1, N + 2) = (M + 1) * (N + 2), size_buffer_temp_PHt(N + 1, M + 2) = (N + 1) * (M + 2), size_buffer_temp_KHP(N + 1) = (N + 1) * (N + 1));
    })*} }
    at!(0 0 0, 1 1 1, 3 2 1, 2 3 4, 5 1 2, 4 7 3, 1 6 5, 16 3 20, 20 16 3, 300 2 260);
}

#[cfg(feature = "c21")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($n:literal $m:literal $c:literal),* $(,)?) => {$(
            scen!(v, core, concat!("regular builders n=", $n, " m=", $m, " c=", $c), |e| regular_all::<_, $n, $m, $c>(e));
            scen!(v, core, concat!("extended builders n=", $n, " m=", $m, " c=", $c), |e| extended_all::<_, $n, $m>(e));
            scen!(v, core, concat!("buffer builder n=", $n, " m=", $m, " c=", $c), |e| buffers::<_, $n, $m, $c>(e));
        )*};
    }
    s!(1 1 1, 3 2 1, 2 1 3, 1 3 2, 3 1 2, 2 3 4, 4 2 3, 5 2 3);
    scen!(v, core, "buffer macros", |e| macros(e));
    scen!(v, core, "size macros", |e| sizes(e));
    v
}
