//! Construction of filters, controls and observations over the different
//! storage kinds, and small helpers for loading / reading their contents.
//! Every scratch buffer is filled with unconstrained symbolic garbage.
#![allow(non_snake_case, clippy::all)]

pub use minikalman::buffers::types::*;
pub use minikalman::prelude::*;

/// Owned backing memory for a filter built over borrowed slices.
pub struct FMem<T> {
    pub A: Vec<T>,
    pub x: Vec<T>,
    pub P: Vec<T>,
    pub Q: Vec<T>,
    pub px: Vec<T>,
    pub tP: Vec<T>,
}
pub struct CMem<T> {
    pub B: Vec<T>,
    pub u: Vec<T>,
    pub Q: Vec<T>,
    pub tBQ: Vec<T>,
}
pub struct OMem<T> {
    pub H: Vec<T>,
    pub z: Vec<T>,
    pub R: Vec<T>,
    pub y: Vec<T>,
    pub S: Vec<T>,
    pub K: Vec<T>,
    pub Si: Vec<T>,
    pub HP: Vec<T>,
    pub PHt: Vec<T>,
    pub KHP: Vec<T>,
}
use crate::env::Env;
impl<T: Copy> FMem<T> {
    pub fn new<E: Env<T = T>>(e: &mut E, p: &str, n: usize, extra: usize) -> Self {
        FMem {
            A: e.junks(&format!("{p}A"), n * n + extra),
            x: e.junks(&format!("{p}x"), n + extra),
            P: e.junks(&format!("{p}P"), n * n + extra),
            Q: e.junks(&format!("{p}Q"), n * n + extra),
            px: e.junks(&format!("{p}px"), n + extra),
            tP: e.junks(&format!("{p}tP"), n * n + extra),
        }
    }
    pub fn all(&self, n: usize) -> Vec<(&'static str, &Vec<T>, usize)> {
        vec![("A", &self.A, n * n), ("x", &self.x, n), ("P", &self.P, n * n), ("Q", &self.Q, n * n), ("px", &self.px, n), ("tP", &self.tP, n * n)]
    }
}
impl<T: Copy> CMem<T> {
    pub fn new<E: Env<T = T>>(e: &mut E, p: &str, n: usize, c: usize, extra: usize) -> Self {
        CMem {
            B: e.junks(&format!("{p}B"), n * c + extra),
            u: e.junks(&format!("{p}u"), c + extra),
            Q: e.junks(&format!("{p}Qc"), c * c + extra),
            tBQ: e.junks(&format!("{p}tBQ"), n * c + extra),
        }
    }
    pub fn all(&self, n: usize, c: usize) -> Vec<(&'static str, &Vec<T>, usize)> {
        vec![("B", &self.B, n * c), ("u", &self.u, c), ("Qc", &self.Q, c * c), ("tBQ", &self.tBQ, n * c)]
    }
}
impl<T: Copy> OMem<T> {
    pub fn new<E: Env<T = T>>(e: &mut E, p: &str, n: usize, m: usize, extra: usize) -> Self {
        OMem {
            H: e.junks(&format!("{p}H"), n * m + extra),
            z: e.junks(&format!("{p}z"), m + extra),
            R: e.junks(&format!("{p}R"), m * m + extra),
            y: e.junks(&format!("{p}y"), m + extra),
            S: e.junks(&format!("{p}S"), m * m + extra),
            K: e.junks(&format!("{p}K"), n * m + extra),
            Si: e.junks(&format!("{p}Si"), m * m + extra),
            HP: e.junks(&format!("{p}HP"), n * m + extra),
            PHt: e.junks(&format!("{p}PHt"), n * m + extra),
            KHP: e.junks(&format!("{p}KHP"), n * n + extra),
        }
    }
    pub fn all(&self, n: usize, m: usize) -> Vec<(&'static str, &Vec<T>, usize)> {
        vec![
            ("H", &self.H, n * m), ("z", &self.z, m), ("R", &self.R, m * m), ("y", &self.y, m), ("S", &self.S, m * m),
            ("K", &self.K, n * m), ("Si", &self.Si, m * m), ("HP", &self.HP, n * m), ("PHt", &self.PHt, n * m), ("KHP", &self.KHP, n * n),
        ]
    }
}

#[macro_export]
macro_rules! filter_over {
    ($builder:ident, $mem:expr, $N:expr) => {
        $builder::new::<{ $N }, _>(
            StateTransitionMatrixMutBuffer::from($mem.A.as_mut_slice()),
            StateVectorBuffer::from($mem.x.as_mut_slice()),
            EstimateCovarianceMatrixBuffer::from($mem.P.as_mut_slice()),
            DirectProcessNoiseCovarianceMatrixMutBuffer::from($mem.Q.as_mut_slice()),
            PredictedStateEstimateVectorBuffer::from($mem.px.as_mut_slice()),
            TemporaryStateMatrixBuffer::from($mem.tP.as_mut_slice()),
        )
    };
}
#[macro_export]
macro_rules! control_over {
    ($mem:expr, $N:expr, $C:expr) => {
        ControlBuilder::new::<{ $N }, { $C }, _>(
            ControlMatrixMutBuffer::from($mem.B.as_mut_slice()),
            ControlVectorBuffer::from($mem.u.as_mut_slice()),
            ControlProcessNoiseCovarianceMatrixMutBuffer::from($mem.Q.as_mut_slice()),
            TemporaryBQMatrixBuffer::from($mem.tBQ.as_mut_slice()),
        )
    };
}
#[macro_export]
macro_rules! observation_over {
    ($builder:ident, $mem:expr, $N:expr, $M:expr) => {
        $builder::new::<{ $N }, { $M }, _>(
            ObservationMatrixMutBuffer::from($mem.H.as_mut_slice()),
            MeasurementVectorBuffer::from($mem.z.as_mut_slice()),
            MeasurementNoiseCovarianceMatrixBuffer::from($mem.R.as_mut_slice()),
            InnovationVectorBuffer::from($mem.y.as_mut_slice()),
            InnovationCovarianceMatrixBuffer::from($mem.S.as_mut_slice()),
            KalmanGainMatrixBuffer::from($mem.K.as_mut_slice()),
            TemporaryResidualCovarianceInvertedMatrixBuffer::from($mem.Si.as_mut_slice()),
            TemporaryHPMatrixBuffer::from($mem.HP.as_mut_slice()),
            TemporaryPHTMatrixBuffer::from($mem.PHt.as_mut_slice()),
            TemporaryKHPMatrixBuffer::from($mem.KHP.as_mut_slice()),
        )
    };
}
/// Same objects over owned arrays.  The sizes are const parameters in scope.
#[macro_export]
macro_rules! filter_arrays {
    ($builder:ident, $e:expr, $p:expr, $N:ident, $NN:ident) => {{
        let j = |e: &mut E, n: &str, k: usize| e.junks(&format!("{}{}", $p, n), k);
        $builder::new::<$N, E::T>(
            StateTransitionMatrixMutBuffer::from($crate::kf::arr::<E::T, $NN>(j($e, "A", $NN))),
            StateVectorBuffer::from($crate::kf::arr::<E::T, $N>(j($e, "x", $N))),
            EstimateCovarianceMatrixBuffer::from($crate::kf::arr::<E::T, $NN>(j($e, "P", $NN))),
            DirectProcessNoiseCovarianceMatrixMutBuffer::from($crate::kf::arr::<E::T, $NN>(j($e, "Q", $NN))),
            PredictedStateEstimateVectorBuffer::from($crate::kf::arr::<E::T, $N>(j($e, "px", $N))),
            TemporaryStateMatrixBuffer::from($crate::kf::arr::<E::T, $NN>(j($e, "tP", $NN))),
        )
    }};
}
#[macro_export]
macro_rules! control_arrays {
    ($e:expr, $p:expr, $N:ident, $C:ident, $NC:ident, $CC:ident) => {{
        let j = |e: &mut E, n: &str, k: usize| e.junks(&format!("{}{}", $p, n), k);
        ControlBuilder::new::<$N, $C, E::T>(
            ControlMatrixMutBuffer::from($crate::kf::arr::<E::T, $NC>(j($e, "B", $NC))),
            ControlVectorBuffer::from($crate::kf::arr::<E::T, $C>(j($e, "u", $C))),
            ControlProcessNoiseCovarianceMatrixMutBuffer::from($crate::kf::arr::<E::T, $CC>(j($e, "Qc", $CC))),
            TemporaryBQMatrixBuffer::from($crate::kf::arr::<E::T, $NC>(j($e, "tBQ", $NC))),
        )
    }};
}
#[macro_export]
macro_rules! observation_arrays {
    ($builder:ident, $e:expr, $p:expr, $N:ident, $M:ident, $NN:ident, $NM:ident, $MM:ident) => {{
        let j = |e: &mut E, n: &str, k: usize| e.junks(&format!("{}{}", $p, n), k);
        $builder::new::<$N, $M, E::T>(
            ObservationMatrixMutBuffer::from($crate::kf::arr::<E::T, $NM>(j($e, "H", $NM))),
            MeasurementVectorBuffer::from($crate::kf::arr::<E::T, $M>(j($e, "z", $M))),
            MeasurementNoiseCovarianceMatrixBuffer::from($crate::kf::arr::<E::T, $MM>(j($e, "R", $MM))),
            InnovationVectorBuffer::from($crate::kf::arr::<E::T, $M>(j($e, "y", $M))),
            InnovationCovarianceMatrixBuffer::from($crate::kf::arr::<E::T, $MM>(j($e, "S", $MM))),
            KalmanGainMatrixBuffer::from($crate::kf::arr::<E::T, $NM>(j($e, "K", $NM))),
            TemporaryResidualCovarianceInvertedMatrixBuffer::from($crate::kf::arr::<E::T, $MM>(j($e, "Si", $MM))),
            TemporaryHPMatrixBuffer::from($crate::kf::arr::<E::T, $NM>(j($e, "HP", $NM))),
            TemporaryPHTMatrixBuffer::from($crate::kf::arr::<E::T, $NM>(j($e, "PHt", $NM))),
            TemporaryKHPMatrixBuffer::from($crate::kf::arr::<E::T, $NN>(j($e, "KHP", $NN))),
        )
    }};
}

pub fn arr<T: Copy, const K: usize>(v: Vec<T>) -> [T; K] {
    core::array::from_fn(|i| v[i])
}

/// store a flat vector into a buffer (row-major)
#[macro_export]
macro_rules! ld {
    ($buf:expr, $v:expr) => {{
        let v = &$v;
        let b = $buf;
        b.as_mut_slice()[..v.len()].copy_from_slice(v);
    }};
}
/// read the first `n` values of a buffer
#[macro_export]
macro_rules! rd {
    ($buf:expr, $n:expr) => {{
        let b = $buf;
        b.as_slice()[..$n].to_vec()
    }};
}

// ---- one set-up statement per storage kind --------------------------------
// setup_f!(boxed regular e, "p", N, NN; f);  declares `f`
#[macro_export]
macro_rules! setup_f {
    (boxed regular $e:expr, $p:expr, $N:ident, $NN:ident; $f:ident) => {
        #[allow(unused_mut)]
        let mut $f = minikalman::regular::builder::KalmanFilterBuilder::<$N, E::T>::default().build();
    };
    (boxed extended $e:expr, $p:expr, $N:ident, $NN:ident; $f:ident) => {
        #[allow(unused_mut)]
        let mut $f = minikalman::extended::builder::KalmanFilterBuilder::<$N, E::T>::default().build();
    };
    (slices regular $e:expr, $p:expr, $N:ident, $NN:ident; $f:ident) => {
        let mut fm = $crate::kf::FMem::new($e, $p, $N, 2);
        #[allow(unused_mut)]
        let mut $f = $crate::filter_over!(RegularKalmanBuilder, fm, $N);
    };
    (slices extended $e:expr, $p:expr, $N:ident, $NN:ident; $f:ident) => {
        let mut fm = $crate::kf::FMem::new($e, $p, $N, 2);
        #[allow(unused_mut)]
        let mut $f = $crate::filter_over!(ExtendedKalmanBuilder, fm, $N);
    };
    (arrays regular $e:expr, $p:expr, $N:ident, $NN:ident; $f:ident) => {
        #[allow(unused_mut)]
        let mut $f = $crate::filter_arrays!(RegularKalmanBuilder, $e, $p, $N, $NN);
    };
    (arrays extended $e:expr, $p:expr, $N:ident, $NN:ident; $f:ident) => {
        #[allow(unused_mut)]
        let mut $f = $crate::filter_arrays!(ExtendedKalmanBuilder, $e, $p, $N, $NN);
    };
}
#[macro_export]
macro_rules! setup_c {
    (boxed $e:expr, $p:expr, $N:ident, $C:ident, $NC:ident, $CC:ident; $c:ident) => {
        #[allow(unused_mut)]
        let mut $c = minikalman::regular::builder::KalmanFilterBuilder::<$N, E::T>::default().controls().build::<$C>();
    };
    (slices $e:expr, $p:expr, $N:ident, $C:ident, $NC:ident, $CC:ident; $c:ident) => {
        let mut cm = $crate::kf::CMem::new($e, $p, $N, $C, 2);
        #[allow(unused_mut)]
        let mut $c = $crate::control_over!(cm, $N, $C);
    };
    (arrays $e:expr, $p:expr, $N:ident, $C:ident, $NC:ident, $CC:ident; $c:ident) => {
        #[allow(unused_mut)]
        let mut $c = $crate::control_arrays!($e, $p, $N, $C, $NC, $CC);
    };
}
#[macro_export]
macro_rules! setup_o {
    (boxed regular $e:expr, $p:expr, $N:ident, $M:ident, $NN:ident, $NM:ident, $MM:ident; $o:ident) => {
        #[allow(unused_mut)]
        let mut $o = minikalman::regular::builder::KalmanFilterBuilder::<$N, E::T>::default().observations().build::<$M>();
    };
    (boxed extended $e:expr, $p:expr, $N:ident, $M:ident, $NN:ident, $NM:ident, $MM:ident; $o:ident) => {
        #[allow(unused_mut)]
        let mut $o = minikalman::extended::builder::KalmanFilterBuilder::<$N, E::T>::default().observations().build::<$M>();
    };
    (slices regular $e:expr, $p:expr, $N:ident, $M:ident, $NN:ident, $NM:ident, $MM:ident; $o:ident) => {
        let mut om = $crate::kf::OMem::new($e, $p, $N, $M, 2);
        #[allow(unused_mut)]
        let mut $o = $crate::observation_over!(RegularObservationBuilder, om, $N, $M);
    };
    (slices extended $e:expr, $p:expr, $N:ident, $M:ident, $NN:ident, $NM:ident, $MM:ident; $o:ident) => {
        let mut om = $crate::kf::OMem::new($e, $p, $N, $M, 2);
        #[allow(unused_mut)]
        let mut $o = $crate::observation_over!(ExtendedObservationBuilder, om, $N, $M);
    };
    (arrays regular $e:expr, $p:expr, $N:ident, $M:ident, $NN:ident, $NM:ident, $MM:ident; $o:ident) => {
        #[allow(unused_mut)]
        let mut $o = $crate::observation_arrays!(RegularObservationBuilder, $e, $p, $N, $M, $NN, $NM, $MM);
    };
    (arrays extended $e:expr, $p:expr, $N:ident, $M:ident, $NN:ident, $NM:ident, $MM:ident; $o:ident) => {
        #[allow(unused_mut)]
        let mut $o = $crate::observation_arrays!(ExtendedObservationBuilder, $e, $p, $N, $M, $NN, $NM, $MM);
    };
}
/// copy of a vector-like matrix through the matrix traits
pub fn col<const R: usize, T: Copy, X: AsMatrix<R, 1, T>>(x: &X) -> Vec<T> {
    (0..R).map(|i| x.as_matrix().get_at(i, 0)).collect()
}
pub fn set_col<const R: usize, T: Copy, X: AsMatrixMut<R, 1, T>>(x: &mut X, v: &[T]) {
    for i in 0..R {
        x.as_matrix_mut().set_at(i, 0, v[i]);
    }
}
/// copy of a matrix through the matrix traits
pub fn mat<const R: usize, const C: usize, T: Copy, X: RowMajorSequentialData<R, C, T>>(x: &X) -> Vec<T> {
    let m = x;
    let mut v = vec![];
    for i in 0..R {
        for j in 0..C {
            v.push(m.get_at(i, j));
        }
    }
    v
}
pub fn put<const R: usize, const C: usize, T: Copy, X: RowMajorSequentialDataMut<R, C, T>>(x: &mut X, d: &[T]) {
    let m = x;
    for i in 0..R {
        for j in 0..C {
            m.set_at(i, j, d[i * C + j]);
        }
    }
}

// ---- objects that have been in use for a long time ---------------------------
thread_local! {
    static USES: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// How often `history!` uses its objects before the scenario proper.
pub fn uses() -> usize {
    USES.with(|x| x.get())
}
/// Run a scenario on objects that have been used `k` times before.
pub fn long_after<R>(k: usize, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            USES.with(|x| x.set(0));
        }
    }
    USES.with(|x| x.set(k));
    let _reset = Reset;
    f()
}
/// more than any 8 bit, 12 bit or 16 bit counter holds
pub const MANY: [usize; 3] = [300, 5_000, 70_000];
/// The visible results of repeated uses, each against those of the first.
pub struct Again<T> {
    first: Vec<Vec<T>>,
    left: usize,
}
impl<T: Copy> Again<T> {
    pub fn new() -> Self {
        Again { first: vec![], left: 60 }
    }
    /// use `i` of step `step`; the steps of the first use come in order
    pub fn see<E: Env<T = T>>(&mut self, e: &mut E, i: usize, step: usize, parts: &[&[T]]) {
        if self.first.len() <= step {
            self.first.push(parts.concat());
            e.ok("repeated", i == 0 && self.first.len() == step + 1);
            return;
        }
        if self.left == 0 {
            return; // enough differences to decide
        }
        for (k, v) in parts.iter().flat_map(|p| p.iter()).enumerate() {
            let was = self.first[step][k];
            if !e.same(*v, was) {
                e.eq(&format!("use {i} of step {step} ({k})"), *v, was);
                self.first[step][k] = *v;
                self.left = self.left.saturating_sub(1);
            }
        }
    }
}
impl<T> Default for Again<T> {
    fn default() -> Self {
        Again { first: vec![], left: 60 }
    }
}
/// fixed numbers for a history: unit matrices, except H = (rows of a unit matrix) and R with
/// S = H P H^T + R = 4 I
pub fn unit<E: Env>(e: &mut E, r: usize, c: usize, d: impl Fn(usize) -> i64) -> Vec<E::T> {
    let mut v = vec![];
    for i in 0..r {
        for j in 0..c {
            v.push(e.num(if i == j { d(i) } else { 0 }));
        }
    }
    v
}
/// `history!(regular e, f, N [; control c, C] [; observe o, M])` uses the objects `uses()`
/// times: predictions, control and correction from the same values, with the same results,
/// the same model and the same inputs.  With `uses() == 0` it does nothing.
#[macro_export]
macro_rules! history {
    (@model regular $f:ident) => { $f.state_transition() };
    (@model extended $f:ident) => { $f.state_transition_jacobian() };
    (@model_mut regular $f:ident) => { $f.state_transition_mut() };
    (@model_mut extended $f:ident) => { $f.state_transition_jacobian_mut() };
    (@obs regular $o:ident) => { $o.observation_matrix() };
    (@obs extended $o:ident) => { $o.observation_jacobian_matrix() };
    (@obs_mut regular $o:ident) => { $o.observation_matrix_mut() };
    (@obs_mut extended $o:ident) => { $o.observation_jacobian_matrix_mut() };
    (@predict regular $f:ident $one:ident $n:expr, $seen:ident) => { $f.predict() };
    (@predict extended $f:ident $one:ident $n:expr, $seen:ident) => { $f.predict_nonlinear(|x, y| {
        $seen.extend_from_slice(&x.as_slice()[..$n]);
        y.as_mut_slice()[..$n].fill($one);
    }) };
    (@tuned regular $f:ident $one:ident $n:expr, $seen:ident) => { $f.predict_tuned($one + $one) };
    (@tuned extended $f:ident $one:ident $n:expr, $seen:ident) => { $f.predict_tuned_nonlinear($one + $one, |x, y| {
        $seen.extend_from_slice(&x.as_slice()[..$n]);
        y.as_mut_slice()[..$n].fill($one);
    }) };
    (@correct regular $f:ident $o:ident $one:ident $n:expr, $m:expr, $seen:ident) => { $f.correct(&mut $o) };
    (@correct extended $f:ident $o:ident $one:ident $n:expr, $m:expr, $seen:ident) => { $f.correct_nonlinear(&mut $o, |x, y| {
        $seen.extend_from_slice(&x.as_slice()[..$n]);
        y.as_mut_slice()[..$m].fill($one);
    }) };
    (@use $e:expr, $f:ident, $seen_by:ident, $i:expr, $step:expr, $kind:ident, $x:ident, $p:ident, $seen:ident, $run:expr $(, $also:expr)*) => {{
        ld!($f.state_vector_mut(), $x);
        ld!($f.estimate_covariance_mut(), $p);
        #[allow(unused_mut)]
        let mut $seen: Vec<_> = vec![];
        $run;
        $seen_by.see($e, $i, $step, &[&$seen, $f.state_vector().as_slice(), $f.estimate_covariance().as_slice(),
            $crate::history!(@model $kind $f).as_slice(), $f.direct_process_noise().as_slice() $(, $also)*]);
    }};
    ($kind:ident $e:expr, $f:ident, $N:expr $(; control $c:ident, $C:expr)? $(; observe $o:ident, $M:expr)?) => {
        if $crate::kf::uses() > 0 {
            let n = $N;
            let one = $e.num(1);
            let id = $crate::kf::unit($e, n, n, |_| 1);
            let ones = vec![one; n];
            ld!($crate::history!(@model_mut $kind $f), id);
            ld!($f.direct_process_noise_mut(), id);
            let mut seen_by: $crate::kf::Again<_> = Default::default();
            $(
                let k = $C;
                { let b = $crate::kf::unit($e, n, k, |_| 1); ld!($c.control_matrix_mut(), b); }
                { let v = $crate::kf::unit($e, k, k, |_| 1); ld!($c.process_noise_covariance_mut(), v); }
                ld!($c.control_vector_mut(), vec![one; k]);
            )?
            $(
                let m = $M;
                { let h = $crate::kf::unit($e, m, n, |_| 1); ld!($crate::history!(@obs_mut $kind $o), h); }
                { let r = $crate::kf::unit($e, m, m, |i| if i < n { 3 } else { 4 }); ld!($o.measurement_noise_covariance_mut(), r); }
                ld!($o.measurement_vector_mut(), vec![one; m]);
            )?
            for i in 0..$crate::kf::uses() {
                $crate::history!(@use $e, $f, seen_by, i, 0, $kind, ones, id, seen, $crate::history!(@predict $kind $f one n, seen));
                $crate::history!(@use $e, $f, seen_by, i, 1, $kind, ones, id, seen, $crate::history!(@tuned $kind $f one n, seen));
                #[allow(unused_mut)]
                let mut step = 2;
                $(
                    $crate::history!(@use $e, $f, seen_by, i, step, $kind, ones, id, seen, $f.control(&mut $c),
                        $c.control_matrix().as_slice(), $c.control_vector().as_slice(), $c.process_noise_covariance().as_slice());
                    step += 1;
                )?
                $(
                    $crate::history!(@use $e, $f, seen_by, i, step, $kind, ones, id, seen, $crate::history!(@correct $kind $f $o one n, m, seen),
                        $crate::history!(@obs $kind $o).as_slice(), $o.measurement_vector().as_slice(), $o.measurement_noise_covariance().as_slice());
                    step += 1;
                )?
                let _ = step;
            }
        }
    };
}
