//! C30: running the filter makes no heap requests.
//!
//! Every step and every matrix operation runs under a counting allocator that
//! ignores the symbolic number type's own bookkeeping.  On every path - both
//! outcomes of every comparison, over real numbers and over floating-point
//! values including NaN - the count is zero.  Only the builders that promise
//! heap storage may allocate, while building.
use crate::env::{contents, Contents, Env};
use crate::harness::Scenario;
use crate::heap::watch;
use crate::kf::*;
use crate::{ld, mx, scen, setup_c, setup_f, setup_o};
use minikalman::extended::*;
use minikalman::regular::*;

macro_rules! none {
    ($e:ident, $name:expr, $x:expr) => {{
        let (v, requests) = watch(|| $x);
        $e.ok(&format!("{}: no heap request", $name), requests == 0);
        v
    }};
}

fn arithmetic<E: Env, const R: usize, const K: usize, const U: usize, A, B, BT, C>(e: &mut E, a: &A, b: &B, bt: &BT, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    B: Matrix<K, U, E::T>,
    BT: Matrix<U, K, E::T>,
    C: MatrixMut<R, U, E::T>,
{
    let s = e.var("scale");
    let mut aux = e.junks("aux", K);
    none!(e, "mult", a.mult(b, c));
    none!(e, "mult_buffered", a.mult_buffered(b, c, &mut aux));
    none!(e, "mult_transb", a.mult_transb(bt, c));
    none!(e, "multadd_transb", a.multadd_transb(bt, c));
    none!(e, "multscale_transb", a.multscale_transb(bt, s, c));
}

fn vectors<E: Env, const R: usize, const K: usize, A, X, C>(e: &mut E, a: &A, x: &X, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    X: Matrix<K, 1, E::T>,
    C: MatrixMut<R, 1, E::T>,
{
    none!(e, "mult_rowvector", a.mult_rowvector(x, c));
    none!(e, "multadd_rowvector", a.multadd_rowvector(x, c));
}

fn entrywise<E: Env, const R: usize, const K: usize, A, B, C>(e: &mut E, a: &A, b: &mut B, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    B: MatrixMut<R, K, E::T>,
    C: MatrixMut<R, K, E::T>,
{
    let x = e.var("value");
    none!(e, "add_inplace_b", a.add_inplace_b(b));
    none!(e, "sub_inplace_b", a.sub_inplace_b(b));
    none!(e, "add_inplace_a", c.add_inplace_a(a));
    none!(e, "sub_inplace_a", c.sub_inplace_a(a));
    none!(e, "sub", a.sub(b, c));
    none!(e, "copy_to", a.copy_to(c));
    #[allow(deprecated)]
    {
        none!(e, "copy", a.copy(c));
    }
    none!(e, "copy_from", c.copy_from(b));
    let (mut row, mut col) = (e.junks("row", K + 1), e.junks("col", R + 1));
    for i in 0..R {
        none!(e, "get_row_copy", a.get_row_copy(i, &mut row));
    }
    for j in 0..K {
        none!(e, "get_column_copy", a.get_column_copy(j, &mut col));
    }
    for i in 0..R {
        for j in 0..K {
            none!(e, "get", (a.get(i, j), a.get_at(i, j)));
            none!(e, "set", { c.set(i, j, x); c.set_at(i, j, x) });
        }
    }
    none!(e, "inspect", a.inspect(|m| m.get(0, 0)));
    none!(e, "apply", c.apply(|m| m.set(0, 0, x)));
    none!(e, "clear", c.clear());
    none!(e, "set_zero", c.set_zero());
    none!(e, "set_all", c.set_all(x));
    none!(e, "set_symmetric", c.set_symmetric(R.min(K) - 1, 0, x));
    none!(e, "slices", (a.as_slice().len(), c.as_mut_slice().len(), a.rows(), a.cols(), a.len(), a.is_empty()));
}

fn square<E: Env, const N: usize, A, C>(e: &mut E, a: &mut A, c: &mut C)
where
    A: SquareMatrix<N, E::T> + MatrixMut<N, N, E::T>,
    C: SquareMatrixMut<N, E::T> + MatrixMut<N, N, E::T>,
{
    let (d, o) = (e.var("diagonal"), e.var("off-diagonal"));
    none!(e, "make_identity", c.make_identity());
    none!(e, "make_scalar", c.make_scalar(d));
    none!(e, "set_diagonal_to_scalar", c.set_diagonal_to_scalar(d));
    none!(e, "make_comatrix", c.make_comatrix(d, o));
    // both outcomes
    let ok = none!(e, "cholesky_decompose_lower", a.cholesky_decompose_lower());
    if ok {
        none!(e, "invert_l_cholesky", a.invert_l_cholesky(c));
    }
}

// the same steps through the generic traits
fn g_predict<const N: usize, T, F: KalmanFilterPredict<N, T>>(f: &mut F) {
    f.predict()
}
fn g_control<const N: usize, T, F: KalmanFilterApplyControl<N, T>, C: KalmanFilterControlApplyToFilter<N, T>>(f: &mut F, c: &mut C) {
    f.control(c)
}
fn g_correct<const N: usize, T, F: KalmanFilterUpdate<N, T>, O: KalmanFilterObservationCorrectFilter<N, T>>(f: &mut F, o: &mut O) {
    f.correct(o)
}
fn g_apply<const N: usize, T, X: StateVectorMut<N, T>, P: EstimateCovarianceMatrix<N, T>, C: KalmanFilterControlApplyToFilter<N, T>>(c: &mut C, x: &mut X, p: &mut P) {
    c.apply_to(x, p)
}
fn g_observe<const N: usize, T, X: StateVectorMut<N, T>, P: EstimateCovarianceMatrix<N, T>, O: KalmanFilterObservationCorrectFilter<N, T>>(o: &mut O, x: &mut X, p: &mut P) {
    o.correct(x, p)
}
fn g_predict_x<const N: usize, T: Copy, F: KalmanFilterNonlinearPredict<N, T>>(f: &mut F, v: &[T]) {
    f.predict_nonlinear(|_, y| set_col::<N, _, _>(y, v))
}
fn g_correct_x<const N: usize, const M: usize, T: Copy, F: KalmanFilterNonlinearUpdate<N, T>, O: KalmanFilterNonlinearObservationCorrectFilter<N, M, T>>(f: &mut F, o: &mut O, v: &[T]) {
    f.correct_nonlinear(o, |_, y| set_col::<M, _, _>(y, v))
}
fn g_observe_x<const N: usize, const M: usize, T: Copy, X: StateVectorMut<N, T>, P: EstimateCovarianceMatrix<N, T>, O: KalmanFilterNonlinearObservationCorrectFilter<N, M, T>>(
    o: &mut O, x: &mut X, p: &mut P, v: &[T]) {
    o.correct_nonlinear(x, p, |_, y| set_col::<M, _, _>(y, v))
}

macro_rules! regular_body {
    ($kind:ident, $e:ident, $N:ident, $M:ident, $C:ident, $NN:ident, $NM:ident, $NC:ident, $MM:ident, $CC:ident, $steps:expr) => {{
        setup_f!($kind regular $e, "", $N, $NN; f);
        setup_c!($kind $e, "", $N, $C, $NC, $CC; c);
        setup_o!($kind regular $e, "", $N, $M, $NN, $NM, $MM; o);
        ld!(f.state_transition_mut(), $e.mat("A", $N, $N));
        ld!(f.state_vector_mut(), $e.vec("x", $N));
        ld!(f.estimate_covariance_mut(), $e.symmetric("P", $N));
        ld!(f.direct_process_noise_mut(), $e.symmetric("Q", $N));
        ld!(c.control_matrix_mut(), $e.mat("B", $N, $C));
        ld!(c.control_vector_mut(), $e.vec("u", $C));
        ld!(c.process_noise_covariance_mut(), $e.symmetric("Qc", $C));
        ld!(o.observation_matrix_mut(), $e.mat("H", $M, $N));
        ld!(o.measurement_vector_mut(), $e.vec("z", $M));
        ld!(o.measurement_noise_covariance_mut(), $e.symmetric("R", $M));
        let l = $e.pos("lambda");
        let (mut xv, mut pv) = ($e.vec("fx", $N), $e.symmetric("fP", $N));
        let mut xb = StateVectorBuffer::<$N, _, _>::from(xv.as_mut_slice());
        let mut pb = EstimateCovarianceMatrixBuffer::<$N, _, _>::from(pv.as_mut_slice());
        if uses() > 0 {
            // the same steps many times, from the same values
            let (x, p) = (f.state_vector().as_slice().to_vec(), f.estimate_covariance().as_slice().to_vec());
            let mut requests = 0;
            for _ in 0..uses() {
                for s in 0..4 {
                    ld!(f.state_vector_mut(), x);
                    ld!(f.estimate_covariance_mut(), p);
                    requests += watch(|| match s {
                        0 => f.predict(),
                        1 => f.predict_tuned(l),
                        2 => f.control(&mut c),
                        _ => f.correct(&mut o),
                    }).1;
                }
            }
            $e.ok("no heap request in many uses", requests == 0);
        }
        for s in $steps {
            match s {
                'p' => none!($e, "predict", f.predict()),
                't' => none!($e, "predict_tuned", f.predict_tuned(l)),
                'c' => none!($e, "control", f.control(&mut c)),
                'P' => none!($e, "predict (trait)", g_predict::<$N, _, _>(&mut f)),
                'C' => none!($e, "control (trait)", g_control::<$N, _, _, _>(&mut f, &mut c)),
                'O' => none!($e, "correct (trait)", g_correct::<$N, _, _, _>(&mut f, &mut o)),
                'd' => none!($e, "apply_control", c.apply_control(&mut xb, &mut pb)),
                'D' => none!($e, "apply_to (trait)", g_apply::<$N, _, _, _, _>(&mut c, &mut xb, &mut pb)),
                'f' => none!($e, "observation.correct", o.correct(&mut xb, &mut pb)),
                'F' => none!($e, "observation.correct (trait)", g_observe::<$N, _, _, _, _>(&mut o, &mut xb, &mut pb)),
                _ => none!($e, "correct", f.correct(&mut o)),
            }
            none!($e, "accessors", (f.state_vector().as_slice().len(), f.estimate_covariance_mut().as_mut_slice().len(),
                f.state_vector_mut().as_mut_slice().len(), f.state_transition().as_slice().len(), c.control_vector_mut().as_mut_slice().len(),
                o.measurement_vector_mut().as_mut_slice().len(), o.measurement_noise_covariance().as_slice().len()));
        }
    }};
}
macro_rules! extended_body {
    ($kind:ident, $e:ident, $N:ident, $M:ident, $C:ident, $NN:ident, $NM:ident, $NC:ident, $MM:ident, $CC:ident, $steps:expr) => {{
        setup_f!($kind extended $e, "", $N, $NN; f);
        setup_c!($kind $e, "", $N, $C, $NC, $CC; c);
        setup_o!($kind extended $e, "", $N, $M, $NN, $NM, $MM; o);
        ld!(f.state_transition_jacobian_mut(), $e.mat("A", $N, $N));
        ld!(f.state_vector_mut(), $e.vec("x", $N));
        ld!(f.estimate_covariance_mut(), $e.symmetric("P", $N));
        ld!(f.direct_process_noise_mut(), $e.symmetric("Q", $N));
        ld!(o.observation_jacobian_matrix_mut(), $e.mat("H", $M, $N));
        ld!(o.measurement_vector_mut(), $e.vec("z", $M));
        ld!(o.measurement_noise_covariance_mut(), $e.symmetric("R", $M));
        let _ = c.control_matrix();
        let (fx, hx, l) = ($e.vec("fx", $N), $e.vec("hx", $M), $e.pos("lambda"));
        let (mut xv, mut pv) = ($e.vec("fx", $N), $e.symmetric("fP", $N));
        let mut xb = StateVectorBuffer::<$N, _, _>::from(xv.as_mut_slice());
        let mut pb = EstimateCovarianceMatrixBuffer::<$N, _, _>::from(pv.as_mut_slice());
        if uses() > 0 {
            let (x, p) = (f.state_vector().as_slice().to_vec(), f.estimate_covariance().as_slice().to_vec());
            let mut requests = 0;
            for _ in 0..uses() {
                for s in 0..3 {
                    ld!(f.state_vector_mut(), x);
                    ld!(f.estimate_covariance_mut(), p);
                    requests += watch(|| match s {
                        0 => f.predict_nonlinear(|_, next| set_col::<$N, _, _>(next, &fx)),
                        1 => f.predict_tuned_nonlinear(l, |_, next| set_col::<$N, _, _>(next, &fx)),
                        _ => f.correct_nonlinear(&mut o, |_, y| set_col::<$M, _, _>(y, &hx)),
                    }).1;
                }
            }
            $e.ok("no heap request in many uses", requests == 0);
        }
        for s in $steps {
            match s {
                'p' => none!($e, "predict_nonlinear", f.predict_nonlinear(|_, next| set_col::<$N, _, _>(next, &fx))),
                't' => none!($e, "predict_tuned_nonlinear", f.predict_tuned_nonlinear(l, |_, next| set_col::<$N, _, _>(next, &fx))),
                'P' => none!($e, "predict_nonlinear (trait)", g_predict_x::<$N, _, _>(&mut f, &fx)),
                'O' => none!($e, "correct_nonlinear (trait)", g_correct_x::<$N, $M, _, _, _>(&mut f, &mut o, &hx)),
                'f' => none!($e, "observation.correct_nonlinear", o.correct_nonlinear(&mut xb, &mut pb, |_, y| set_col::<$M, _, _>(y, &hx))),
                'F' => none!($e, "observation.correct_nonlinear (trait)", g_observe_x::<$N, $M, _, _, _, _>(&mut o, &mut xb, &mut pb, &hx)),
                _ => none!($e, "correct_nonlinear", f.correct_nonlinear(&mut o, |_, y| set_col::<$M, _, _>(y, &hx))),
            }
        }
    }};
}
macro_rules! kinds {
    ($body:ident, $($f:ident $kind:ident),*) => {$(
        fn $f<const N: usize, const M: usize, const C: usize, const NN: usize, const NM: usize, const NC: usize, const MM: usize, const CC: usize, E: Env>(e: &mut E, steps: &[char]) {
            let steps = steps.iter().copied();
            $body!($kind, e, N, M, C, NN, NM, NC, MM, CC, steps)
        }
    )*};
}
kinds!(regular_body, rboxed boxed, rslices slices, rarrays arrays);
kinds!(extended_body, eboxed boxed, eslices slices, earrays arrays);

/// building over memory the caller provides
fn over_caller_memory<E: Env>(e: &mut E) {
    let (mut fm, mut cm, mut om) = (FMem::new(e, "", 3, 2), CMem::new(e, "", 3, 2, 2), OMem::new(e, "", 3, 2, 2));
    let _f = none!(e, "regular filter over slices", crate::filter_over!(RegularKalmanBuilder, fm, 3));
    let _c = none!(e, "control over slices", crate::control_over!(cm, 3, 2));
    let _o = none!(e, "regular observation over slices", crate::observation_over!(RegularObservationBuilder, om, 3, 2));
    let (mut fm, mut om) = (FMem::new(e, "x", 3, 2), OMem::new(e, "x", 3, 2, 2));
    let _f = none!(e, "extended filter over slices", crate::filter_over!(ExtendedKalmanBuilder, fm, 3));
    let _o = none!(e, "extended observation over slices", crate::observation_over!(ExtendedObservationBuilder, om, 3, 2));
    let mut v = e.junks("v", 8);
    let w: [E::T; 6] = arr(v.clone());
    none!(e, "matrix over an array", MatrixData::new_array::<2, 3, 6, _>(w).rows());
    none!(e, "matrix over a slice", MatrixData::new_ref::<2, 3, _>(&v).cols());
    none!(e, "mutable matrix over a slice", MatrixData::new_mut::<2, 3, _>(&mut v).cols());
    none!(e, "buffer over an array", { let b = KalmanGainMatrixBuffer::<2, 3, _, _>::from(w); b.into_inner()[0] });
    none!(e, "matrix clone", MatrixData::new_array::<2, 3, 6, _>(w).clone().into_inner()[5]);
}

fn any(s: Scenario) -> Scenario {
    let Scenario { name, core, sym, f64, .. } = s;
    Scenario {
        name: format!("any contents: {name}"),
        core,
        fp: true,
        sym: Box::new(move |e| contents(Contents::Any, || sym(e))),
        f64: Box::new(move |e| contents(Contents::Any, || f64(e))),
    }
}

fn all() -> Vec<Scenario> {
    let mut v = vec![];
    macro_rules! steps {
        ($($f:ident $n:literal $m:literal $c:literal $steps:literal),* $(,)?) => {$(
            scen!(v, core, concat!(stringify!($f), " n=", $n, " m=", $m, " c=", $c, " steps=", $steps), |e| {
                let st: Vec<char> = $steps.chars().collect();
                $f::<$n, $m, $c, {$n*$n}, {$n*$m}, {$n*$c}, {$m*$m}, {$c*$c}, _>(e, &st)
            });
        )*};
    }
    steps!(rboxed 1 1 1 "ptco", rboxed 2 1 3 "ptco", rboxed 3 2 2 "optc", rboxed 2 3 1 "o", rboxed 4 4 2 "ptco", rboxed 1 4 4 "o", rboxed 5 2 1 "ptco", rboxed 6 1 2 "pto", rboxed 8 3 8 "pto", rboxed 3 5 1 "o",
           rslices 1 1 1 "ptco", rboxed 2 1 1 "PCO", rboxed 3 2 2 "dDfF", rslices 2 2 1 "PCOdDfF", rboxed 6 3 4 "PCd", rslices 3 2 2 "ptco", rslices 2 4 1 "o", rslices 5 1 5 "ptco", rslices 2 1 1 "oco",
           rarrays 1 1 1 "ptco", rarrays 2 2 2 "ptco", rarrays 4 1 3 "ptco", rarrays 1 3 1 "o", rarrays 9 2 1 "ptco",
           eboxed 1 1 1 "pto", eboxed 2 1 1 "opt", eboxed 3 2 1 "pto", eboxed 2 3 1 "o", eboxed 4 4 1 "o", eboxed 6 1 1 "pto", eboxed 9 2 1 "pto",
           eboxed 2 1 1 "PO", eboxed 2 2 1 "fF", eslices 3 1 1 "POfF", eslices 2 1 1 "pto", eslices 3 3 1 "opt", eslices 1 2 1 "o", earrays 1 1 1 "pto", earrays 2 2 1 "pto", earrays 5 1 1 "pto");
    macro_rules! wide {
        ($($f:ident $n:literal $m:literal $c:literal $steps:literal),* $(,)?) => {$(
            scen!(v, core, concat!("wide ", stringify!($f), " n=", $n, " m=", $m, " c=", $c, " steps=", $steps), |e| crate::env::fixing(&["P", "H", "R", "A", "Q", "B", "Qc"], || {
                let st: Vec<char> = $steps.chars().collect();
                $f::<$n, $m, $c, {$n*$n}, {$n*$m}, {$n*$c}, {$m*$m}, {$c*$c}, _>(e, &st)
            }));
        )*};
    }
    wide!(rboxed 17 2 17 "ptc", rslices 33 1 2 "p", eboxed 17 1 1 "pt", rboxed 2 9 1 "o", eslices 3 8 1 "o", rarrays 12 4 1 "o");
    macro_rules! m {
        ($($ka:ident $kc:ident $r:literal $k:literal $u:literal),* $(,)?) => {$(
            scen!(v, core, concat!("matrices ", stringify!($ka), "->", stringify!($kc), " ", $r, "x", $k, "*", $k, "x", $u), |e| {
                let (va, vb, vbt, vc) = (e.mat("a", $r, $k), e.mat("b", $k, $u), e.mat("bt", $u, $k), e.mat("c", $r, $u));
                mx!($ka e, "a"; a, ma, $r, $k, va);
                mx!($ka e, "b"; b, mb, $k, $u, vb);
                mx!($ka e, "bt"; bt, mbt, $u, $k, vbt);
                mx!($kc e, "c"; c, mc, $r, $u, vc);
                arithmetic::<_, $r, $k, $u, _, _, _, _>(e, &a, &b, &bt, &mut c);
                let (vx, vy, vd) = (e.vec("x", $k), e.vec("y", $r), e.mat("d", $r, $k));
                mx!($ka e, "x"; x, mxx, $k, 1, vx);
                mx!($kc e, "y"; y, my, $r, 1, vy);
                vectors::<_, $r, $k, _, _, _>(e, &a, &x, &mut y);
                mx!($kc e, "d"; d, md, $r, $k, vd);
                mx!($kc e, "g"; g, mg, $r, $k, va);
                entrywise::<_, $r, $k, _, _, _>(e, &a, &mut d, &mut g);
                let (vs, vt) = (e.symmetric("s", $r), e.mat("t", $r, $r));
                mx!($kc e, "s"; s, ms, $r, $r, vs);
                mx!($kc e, "t"; t, mt, $r, $r, vt);
                square::<_, $r, _, _>(e, &mut s, &mut t);
            });
        )*};
    }
    m!(array array 1 1 1, cref slice 1 3 2, boxed boxed 2 2 2, boxed boxed 3 2 4, slice slice 2 4 3, crowmajor rowmajor 3 3 3, arrayx arrayx 4 2 2, boxed boxed 4 4 4, array array 5 3 1,
       boxed boxed 5 5 5, boxed slice 2 8 2, slice boxed 3 9 17, boxed boxed 6 7 8, boxed boxed 1 33 2);
    scen!(v, core, "building over caller memory", |e| over_caller_memory(e));
    v
}

pub fn scenarios() -> Vec<Scenario> {
    let mut v = all();
    v.extend(all().into_iter().map(any));
    macro_rules! long {
        ($($f:ident $n:literal $m:literal $c:literal $steps:literal $k:expr),* $(,)?) => {$(
            scen!(v, core, format!("long after {} uses {} n={} m={} c={} steps={}", $k, stringify!($f), $n, $m, $c, $steps), |e| long_after($k, || {
                let st: Vec<char> = $steps.chars().collect();
                $f::<$n, $m, $c, {$n*$n}, {$n*$m}, {$n*$c}, {$m*$m}, {$c*$c}, _>(e, &st)
            }));
        )*};
    }
    long!(rboxed 1 1 1 "ptco" 70_000, rarrays 2 2 1 "ptco" 5_000, eboxed 1 1 1 "pto" 70_000, eslices 2 2 1 "pto" 5_000);
    v
}
