//! C19: storage kinds are interchangeable, borrowed memory is written through, and
//! nothing behind the matrices' own elements is ever touched.
use crate::env::Env;
use crate::kf::*;
use crate::mx::*;
use crate::{filter_over, control_over, ld, mx, observation_over, rd, scen};
use minikalman::extended::*;
use minikalman::matrix::{MatrixDataMut, MatrixDataRowMajorMut};
use minikalman::regular::*;

type Out<T> = Vec<(String, Vec<T>)>;

/// every matrix operation once or more; returns everything observable
fn script<E, A, B, C, D, S, T, X, Y>(e: &mut E, a: &mut A, b: &mut B, c: &mut C, d: &mut D, s: &mut S, t: &mut T, x: &mut X, y: &mut Y) -> Out<E::T>
where
    E: Env,
    A: MatrixMut<3, 4, E::T>,
    B: MatrixMut<4, 3, E::T>,
    C: MatrixMut<3, 3, E::T>,
    D: MatrixMut<3, 4, E::T>,
    S: MatrixMut<3, 3, E::T>,
    T: MatrixMut<3, 3, E::T>,
    X: MatrixMut<4, 1, E::T>,
    Y: MatrixMut<3, 1, E::T>,
{
    let mut o: Out<E::T> = vec![];
    macro_rules! log {
        ($n:literal; $($m:ident),*) => { $( o.push((concat!($n, " ", stringify!($m)).to_string(), $m.as_slice()[..$m.len()].to_vec())); )* };
    }
    a.mult(b, c);
    log!("mult"; a, b, c);
    let mut aux = vec![s.get(0, 0); 4];
    a.mult_buffered(b, c, &mut aux);
    log!("mult_buffered"; a, b, c);
    a.mult_transb(d, c);
    log!("mult_transb"; a, d, c);
    a.multadd_transb(d, c);
    log!("multadd_transb"; a, d, c);
    let k = e.var("scale");
    a.multscale_transb(d, k, c);
    log!("multscale_transb"; a, d, c);
    a.mult_rowvector(x, y);
    log!("mult_rowvector"; a, x, y);
    a.multadd_rowvector(x, y);
    log!("multadd_rowvector"; a, x, y);
    let mut tmp = MatrixData::new_array::<3, 4, 12, E::T>([k; 12]);
    a.sub(d, &mut tmp);
    log!("sub"; a, d, tmp);
    a.add_inplace_a(d);
    log!("add_inplace_a"; a, d);
    a.sub_inplace_a(d);
    a.sub_inplace_b(d);
    log!("sub_inplace"; a, d);
    a.add_inplace_b(d);
    log!("add_inplace_b"; a, d);
    a.copy_to(d);
    log!("copy_to"; a, d);
    c.copy_from(s);
    log!("copy_from"; c, s);
    let mut row = vec![k; 4];
    a.get_row_copy(1, &mut row);
    o.push(("row".into(), row));
    let mut col = vec![k; 3];
    a.get_column_copy(2, &mut col);
    o.push(("column".into(), col));
    let ok = c.cholesky_decompose_lower();
    o.push((format!("decomposed {ok}"), vec![]));
    log!("cholesky"; c);
    if ok {
        c.invert_l_cholesky(t);
        log!("inverse"; c, t);
    }
    s.set(1, 2, k);
    s.set_at(2, 1, a.get(0, 3));
    s.set_symmetric(0, 2, k);
    log!("set"; s);
    s.set_diagonal_to_scalar(k);
    log!("set_diagonal_to_scalar"; s);
    s.make_comatrix(k, a.get_at(2, 2));
    log!("make_comatrix"; s);
    s.make_scalar(k);
    log!("make_scalar"; s);
    s.make_identity();
    log!("make_identity"; s);
    a.set_all(k);
    log!("set_all"; a);
    b.set_zero();
    log!("set_zero"; b);
    y.set_row(1, k);
    log!("set_row"; y);
    x.clear();
    log!("clear"; x);
    o.push((format!("{} {} {} {} {} {}", a.len(), a.is_empty(), a.is_valid(), a.rows(), a.cols(), x.len()), vec![]));
    o
}
struct Vals<T>(Vec<T>, Vec<T>, Vec<T>, Vec<T>, Vec<T>, Vec<T>, Vec<T>, Vec<T>);

macro_rules! run_kind {
    ($k:ident $e:ident $v:ident) => {{
        mx!($k $e, "a"; a, ma, 3, 4, $v.0);
        mx!($k $e, "b"; b, mb, 4, 3, $v.1);
        mx!($k $e, "c"; c, mc, 3, 3, $v.2);
        mx!($k $e, "d"; d, md, 3, 4, $v.3);
        mx!($k $e, "s"; s, ms, 3, 3, $v.4);
        mx!($k $e, "t"; t, mt, 3, 3, $v.5);
        mx!($k $e, "x"; x, mx, 4, 1, $v.6);
        mx!($k $e, "y"; y, my, 3, 1, $v.7);
        macro_rules! tails { () => { vec![a.as_slice()[12..].to_vec(), b.as_slice()[12..].to_vec(), c.as_slice()[9..].to_vec(), d.as_slice()[12..].to_vec(),
            s.as_slice()[9..].to_vec(), t.as_slice()[9..].to_vec(), x.as_slice()[4..].to_vec(), y.as_slice()[3..].to_vec()].concat() } }
        let before = tails!();
        let o = script($e, &mut a, &mut b, &mut c, &mut d, &mut s, &mut t, &mut x, &mut y);
        let after = tails!();
        $e.eq_all(concat!(stringify!($k), ": memory behind the matrices"), &after, &before);
        o
    }};
}

fn compare<E: Env>(e: &mut E, got: &Out<E::T>, want: &Out<E::T>) {
    e.ok("same number of results", got.len() == want.len());
    for ((gn, g), (wn, w)) in got.iter().zip(want) {
        e.ok(&format!("{wn} = {gn}"), gn == wn);
        e.eq_all(wn, g, w);
    }
}

// ---------------------------------------------------------------- filters
struct FV<T> { a: Vec<T>, x: Vec<T>, p: Vec<T>, q: Vec<T>, b: Vec<T>, u: Vec<T>, qc: Vec<T>, h: Vec<T>, z: Vec<T>, r: Vec<T>, fx: Vec<T>, hx: Vec<T>, lam: T }
fn values<E: Env>(e: &mut E, n: usize, m: usize, c: usize) -> FV<E::T> {
    FV { a: e.mat("A", n, n), x: e.vec("x", n), p: e.symmetric("P", n), q: e.symmetric("Q", n), b: e.mat("B", n, c), u: e.vec("u", c), qc: e.symmetric("V", c),
         h: e.mat("H", m, n), z: e.vec("z", m), r: e.symmetric("R", m), fx: e.vec("fx", n), hx: e.vec("hx", m), lam: e.pos("lambda") }
}
/// load the values, perform the steps, return everything observable
macro_rules! reg {
    ($f:ident $c:ident $o:ident $v:ident $steps:expr) => {{
        ld!($f.state_transition_mut(), $v.a); ld!($f.state_vector_mut(), $v.x); ld!($f.estimate_covariance_mut(), $v.p); ld!($f.direct_process_noise_mut(), $v.q);
        ld!($c.control_matrix_mut(), $v.b); ld!($c.control_vector_mut(), $v.u); ld!($c.process_noise_covariance_mut(), $v.qc);
        ld!($o.observation_matrix_mut(), $v.h); ld!($o.measurement_vector_mut(), $v.z); ld!($o.measurement_noise_covariance_mut(), $v.r);
        let mut out = vec![];
        for s in $steps.chars() {
            match s {
                'p' => $f.predict(),
                't' => $f.predict_tuned($v.lam),
                'c' => $f.control(&mut $c),
                _ => $f.correct(&mut $o),
            }
            out.push((format!("x after {s}"), $f.state_vector().as_slice()[..$v.x.len()].to_vec()));
            out.push((format!("P after {s}"), $f.estimate_covariance().as_slice()[..$v.p.len()].to_vec()));
        }
        out.push(("A".to_string(), rd!($f.state_transition(), $v.a.len())));
        out.push(("H".to_string(), rd!($o.observation_matrix(), $v.h.len())));
        out.push(("B".to_string(), rd!($c.control_matrix(), $v.b.len())));
        out
    }};
}
macro_rules! ext {
    ($f:ident $o:ident $v:ident $steps:expr, $n:literal $m:literal) => {{
        ld!($f.state_transition_jacobian_mut(), $v.a); ld!($f.state_vector_mut(), $v.x); ld!($f.estimate_covariance_mut(), $v.p); ld!($f.direct_process_noise_mut(), $v.q);
        ld!($o.observation_jacobian_matrix_mut(), $v.h); ld!($o.measurement_vector_mut(), $v.z); ld!($o.measurement_noise_covariance_mut(), $v.r);
        let mut out = vec![];
        for s in $steps.chars() {
            match s {
                'p' => $f.predict_nonlinear(|_, y| set_col::<$n, _, _>(y, &$v.fx)),
                't' => $f.predict_tuned_nonlinear($v.lam, |_, y| set_col::<$n, _, _>(y, &$v.fx)),
                _ => $f.correct_nonlinear(&mut $o, |_, y| set_col::<$m, _, _>(y, &$v.hx)),
            }
            out.push((format!("x after {s}"), $f.state_vector().as_slice()[..$v.x.len()].to_vec()));
            out.push((format!("P after {s}"), $f.estimate_covariance().as_slice()[..$v.p.len()].to_vec()));
        }
        out
    }};
}
macro_rules! wrap {
    ($t:ident $mem:expr, $r:expr, $c:expr) => {
        $t::new(MatrixDataRowMajorMut::<{ $r }, { $c }, _, _>::new(MatrixDataMut::<{ $r }, { $c }, _>::new($mem.as_mut_slice())))
    };
}
macro_rules! filters_of_kind {
    // arrays
    (arrays $e:ident $v:ident $steps:expr, $n:literal $m:literal $c:literal; $builder:ident $obs:ident, |$f:ident, $cc:ident, $o:ident| $body:expr) => {{
        #[allow(unused_mut)]
        let mut $f = $builder::new::<$n, _>(
            StateTransitionMatrixMutBuffer::from(arr::<_, { $n * $n }>($e.junks("a.A", $n * $n))),
            StateVectorBuffer::from(arr::<_, $n>($e.junks("a.x", $n))),
            EstimateCovarianceMatrixBuffer::from(arr::<_, { $n * $n }>($e.junks("a.P", $n * $n))),
            DirectProcessNoiseCovarianceMatrixMutBuffer::from(arr::<_, { $n * $n }>($e.junks("a.Q", $n * $n))),
            PredictedStateEstimateVectorBuffer::from(arr::<_, $n>($e.junks("a.px", $n))),
            TemporaryStateMatrixBuffer::from(arr::<_, { $n * $n }>($e.junks("a.tP", $n * $n))),
        );
        #[allow(unused_mut, unused_variables)]
        let mut $cc = ControlBuilder::new::<$n, $c, _>(
            ControlMatrixMutBuffer::from(arr::<_, { $n * $c }>($e.junks("a.B", $n * $c))),
            ControlVectorBuffer::from(arr::<_, $c>($e.junks("a.u", $c))),
            ControlProcessNoiseCovarianceMatrixMutBuffer::from(arr::<_, { $c * $c }>($e.junks("a.Qc", $c * $c))),
            TemporaryBQMatrixBuffer::from(arr::<_, { $n * $c }>($e.junks("a.BQ", $n * $c))),
        );
        #[allow(unused_mut)]
        let mut $o = $obs::new::<$n, $m, _>(
            ObservationMatrixMutBuffer::from(arr::<_, { $n * $m }>($e.junks("a.H", $n * $m))),
            MeasurementVectorBuffer::from(arr::<_, $m>($e.junks("a.z", $m))),
            MeasurementNoiseCovarianceMatrixBuffer::from(arr::<_, { $m * $m }>($e.junks("a.R", $m * $m))),
            InnovationVectorBuffer::from(arr::<_, $m>($e.junks("a.y", $m))),
            InnovationCovarianceMatrixBuffer::from(arr::<_, { $m * $m }>($e.junks("a.S", $m * $m))),
            KalmanGainMatrixBuffer::from(arr::<_, { $n * $m }>($e.junks("a.K", $n * $m))),
            TemporaryResidualCovarianceInvertedMatrixBuffer::from(arr::<_, { $m * $m }>($e.junks("a.Si", $m * $m))),
            TemporaryHPMatrixBuffer::from(arr::<_, { $n * $m }>($e.junks("a.HP", $n * $m))),
            TemporaryPHTMatrixBuffer::from(arr::<_, { $n * $m }>($e.junks("a.PHt", $n * $m))),
            TemporaryKHPMatrixBuffer::from(arr::<_, { $n * $n }>($e.junks("a.KHP", $n * $n))),
        );
        $body
    }};
    // arrays longer than the matrices (matrix buffers only)
    (arraysx $e:ident $v:ident $steps:expr, $n:literal $m:literal $c:literal; $builder:ident $obs:ident, |$f:ident, $cc:ident, $o:ident| $body:expr) => {{
        #[allow(unused_mut)]
        let mut $f = $builder::new::<$n, _>(
            StateTransitionMatrixMutBuffer::from(arr::<_, { $n * $n + 1 }>($e.junks("l.A", $n * $n + 1))),
            StateVectorBuffer::from(arr::<_, $n>($e.junks("l.x", $n))),
            EstimateCovarianceMatrixBuffer::from(arr::<_, { $n * $n + 2 }>($e.junks("l.P", $n * $n + 2))),
            DirectProcessNoiseCovarianceMatrixMutBuffer::from(arr::<_, { $n * $n + 3 }>($e.junks("l.Q", $n * $n + 3))),
            PredictedStateEstimateVectorBuffer::from(arr::<_, $n>($e.junks("l.px", $n))),
            TemporaryStateMatrixBuffer::from(arr::<_, { $n * $n + 4 }>($e.junks("l.tP", $n * $n + 4))),
        );
        #[allow(unused_mut, unused_variables)]
        let mut $cc = ControlBuilder::new::<$n, $c, _>(
            ControlMatrixMutBuffer::from(arr::<_, { $n * $c + 1 }>($e.junks("l.B", $n * $c + 1))),
            ControlVectorBuffer::from(arr::<_, $c>($e.junks("l.u", $c))),
            ControlProcessNoiseCovarianceMatrixMutBuffer::from(arr::<_, { $c * $c + 2 }>($e.junks("l.Qc", $c * $c + 2))),
            TemporaryBQMatrixBuffer::from(arr::<_, { $n * $c + 3 }>($e.junks("l.BQ", $n * $c + 3))),
        );
        #[allow(unused_mut)]
        let mut $o = $obs::new::<$n, $m, _>(
            ObservationMatrixMutBuffer::from(arr::<_, { $n * $m + 1 }>($e.junks("l.H", $n * $m + 1))),
            MeasurementVectorBuffer::from(arr::<_, $m>($e.junks("l.z", $m))),
            MeasurementNoiseCovarianceMatrixBuffer::from(arr::<_, { $m * $m + 2 }>($e.junks("l.R", $m * $m + 2))),
            InnovationVectorBuffer::from(arr::<_, $m>($e.junks("l.y", $m))),
            InnovationCovarianceMatrixBuffer::from(arr::<_, { $m * $m + 3 }>($e.junks("l.S", $m * $m + 3))),
            KalmanGainMatrixBuffer::from(arr::<_, { $n * $m + 4 }>($e.junks("l.K", $n * $m + 4))),
            TemporaryResidualCovarianceInvertedMatrixBuffer::from(arr::<_, { $m * $m + 5 }>($e.junks("l.Si", $m * $m + 5))),
            TemporaryHPMatrixBuffer::from(arr::<_, { $n * $m + 6 }>($e.junks("l.HP", $n * $m + 6))),
            TemporaryPHTMatrixBuffer::from(arr::<_, { $n * $m + 7 }>($e.junks("l.PHt", $n * $m + 7))),
            TemporaryKHPMatrixBuffer::from(arr::<_, { $n * $n + 8 }>($e.junks("l.KHP", $n * $n + 8))),
        );
        $body
    }};
    // slices longer than the matrices: the memory behind is checked
    (slices $e:ident $v:ident $steps:expr, $n:literal $m:literal $c:literal; $builder:ident $obs:ident, |$f:ident, $cc:ident, $o:ident| $body:expr) => {{
        let mut fm = FMem::new($e, "s.", $n, 7);
        let mut cm = CMem::new($e, "s.", $n, $c, 6);
        let mut om = OMem::new($e, "s.", $n, $m, 8);
        let tails = |fm: &FMem<_>, cm: &CMem<_>, om: &OMem<_>| {
            let mut t = vec![];
            for (n, m, k) in fm.all($n).into_iter().chain(cm.all($n, $c)).chain(om.all($n, $m)) {
                t.push((n.to_string(), m[k..].to_vec()));
            }
            t
        };
        let t0 = tails(&fm, &cm, &om);
        let out = {
            #[allow(unused_mut)]
            let mut $f = filter_over!($builder, fm, $n);
            #[allow(unused_mut, unused_variables)]
            let mut $cc = control_over!(cm, $n, $c);
            #[allow(unused_mut)]
            let mut $o = observation_over!($obs, om, $n, $m);
            $body
        };
        let t1 = tails(&fm, &cm, &om);
        for ((n, a), (_, b)) in t1.iter().zip(&t0) {
            $e.eq_all(&format!("memory behind {n}"), a, b);
        }
        // the borrowed memory holds the final estimate and the untouched model
        let last = |w: &str| -> Vec<_> { out.iter().rev().find(|(n, _): &&(String, Vec<_>)| n.starts_with(w)).unwrap().1.clone() };
        $e.eq_all("x in the borrowed memory", &fm.x[..$n], &last("x after"));
        $e.eq_all("P in the borrowed memory", &fm.P[..$n * $n], &last("P after"));
        $e.eq_all("A in the borrowed memory", &fm.A[..$n * $n], &$v.a);
        $e.eq_all("H in the borrowed memory", &om.H[..$n * $m], &$v.h);
        $e.eq_all("R in the borrowed memory", &om.R[..$m * $m], &$v.r);
        $e.eq_all("z in the borrowed memory", &om.z[..$m], &$v.z);
        out
    }};
    // row-major wrappers around slices
    (wrapped $e:ident $v:ident $steps:expr, $n:literal $m:literal $c:literal; $builder:ident $obs:ident, |$f:ident, $cc:ident, $o:ident| $body:expr) => {{
        let mut fm = FMem::new($e, "w.", $n, 6);
        let mut cm = CMem::new($e, "w.", $n, $c, 5);
        let mut om = OMem::new($e, "w.", $n, $m, 7);
        #[allow(unused_mut)]
        let mut $f = $builder::new::<$n, _>(
            wrap!(StateTransitionMatrixMutBuffer fm.A, $n, $n), wrap!(StateVectorBuffer fm.x, $n, 1), wrap!(EstimateCovarianceMatrixBuffer fm.P, $n, $n),
            wrap!(DirectProcessNoiseCovarianceMatrixMutBuffer fm.Q, $n, $n), wrap!(PredictedStateEstimateVectorBuffer fm.px, $n, 1), wrap!(TemporaryStateMatrixBuffer fm.tP, $n, $n),
        );
        #[allow(unused_mut, unused_variables)]
        let mut $cc = ControlBuilder::new::<$n, $c, _>(
            wrap!(ControlMatrixMutBuffer cm.B, $n, $c), wrap!(ControlVectorBuffer cm.u, $c, 1), wrap!(ControlProcessNoiseCovarianceMatrixMutBuffer cm.Q, $c, $c), wrap!(TemporaryBQMatrixBuffer cm.tBQ, $n, $c),
        );
        #[allow(unused_mut)]
        let mut $o = $obs::new::<$n, $m, _>(
            wrap!(ObservationMatrixMutBuffer om.H, $m, $n), wrap!(MeasurementVectorBuffer om.z, $m, 1), wrap!(MeasurementNoiseCovarianceMatrixBuffer om.R, $m, $m), wrap!(InnovationVectorBuffer om.y, $m, 1),
            wrap!(InnovationCovarianceMatrixBuffer om.S, $m, $m), wrap!(KalmanGainMatrixBuffer om.K, $n, $m), wrap!(TemporaryResidualCovarianceInvertedMatrixBuffer om.Si, $m, $m),
            wrap!(TemporaryHPMatrixBuffer om.HP, $m, $n), wrap!(TemporaryPHTMatrixBuffer om.PHt, $n, $m), wrap!(TemporaryKHPMatrixBuffer om.KHP, $n, $n),
        );
        $body
    }};
}

macro_rules! shared_observation {
    ($b:ident, $om:ident, $table:ident, $n:literal, $m:literal, $oh:literal) => {
        $b::new::<$n, $m, _>(
            ObservationMatrixBuffer::from(&$table[$oh..]), MeasurementVectorBuffer::from(&mut $om.z[..]), MeasurementNoiseCovarianceMatrixBuffer::from(&mut $om.R[..]),
            InnovationVectorBuffer::from(&mut $om.y[..]), InnovationCovarianceMatrixBuffer::from(&mut $om.S[..]), KalmanGainMatrixBuffer::from(&mut $om.K[..]),
            TemporaryResidualCovarianceInvertedMatrixBuffer::from(&mut $om.Si[..]), TemporaryHPMatrixBuffer::from(&mut $om.HP[..]),
            TemporaryPHTMatrixBuffer::from(&mut $om.PHt[..]), TemporaryKHPMatrixBuffer::from(&mut $om.KHP[..]))
    };
}
/// a filter whose model is read-only memory, its parts overlapping views into one table
macro_rules! shared_model {
    ($v:ident; $($n:literal $m:literal $c:literal $steps:literal $oh:literal $ob:literal),* $(,)?) => {$(
        scen!($v, core, concat!("regular filter with the model in one read-only table = arrays n=", $n, " m=", $m, " c=", $c, " ", $steps, " offsets ", $oh, " ", $ob), |e| {
            let mut vals = values(e, $n, $m, $c);
            let table = shared_table(e, &mut vals, $n, $m, $c, $oh, $ob);
            let want = filters_of_kind!(arrays e vals $steps, $n $m $c; RegularKalmanBuilder RegularObservationBuilder, |f, c, o| reg!(f c o vals $steps));
            let (noise, same) = (vals.q.clone(), $n == $c);
            let cnoise = if same { &noise } else { &vals.qc };
            let (mut fm, mut cm, mut om) = (FMem::new(e, "r.", $n, 3), CMem::new(e, "r.", $n, $c, 2), OMem::new(e, "r.", $n, $m, 1));
            let mut f = RegularKalmanBuilder::new::<$n, _>(
                StateTransitionMatrixBuffer::from(&table[..]), StateVectorBuffer::from(&mut fm.x[..]), EstimateCovarianceMatrixBuffer::from(&mut fm.P[..]),
                DirectProcessNoiseCovarianceMatrixBuffer::from(&noise[..]), PredictedStateEstimateVectorBuffer::from(&mut fm.px[..]), TemporaryStateMatrixBuffer::from(&mut fm.tP[..]));
            let mut c = ControlBuilder::new::<$n, $c, _>(
                ControlMatrixBuffer::from(&table[$ob..]), ControlVectorBuffer::from(&mut cm.u[..]),
                ControlProcessNoiseCovarianceMatrixBuffer::from(&cnoise[..]), TemporaryBQMatrixBuffer::from(&mut cm.tBQ[..]));
            let mut o = shared_observation!(RegularObservationBuilder, om, table, $n, $m, $oh);
            ld!(f.state_vector_mut(), vals.x); ld!(f.estimate_covariance_mut(), vals.p);
            ld!(c.control_vector_mut(), vals.u); ld!(o.measurement_vector_mut(), vals.z); ld!(o.measurement_noise_covariance_mut(), vals.r);
            let before = table.clone();
            let mut got = vec![];
            for s in $steps.chars() {
                match s {
                    'p' => f.predict(),
                    't' => f.predict_tuned(vals.lam),
                    'c' => f.control(&mut c),
                    _ => f.correct(&mut o),
                }
                got.push((format!("x after {s}"), f.state_vector().as_slice()[..$n].to_vec()));
                got.push((format!("P after {s}"), f.estimate_covariance().as_slice()[..$n * $n].to_vec()));
            }
            got.push(("A".to_string(), rd!(f.state_transition(), $n * $n)));
            got.push(("H".to_string(), rd!(o.observation_matrix(), $n * $m)));
            got.push(("B".to_string(), rd!(c.control_matrix(), $n * $c)));
            compare(e, &got, &want);
            e.eq_all("process noise", &rd!(f.direct_process_noise(), $n * $n), &vals.q);
            e.eq_all("control noise", &rd!(c.process_noise_covariance(), $c * $c), &vals.qc);
            e.eq_all("the table", &table, &before);
        });
        scen!($v, core, concat!("extended filter with the model in one read-only table = arrays n=", $n, " m=", $m, " ", $steps, " offset ", $oh), |e| {
            let steps = $steps.replace("c", "");
            let mut vals = values(e, $n, $m, $c);
            let table = shared_table(e, &mut vals, $n, $m, $c, $oh, $ob);
            let want = filters_of_kind!(arrays e vals steps, $n $m $c; ExtendedKalmanBuilder ExtendedObservationBuilder, |f, c, o| ext!(f o vals steps, $n $m));
            let noise = vals.q.clone();
            let (mut fm, mut om) = (FMem::new(e, "r.", $n, 3), OMem::new(e, "r.", $n, $m, 1));
            let mut f = ExtendedKalmanBuilder::new::<$n, _>(
                StateTransitionMatrixBuffer::from(&table[..]), StateVectorBuffer::from(&mut fm.x[..]), EstimateCovarianceMatrixBuffer::from(&mut fm.P[..]),
                DirectProcessNoiseCovarianceMatrixBuffer::from(&noise[..]), PredictedStateEstimateVectorBuffer::from(&mut fm.px[..]), TemporaryStateMatrixBuffer::from(&mut fm.tP[..]));
            let mut o = shared_observation!(ExtendedObservationBuilder, om, table, $n, $m, $oh);
            ld!(f.state_vector_mut(), vals.x); ld!(f.estimate_covariance_mut(), vals.p);
            ld!(o.measurement_vector_mut(), vals.z); ld!(o.measurement_noise_covariance_mut(), vals.r);
            let mut got = vec![];
            for s in steps.chars() {
                match s {
                    'p' => f.predict_nonlinear(|_, y| set_col::<$n, _, _>(y, &vals.fx)),
                    't' => f.predict_tuned_nonlinear(vals.lam, |_, y| set_col::<$n, _, _>(y, &vals.fx)),
                    _ => f.correct_nonlinear(&mut o, |_, y| set_col::<$m, _, _>(y, &vals.hx)),
                }
                got.push((format!("x after {s}"), f.state_vector().as_slice()[..$n].to_vec()));
                got.push((format!("P after {s}"), f.estimate_covariance().as_slice()[..$n * $n].to_vec()));
            }
            compare(e, &got, &want);
            e.eq_all("Jacobian", &rd!(f.state_transition_jacobian(), $n * $n), &vals.a);
            e.eq_all("observation Jacobian", &rd!(o.observation_jacobian_matrix(), $n * $m), &vals.h);
        });
    )*};
}
fn shared_table<E: Env>(e: &mut E, v: &mut FV<E::T>, n: usize, m: usize, c: usize, oh: usize, ob: usize) -> Vec<E::T> {
    let len = (n * n).max(oh + m * n).max(ob + n * c);
    let t = e.mat("table", 1, len);
    v.a = t[..n * n].to_vec();
    v.h = t[oh..oh + m * n].to_vec();
    v.b = t[ob..ob + n * c].to_vec();
    if n == c {
        v.qc = v.q.clone();
    }
    t
}

#[cfg(feature = "c19")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($k:ident),*) => {$(
            scen!(v, core, concat!("matrix operations: ", stringify!($k), " = array"), |e| {
                let l = e.lower("L", 3);
                let vals = Vals(e.mat("a", 3, 4), e.mat("b", 4, 3), e.mat("c", 3, 3), e.mat("d", 3, 4), crate::spec::llt(&l, 3), e.mat("t", 3, 3), e.vec("x", 4), e.vec("y", 3));
                let want = run_kind!(array e vals);
                let got = run_kind!($k e vals);
                compare(e, &got, &want);
            });
        )*};
    }
    s!(arrayx, boxed, slice, rowmajor);
    macro_rules! f {
        ($($n:literal $m:literal $c:literal $steps:literal),* $(,)?) => {$(
            f!(@ arraysx $n $m $c $steps);
            f!(@ slices $n $m $c $steps);
            f!(@ wrapped $n $m $c $steps);
            f!(@ boxed $n $m $c $steps);
        )*};
        (@ boxed $n:literal $m:literal $c:literal $steps:literal) => {
            scen!(v, core, concat!("regular filter boxed = arrays n=", $n, " m=", $m, " c=", $c, " ", $steps), |e| {
                let vals = values(e, $n, $m, $c);
                let want = filters_of_kind!(arrays e vals $steps, $n $m $c; RegularKalmanBuilder RegularObservationBuilder, |f, c, o| reg!(f c o vals $steps));
                let b = same_t(&vals, minikalman::regular::builder::KalmanFilterBuilder::<$n, _>::default());
                let (mut f, mut c, mut o) = (b.build(), b.controls().build::<$c>(), b.observations().build::<$m>());
                let got = reg!(f c o vals $steps);
                compare(e, &got, &want);
            });
            scen!(v, core, concat!("extended filter boxed = arrays n=", $n, " m=", $m, " ", $steps), |e| {
                let steps = $steps.replace("c", "");
                let vals = values(e, $n, $m, $c);
                let want = filters_of_kind!(arrays e vals steps, $n $m $c; ExtendedKalmanBuilder ExtendedObservationBuilder, |f, c, o| ext!(f o vals steps, $n $m));
                let b = same_t_x(&vals, minikalman::extended::builder::KalmanFilterBuilder::<$n, _>::default());
                let (mut f, mut o) = (b.build(), b.observations().build::<$m>());
                let got = ext!(f o vals steps, $n $m);
                compare(e, &got, &want);
            });
        };
        (@ $k:ident $n:literal $m:literal $c:literal $steps:literal) => {
            scen!(v, core, concat!("regular filter ", stringify!($k), " = arrays n=", $n, " m=", $m, " c=", $c, " ", $steps), |e| {
                let vals = values(e, $n, $m, $c);
                let want = filters_of_kind!(arrays e vals $steps, $n $m $c; RegularKalmanBuilder RegularObservationBuilder, |f, c, o| reg!(f c o vals $steps));
                let got = filters_of_kind!($k e vals $steps, $n $m $c; RegularKalmanBuilder RegularObservationBuilder, |f, c, o| reg!(f c o vals $steps));
                compare(e, &got, &want);
            });
            scen!(v, core, concat!("extended filter ", stringify!($k), " = arrays n=", $n, " m=", $m, " ", $steps), |e| {
                let steps = $steps.replace("c", "");
                let vals = values(e, $n, $m, $c);
                let want = filters_of_kind!(arrays e vals steps, $n $m $c; ExtendedKalmanBuilder ExtendedObservationBuilder, |f, c, o| ext!(f o vals steps, $n $m));
                let got = filters_of_kind!($k e vals steps, $n $m $c; ExtendedKalmanBuilder ExtendedObservationBuilder, |f, c, o| ext!(f o vals steps, $n $m));
                compare(e, &got, &want);
            });
        };
    }
    shared_model!(v; 1 1 1 "pcot" 0 0, 2 1 2 "pcto" 0 0, 2 2 1 "pco" 0 0, 2 2 2 "oct" 0 0, 3 1 3 "pcot" 0 0, 2 1 1 "opco" 2 1, 3 2 1 "cop" 3 5, 3 1 3 "octp" 0 9, 4 1 2 "pcot" 16 4);
    f!(1 1 1 "pco", 2 1 2 "pco", 2 1 1 "tcpo", 3 2 1 "cop", 1 2 3 "otc", 3 1 2 "topc");
    f!(2 2 2 "opcot", 4 2 3 "pcot", 2 3 1 "opo", 3 3 2 "cop");
    v
}
fn same_t<const N: usize, T>(_: &FV<T>, b: minikalman::regular::builder::KalmanFilterBuilder<N, T>) -> minikalman::regular::builder::KalmanFilterBuilder<N, T> {
    b
}
fn same_t_x<const N: usize, T>(_: &FV<T>, b: minikalman::extended::builder::KalmanFilterBuilder<N, T>) -> minikalman::extended::builder::KalmanFilterBuilder<N, T> {
    b
}
