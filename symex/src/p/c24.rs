//! C24: 16.16 fixed-point arithmetic.  The real generic code, with every product, quotient and
//! root rounded to the grid (any rounding by less than one unit) and every sum exact: nothing
//! overflows and the result stays within the accumulated rounding of the textbook formula.
use crate::env::Env;
use crate::fx::FxEnv;
use crate::kf::*;
use crate::mx::*;
use minikalman::regular::*;
use minikalman::extended::*;
use crate::{filter_arrays, mx, scen, spec};
use num_traits::{One, Zero};

/// the terms of a textbook sum of products, each within the limit
fn terms<E: FxEnv>(e: &mut E, a: &[E::T], b: &[E::T], r: usize, k: usize, c: usize, lim: i64) {
    for i in 0..r {
        for j in 0..c {
            for l in 0..k {
                e.given(a[i * k + l] * b[l * c + j], lim, 1);
            }
        }
    }
}
fn close<E: FxEnv>(e: &mut E, name: &str, got: &[E::T], want: &[E::T], tol: &[E::T]) {
    for (i, w) in want.iter().enumerate() {
        e.within(&format!("{name}[{i}]"), got[i], *w, tol[i]);
    }
}

pub fn products<E: FxEnv, const R: usize, const K: usize, const U: usize, A, B, BT, C>(e: &mut E, a: &A, b: &B, bt: &BT, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    B: Matrix<K, U, E::T>,
    BT: Matrix<U, K, E::T>,
    C: MatrixMut<R, U, E::T>,
{
    let lim = 8192 / K as i64;
    let (av, bv, btv) = (a.as_slice()[..R * K].to_vec(), b.as_slice()[..K * U].to_vec(), bt.as_slice()[..U * K].to_vec());
    let bt_t = spec::tr(&btv, U, K);
    terms(e, &av, &bv, R, K, U, lim);
    terms(e, &av, &bt_t, R, K, U, lim);
    let (ab, abt) = (spec::mul(&av, &bv, R, K, U), spec::mul(&av, &bt_t, R, K, U));
    let k1 = e.units(2 * K as i64);
    let tol = vec![k1; R * U];
    let set = |e: &mut E, c: &mut C, op: &str| {
        let n = c.as_slice().len();
        let v = e.junks(op, n);
        for x in &v {
            e.given(*x, 4096, 1);
        }
        c.as_mut_slice().copy_from_slice(&v);
        v[..R * U].to_vec()
    };
    set(e, c, "mult");
    e.real(|| a.mult(b, c));
    close(e, "mult", c.as_slice(), &ab, &tol);
    set(e, c, "mult_buffered");
    let mut aux = e.junks("aux", K);
    e.real(|| a.mult_buffered(b, c, &mut aux));
    close(e, "mult_buffered", c.as_slice(), &ab, &tol);
    set(e, c, "mult_transb");
    e.real(|| a.mult_transb(bt, c));
    close(e, "mult_transb", c.as_slice(), &abt, &tol);
    let c0 = set(e, c, "multadd_transb");
    e.real(|| a.multadd_transb(bt, c));
    close(e, "multadd_transb", c.as_slice(), &spec::add(&c0, &abt), &tol);
    set(e, c, "multscale_transb");
    let s = e.var("scale");
    let want = spec::scale(&abt, s);
    for w in &want {
        e.given(*w, 8192, 1);
    }
    let tol = (e.abs(s) + E::T::one()) * k1;
    e.real(|| a.multscale_transb(bt, s, c));
    close(e, "multscale_transb", c.as_slice(), &want, &vec![tol; R * U]);
}

pub fn vectors<E: FxEnv, const R: usize, const K: usize, A, X, C>(e: &mut E, a: &A, x: &X, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    X: Matrix<K, 1, E::T>,
    C: MatrixMut<R, 1, E::T>,
{
    let (av, xv) = (a.as_slice()[..R * K].to_vec(), x.as_slice()[..K].to_vec());
    terms(e, &av, &xv, R, K, 1, 8192 / K as i64);
    let ax = spec::mul(&av, &xv, R, K, 1);
    let tol = vec![e.units(2 * K as i64); R];
    e.real(|| a.mult_rowvector(x, c));
    close(e, "mult_rowvector", c.as_slice(), &ax, &tol);
    let c0 = e.junks("multadd_rowvector", c.as_slice().len());
    for v in &c0 {
        e.given(*v, 4096, 1);
    }
    c.as_mut_slice().copy_from_slice(&c0);
    e.real(|| a.multadd_rowvector(x, c));
    close(e, "multadd_rowvector", c.as_slice(), &spec::add(&c0[..R], &ax), &tol);
}

pub fn sums<E: FxEnv, const R: usize, const K: usize, A, B, C>(e: &mut E, a: &A, b: &mut B, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    B: MatrixMut<R, K, E::T>,
    C: MatrixMut<R, K, E::T>,
{
    let (a0, b0) = (a.as_slice()[..R * K].to_vec(), b.as_slice()[..R * K].to_vec());
    for (x, y) in a0.iter().zip(&b0) {
        e.given(*x, 16383, 1);
        e.given(*y, 16383, 1);
    }
    let tol = vec![e.units(0); R * K];
    e.real(|| a.sub(b, c));
    close(e, "sub", c.as_slice(), &spec::sub(&a0, &b0), &tol);
    e.real(|| a.add_inplace_b(b));
    close(e, "add_inplace_b", b.as_slice(), &spec::add(&a0, &b0), &tol);
    b.as_mut_slice()[..R * K].copy_from_slice(&b0);
    e.real(|| a.sub_inplace_b(b));
    close(e, "sub_inplace_b", b.as_slice(), &spec::sub(&a0, &b0), &tol);
    b.as_mut_slice()[..R * K].copy_from_slice(&b0);
    e.real(|| b.add_inplace_a(a));
    close(e, "add_inplace_a", b.as_slice(), &spec::add(&a0, &b0), &tol);
    b.as_mut_slice()[..R * K].copy_from_slice(&b0);
    e.real(|| b.sub_inplace_a(a));
    close(e, "sub_inplace_a", b.as_slice(), &spec::sub(&b0, &a0), &tol);
}

/// A P A^T: every product of the textbook evaluation (in either order) within the limits
fn sandwich_given<E: FxEnv>(e: &mut E, a: &[E::T], p: &[E::T], r: usize, n: usize) {
    let lim = 4096 / (n * n) as i64;
    for i in 0..r {
        for j in 0..r {
            for k in 0..n {
                for l in 0..n {
                    e.given(a[i * n + k] * p[k * n + l] * a[j * n + l], lim, 1);
                }
            }
        }
        for k in 0..n {
            for l in 0..n {
                e.given(a[i * n + k] * p[k * n + l], lim, 1);
                e.given(p[l * n + k] * a[i * n + k], lim, 1);
            }
        }
    }
}
/// rounding of the two stages: 2 u n (1 + sum_k |a_ik| + sum_k |a_jk|)
fn sandwich_tol<E: FxEnv>(e: &mut E, a: &[E::T], r: usize, n: usize) -> Vec<E::T> {
    let mut out = vec![];
    let abs: Vec<E::T> = a.iter().map(|x| e.abs(*x)).collect();
    let u = e.units(2 * n as i64);
    for i in 0..r {
        for j in 0..r {
            let mut s = E::T::one();
            for k in 0..n {
                s = s + abs[i * n + k] + abs[j * n + k];
            }
            out.push(s * u);
        }
    }
    out
}

pub fn predict<const N: usize, const NN: usize, E: FxEnv>(e: &mut E, extended: bool) {
    let (a, x, p, q) = (e.mat("A", N, N), e.vec("x", N), e.symmetric("P", N), e.symmetric("Q", N));
    terms(e, &a, &x, N, N, 1, 8192 / N as i64);
    sandwich_given(e, &a, &p, N, N);
    for v in &q {
        e.given(*v, 4096, 1);
    }
    let want_x = spec::mul(&a, &x, N, N, 1);
    let want_p = spec::add(&spec::sandwich(&a, &p, N, N), &q);
    let tol_p = sandwich_tol(e, &a, N, N);
    let tol_x = vec![e.units(2 * N as i64); N];
    macro_rules! go {
        ($f:ident, $call:expr, $x:expr, $tx:expr) => {{
            $f.state_vector_mut().as_mut_slice()[..N].copy_from_slice(&x);
            $f.estimate_covariance_mut().as_mut_slice()[..NN].copy_from_slice(&p);
            $f.direct_process_noise_mut().as_mut_slice()[..NN].copy_from_slice(&q);
            e.real(|| $call);
            close(e, "x", $f.state_vector().as_slice(), &$x, &$tx);
            close(e, "P", $f.estimate_covariance().as_slice(), &want_p, &tol_p);
        }};
    }
    if extended {
        let mut f = filter_arrays!(ExtendedKalmanBuilder, e, "", N, NN);
        f.state_transition_jacobian_mut().as_mut_slice()[..NN].copy_from_slice(&a);
        go!(f, f.predict_nonlinear(|_cur, _next| {}), Vec::<E::T>::new(), Vec::<E::T>::new());
    } else {
        let mut f = filter_arrays!(RegularKalmanBuilder, e, "", N, NN);
        f.state_transition_mut().as_mut_slice()[..NN].copy_from_slice(&a);
        go!(f, f.predict(), want_x, tol_x);
    }
}

/// positive definite with pivots comfortably above zero: the factor reproduces the matrix
pub fn cholesky<E: FxEnv, const N: usize, A: MatrixMut<N, N, E::T>>(e: &mut E, m: &mut A, diagonal: bool) {
    let a = m.as_slice()[..N * N].to_vec();
    for i in 0..N {
        // larger dense matrices: clearly dominant diagonals
        if N >= 3 && !diagonal {
            e.given_min(a[i * N + i], 4, 1);
        } else {
            e.given_min(a[i * N + i], 1, 64);
        }
        e.given(a[i * N + i], 8192, 1);
        for j in 0..i {
            e.given(a[i * N + j], 1, 1);
        }
    }
    if N == 2 && !diagonal {
        // second pivot
        e.given_min(a[N + 1] - a[N] * a[N] / a[0], 1, 8);
    }
    let ok = e.real(|| m.cholesky_decompose_lower());
    e.ok("succeeds", ok);
    let l: Vec<E::T> = (0..N * N).map(|i| e.rounded(&format!("L{i}"), m.as_slice()[i])).collect();
    for i in 0..N {
        for j in 0..=i {
            let mut s = E::T::zero();
            for k in 0..=j {
                s = s + l[i * N + k] * l[j * N + k];
            }
            // roundings: of the products, of the root or of reciprocal and product
            let (ai, lj, li) = (e.abs(a[i * N + j]), l[j * N + j], e.abs(l[i * N + j]));
            let t = e.units(2) * (E::T::from_usize(j + 1).unwrap() + lj * (ai + li + E::T::from_usize(2).unwrap()));
            let zero = e.units(0);
            e.within(&format!("L[{i},{j}]"), m.as_slice()[i * N + j], l[i * N + j], zero);
            e.small(&format!("(L L^T - A)[{i},{j}]"), s - a[i * N + j], t);
        }
    }
}
use num_traits::FromPrimitive;


/// inverse from a given factor
pub fn invert<E: FxEnv, const N: usize, L, I>(e: &mut E, l: &L, inv: &mut I)
where
    L: MatrixMut<N, N, E::T>,
    I: MatrixMut<N, N, E::T>,
{
    let lv = l.as_slice()[..N * N].to_vec();
    for i in 0..N {
        e.given_min(lv[i * N + i], 1, if N == 1 { 4 } else { 2 });
        e.given(lv[i * N + i], 64, 1);
        for j in 0..i {
            e.given(lv[i * N + j], 1, 1);
        }
    }
    e.real(|| l.invert_l_cholesky(inv));
    let want = spec::lltinv(&lv, N);
    let tol = e.units([16, 512, 16384][N - 1]);
    for i in 0..N * N {
        e.within(&format!("inverse[{i}]"), inv.as_slice()[i], want[i], tol);
    }
}

/// tuned prediction: lambda fixed (in units) or, without a value, any in [1/2, 2]
pub fn tuned<const N: usize, const NN: usize, E: FxEnv>(e: &mut E, extended: bool, lambda: Option<i64>) {
    let (a, x, p, q) = (e.mat("A", N, N), e.vec("x", N), e.symmetric("P", N), e.symmetric("Q", N));
    terms(e, &a, &x, N, N, 1, 8192 / N as i64);
    // room for the scaling
    let lim = 512 / (N * N) as i64;
    sandwich_given(e, &a, &p, N, N);
    for v in &p {
        e.given(*v, lim, 1);
    }
    for v in &a {
        e.given(*v, 64, 1);
    }
    for i in 0..N {
        for j in 0..N {
            for k in 0..N {
                for l in 0..N {
                    e.given(a[i * N + k] * p[k * N + l] * a[j * N + l], lim, 1);
                }
            }
        }
    }
    for v in &q {
        e.given(*v, 4096, 1);
    }
    let lam = match lambda {
        Some(k) => e.units(k),
        None => {
            let l = e.pos("lambda");
            e.given(l, 2, 1);
            e.given_min(l, 1, 2);
            l
        }
    };
    let l2 = lam * lam;
    let apa = spec::sandwich(&a, &p, N, N);
    for v in &apa {
        e.given(*v, if lambda.is_some() { 64 } else { 1024 }, 1);
    }
    let rounding = sandwich_tol(e, &a, N, N);
    let want_x = spec::mul(&a, &x, N, N, 1);
    let tol_x = vec![e.units(2 * N as i64); N];
    let u = e.units(16);
    let three = E::T::from_usize(3).unwrap();
    macro_rules! go {
        ($f:ident, $call:expr, $x:expr) => {{
            $f.state_vector_mut().as_mut_slice()[..N].copy_from_slice(&x);
            $f.estimate_covariance_mut().as_mut_slice()[..NN].copy_from_slice(&p);
            $f.direct_process_noise_mut().as_mut_slice()[..NN].copy_from_slice(&q);
            e.real(|| $call);
            if $x {
                close(e, "x", $f.state_vector().as_slice(), &want_x, &tol_x);
            }
            $f.estimate_covariance().as_slice()[..NN].to_vec()
        }};
    }
    let p1 = if extended {
        let mut f = filter_arrays!(ExtendedKalmanBuilder, e, "", N, NN);
        f.state_transition_jacobian_mut().as_mut_slice()[..NN].copy_from_slice(&a);
        go!(f, f.predict_tuned_nonlinear(lam, |_cur, _next| {}), false)
    } else {
        let mut f = filter_arrays!(RegularKalmanBuilder, e, "", N, NN);
        f.state_transition_mut().as_mut_slice()[..NN].copy_from_slice(&a);
        go!(f, f.predict_tuned(lam), true)
    };
    if let Some(k) = lambda {
        let s = e.num(65536 * 65536) / e.num(k * k);
        for i in 0..NN {
            let t = rounding[i] * (s + E::T::one()) + e.units(1100);
            e.within(&format!("P[{i}]"), p1[i], apa[i] * s + q[i], t);
        }
        return;
    }
    for i in 0..NN {
        let got = e.rounded(&format!("P{i}"), p1[i]);
        let zero = e.units(0);
        e.within(&format!("P[{i}]"), p1[i], got, zero);
        // (P' - Q) lambda^2 against the exact A P A^T
        let t = rounding[i] * three + u * (e.abs(apa[i]) + l2);
        e.small(&format!("P[{i}] after scaling back"), (got - q[i]) * l2 - apa[i], t);
    }
}

/// x + B u, P + B Q B^T
pub fn control<const N: usize, const NN: usize, const C: usize, const NC: usize, const CC: usize, E: FxEnv>(e: &mut E, times: usize) {
    let (b, u, q, x, p) = (e.mat("B", N, C), e.vec("u", C), e.symmetric("Qc", C), e.vec("x", N), e.symmetric("P", N));
    terms(e, &b, &u, N, C, 1, 4096 / C as i64);
    sandwich_given(e, &b, &q, N, C);
    for v in x.iter().chain(&p) {
        e.given(*v, 4096, 1);
    }
    let bu = spec::mul(&b, &u, N, C, 1);
    let bqb = spec::sandwich(&b, &q, N, C);
    let tol = sandwich_tol(e, &b, N, C);
    let ux = e.units(2 * C as i64);
    let mut f = filter_arrays!(RegularKalmanBuilder, e, "", N, NN);
    let mut c = crate::control_arrays!(e, "", N, C, NC, CC);
    f.state_vector_mut().as_mut_slice()[..N].copy_from_slice(&x);
    f.estimate_covariance_mut().as_mut_slice()[..NN].copy_from_slice(&p);
    c.control_matrix_mut().as_mut_slice()[..NC].copy_from_slice(&b);
    c.control_vector_mut().as_mut_slice()[..C].copy_from_slice(&u);
    c.process_noise_covariance_mut().as_mut_slice()[..CC].copy_from_slice(&q);
    let (mut wx, mut wp) = (x.clone(), p.clone());
    let (mut tx, mut tp) = (vec![E::T::zero(); N], vec![E::T::zero(); NN]);
    for s in 0..times {
        e.real(|| f.control(&mut c));
        wx = spec::add(&wx, &bu);
        wp = spec::add(&wp, &bqb);
        tx = spec::add(&tx, &vec![ux; N]);
        tp = spec::add(&tp, &tol);
        close(e, &format!("x after {s}"), f.state_vector().as_slice(), &wx, &tx);
        close(e, &format!("P after {s}"), f.estimate_covariance().as_slice(), &wp, &tp);
    }
}

/// one scalar measurement: every stage within its own rounding of the textbook formula
pub fn correct<const N: usize, const NN: usize, const M: usize, const MM: usize, const NM: usize, E: FxEnv>(e: &mut E, gain: bool, extended: bool) {
    let (x, p, mut h, r, z) = (e.vec("x", N), e.symmetric("P", N), e.mat("H", M, N), e.symmetric("R", M), e.vec("z", M));
    if gain {
        // the first state is measured directly
        h = (0..N).map(|i| if i == 0 { E::T::one() } else { E::T::zero() }).collect();
    }
    let n = N as i64;
    terms(e, &h, &x, M, N, 1, 2048 / n);
    e.given(z[0], 2048, 1);
    for v in &h {
        e.given(*v, 16, 1);
    }
    for v in &p {
        e.given(*v, 64, 1);
    }
    let pht = spec::mul(&p, &spec::tr(&h, M, N), N, N, M);
    let s_want = spec::add(&spec::sandwich(&h, &p, M, N), &r);
    for v in &pht {
        e.given(*v, 64, 1);
    }
    sandwich_given(e, &h, &p, M, N);
    e.given(r[0], 2048, 1);
    e.given_min(s_want[0], 1, 2);
    e.given(s_want[0], 4096, 1);
    let mut om = OMem::new(e, "", N, M, 0);
    macro_rules! go {
        ($fb:ident $ob:ident $hm:ident, |$f:ident, $o:ident| $call:expr) => {{
            let mut $f = filter_arrays!($fb, e, "", N, NN);
            let mut $o = crate::observation_over!($ob, om, N, M);
            $f.state_vector_mut().as_mut_slice()[..N].copy_from_slice(&x);
            $f.estimate_covariance_mut().as_mut_slice()[..NN].copy_from_slice(&p);
            $o.$hm().as_mut_slice()[..NM].copy_from_slice(&h);
            $o.measurement_noise_covariance_mut().as_mut_slice()[..MM].copy_from_slice(&r);
            $o.measurement_vector_mut().as_mut_slice()[..M].copy_from_slice(&z);
            e.real(|| $call);
            let x1: Vec<E::T> = $f.state_vector().as_slice()[..N].to_vec();
            let p1: Vec<E::T> = $f.estimate_covariance().as_slice()[..NN].to_vec();
            (x1, p1)
        }};
    }
    let mut hx = spec::mul(&h, &x, M, N, 1);
    let (x1, p1) = if extended {
        hx = e.vec("hx", M);
        for v in &hx {
            e.given(*v, 2048, 1);
        }
        go!(ExtendedKalmanBuilder ExtendedObservationBuilder observation_jacobian_matrix_mut, |f, o| f.correct_nonlinear(&mut o, |_x, y| y.as_mut_slice()[..M].copy_from_slice(&hx)))
    } else {
        go!(RegularKalmanBuilder RegularObservationBuilder observation_matrix_mut, |f, o| f.correct(&mut o))
    };
    // innovation and its covariance
    let (y, k) = (om.y, om.K);
    let y_want = spec::sub(&z, &hx);
    let tol_y = e.units(if extended { 0 } else { 2 * n });
    e.given(y_want[0], 63, 1);
    e.within("innovation", y[0], y_want[0], tol_y);
    // the gain, against the exact innovation covariance
    let kr: Vec<E::T> = k.iter().enumerate().map(|(i, v)| e.rounded(&format!("K{i}"), *v)).collect();
    let yr = e.rounded("y", y[0]);
    let one = e.units(2);
    for i in 0..N {
        let zero = e.units(0);
        e.within(&format!("K[{i}]"), k[i], kr[i], zero);
        if !gain {
            continue;
        }
        let (ai, hs) = (e.abs(pht[i]), s_want[0]);
        let ak = e.abs(kr[i]);
        // S itself carries the rounding tol_s, the root, its reciprocal and their products the rest
        let t = e.units(4) * (ai + E::T::one()) * (E::T::from_usize(8).unwrap() + hs * E::T::from_usize(4).unwrap()) + ak * sandwich_tol(e, &h, M, N)[0];
        e.small(&format!("K S - P H^T [{i}]"), kr[i] * hs - pht[i], t);
    }
    // state and covariance from the gain and innovation as computed
    for v in &kr {
        let lim = e.units(65536 * 132);
        e.small("bound of the gain", *v, lim);
    }
    for i in 0..N {
        e.given(x[i], 8192, 1);
        e.within(&format!("x[{i}]"), x1[i], x[i] + kr[i] * yr, one);
        for j in 0..N {
            let mut w = E::T::zero();
            for l in 0..N {
                w = w + h[l] * p[l * N + j];
            }
            let t = e.units(2 * n) * (E::T::one() + e.abs(kr[i]));
            e.within(&format!("P[{i},{j}]"), p1[i * N + j], p[i * N + j] - kr[i] * w, t);
        }
    }
}

#[cfg(feature = "c24")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($core:ident $ka:ident $kb:ident $kc:ident $r:literal $k:literal $u:literal),* $(,)?) => {$(
            scen!(v, $core, concat!("products ", stringify!($ka), "*", stringify!($kb), "->", stringify!($kc), " ", $r, "x", $k, "*", $k, "x", $u), |e| {
                let (va, vb, vbt, vc) = (e.mat("a", $r, $k), e.mat("b", $k, $u), e.mat("bt", $u, $k), e.mat("c", $r, $u));
                mx!($ka e, "a"; a, ma, $r, $k, va);
                mx!($kb e, "b"; b, mb, $k, $u, vb);
                mx!($kb e, "bt"; bt, mbt, $u, $k, vbt);
                mx!($kc e, "c"; c, mc, $r, $u, vc);
                products::<_, $r, $k, $u, _, _, _, _>(e, &a, &b, &bt, &mut c);
                let (vx, vy) = (e.vec("x", $k), e.vec("y", $r));
                mx!($kb e, "x"; x, mx, $k, 1, vx);
                mx!($kc e, "y"; y, my, $r, 1, vy);
                vectors::<_, $r, $k, _, _, _>(e, &a, &x, &mut y);
            });
            scen!(v, $core, concat!("sums ", stringify!($ka), " ", stringify!($kc), " ", $r, "x", $k), |e| {
                let (va, vb, vc) = (e.mat("a", $r, $k), e.mat("b", $r, $k), e.mat("c", $r, $k));
                mx!($ka e, "a"; a, ma, $r, $k, va);
                mx!($kc e, "b"; b, mb, $r, $k, vb);
                mx!($kc e, "c"; c, mc, $r, $k, vc);
                sums::<_, $r, $k, _, _, _>(e, &a, &mut b, &mut c);
            });
        )*};
    }
    s!(core array array array 1 1 1, core slice cref slice 2 2 2, core array cref array 2 3 2, core slice slice slice 3 3 3, core cref array slice 1 4 2, core slice slice slice 3 5 1, core array array array 4 4 4, core array array array 5 5 5, core slice slice slice 6 6 6, core slice slice slice 2 9 2);
    macro_rules! p {
        ($($core:ident $n:literal $nn:literal),*) => {$(
            scen!(v, $core, concat!("predict n=", $n), |e| predict::<$n, $nn, _>(e, false));
            scen!(v, $core, concat!("extended predict n=", $n), |e| predict::<$n, $nn, _>(e, true));
        )*};
    }
    p!(core 1 1, core 2 4, core 3 9, core 4 16);
    macro_rules! c {
        ($($core:ident $k:ident $n:literal $diag:literal),*) => {$(
            scen!(v, $core, concat!("cholesky ", stringify!($k), " n=", $n, " diagonal=", $diag), |e| {
                let mut a = e.symmetric("a", $n);
                if $diag {
                    for i in 0..$n * $n {
                        if i % ($n + 1) != 0 {
                            a[i] = e.units(0);
                        }
                    }
                }
                mx!($k e, "a"; a, _m, $n, $n, a);
                cholesky::<_, $n, _>(e, &mut a, $diag);
            });
        )*};
    }
    c!(core array 1 false, core slice 2 true, core array 2 false, core array 3 true, core slice 4 true, core boxed 6 true);
    scen!(v, core, "invert 1", |e| {
        let l = e.lower("L", 1);
        let t = e.mat("t", 1, 1);
        mx!(array e, "l"; a, _m, 1, 1, l);
        mx!(slice e, "t"; i, _n, 1, 1, t);
        invert::<_, 1, _, _>(e, &a, &mut i);
    });
    macro_rules! inv {
        ($core:ident $n:literal) => {
            scen!(v, $core, concat!("invert ", $n), |e| {
                let l = e.lower("L", $n);
                let t = e.mat("t", $n, $n);
                mx!(array e, "l"; a, _m, $n, $n, l);
                mx!(slice e, "t"; i, _n, $n, $n, t);
                invert::<_, $n, _, _>(e, &a, &mut i);
            });
        };
    }
    inv!(core 2);
    inv!(core 3);
    scen!(v, core, "correct 1 1", |e| correct::<1, 1, 1, 1, 1, _>(e, false, false));
    scen!(v, core, "correct 2 1", |e| correct::<2, 4, 1, 1, 2, _>(e, false, false));
    scen!(v, core, "gain 1 1", |e| correct::<1, 1, 1, 1, 1, _>(e, true, false));
    scen!(v, core, "gain 2 1", |e| correct::<2, 4, 1, 1, 2, _>(e, true, false));
    scen!(v, core, "extended correct 1 1", |e| correct::<1, 1, 1, 1, 1, _>(e, false, true));
    scen!(v, core, "extended correct 2 1", |e| correct::<2, 4, 1, 1, 2, _>(e, false, true));
    scen!(v, core, "extended correct 3 1", |e| correct::<3, 9, 1, 1, 3, _>(e, false, true));
    scen!(v, core, "correct 3 1", |e| correct::<3, 9, 1, 1, 3, _>(e, false, false));
    scen!(v, core, "extended gain 1 1", |e| correct::<1, 1, 1, 1, 1, _>(e, true, true));
    scen!(v, core, "extended gain 2 1", |e| correct::<2, 4, 1, 1, 2, _>(e, true, true));
    scen!(v, core, "gain 3 1", |e| correct::<3, 9, 1, 1, 3, _>(e, true, false));
    macro_rules! t {
        ($($n:literal $nn:literal $l:expr),*) => {$(
            scen!(v, core, format!("tuned predict n={} lambda={:?}", $n, $l), |e| tuned::<$n, $nn, _>(e, false, $l));
            scen!(v, core, format!("extended tuned predict n={} lambda={:?}", $n, $l), |e| tuned::<$n, $nn, _>(e, true, $l));
        )*};
    }
    t!(1 1 None::<i64>, 1 1 Some(49152i64), 2 4 Some(131072i64), 2 4 Some(65536i64), 3 9 Some(131072i64));
    macro_rules! u {
        ($($n:literal $nn:literal $c:literal $nc:literal $cc:literal $t:literal),*) => {$(
            scen!(v, core, concat!("control n=", $n, " c=", $c, " times=", $t), |e| control::<$n, $nn, $c, $nc, $cc, _>(e, $t));
        )*};
    }
    u!(1 1 1 1 1 2, 2 4 1 2 1 1, 1 1 2 2 4 1, 3 9 2 6 4 1, 2 4 3 6 9 1, 4 16 4 16 16 1, 1 1 1 1 1 4);
    #[cfg(feature = "thorough")]
    {
        s!(extra boxed boxed boxed 8 8 8, extra array slice array 2 16 3);
        t!(2 4 Some(32768i64), 2 4 Some(49152i64), 3 9 Some(65536i64));
        p!(extra 5 25, extra 6 36);
        c!(extra array 3 false);
    }
    v
}
