//! C29: accuracy.  The real generic code with every operation off by an unknown relative rounding:
//! the result deviates from the exact value of the textbook formula by no more than a few
//! roundings of the formula's own terms.
use crate::env::Env;
use crate::fl::FlEnv;
use crate::kf::*;
use crate::mx::*;
use crate::{filter_arrays, mx, scen};
use minikalman::extended::*;
use minikalman::regular::*;
use num_traits::{One, Zero};

/// sum over l of a[i,l] b[l,j], as terms
fn product<T: MatrixDataType>(a: &[T], b: &[T], i: usize, j: usize, k: usize, c: usize) -> Vec<T> {
    (0..k).map(|l| a[i * k + l] * b[l * c + j]).collect()
}
use minikalman::matrix::MatrixDataType;
/// (a p a^T)[i,j], as terms
fn sandwich<T: MatrixDataType>(a: &[T], p: &[T], i: usize, j: usize, n: usize) -> Vec<T> {
    let mut v = vec![];
    for k in 0..n {
        for l in 0..n {
            v.push(a[i * n + k] * p[k * n + l] * a[j * n + l]);
        }
    }
    v
}
fn with<T: Copy>(mut v: Vec<T>, x: T) -> Vec<T> {
    v.push(x);
    v
}

pub fn products<E: FlEnv, const R: usize, const K: usize, const U: usize, A, B, BT, C>(e: &mut E, a: &A, b: &B, bt: &BT, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    B: Matrix<K, U, E::T>,
    BT: Matrix<U, K, E::T>,
    C: MatrixMut<R, U, E::T>,
{
    let (av, bv, btv) = (a.as_slice()[..R * K].to_vec(), b.as_slice()[..K * U].to_vec(), bt.as_slice()[..U * K].to_vec());
    let mut tv = bv.clone();
    for i in 0..U {
        for l in 0..K {
            tv[l * U + i] = btv[i * K + l];
        }
    }
    let lim = 4 * K as i64 + 8;
    let s = e.var("scale");
    macro_rules! op {
        ($name:literal, $b:expr, |$c0:ident, $t:ident| $f:expr, $call:expr) => {{
            let n = c.as_slice().len();
            let c0 = e.junks($name, n);
            c.as_mut_slice().copy_from_slice(&c0);
            $call;
            for i in 0..R {
                for j in 0..U {
                    #[allow(unused)]
                    let ($c0, $t) = (c0[i * U + j], product(&av, $b, i, j, K, U));
                    let want: Vec<E::T> = $f;
                    e.accurate(&format!("{}[{i},{j}]", $name), c.as_slice()[i * U + j], &want, lim);
                }
            }
        }};
    }
    op!("mult", &bv, |c0, t| t, a.mult(b, c));
    let mut aux = e.junks("aux", K);
    op!("mult_buffered", &bv, |c0, t| t, a.mult_buffered(b, c, &mut aux));
    op!("mult_transb", &tv, |c0, t| t, a.mult_transb(bt, c));
    op!("multadd_transb", &tv, |c0, t| with(t, c0), a.multadd_transb(bt, c));
    op!("multscale_transb", &tv, |c0, t| t.iter().map(|x| *x * s).collect(), a.multscale_transb(bt, s, c));
}

pub fn vectors<E: FlEnv, const R: usize, const K: usize, A, X, C>(e: &mut E, a: &A, x: &X, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    X: Matrix<K, 1, E::T>,
    C: MatrixMut<R, 1, E::T>,
{
    let (av, xv) = (a.as_slice()[..R * K].to_vec(), x.as_slice()[..K].to_vec());
    let lim = 4 * K as i64 + 8;
    a.mult_rowvector(x, c);
    for i in 0..R {
        e.accurate(&format!("mult_rowvector[{i}]"), c.as_slice()[i], &product(&av, &xv, i, 0, K, 1), lim);
    }
    let n = c.as_slice().len();
    let c0 = e.junks("multadd_rowvector", n);
    c.as_mut_slice().copy_from_slice(&c0);
    a.multadd_rowvector(x, c);
    for i in 0..R {
        e.accurate(&format!("multadd_rowvector[{i}]"), c.as_slice()[i], &with(product(&av, &xv, i, 0, K, 1), c0[i]), lim);
    }
}

pub fn sums<E: FlEnv, const R: usize, const K: usize, A, B, C>(e: &mut E, a: &A, b: &mut B, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    B: MatrixMut<R, K, E::T>,
    C: MatrixMut<R, K, E::T>,
{
    let (a0, b0) = (a.as_slice()[..R * K].to_vec(), b.as_slice()[..R * K].to_vec());
    macro_rules! op {
        ($name:literal, $out:ident, |$x:ident, $y:ident| $f:expr, $call:expr) => {{
            b.as_mut_slice()[..R * K].copy_from_slice(&b0);
            $call;
            for i in 0..R * K {
                let ($x, $y) = (a0[i], b0[i]);
                e.accurate(&format!("{}[{i}]", $name), $out.as_slice()[i], &$f, 4);
            }
        }};
    }
    op!("sub", c, |x, y| [x, -y], a.sub(b, c));
    op!("add_inplace_b", b, |x, y| [x, y], a.add_inplace_b(b));
    op!("sub_inplace_b", b, |x, y| [x, -y], a.sub_inplace_b(b));
    op!("add_inplace_a", b, |x, y| [x, y], b.add_inplace_a(a));
    op!("sub_inplace_a", b, |x, y| [-x, y], b.sub_inplace_a(a));
}

pub fn predict<const N: usize, const NN: usize, E: FlEnv>(e: &mut E, extended: bool, tuned: bool) {
    let (a, x, p, q) = (e.mat("A", N, N), e.vec("x", N), e.symmetric("P", N), e.symmetric("Q", N));
    let lam = if tuned { e.pos("lambda") } else { E::T::one() };
    macro_rules! go {
        ($f:ident, $call:expr) => {{
            $f.state_vector_mut().as_mut_slice()[..N].copy_from_slice(&x);
            $f.estimate_covariance_mut().as_mut_slice()[..NN].copy_from_slice(&p);
            $f.direct_process_noise_mut().as_mut_slice()[..NN].copy_from_slice(&q);
            $call;
            let lim = 16 * N as i64 + if tuned { 32 } else { 16 };
            if !extended {
                for i in 0..N {
                    e.accurate(&format!("x[{i}]"), $f.state_vector().as_slice()[i], &product(&a, &x, i, 0, N, 1), lim);
                }
            }
            for i in 0..N {
                for j in 0..N {
                    let mut t = sandwich(&a, &p, i, j, N);
                    if tuned {
                        let s = E::T::one() / (lam * lam);
                        t = t.iter().map(|v| *v * s).collect();
                    }
                    e.accurate(&format!("P[{i},{j}]"), $f.estimate_covariance().as_slice()[i * N + j], &with(t, q[i * N + j]), lim);
                }
            }
        }};
    }
    if extended {
        let mut f = filter_arrays!(ExtendedKalmanBuilder, e, "", N, NN);
        f.state_transition_jacobian_mut().as_mut_slice()[..NN].copy_from_slice(&a);
        if tuned {
            go!(f, f.predict_tuned_nonlinear(lam, |_cur, _next| {}))
        } else {
            go!(f, f.predict_nonlinear(|_cur, _next| {}))
        }
    } else {
        let mut f = filter_arrays!(RegularKalmanBuilder, e, "", N, NN);
        f.state_transition_mut().as_mut_slice()[..NN].copy_from_slice(&a);
        if tuned {
            go!(f, f.predict_tuned(lam))
        } else {
            go!(f, f.predict())
        }
    }
}

pub fn control<const N: usize, const NN: usize, const C: usize, const NC: usize, const CC: usize, E: FlEnv>(e: &mut E, times: usize) {
    let (b, u, q, x, p) = (e.mat("B", N, C), e.vec("u", C), e.symmetric("Qc", C), e.vec("x", N), e.symmetric("P", N));
    let mut f = filter_arrays!(RegularKalmanBuilder, e, "", N, NN);
    let mut c = crate::control_arrays!(e, "", N, C, NC, CC);
    f.state_vector_mut().as_mut_slice()[..N].copy_from_slice(&x);
    f.estimate_covariance_mut().as_mut_slice()[..NN].copy_from_slice(&p);
    c.control_matrix_mut().as_mut_slice()[..NC].copy_from_slice(&b);
    c.control_vector_mut().as_mut_slice()[..C].copy_from_slice(&u);
    c.process_noise_covariance_mut().as_mut_slice()[..CC].copy_from_slice(&q);
    let (mut tx, mut tp): (Vec<_>, Vec<_>) = (x.iter().map(|v| vec![*v]).collect(), p.iter().map(|v| vec![*v]).collect());
    for s in 0..times {
        f.control(&mut c);
        let lim = (16 * C as i64 + 16) * (s as i64 + 1);
        for i in 0..N {
            tx[i].extend(product(&b, &u, i, 0, C, 1));
            e.accurate(&format!("x[{i}] after {s}"), f.state_vector().as_slice()[i], &tx[i], lim);
            for j in 0..N {
                tp[i * N + j].extend(sandwich(&b, &q, i, j, C));
                e.accurate(&format!("P[{i},{j}] after {s}"), f.estimate_covariance().as_slice()[i * N + j], &tp[i * N + j], lim);
            }
        }
    }
}

/// M measurements, each of states of its own (state i belongs to measurement i mod M) with
/// independent noise, and an innovation covariance without cancellation
pub fn correct<const N: usize, const NN: usize, const M: usize, const MM: usize, const NM: usize, E: FlEnv>(e: &mut E, extended: bool) {
    let (x, z, hx) = (e.vec("x", N), e.vec("z", M), e.vec("hx", M));
    let (mut p, mut h, mut r) = (vec![E::T::zero(); NN], vec![E::T::zero(); NM], vec![E::T::zero(); MM]);
    for i in 0..N {
        h[(i % M) * N + i] = e.nonneg(&format!("H[{i}]"));
        for j in 0..=i {
            if i % M == j % M {
                let v = e.nonneg(&format!("P[{i},{j}]"));
                p[i * N + j] = v;
                p[j * N + i] = v;
            }
        }
    }
    for i in 0..M {
        r[i * M + i] = e.pos(&format!("R[{i}]"));
    }
    let mut om = OMem::new(e, "", N, M, 0);
    macro_rules! go {
        ($fb:ident $ob:ident $hm:ident, |$f:ident, $o:ident| $call:expr) => {{
            let mut $f = filter_arrays!($fb, e, "", N, NN);
            let mut $o = crate::observation_over!($ob, om, N, M);
            $f.state_vector_mut().as_mut_slice()[..N].copy_from_slice(&x);
            $f.estimate_covariance_mut().as_mut_slice()[..NN].copy_from_slice(&p);
            $o.$hm().as_mut_slice()[..NM].copy_from_slice(&h);
            $o.measurement_noise_covariance_mut().as_mut_slice()[..MM].copy_from_slice(&r);
            $o.measurement_vector_mut().as_mut_slice()[..M].copy_from_slice(&z);
            $call;
            let x1: Vec<E::T> = $f.state_vector().as_slice()[..N].to_vec();
            let p1: Vec<E::T> = $f.estimate_covariance().as_slice()[..NN].to_vec();
            (x1, p1)
        }};
    }
    let (x1, p1) = if extended {
        go!(ExtendedKalmanBuilder ExtendedObservationBuilder observation_jacobian_matrix_mut, |f, o| f.correct_nonlinear(&mut o, |_x, y| y.as_mut_slice()[..M].copy_from_slice(&hx)))
    } else {
        go!(RegularKalmanBuilder RegularObservationBuilder observation_matrix_mut, |f, o| f.correct(&mut o))
    };
    let lim = 16 * N as i64 + 64;
    for i in 0..N {
        let m = i % M;
        // 1 / S
        let mut s = r[m * M + m];
        for k in (m..N).step_by(M) {
            for l in (m..N).step_by(M) {
                s = s + h[m * N + k] * p[k * N + l] * h[m * N + l];
            }
        }
        let s = E::T::one() / s;
        let mut t = vec![x[i]];
        for l in (m..N).step_by(M) {
            let g = p[i * N + l] * h[m * N + l] * s;
            t.push(g * z[m]);
            if extended {
                t.push(-(g * hx[m]));
            } else {
                for k in (m..N).step_by(M) {
                    t.push(-(g * h[m * N + k] * x[k]));
                }
            }
        }
        e.accurate(&format!("x[{i}]"), x1[i], &t, lim);
        for j in 0..N {
            let mut t = vec![p[i * N + j]];
            if j % M == m {
                for l in (m..N).step_by(M) {
                    for k in (m..N).step_by(M) {
                        t.push(-(p[i * N + l] * h[m * N + l] * s * h[m * N + k] * p[k * N + j]));
                    }
                }
            }
            e.accurate(&format!("P[{i},{j}]"), p1[i * N + j], &t, lim);
        }
    }
}

/// the factor reproduces the matrix up to roundings of the products of its entries
pub fn cholesky<E: FlEnv, const N: usize, A: MatrixMut<N, N, E::T>>(e: &mut E, m: &mut A) {
    let a = m.as_slice()[..N * N].to_vec();
    if !m.cholesky_decompose_lower() {
        return;
    }
    let got = m.as_slice()[..N * N].to_vec();
    let l: Vec<E::T> = (0..N * N).map(|i| if i / N >= i % N { e.rounded(&format!("L{i}"), got[i]) } else { E::T::zero() }).collect();
    for i in 0..N {
        for j in 0..=i {
            let t = with((0..=j).map(|k| l[i * N + k] * l[j * N + k]).collect(), -a[i * N + j]);
            e.residual(&format!("(L L^T - A)[{i},{j}]"), got[i * N + j], got[j * N + j], &t, 4 * N as i64 + 16);
        }
    }
}

/// products along the descending paths from i to j: the terms of the inverse of a triangular matrix
fn paths<T: MatrixDataType>(l: &[T], n: usize, i: usize, j: usize) -> Vec<T> {
    let d = T::one() / l[i * n + i];
    if i == j {
        return vec![d];
    }
    let mut v = vec![];
    for k in j..i {
        for t in paths(l, n, k, j) {
            v.push(-(d * l[i * n + k] * t));
        }
    }
    v
}
pub fn invert<E: FlEnv, const N: usize, L, I>(e: &mut E, l: &L, inv: &mut I)
where
    L: MatrixMut<N, N, E::T>,
    I: MatrixMut<N, N, E::T>,
{
    let lv = l.as_slice()[..N * N].to_vec();
    l.invert_l_cholesky(inv);
    for i in 0..N {
        for j in 0..N {
            let mut t = vec![];
            for k in i.max(j)..N {
                for a in paths(&lv, N, k, i) {
                    for b in paths(&lv, N, k, j) {
                        t.push(a * b);
                    }
                }
            }
            e.accurate(&format!("inverse[{i},{j}]"), inv.as_slice()[i * N + j], &t, 16 * N as i64 + 32);
        }
    }
}

#[cfg(feature = "c29")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($core:ident $ka:ident $kb:ident $kc:ident $r:literal $k:literal $u:literal),* $(,)?) => {$(
            scen!(v, $core, concat!("products ", stringify!($ka), "*", stringify!($kb), "->", stringify!($kc), " ", $r, "x", $k, "*", $k, "x", $u), |e| {
                let (va, vb, vbt, vc) = (e.mat("a", $r, $k), e.mat("b", $k, $u), e.mat("bt", $u, $k), e.mat("c", $r, $u));
                mx!($ka e, "a"; a, ma, $r, $k, va);
                mx!($kb e, "b"; b, mb, $k, $u, vb);
                mx!($kb e, "bt"; bt, mbt, $u, $k, vbt);
                mx!($kc e, "c"; c, mc, $r, $u, vc);
                products::<_, $r, $k, $u, _, _, _, _>(e, &a, &b, &bt, &mut c);
                let (vx, vy) = (e.vec("x", $k), e.vec("y", $r));
                mx!($kb e, "x"; x, mx, $k, 1, vx);
                mx!($kc e, "y"; y, my, $r, 1, vy);
                vectors::<_, $r, $k, _, _, _>(e, &a, &x, &mut y);
            });
            scen!(v, $core, concat!("sums ", stringify!($ka), " ", stringify!($kc), " ", $r, "x", $k), |e| {
                let (va, vb, vc) = (e.mat("a", $r, $k), e.mat("b", $r, $k), e.mat("c", $r, $k));
                mx!($ka e, "a"; a, ma, $r, $k, va);
                mx!($kc e, "b"; b, mb, $r, $k, vb);
                mx!($kc e, "c"; c, mc, $r, $k, vc);
                sums::<_, $r, $k, _, _, _>(e, &a, &mut b, &mut c);
            });
        )*};
    }
    s!(core array array array 1 1 1, core slice cref slice 2 2 2, core array cref array 2 3 2, core slice slice slice 3 3 3, core cref array slice 1 4 2, core array array array 4 4 4, core slice slice slice 5 6 4, core slice slice slice 8 8 8, core array array array 2 17 3, core slice cref array 17 2 1);
    macro_rules! p {
        ($($core:ident $n:literal $nn:literal),*) => {$(
            scen!(v, $core, concat!("predict n=", $n), |e| predict::<$n, $nn, _>(e, false, false));
            scen!(v, $core, concat!("tuned predict n=", $n), |e| predict::<$n, $nn, _>(e, false, true));
            scen!(v, $core, concat!("extended predict n=", $n), |e| predict::<$n, $nn, _>(e, true, false));
            scen!(v, $core, concat!("extended tuned predict n=", $n), |e| predict::<$n, $nn, _>(e, true, true));
        )*};
    }
    p!(core 1 1, core 2 4, core 3 9, core 4 16, core 5 25, core 6 36);
    macro_rules! u {
        ($($core:ident $n:literal $nn:literal $c:literal $nc:literal $cc:literal $t:literal),*) => {$(
            scen!(v, $core, concat!("control n=", $n, " c=", $c, " times=", $t), |e| control::<$n, $nn, $c, $nc, $cc, _>(e, $t));
        )*};
    }
    u!(core 1 1 1 1 1 4, core 2 4 1 2 1 2, core 1 1 2 2 4 2, core 3 9 2 6 4 2, core 2 4 3 6 9 1, core 4 16 4 16 16 1, core 5 25 6 30 36 1);
    macro_rules! k {
        ($($core:ident $n:literal $nn:literal $m:literal $mm:literal $nm:literal),*) => {$(
            scen!(v, $core, concat!("correct n=", $n, " m=", $m), |e| correct::<$n, $nn, $m, $mm, $nm, _>(e, false));
            scen!(v, $core, concat!("extended correct n=", $n, " m=", $m), |e| correct::<$n, $nn, $m, $mm, $nm, _>(e, true));
        )*};
    }
    k!(core 1 1 1 1 1, core 2 4 1 1 2, core 3 9 1 1 3, core 4 16 1 1 4, core 2 4 2 4 4, core 3 9 3 9 9, core 4 16 2 4 8, core 3 9 2 4 6);
    macro_rules! f {
        ($($core:ident $k:ident $n:literal),*) => {$(
            scen!(v, $core, concat!("cholesky ", stringify!($k), " n=", $n), |e| {
                let a = e.symmetric("a", $n);
                mx!($k e, "a"; a, _m, $n, $n, a);
                cholesky::<_, $n, _>(e, &mut a);
            });
        )*};
    }
    f!(core array 1, core slice 2, core array 3, core slice 4, core boxed 5, core slice 6, core array 7);
    macro_rules! i {
        ($($core:ident $n:literal),*) => {$(
            scen!(v, $core, concat!("invert ", $n), |e| {
                let l = e.lower("L", $n);
                let t = e.mat("t", $n, $n);
                mx!(array e, "l"; a, _m, $n, $n, l);
                mx!(slice e, "t"; i, _n, $n, $n, t);
                invert::<_, $n, _, _>(e, &a, &mut i);
            });
        )*};
    }
    i!(core 1, core 2, core 3, core 4);
    #[cfg(feature = "thorough")]
    {
        s!(extra boxed boxed boxed 12 12 12, extra array slice array 3 33 2, extra slice slice slice 17 17 17);
        p!(extra 8 64, extra 10 100);
        k!(extra 5 25 1 1 5, extra 6 36 1 1 6, extra 6 36 3 9 18, extra 5 25 5 25 25);
        f!(extra slice 10, extra array 13);
        i!(extra 5, extra 6);
        u!(extra 8 64 8 64 64 2);
    }
    v
}
