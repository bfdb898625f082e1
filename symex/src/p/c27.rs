//! C27: matrices without elements and filters without controls.
//! Nothing panics, results are the (empty, zero or unchanged) textbook ones,
//! everything else keeps its contents.
use crate::env::Env;
use crate::kf::*;
use crate::mx::*;
use crate::{ld, mx, rd, scen, setup_c, setup_f, setup_o, spec};
use minikalman::extended::*;
use minikalman::regular::*;

fn products<E: Env, const R: usize, const K: usize, const U: usize, A, B, BT, C>(e: &mut E, a: &A, b: &B, bt: &BT, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    B: Matrix<K, U, E::T>,
    BT: Matrix<U, K, E::T>,
    C: MatrixMut<R, U, E::T>,
{
    let (a0, b0, bt0) = (a.as_slice().to_vec(), b.as_slice().to_vec(), bt.as_slice().to_vec());
    let ab = spec::mul(&a0[..R * K], &b0[..K * U], R, K, U);
    let abt = spec::mul(&a0[..R * K], &spec::tr(&bt0[..U * K], U, K), R, K, U);
    let s = e.var("scale");
    for op in ["mult", "mult_buffered", "mult_transb", "multadd_transb", "multscale_transb"] {
        let c0 = e.junks(op, c.as_slice().len());
        c.as_mut_slice().copy_from_slice(&c0);
        let mut aux = e.junks("aux", K);
        let want = match op {
            "mult" => { a.mult(b, c); ab.clone() }
            "mult_buffered" => { a.mult_buffered(b, c, &mut aux); ab.clone() }
            "mult_transb" => { a.mult_transb(bt, c); abt.clone() }
            "multadd_transb" => { a.multadd_transb(bt, c); spec::add(&c0[..R * U], &abt) }
            _ => { a.multscale_transb(bt, s, c); spec::scale(&abt, s) }
        };
        e.eq_all(&format!("{op} result"), &c.as_slice()[..R * U], &want);
        e.eq_all(&format!("{op} memory behind"), &c.as_slice()[R * U..], &c0[R * U..]);
    }
    e.eq_all("a unchanged", a.as_slice(), &a0);
    e.eq_all("b unchanged", b.as_slice(), &b0);
    e.eq_all("bt unchanged", bt.as_slice(), &bt0);
}

fn vectors<E: Env, const R: usize, const K: usize, A, X, C>(e: &mut E, a: &A, x: &X, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    X: Matrix<K, 1, E::T>,
    C: MatrixMut<R, 1, E::T>,
{
    let (a0, x0) = (a.as_slice().to_vec(), x.as_slice().to_vec());
    let ax = spec::mul(&a0[..R * K], &x0[..K], R, K, 1);
    for op in ["mult_rowvector", "multadd_rowvector"] {
        let c0 = e.junks(op, c.as_slice().len());
        c.as_mut_slice().copy_from_slice(&c0);
        let want = if op == "mult_rowvector" { a.mult_rowvector(x, c); ax.clone() } else { a.multadd_rowvector(x, c); spec::add(&c0[..R], &ax) };
        e.eq_all(&format!("{op} result"), &c.as_slice()[..R], &want);
        e.eq_all(&format!("{op} memory behind"), &c.as_slice()[R..], &c0[R..]);
    }
    e.eq_all("a unchanged", a.as_slice(), &a0);
    e.eq_all("x unchanged", x.as_slice(), &x0);
}

/// operations on one shape with R * K == 0
fn one<E: Env, const R: usize, const K: usize, A, B, C>(e: &mut E, a: &A, b: &mut B, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    B: MatrixMut<R, K, E::T>,
    C: MatrixMut<R, K, E::T>,
{
    assert_eq!(R * K, 0);
    let (a0, b0, c0) = (a.as_slice().to_vec(), b.as_slice().to_vec(), c.as_slice().to_vec());
    e.ok("rows", a.rows() == R && b.rows() == R);
    e.ok("cols", a.cols() == K && b.cols() == K);
    e.ok("len", a.len() == 0 && b.len() == 0);
    e.ok("is_empty", a.is_empty() && b.is_empty() && c.is_empty());
    e.ok("is_valid", a.is_valid() && b.is_valid());
    a.add_inplace_b(b);
    a.sub_inplace_b(b);
    c.add_inplace_a(a);
    c.sub_inplace_a(a);
    a.sub(b, c);
    a.copy(b);
    let x = e.var("fill");
    b.set_all(x);
    b.set_zero();
    b.clear();
    let mut calls = 0;
    let r = a.inspect(|m| { calls += 1; m.len() });
    e.ok("inspect", r == 0);
    let r = b.apply(|m| { calls += 1; m.rows() });
    e.ok("apply", r == R && calls == 2);
    let mut buf = e.junks("row/column", 3);
    let buf0 = buf.clone();
    for i in 0..R {
        a.get_row_copy(i, &mut buf);
    }
    for j in 0..K {
        a.get_column_copy(j, &mut buf);
    }
    e.eq_all("row and column buffers", &buf, &buf0);
    e.eq_all("a unchanged", a.as_slice(), &a0);
    e.eq_all("b unchanged", b.as_slice(), &b0);
    e.eq_all("c unchanged", c.as_slice(), &c0);
}

fn empty_square<E: Env, A: SquareMatrix<0, E::T> + Matrix<0, 0, E::T>, B: MatrixMut<0, 0, E::T> + SquareMatrixMut<0, E::T>>(e: &mut E, a: &A, b: &mut B) {
    let (a0, b0) = (a.as_slice().to_vec(), b.as_slice().to_vec());
    let x = e.var("x");
    b.make_identity();
    b.make_scalar(x);
    b.set_diagonal_to_scalar(x);
    b.make_comatrix(x, x);
    a.invert_l_cholesky(b);
    e.eq_all("a unchanged", a.as_slice(), &a0);
    e.eq_all("b unchanged", b.as_slice(), &b0);
}

#[cfg(feature = "c27")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! p {
        ($($ka:ident $kb:ident $kc:ident $r:literal $k:literal $u:literal),* $(,)?) => {$(
            scen!(v, core, concat!("products ", stringify!($ka), "*", stringify!($kb), "->", stringify!($kc), " ", $r, "x", $k, "*", $k, "x", $u), |e| {
                let (va, vb, vbt, vc) = (e.mat("a", $r, $k), e.mat("b", $k, $u), e.mat("bt", $u, $k), e.mat("c", $r, $u));
                mx!($ka e, "a"; a, ma, $r, $k, va);
                mx!($kb e, "b"; b, mb, $k, $u, vb);
                mx!($kb e, "bt"; bt, mbt, $u, $k, vbt);
                mx!($kc e, "c"; c, mc, $r, $u, vc);
                products::<_, $r, $k, $u, _, _, _, _>(e, &a, &b, &bt, &mut c);
                let (vx, vy) = (e.vec("x", $k), e.vec("y", $r));
                mx!($kb e, "x"; x, mx, $k, 1, vx);
                mx!($kc e, "y"; y, my, $r, 1, vy);
                vectors::<_, $r, $k, _, _, _>(e, &a, &x, &mut y);
            });
        )*};
    }
    p!(array array array 0 0 0, slice slice slice 0 0 0, boxed boxed boxed 0 0 0, cref arrayx rowmajor 0 0 0,
       array array array 0 2 3, slice cref slice 0 2 3, boxed boxed boxed 0 1 1,
       array array array 2 0 3, slice cref slice 2 0 3, boxed boxed boxed 1 0 1, arrayx arrayx arrayx 3 0 2, crowmajor rowmajor rowmajor 2 0 2,
       array array array 2 3 0, slice cref slice 2 3 0, boxed boxed boxed 1 1 0,
       slice slice slice 0 0 2, slice slice slice 2 0 0, slice slice slice 0 2 0, arrayx slice boxed 0 4 0, boxed cref arrayx 5 0 1, boxed cref arrayx 1 0 5);
    macro_rules! q {
        ($($ka:ident $kb:ident $kc:ident $r:literal $k:literal),* $(,)?) => {$(
            scen!(v, core, concat!("one ", stringify!($ka), " ", stringify!($kb), " ", stringify!($kc), " ", $r, "x", $k), |e| {
                mx!($ka e, "a"; a, ma, $r, $k, vec![]);
                mx!($kb e, "b"; b, mb, $r, $k, vec![]);
                mx!($kc e, "c"; c, mc, $r, $k, vec![]);
                one::<_, $r, $k, _, _, _>(e, &a, &mut b, &mut c);
            });
        )*};
    }
    q!(array array array 0 0, slice slice slice 0 0, boxed boxed boxed 0 0, cref arrayx rowmajor 0 0, crowmajor slice boxed 0 0,
       array array array 0 3, slice slice slice 0 3, boxed boxed boxed 0 1, cref arrayx rowmajor 0 4,
       array array array 3 0, slice slice slice 3 0, boxed boxed boxed 1 0, cref arrayx rowmajor 4 0, crowmajor slice arrayx 2 0);
    macro_rules! sq {
        ($($ka:ident $kb:ident),*) => {$(
            scen!(v, core, concat!("square ", stringify!($ka), " ", stringify!($kb)), |e| {
                mx!($ka e, "a"; a, ma, 0, 0, vec![]);
                mx!($kb e, "b"; b, mb, 0, 0, vec![]);
                empty_square(e, &a, &mut b);
            });
        )*};
    }
    sq!(array array, slice slice, boxed boxed, cref arrayx, crowmajor rowmajor);

    // ---- filters without controls
    macro_rules! zc {
        ($name:literal, $kind:ident, $n:literal, $m:literal) => {
            scen!(v, core, $name, |e| {
                fn body<E: Env>(e: &mut E) {
                    const N: usize = $n;
                    const M: usize = $m;
                    const NN: usize = N * N;
                    const NM: usize = N * M;
                    const MM: usize = M * M;
                    const C: usize = 0;
                    const NC: usize = 0;
                    const CC: usize = 0;
                    setup_f!($kind regular e, "", N, NN; f);
                    setup_c!($kind e, "", N, C, NC, CC; c);
                    setup_o!($kind regular e, "", N, M, NN, NM, MM; o);
                    let (x, p, a, q) = (e.vec("x", N), e.symmetric("P", N), e.mat("A", N, N), e.symmetric("Q", N));
                    ld!(f.state_vector_mut(), x);
                    ld!(f.estimate_covariance_mut(), p);
                    ld!(f.state_transition_mut(), a);
                    ld!(f.direct_process_noise_mut(), q);
                    e.ok("controls()", c.controls() == 0 && c.states() == N);
                    for round in 0..2 {
                        f.control(&mut c);
                        e.eq_all(&format!("x after control {round}"), &rd!(f.state_vector(), N), &x);
                        e.eq_all(&format!("P after control {round}"), &rd!(f.estimate_covariance(), NN), &p);
                        e.eq_all(&format!("A after control {round}"), &rd!(f.state_transition(), NN), &a);
                        e.eq_all(&format!("Q after control {round}"), &rd!(f.direct_process_noise(), NN), &q);
                    }
                    f.predict();
                    let (x1, p1) = (rd!(f.state_vector(), N), rd!(f.estimate_covariance(), NN));
                    e.eq_all("x after predict", &x1, &spec::mul(&a, &x, N, N, 1));
                    e.eq_all("P after predict", &p1, &spec::add(&spec::sandwich(&a, &p, N, N), &q));
                    f.control(&mut c);
                    e.eq_all("x after predict, control", &rd!(f.state_vector(), N), &x1);
                    e.eq_all("P after predict, control", &rd!(f.estimate_covariance(), NN), &p1);
                    // control objects of zero size can be inspected and applied
                    c.control_vector_mut().as_matrix_mut().set_zero();
                    c.process_noise_covariance_mut().as_matrix_mut().set_zero();
                    c.control_matrix_mut().as_matrix_mut().set_zero();
                    e.ok("observation untouched", o.measurements() == M);
                    let _ = &mut o;
                }
                body(e)
            });
        };
    }
    zc!("no controls boxed 1", boxed, 1, 1);
    zc!("no controls boxed 3", boxed, 3, 2);
    zc!("no controls slices 2", slices, 2, 1);
    zc!("no controls arrays 3", arrays, 3, 1);
    // ---- extended filters / regular filters without states
    macro_rules! zs {
        ($name:literal, $kind:ident) => {
            scen!(v, core, $name, |e| {
                fn body<E: Env>(e: &mut E) {
                    const N: usize = 0;
                    const NN: usize = 0;
                    setup_f!($kind regular e, "", N, NN; f);
                    f.predict();
                    let l = e.pos("lambda");
                    f.predict_tuned(l);
                    e.ok("states()", f.states() == 0);
                }
                body(e)
            });
            scen!(v, core, concat!($name, " extended"), |e| {
                fn body<E: Env>(e: &mut E) {
                    const N: usize = 0;
                    const NN: usize = 0;
                    setup_f!($kind extended e, "", N, NN; f);
                    let mut calls = 0;
                    f.predict_nonlinear(|_, _| calls += 1);
                    e.ok("states()", f.states() == 0 && calls == 1);
                }
                body(e)
            });
        };
    }
    zs!("no states boxed", boxed);
    zs!("no states slices", slices);
    zs!("no states arrays", arrays);
    v
}
