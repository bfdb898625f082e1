//! C12: matrix products.  Every operation against the textbook sum, for many
//! shapes and storage kinds, with arbitrary previous contents of target and
//! scratch, operands and memory behind the matrices unchanged.
use crate::env::Env;
use crate::mx::*;
use crate::{mx, scen, spec};

/// target contents = `want` followed by the untouched tail; operands untouched
pub fn done<E: Env>(e: &mut E, op: &str, c: &[E::T], c0: &[E::T], want: &[E::T]) {
    let k = want.len();
    e.eq_all(&format!("{op} result"), &c[..k], want);
    e.eq_all(&format!("{op} memory behind the target"), &c[k..], &c0[k..]);
}

pub fn products<E: Env, const R: usize, const K: usize, const U: usize, A, B, BT, C>(e: &mut E, a: &A, b: &B, bt: &BT, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    B: Matrix<K, U, E::T>,
    BT: Matrix<U, K, E::T>,
    C: MatrixMut<R, U, E::T>,
{
    let (a0, b0, bt0) = (a.as_slice().to_vec(), b.as_slice().to_vec(), bt.as_slice().to_vec());
    let (av, bv, btv) = (&a0[..R * K], &b0[..K * U], &bt0[..U * K]);
    let ab = spec::mul(av, bv, R, K, U);
    let abt = spec::mul(av, &spec::tr(btv, U, K), R, K, U);
    let fresh = |e: &mut E, c: &mut C, op: &str| {
        let n = c.as_slice().len();
        let v = e.junks(op, n);
        c.as_mut_slice().copy_from_slice(&v);
        v
    };
    let c0 = fresh(e, c, "mult");
    a.mult(b, c);
    done(e, "mult", c.as_slice(), &c0, &ab);
    let c0 = fresh(e, c, "mult_buffered");
    let mut aux = e.junks("aux", K);
    a.mult_buffered(b, c, &mut aux);
    done(e, "mult_buffered", c.as_slice(), &c0, &ab);
    let c0 = fresh(e, c, "mult_transb");
    a.mult_transb(bt, c);
    done(e, "mult_transb", c.as_slice(), &c0, &abt);
    let c0 = fresh(e, c, "multadd_transb");
    a.multadd_transb(bt, c);
    done(e, "multadd_transb", c.as_slice(), &c0, &spec::add(&c0[..R * U], &abt));
    let c0 = fresh(e, c, "multscale_transb");
    let s = e.var("scale");
    a.multscale_transb(bt, s, c);
    done(e, "multscale_transb", c.as_slice(), &c0, &spec::scale(&abt, s));
    // one matrix in both roles
    let c0 = fresh(e, c, "again");
    a.mult(b, c);
    done(e, "mult after others", c.as_slice(), &c0, &ab);
    e.eq_all("a unchanged", a.as_slice(), &a0);
    e.eq_all("b unchanged", b.as_slice(), &b0);
    e.eq_all("bt unchanged", bt.as_slice(), &bt0);
}

pub fn vectors<E: Env, const R: usize, const K: usize, A, X, C>(e: &mut E, a: &A, x: &X, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    X: Matrix<K, 1, E::T>,
    C: MatrixMut<R, 1, E::T>,
{
    let (a0, x0) = (a.as_slice().to_vec(), x.as_slice().to_vec());
    let ax = spec::mul(&a0[..R * K], &x0[..K], R, K, 1);
    let n = c.as_slice().len();
    let c0 = e.junks("mult_rowvector", n);
    c.as_mut_slice().copy_from_slice(&c0);
    a.mult_rowvector(x, c);
    done(e, "mult_rowvector", c.as_slice(), &c0, &ax);
    let c0 = e.junks("multadd_rowvector", n);
    c.as_mut_slice().copy_from_slice(&c0);
    a.multadd_rowvector(x, c);
    done(e, "multadd_rowvector", c.as_slice(), &c0, &spec::add(&c0[..R], &ax));
    e.eq_all("a unchanged", a.as_slice(), &a0);
    e.eq_all("x unchanged", x.as_slice(), &x0);
}

/// A A^T with one object in both roles
pub fn same<E: Env, const R: usize, const K: usize, A, C>(e: &mut E, a: &A, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    C: MatrixMut<R, R, E::T>,
{
    let a0 = a.as_slice().to_vec();
    let aat = spec::mul(&a0[..R * K], &spec::tr(&a0[..R * K], R, K), R, K, R);
    let c0 = c.as_slice().to_vec();
    a.mult_transb(a, c);
    done(e, "A A^T", c.as_slice(), &c0, &aat);
    let c0 = c.as_slice().to_vec();
    a.multadd_transb(a, c);
    done(e, "2 A A^T", c.as_slice(), &c0, &spec::add(&c0[..R * R], &aat));
    e.eq_all("a unchanged", a.as_slice(), &a0);
}

/// operands that are views into one and the same memory, possibly overlapping: `B` (or `B^T`)
/// starts `$off` elements after `A`
#[macro_export]
macro_rules! shared_products {
    ($v:ident; $($r:literal $k:literal $u:literal $off:literal),* $(,)?) => {$(
        scen!($v, core, concat!("one memory, offset ", $off, ": ", $r, "x", $k, "*", $k, "x", $u), |e| {
            let mem = e.mat("table", 1, $off + $k * ($r + $u));
            let (va, vb) = (mem[..$r * $k].to_vec(), mem[$off..$off + $k * $u].to_vec());
            let a = MatrixData::new_ref::<$r, $k, _>(&mem);
            let b = MatrixData::new_ref::<$k, $u, _>(&mem[$off..]);
            let bt = MatrixData::new_ref::<$u, $k, _>(&mem[$off..]);
            let x = MatrixData::new_ref::<$k, 1, _>(&mem[$off..]);
            let (jc, jy) = (e.mat("c", $r, $u), e.vec("y", $r));
            mx!(slice e, "c"; c, mc, $r, $u, jc);
            mx!(boxed e, "y"; y, my, $r, 1, jy);
            $crate::p::c12::products::<_, $r, $k, $u, _, _, _, _>(e, &a, &b, &bt, &mut c);
            $crate::p::c12::vectors::<_, $r, $k, _, _, _>(e, &a, &x, &mut y);
            e.eq_all("table unchanged", &mem[..$r * $k], &va);
            e.eq_all("table unchanged behind", &mem[$off..$off + $k * $u], &vb);
        });
    )*};
}

/// every non-accumulating operation twice, over different leftovers in target and scratch:
/// the very same result (NaN and infinities among the leftovers included)
pub fn leftovers<E: Env, const R: usize, const K: usize, const U: usize, A, B, BT, C, X, Y>(e: &mut E, a: &A, b: &B, bt: &BT, c: &mut C, x: &X, y: &mut Y)
where
    A: Matrix<R, K, E::T>,
    B: Matrix<K, U, E::T>,
    BT: Matrix<U, K, E::T>,
    C: MatrixMut<R, U, E::T>,
    X: Matrix<K, 1, E::T>,
    Y: MatrixMut<R, 1, E::T>,
{
    let s = e.var("scale");
    for op in ["mult", "mult_buffered", "mult_transb", "multscale_transb", "mult_rowvector"] {
        let mut first = vec![];
        for turn in 0..2 {
            let (nc, ny) = (c.as_slice().len(), y.as_slice().len());
            let (vc, vy) = (e.junks(&format!("{op}{turn}"), nc), e.junks(&format!("{op}{turn}y"), ny));
            c.as_mut_slice().copy_from_slice(&vc);
            y.as_mut_slice().copy_from_slice(&vy);
            match op {
                "mult" => a.mult(b, c),
                "mult_buffered" => {
                    let mut aux = e.junks(&format!("aux{turn}"), K);
                    a.mult_buffered(b, c, &mut aux)
                }
                "mult_transb" => a.mult_transb(bt, c),
                "multscale_transb" => a.multscale_transb(bt, s, c),
                _ => a.mult_rowvector(x, y),
            }
            let now = if op == "mult_rowvector" { y.as_slice()[..R].to_vec() } else { c.as_slice()[..R * U].to_vec() };
            if turn == 0 {
                first = now;
            } else {
                e.kept_all(&format!("{op} over other leftovers"), &now, &first);
            }
        }
    }
}

#[cfg(feature = "c12")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = base();
    macro_rules! l {
        ($($ka:ident $kb:ident $kc:ident $r:literal $k:literal $u:literal),* $(,)?) => {$({
            let mut w = vec![];
            scen!(w, core, concat!("leftovers ", stringify!($ka), "*", stringify!($kb), "->", stringify!($kc), " ", $r, "x", $k, "*", $k, "x", $u), |e| {
                let (va, vb, vbt, vc) = (e.mat("a", $r, $k), e.mat("b", $k, $u), e.mat("bt", $u, $k), e.mat("c", $r, $u));
                let (vx, vy) = (e.vec("x", $k), e.vec("y", $r));
                mx!($ka e, "a"; a, ma, $r, $k, va);
                mx!($kb e, "b"; b, mb, $k, $u, vb);
                mx!($kb e, "bt"; bt, mbt, $u, $k, vbt);
                mx!($kc e, "c"; c, mc, $r, $u, vc);
                mx!($kb e, "x"; x, mx, $k, 1, vx);
                mx!($kc e, "y"; y, my, $r, 1, vy);
                leftovers::<_, $r, $k, $u, _, _, _, _, _, _>(e, &a, &b, &bt, &mut c, &x, &mut y);
            });
            v.extend(w.into_iter().map(|s| crate::harness::any(s, crate::env::Contents::Any)));
        })*};
    }
    l!(array array array 1 1 1, slice cref slice 1 3 2, boxed boxed boxed 3 1 2, slice slice slice 2 2 2, cref slice boxed 3 3 3, array boxed slice 4 4 4, slice slice array 2 5 4, boxed boxed boxed 9 8 7);
    shared_products!(v; 1 1 1 0, 2 2 2 0, 2 2 3 0, 3 2 2 0, 1 3 2 0, 2 3 1 0, 3 3 3 0, 4 3 2 0, 2 4 3 0, 2 2 2 1, 3 2 4 2, 2 3 3 3, 4 4 4 4, 3 3 3 9, 2 3 4 6, 5 3 6 0, 6 6 6 0, 8 2 9 0, 9 2 8 0, 9 9 9 0);
    v
}
#[cfg(feature = "c12")]
pub fn base() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($ka:ident $kb:ident $kc:ident $r:literal $k:literal $u:literal),* $(,)?) => {$(
            scen!(v, core, concat!(stringify!($ka), "*", stringify!($kb), "->", stringify!($kc), " ", $r, "x", $k, "*", $k, "x", $u), |e| {
                let (va, vb, vbt, vc) = (e.mat("a", $r, $k), e.mat("b", $k, $u), e.mat("bt", $u, $k), e.mat("c", $r, $u));
                mx!($ka e, "a"; a, ma, $r, $k, va);
                mx!($kb e, "b"; b, mb, $k, $u, vb);
                mx!($kb e, "bt"; bt, mbt, $u, $k, vbt);
                mx!($kc e, "c"; c, mc, $r, $u, vc);
                products::<_, $r, $k, $u, _, _, _, _>(e, &a, &b, &bt, &mut c);
                let (vx, vy, vs) = (e.vec("x", $k), e.vec("y", $r), e.mat("s", $r, $r));
                mx!($kb e, "x"; x, mx, $k, 1, vx);
                mx!($kc e, "y"; y, my, $r, 1, vy);
                mx!($kc e, "s"; s, ms, $r, $r, vs);
                vectors::<_, $r, $k, _, _, _>(e, &a, &x, &mut y);
                same::<_, $r, $k, _, _>(e, &a, &mut s);
            });
        )*};
    }
    s!(array array array 1 1 1, boxed cref slice 1 1 1, slice cref slice 1 1 4, cref slice boxed 1 4 1, slice slice slice 4 1 1,
       array array array 2 2 2, slice cref slice 2 3 4, boxed boxed boxed 4 3 2, cref slice rowmajor 3 2 4, crowmajor rowmajor rowmajor 3 4 2,
       arrayx arrayx arrayx 2 4 3, array cref boxed 4 2 3, rowmajor array arrayx 3 3 3, slice slice slice 3 3 1, cref cref slice 1 3 3,
       slice cref slice 3 1 3, array array array 4 4 4, slice slice slice 5 5 5, boxed cref boxed 5 2 6, array slice slice 6 5 2,
       slice boxed array 2 6 5, boxed boxed boxed 6 6 6, slice cref slice 7 2 3, cref array slice 2 7 7, slice slice slice 3 8 2, boxed boxed boxed 2 3 8, array array array 8 2 2,
       slice cref slice 1 9 1, slice cref slice 9 1 2, slice slice slice 2 1 9,
       slice slice slice 7 7 7, boxed boxed boxed 8 8 8, slice cref slice 12 3 5, cref slice boxed 3 12 5, boxed slice slice 5 3 12, slice slice slice 17 3 2, slice slice slice 2 17 3, slice slice slice 3 2 17);
    s!(array array array 10 10 10, slice cref slice 1 16 1,
       slice cref slice 16 1 1, slice cref slice 1 1 16, slice cref slice 16 2 16, slice slice slice 2 16 2, boxed boxed boxed 12 12 12, boxed boxed boxed 16 16 16,
       slice slice slice 33 2 2, slice slice slice 2 33 2, slice slice slice 2 2 33, array array array 9 9 9, boxed boxed boxed 11 11 11, boxed slice boxed 17 17 2, slice boxed boxed 2 17 17, boxed boxed slice 17 2 17, slice slice slice 2 130 1, boxed slice boxed 130 2 1, boxed slice boxed 1 2 130);
    // more elements than a 16 bit position can tell apart: in the result, or in the operands
    macro_rules! huge {
        ($($r:literal $k:literal $u:literal),*) => {$(
            scen!(v, core, concat!("huge ", $r, "x", $k, "*", $k, "x", $u), |e| {
                let (va, vb) = (e.mat("a", $r, $k), e.mat("b", $k, $u));
                let vbt = spec::tr(&vb, $k, $u);
                let a = MatrixData::new_boxed::<$r, $k, _, _>(va.clone());
                let b = MatrixData::new_boxed::<$k, $u, _, _>(vb.clone());
                let bt = MatrixData::new_boxed::<$u, $k, _, _>(vbt);
                let mut c = MatrixData::new_boxed::<$r, $u, _, _>(vec![e.var("old"); $r * $u]);
                let want = spec::mul(&va, &vb, $r, $k, $u);
                let s = e.var("scale");
                a.mult(&b, &mut c);
                some(e, "mult", c.as_slice(), &want);
                let mut aux = e.junks("aux", $k);
                c.clear();
                a.mult_buffered(&b, &mut c, &mut aux);
                some(e, "mult_buffered", c.as_slice(), &want);
                a.multadd_transb(&bt, &mut c);
                some(e, "multadd_transb", c.as_slice(), &spec::add(&want, &want));
                c.clear();
                a.mult_transb(&bt, &mut c);
                some(e, "mult_transb", c.as_slice(), &want);
                a.multscale_transb(&bt, s, &mut c);
                let scaled: Vec<_> = want.iter().map(|w| *w * s).collect();
                some(e, "multscale_transb", c.as_slice(), &scaled);
                let vx = e.vec("x", $k);
                let x = MatrixData::new_boxed::<$k, 1, _, _>(vx.clone());
                let mut y = MatrixData::new_boxed::<$r, 1, _, _>(e.vec("y", $r));
                let ax = spec::mul(&va, &vx, $r, $k, 1);
                a.mult_rowvector(&x, &mut y);
                some(e, "mult_rowvector", y.as_slice(), &ax);
                a.multadd_rowvector(&x, &mut y);
                some(e, "multadd_rowvector", y.as_slice(), &spec::add(&ax, &ax));
                some(e, "a unchanged", a.as_slice(), &va);
                some(e, "b unchanged", b.as_slice(), &vb);
            });
        )*};
    }
    huge!(257 1 257, 32800 2 1, 1 2 32800, 32800 1 2);
    #[cfg(feature = "thorough")]
    huge!(300 256 1, 2 32800 1, 1 256 300);
    #[cfg(feature = "thorough")]
    s!(boxed boxed boxed 17 17 17, boxed boxed boxed 20 20 20, boxed boxed boxed 65 2 65, boxed boxed boxed 2 257 2);
    v
}
