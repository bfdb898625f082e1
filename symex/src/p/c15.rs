//! C15: inversion of a Cholesky factor.
use crate::env::Env;
use crate::mx::*;
use crate::{mx, scen, spec};
use num_traits::Zero;

pub fn invert<E: Env, const N: usize, L, I>(e: &mut E, l: &L, inv: &mut I, negative: bool)
where
    L: SquareMatrix<N, E::T> + Matrix<N, N, E::T>,
    I: SquareMatrixMut<N, E::T> + MatrixMut<N, N, E::T>,
{
    let _ = negative;
    let l0 = l.as_slice().to_vec();
    let i0 = inv.as_slice().to_vec();
    l.invert_l_cholesky(inv);
    e.eq_all("inverse", &inv.as_slice()[..N * N], &spec::lltinv(&l0[..N * N], N));
    e.eq_all("memory behind the target", &inv.as_slice()[N * N..], &i0[N * N..]);
    e.eq_all("factor unchanged", l.as_slice(), &l0);
    for i in 0..N {
        for j in 0..i {
            e.eq(&format!("symmetric ({i},{j})"), inv.get_at(i, j), inv.get_at(j, i));
        }
    }
}

pub fn both<E: Env, const N: usize, A, I>(e: &mut E, a: &mut A, inv: &mut I, lv: &[E::T])
where
    A: SquareMatrix<N, E::T> + MatrixMut<N, N, E::T>,
    I: SquareMatrixMut<N, E::T> + MatrixMut<N, N, E::T>,
{
    let ok = a.cholesky_decompose_lower();
    e.ok("decomposition succeeds", ok);
    if ok {
        a.invert_l_cholesky(inv);
        e.eq_all("inverse of L L^T", &inv.as_slice()[..N * N], &spec::lltinv(lv, N));
    }
}

/// lower triangular, fixed numbers except for the part named by `what`
pub fn partial<E: Env>(e: &mut E, n: usize, what: &str) -> Vec<E::T> {
    let mut v = vec![<E::T as Zero>::zero(); n * n];
    for i in 0..n {
        for j in 0..=i {
            let free = match what {
                "diagonal" => i == j && (i == 0 || i == n / 2 || i == n - 1),
                "row" => i == n - 2,
                _ => j == 1,
            };
            v[i * n + j] = match (free, i == j) {
                (true, true) => e.pos(&format!("L[{i},{i}]")),
                (true, false) => e.var(&format!("L[{i},{j}]")),
                (false, true) => e.pos(&format!("F[{i},{i}]")),
                (false, false) => e.var(&format!("G[{i},{j}]")),
            };
        }
    }
    v
}

/// lower triangular with a diagonal of either sign
pub fn factor<E: Env>(e: &mut E, n: usize) -> Vec<E::T> {
    let mut v = vec![<E::T as Zero>::zero(); n * n];
    for i in 0..n {
        for j in 0..i {
            v[i * n + j] = e.var(&format!("L[{i},{j}]"));
        }
        v[i * n + i] = e.nonzero(&format!("L[{i},{i}]"));
    }
    v
}

/// twice over different leftovers in the target: the very same inverse
pub fn leftovers<E: Env, const N: usize, L, I>(e: &mut E, l: &L, inv: &mut I)
where
    L: SquareMatrix<N, E::T> + Matrix<N, N, E::T>,
    I: SquareMatrixMut<N, E::T> + MatrixMut<N, N, E::T>,
{
    let mut first = vec![];
    for turn in 0..2 {
        let n = inv.as_slice().len();
        let t = e.junks(&format!("target{turn}"), n);
        inv.as_mut_slice().copy_from_slice(&t);
        l.invert_l_cholesky(inv);
        let now = inv.as_slice()[..N * N].to_vec();
        if turn == 0 {
            first = now;
        } else {
            e.kept_all("inverse over other leftovers", &now, &first);
        }
    }
}

#[cfg(feature = "c15")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = base();
    macro_rules! l {
        ($($ka:ident $kb:ident $n:literal),* $(,)?) => {$({
            let mut w = vec![];
            scen!(w, core, concat!("leftovers ", stringify!($ka), "->", stringify!($kb), " ", $n), |e| {
                let l = factor(e, $n);
                let j = e.mat("t", $n, $n);
                mx!($ka e, "l"; l, _ml, $n, $n, l);
                mx!($kb e, "t"; t, _mt, $n, $n, j);
                leftovers::<_, $n, _, _>(e, &l, &mut t);
            });
            v.extend(w.into_iter().map(|s| crate::harness::any(s, crate::env::Contents::Any)));
        })*};
    }
    l!(array array 1, slice slice 2, boxed slice 3, cref boxed 4, slice array 6, boxed boxed 9);
    v
}
#[cfg(feature = "c15")]
pub fn base() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($core:ident $ka:ident $kb:ident $n:literal),* $(,)?) => {$(
            scen!(v, $core, concat!("invert ", stringify!($ka), "->", stringify!($kb), " ", $n), |e| {
                let l = factor(e, $n);
                let j = e.mat("t", $n, $n);
                mx!($ka e, "l"; l, _ml, $n, $n, l);
                mx!($kb e, "t"; t, _mt, $n, $n, j);
                invert::<_, $n, _, _>(e, &l, &mut t, true);
            });
        )*};
    }
    macro_rules! b {
        ($($core:ident $ka:ident $kb:ident $n:literal),* $(,)?) => {$(
            scen!(v, $core, concat!("decompose+invert ", stringify!($ka), "->", stringify!($kb), " ", $n), |e| {
                let lv = e.lower("L", $n);
                let a = spec::llt(&lv, $n);
                let j = e.mat("t", $n, $n);
                mx!($ka e, "a"; a, _ml, $n, $n, a);
                mx!($kb e, "t"; t, _mt, $n, $n, j);
                both::<_, $n, _, _>(e, &mut a, &mut t, &lv);
            });
        )*};
    }
    s!(core array array 1, core slice slice 1, core array slice 2, core cref boxed 2, core boxed rowmajor 3, core slice slice 3, core crowmajor array 4, core cref slice 4, core boxed boxed 5, core slice slice 6, extra slice slice 7, extra array array 8);
    b!(core array array 1, core slice slice 2, core boxed boxed 3, core rowmajor slice 4, extra array array 5, extra slice boxed 6);
    // larger factors: fixed numbers except for some diagonal elements, a row, or a column
    macro_rules! wide {
        ($($ka:ident $kb:ident $n:literal $what:literal $dec:literal),* $(,)?) => {$(
            scen!(v, core, concat!("wide ", $what, " ", stringify!($ka), "->", stringify!($kb), " ", $n, " decompose=", $dec), |e| crate::env::fixing(&["F", "G"], || {
                let lv = partial(e, $n, $what);
                let j = e.mat("t", $n, $n);
                if $dec {
                    let a = spec::llt(&lv, $n);
                    mx!($ka e, "a"; a, _ml, $n, $n, a);
                    mx!($kb e, "t"; t, _mt, $n, $n, j);
                    both::<_, $n, _, _>(e, &mut a, &mut t, &lv);
                } else {
                    mx!($ka e, "l"; l, _ml, $n, $n, lv);
                    mx!($kb e, "t"; t, _mt, $n, $n, j);
                    invert::<_, $n, _, _>(e, &l, &mut t, true);
                }
            }));
        )*};
    }
    wide!(slice boxed 9 "diagonal" false, boxed slice 9 "row" true, slice slice 10 "column" false, boxed boxed 12 "diagonal" true, boxed boxed 13 "row" false,
          slice slice 17 "diagonal" false, boxed boxed 17 "row" true, boxed slice 17 "column" false, boxed boxed 20 "row" false, boxed boxed 24 "diagonal" false,
          boxed boxed 33 "diagonal" false);
    s!(extra boxed boxed 9, extra slice slice 10, extra slice slice 12);
    b!(extra slice boxed 7, extra slice boxed 8, extra slice boxed 10);
    v
}
