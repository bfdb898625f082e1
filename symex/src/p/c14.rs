//! C14: the Cholesky decomposition succeeds exactly on positive definite input.
//!
//! Every symmetric matrix is either L L^T with a positive diagonal (positive
//! definite), or has a first leading pivot that is not positive:
//!   [[ L L^T , L w , * ], [ . , w^T w + c , * ], [ * , * , * ]]   with c <= 0.
//! Both families are covered with all parts symbolic.
use crate::env::Env;
use crate::mx::*;
use crate::{mx, scen, spec};
use num_traits::Zero;

pub fn succeeds<E: Env, const N: usize, A: MatrixMut<N, N, E::T>>(e: &mut E, a: &mut A, l: &[E::T]) {
    let a0 = a.as_slice().to_vec();
    let ok = a.cholesky_decompose_lower();
    e.ok("reports success", ok);
    e.eq_all("factor", &a.as_slice()[..N * N], l);
    e.eq_all("memory behind", &a.as_slice()[N * N..], &a0[N * N..]);
}
pub fn fails<E: Env, const N: usize, A: MatrixMut<N, N, E::T>>(e: &mut E, a: &mut A) {
    let a0 = a.as_slice().to_vec();
    let ok = a.cholesky_decompose_lower();
    e.ok("reports failure", !ok);
    e.eq_all("memory behind", &a.as_slice()[N * N..], &a0[N * N..]);
}
/// first failing pivot at index k
pub fn bad<E: Env>(e: &mut E, n: usize, k: usize) -> Vec<E::T> {
    let mut a = e.symmetric("a", n);
    let l = e.lower("L", k);
    let w = e.vec("w", k);
    let c = e.nonpos("c");
    let lead = spec::llt(&l, k);
    for i in 0..k {
        for j in 0..k {
            a[i * n + j] = lead[i * k + j];
        }
        let mut s = <E::T as Zero>::zero();
        for j in 0..=i {
            s = s + l[i * k + j] * w[j];
        }
        a[i * n + k] = s;
        a[k * n + i] = s;
    }
    let mut s = c;
    for i in 0..k {
        s = s + w[i] * w[i];
    }
    a[k * n + k] = s;
    a
}

#[cfg(feature = "c14")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($core:ident $k:ident $n:literal),* $(,)?) => {$(
            scen!(v, $core, concat!("positive definite ", stringify!($k), " ", $n), |e| {
                let l = e.lower("L", $n);
                let a = spec::llt(&l, $n);
                mx!($k e, "a"; a, _m, $n, $n, a);
                succeeds::<_, $n, _>(e, &mut a, &l);
            });
        )*};
    }
    macro_rules! b {
        ($($core:ident $k:ident $n:literal $p:literal),* $(,)?) => {$(
            scen!(v, $core, concat!("first bad pivot ", $p, " ", stringify!($k), " ", $n), |e| {
                let a = bad(e, $n, $p);
                mx!($k e, "a"; a, _m, $n, $n, a);
                fails::<_, $n, _>(e, &mut a);
            });
        )*};
    }
    macro_rules! f {
        ($($core:ident $n:literal),* $(,)?) => {$(
            scen!(v, $core, concat!("finite ", $n), |e| {
                let a = e.symmetric("a", $n);
                mx!(array e, "a"; a, _m, $n, $n, a);
                if a.cholesky_decompose_lower() {
                    for i in 0..$n * $n {
                        e.finite(&format!("factor[{i}]"), a.as_slice()[i]);
                    }
                }
            });
            v.last_mut().unwrap().fp = true;
        )*};
    }
    s!(core array 1, core slice 1, core boxed 2, core slice 2, core array 3, core rowmajor 3, core slice 4, core arrayx 4, core array 5, core boxed 6, extra slice 7, extra array 8);
    b!(core array 1 0, core slice 2 0, core array 2 1, core boxed 3 0, core slice 3 1, core array 3 2, core array 4 0, core array 4 1, core slice 4 2, core boxed 4 3,
       core slice 5 2, core slice 5 4, core array 6 0, core array 6 3, core array 6 5);
    f!(core 1, core 2, core 3, core 4);
    s!(extra slice 9, extra slice 10, extra boxed 12, extra boxed 16);
    b!(extra slice 7 6, extra slice 8 4, extra array 8 7, extra slice 10 9, extra slice 12 11);
    f!(extra 5);
    // larger matrices with some entries of the factor fixed
    macro_rules! wide {
        ($($k:ident $n:literal $fix:expr),* $(,)?) => {$(
            scen!(v, core, format!("wide positive definite {} {} fixed={:?}", stringify!($k), $n, $fix), |e| crate::env::fixing(&$fix, || {
                let mut l = e.lower("L", $n);
                let d = e.lower("D", $n);
                for i in 0..$n {
                    l[i * $n + i] = d[i * $n + i];
                }
                let a = spec::llt(&l, $n);
                mx!($k e, "a"; a, _m, $n, $n, a);
                succeeds::<_, $n, _>(e, &mut a, &l);
            }));
        )*};
    }
    // the first bad pivot of a larger matrix, its leading part fixed
    macro_rules! wbad {
        ($($k:ident $n:literal $p:literal $fix:expr),* $(,)?) => {$(
            scen!(v, core, format!("wide first bad pivot {} {} {} fixed={:?}", $p, stringify!($k), $n, $fix), |e| crate::env::fixing(&$fix, || {
                let a = bad(e, $n, $p);
                mx!($k e, "a"; a, _m, $n, $n, a);
                fails::<_, $n, _>(e, &mut a);
            }));
        )*};
    }
    wbad!(slice 8 7 ["L"], boxed 9 6 ["L"], array 12 10 ["L"], slice 17 16 ["L"], boxed 20 19 ["L"], boxed 24 17 ["L"], slice 17 9 ["L"], boxed 33 32 ["L", "w"]);
    wide!(boxed 33 ["L", "D"]);
    wide!(slice 17 ["L"], boxed 20 ["D"], boxed 24 ["L", "D"]);
    #[cfg(feature = "thorough")]
    s!(extra slice 17, extra boxed 20);
    #[cfg(feature = "thorough")]
    f!(extra 6);
    v
}
