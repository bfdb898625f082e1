//! C23: the same results under every combination of crate features and profiles.
//! Run in many build configurations; in each of them every step and operation is
//! compared with the same reference, so all configurations agree with each other.
use super::*;
use crate::env::Env;
use crate::mx::*;
use crate::{mx, scen, spec};

fn steps<E: Env>(e: &mut E) {
    c01::slices::<3, _>(e, false, 2);
    c01::arrays::<2, 4, _>(e, true);
}

pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    scen!(v, core, "predict", |e| steps(e));
    scen!(v, core, "predict_tuned", |e| c02::ra::<2, 4, _>(e, false, 2));
    scen!(v, core, "predict_tuned lambda=1", |e| c02::rs::<2, 4, _>(e, true, 1));
    scen!(v, core, "predict_tuned_nonlinear", |e| c02::ea::<2, 4, _>(e, false, 1));
    scen!(v, core, "predict_nonlinear", |e| c05::arrays::<3, 9, _>(e, false, 2));
    scen!(v, core, "predict_nonlinear slices", |e| c05::slices::<2, 4, _>(e, true, 1));
    scen!(v, core, "control", |e| c03::arrays::<3, 2, 9, 6, 4, _>(e, 0, 3));
    scen!(v, core, "control slices", |e| c03::slices::<2, 3, 4, 6, 9, _>(e, 2, 3));
    scen!(v, core, "correct 1 1", |e| c04::arrays::<1, 1, 1, 1, 1, _>(e, 0));
    scen!(v, core, "correct 3 2", |e| c04::arrays::<3, 2, 9, 6, 4, _>(e, 0));
    scen!(v, core, "correct slices 2 3", |e| c04::slices::<2, 3, _>(e, 3, 2));
    scen!(v, core, "correct_nonlinear 2 2", |e| c06::arrays::<2, 2, 4, 4, 4, _>(e, 0, 1));
    scen!(v, core, "correct_nonlinear slices 3 1", |e| c06::slices::<3, 1, 9, 3, 1, _>(e, 2, 1));
    #[cfg(feature = "alloc")]
    {
        scen!(v, core, "predict boxed", |e| c01::boxed::<3, _>(e, true, 2));
        scen!(v, core, "predict_tuned boxed", |e| c02::rb::<2, 4, _>(e, false, 1));
        scen!(v, core, "predict_nonlinear boxed", |e| c05::boxed::<2, 4, _>(e, false, 2));
        scen!(v, core, "control boxed", |e| c03::boxed::<2, 2, 4, 4, 4, _>(e, 1, 3));
        scen!(v, core, "correct boxed", |e| c04::boxed::<2, 2, _>(e, 0));
        scen!(v, core, "correct_nonlinear boxed", |e| c06::boxed::<2, 1, 4, 2, 1, _>(e, 1, 1));
    }
    macro_rules! s {
        ($($ka:ident $kb:ident $kc:ident $r:literal $k:literal $u:literal),* $(,)?) => {$(
            scen!(v, core, concat!("products ", stringify!($ka), "*", stringify!($kb), "->", stringify!($kc), " ", $r, "x", $k, "*", $k, "x", $u), |e| {
                let (va, vb, vbt, vc) = (e.mat("a", $r, $k), e.mat("b", $k, $u), e.mat("bt", $u, $k), e.mat("c", $r, $u));
                mx!($ka e, "a"; a, ma, $r, $k, va);
                mx!($kb e, "b"; b, mb, $k, $u, vb);
                mx!($kb e, "bt"; bt, mbt, $u, $k, vbt);
                mx!($kc e, "c"; c, mc, $r, $u, vc);
                c12::products::<_, $r, $k, $u, _, _, _, _>(e, &a, &b, &bt, &mut c);
                let (vx, vy, vs) = (e.vec("x", $k), e.vec("y", $r), e.mat("s", $r, $r));
                mx!($kb e, "x"; x, mx, $k, 1, vx);
                mx!($kc e, "y"; y, my, $r, 1, vy);
                mx!($kc e, "s"; s, ms, $r, $r, vs);
                c12::vectors::<_, $r, $k, _, _, _>(e, &a, &x, &mut y);
                c12::same::<_, $r, $k, _, _>(e, &a, &mut s);
            });
        )*};
    }
    s!(array array array 1 1 1, arrayx cref slice 2 3 4, crowmajor array rowmajor 4 2 3, array slice arrayx 3 3 1);
    #[cfg(feature = "alloc")]
    s!(boxed boxed boxed 3 4 2);
    macro_rules! q {
        ($($k:ident $r:literal $c:literal),* $(,)?) => {$(
            scen!(v, core, concat!("elements ", stringify!($k), " ", $r, "x", $c), |e| {
                let (vals, vb, vc) = (e.mat("v", $r, $c), e.mat("b", $r, $c), e.mat("c", $r, $c));
                mx!($k e, "m"; m, mem, $r, $c, vals);
                mx!($k e, "b"; b, mb, $r, $c, vb);
                mx!($k e, "c"; c, mc, $r, $c, vc);
                c16::reads::<_, $r, $c, _>(e, "built", &m, &vals);
                c17::lines::<_, $r, $c, _>(e, &m, &vals);
                c17::whole::<_, $r, $c, _, _>(e, &m, &mut b);
                c17::back::<_, $r, $c, _, _>(e, &m, &mut b);
                c13::sums::<_, $r, $c, _, _, _>(e, &m, &mut b, &mut c);
                c16::writes::<_, $r, $c, _>(e, "m", &mut m);
                c18::fills::<_, $r, $c, _>(e, &mut m);
            });
        )*};
    }
    q!(array 1 1, array 2 3, arrayx 3 2, slice 2 3, rowmajor 3 2, slice 4 1, array 1 4);
    #[cfg(feature = "alloc")]
    q!(boxed 3 2, boxed 2 4);
    macro_rules! ch {
        ($($ka:ident $kb:ident $n:literal),* $(,)?) => {$(
            scen!(v, core, concat!("cholesky ", stringify!($ka), "->", stringify!($kb), " ", $n), |e| {
                let lv = e.lower("L", $n);
                let a = spec::llt(&lv, $n);
                let (j, old) = (e.mat("t", $n, $n), e.mat("old", $n, $n));
                mx!($ka e, "a"; a, _ml, $n, $n, a);
                mx!($kb e, "t"; t, _mt, $n, $n, j);
                c14::succeeds::<_, $n, _>(e, &mut a, &lv);
                c15::invert::<_, $n, _, _>(e, &a, &mut t, false);
                mx!($kb e, "o"; o, _mo, $n, $n, old);
                c18::square::<_, $n, _>(e, &mut o);
            });
            scen!(v, core, concat!("cholesky fails ", stringify!($ka), " ", $n), |e| {
                let a = c14::bad(e, $n, $n - 1);
                mx!($ka e, "a"; a, _m, $n, $n, a);
                c14::fails::<_, $n, _>(e, &mut a);
            });
        )*};
    }
    ch!(array slice 1, slice array 2, arrayx rowmajor 3, array array 4);
    #[cfg(feature = "alloc")]
    ch!(boxed boxed 3);
    v
}
