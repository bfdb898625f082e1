//! C11: independent measurements may be applied jointly or one by one.
//!
//! Joint S = [[S00, .], [H1 P H0^T, S11]] with cross noise zero.  With the blocks
//! of its Cholesky factor L as parameters: R00 = L00 L00^T - H0 P H0^T,
//! L10 = (H1 P H0^T) L00^-T, R11 = L10 L10^T + L11 L11^T - H1 P H1^T.
use crate::env::Env;
use crate::kf::*;
use crate::{history, ld, rd, scen, setup_f, setup_o, spec};
use minikalman::extended::*;
use minikalman::matrix::MatrixDataType;
use minikalman::regular::*;

macro_rules! body {
    ($kind:ident, $e:ident, $N:ident, $M0:ident, $M1:ident, $M:ident, $NN:ident, $NM0:ident, $NM1:ident, $NM:ident, $MM0:ident, $MM1:ident, $MM:ident, $swap:expr, $ekf:expr) => {{
        setup_f!($kind regular $e, "j.", $N, $NN; fj);
        setup_f!($kind regular $e, "s.", $N, $NN; fs);
        setup_o!($kind regular $e, "j.", $N, $M, $NN, $NM, $MM; oj);
        setup_f!($kind extended $e, "ej.", $N, $NN; gj);
        setup_f!($kind extended $e, "es.", $N, $NN; gs);
        setup_o!($kind extended $e, "ej.", $N, $M, $NN, $NM, $MM; wj);
        history!(regular $e, fj, $N; observe oj, $M);
        history!(extended $e, gj, $N; observe wj, $M);
        let (n, m0, m1, m) = ($N, $M0, $M1, $M);
        let x = $e.vec("x", n);
        let p = $e.symmetric("P", n);
        let h0 = $e.mat("H0", m0, n);
        let h1 = $e.mat("H1", m1, n);
        let z0 = $e.vec("z0", m0);
        let z1 = $e.vec("z1", m1);
        let l00 = $e.lower("L00", m0);
        let l11 = $e.lower("L11", m1);
        let s10 = spec::mul(&h1, &spec::mul(&p, &spec::tr(&h0, m0, n), n, n, m0), m1, n, m0);
        let l10 = spec::mul(&s10, &spec::tr(&spec::linv(&l00, m0), m0, m0), m1, m0, m0);
        let r0 = spec::sub(&spec::llt(&l00, m0), &spec::sandwich(&h0, &p, m0, n));
        let r1 = spec::sub(
            &spec::add(&spec::mul(&l10, &spec::tr(&l10, m1, m0), m1, m0, m1), &spec::llt(&l11, m1)),
            &spec::sandwich(&h1, &p, m1, n),
        );
        if $swap && m0 == 1 && m1 == 1 {
            // the pivots of the reversed order in closed form (lemma for the solver)
            let s1 = (l10[0] * l10[0] + l11[0] * l11[0]).square_root();
            let s0 = l00[0] * l11[0] / s1;
            let hp = spec::mul(&h1, &p, 1, n, n);
            let ph = spec::mul(&p, &spec::tr(&h1, 1, n), n, n, 1);
            let p1 = spec::sub(&p, &spec::mul(&ph, &spec::scale(&hp, <E::T as num_traits::One>::one() / (s1 * s1)), n, 1, n));
            let s00 = spec::add(&spec::sandwich(&h0, &p1, 1, n), &r0)[0];
            $e.eq("pivot of the reversed order", s00, s0 * s0);
        }
        // stacked measurement; swap: blocks of the joint measurement in the order they are applied one by one reversed
        let mut r = vec![<E::T as num_traits::Zero>::zero(); m * m];
        for i in 0..m0 {
            for j in 0..m0 {
                r[i * m + j] = r0[i * m0 + j];
            }
        }
        for i in 0..m1 {
            for j in 0..m1 {
                r[(m0 + i) * m + m0 + j] = r1[i * m1 + j];
            }
        }
        let h = [h0.clone(), h1.clone()].concat();
        let z = [z0.clone(), z1.clone()].concat();
        macro_rules! one {
            ($MX:ident, $NMX:ident, $MMX:ident, $hh:expr, $zz:expr, $rr:expr, $name:literal) => {{
                if $ekf {
                    setup_o!($kind extended $e, $name, $N, $MX, $NN, $NMX, $MMX; w);
                    ld!(w.observation_jacobian_matrix_mut(), $hh);
                    ld!(w.measurement_vector_mut(), $zz);
                    ld!(w.measurement_noise_covariance_mut(), $rr);
                    gs.correct_nonlinear(&mut w, |x, y| set_col::<$MX, _, _>(y, &spec::mul(&$hh, &col::<$N, _, _>(x), $MX, n, 1)));
                } else {
                    setup_o!($kind regular $e, $name, $N, $MX, $NN, $NMX, $MMX; o);
                    ld!(o.observation_matrix_mut(), $hh);
                    ld!(o.measurement_vector_mut(), $zz);
                    ld!(o.measurement_noise_covariance_mut(), $rr);
                    fs.correct(&mut o);
                }
            }};
        }
        if $ekf {
            ld!(gj.state_vector_mut(), x);
            ld!(gj.estimate_covariance_mut(), p);
            ld!(gs.state_vector_mut(), x);
            ld!(gs.estimate_covariance_mut(), p);
            ld!(wj.observation_jacobian_matrix_mut(), h);
            ld!(wj.measurement_vector_mut(), z);
            ld!(wj.measurement_noise_covariance_mut(), r);
            gj.correct_nonlinear(&mut wj, |x, y| set_col::<$M, _, _>(y, &spec::mul(&h, &col::<$N, _, _>(x), m, n, 1)));
        } else {
            ld!(fj.state_vector_mut(), x);
            ld!(fj.estimate_covariance_mut(), p);
            ld!(fs.state_vector_mut(), x);
            ld!(fs.estimate_covariance_mut(), p);
            ld!(oj.observation_matrix_mut(), h);
            ld!(oj.measurement_vector_mut(), z);
            ld!(oj.measurement_noise_covariance_mut(), r);
            fj.correct(&mut oj);
        }
        if $swap {
            one!($M1, $NM1, $MM1, h1, z1, r1, "o1.");
            one!($M0, $NM0, $MM0, h0, z0, r0, "o0.");
        } else {
            one!($M0, $NM0, $MM0, h0, z0, r0, "o0.");
            one!($M1, $NM1, $MM1, h1, z1, r1, "o1.");
        }
        if $ekf {
            $e.eq_all("x", &rd!(gs.state_vector(), n), &rd!(gj.state_vector(), n));
            $e.eq_all("P", &rd!(gs.estimate_covariance(), n * n), &rd!(gj.estimate_covariance(), n * n));
        } else {
            $e.eq_all("x", &rd!(fs.state_vector(), n), &rd!(fj.state_vector(), n));
            $e.eq_all("P", &rd!(fs.estimate_covariance(), n * n), &rd!(fj.estimate_covariance(), n * n));
        }
    }};
}
macro_rules! kinds {
    ($($f:ident $kind:ident),*) => {$(
        #[allow(unused)]
        fn $f<const N: usize, const M0: usize, const M1: usize, const M: usize, const NN: usize, const NM0: usize, const NM1: usize, const NM: usize,
              const MM0: usize, const MM1: usize, const MM: usize, E: Env>(e: &mut E, swap: bool, ekf: bool) {
            body!($kind, e, N, M0, M1, M, NN, NM0, NM1, NM, MM0, MM1, MM, swap, ekf)
        }
    )*};
}
kinds!(boxed boxed, slices slices, arrays arrays);

#[cfg(feature = "c11")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($k:ident $f:ident $n:literal $a:literal $b:literal $sw:literal $ekf:literal),* $(,)?) => {$(
            scen!(v, $k, concat!(stringify!($f), " n=", $n, " m=", $a, "+", $b, " swap=", $sw, " ekf=", $ekf),
                |e| $f::<$n, $a, $b, {$a+$b}, {$n*$n}, {$n*$a}, {$n*$b}, {$n*($a+$b)}, {$a*$a}, {$b*$b}, {($a+$b)*($a+$b)}, _>(e, $sw, $ekf));
        )*};
    }
    s!(core arrays 1 1 1 false false, core boxed 2 1 1 false false, core slices 3 1 1 false false, core arrays 2 1 1 false true, core boxed 3 1 1 false true,
       core arrays 4 1 1 false false,
       extra arrays 2 2 1 false false, extra arrays 2 1 2 false false, extra boxed 1 1 1 true false, extra boxed 1 1 1 true true);
    // larger dimensions with part of the inputs fixed
    macro_rules! wide {
        ($($f:ident $n:literal $a:literal $b:literal $sw:literal $ekf:literal $fix:expr),* $(,)?) => {$(
            scen!(v, core, format!("wide {} n={} m={}+{} swap={} ekf={} fixed={:?}", stringify!($f), $n, $a, $b, $sw, $ekf, $fix), |e|
                crate::env::fixing(&$fix, || $f::<$n, $a, $b, {$a+$b}, {$n*$n}, {$n*$a}, {$n*$b}, {$n*($a+$b)}, {$a*$a}, {$b*$b}, {($a+$b)*($a+$b)}, _>(e, $sw, $ekf)));
        )*};
    }
    wide!(arrays 2 2 1 false false ["H", "L"], arrays 3 2 2 false false ["H", "L", "P"], boxed 4 2 2 false true ["H", "P"], boxed 3 1 2 false true ["H", "P"],
        arrays 4 3 2 false false ["H", "P", "L"], arrays 6 2 3 false false ["H", "P", "L"], arrays 4 1 1 false false ["H", "L"], boxed 6 1 1 false true ["H", "L"],
        arrays 3 1 1 false false ["L", "P"], arrays 3 1 3 true false ["H", "P", "L"]);
    macro_rules! long {
        ($($f:ident $n:literal $a:literal $b:literal $ekf:literal $k:expr),* $(,)?) => {$(
            scen!(v, core, format!("long after {} uses {} n={} m={}+{} ekf={}", $k, stringify!($f), $n, $a, $b, $ekf),
                |e| long_after($k, || $f::<$n, $a, $b, {$a+$b}, {$n*$n}, {$n*$a}, {$n*$b}, {$n*($a+$b)}, {$a*$a}, {$b*$b}, {($a+$b)*($a+$b)}, _>(e, false, $ekf)));
        )*};
    }
    long!(boxed 1 1 1 false 300, boxed 1 1 1 true 300, arrays 1 1 1 false 5_000, slices 2 1 1 true 5_000, boxed 1 1 1 false 20_000);
    #[cfg(feature = "thorough")]
    s!(extra boxed 3 2 1 false false, extra boxed 3 1 2 false true, extra boxed 2 2 2 false false, extra boxed 2 1 1 true false, extra boxed 6 1 1 false false);
    v
}
