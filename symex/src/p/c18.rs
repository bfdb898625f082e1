//! C18: fill, identity, scalar, comatrix and symmetric setters.
use crate::env::Env;
use crate::mx::*;
use crate::{mx, scen};
use minikalman::buffers::types::*;
use num_traits::{One, Zero};

/// overwrite the whole backing memory with fresh values; returns them
pub fn fresh<E: Env, const R: usize, const K: usize, M: MatrixMut<R, K, E::T>>(e: &mut E, n: &str, m: &mut M) -> Vec<E::T> {
    let v = e.junks(n, m.as_slice().len());
    m.as_mut_slice().copy_from_slice(&v);
    v
}

pub fn fills<E: Env, const R: usize, const K: usize, M: MatrixMut<R, K, E::T>>(e: &mut E, m: &mut M) {
    let k = R * K;
    let zero = <E::T as Zero>::zero();
    for op in 0..3 {
        let name = ["clear", "set_zero", "set_all"][op];
        let old = fresh(e, name, m);
        let val = match op {
            0 => {
                m.clear();
                zero
            }
            1 => {
                m.set_zero();
                zero
            }
            _ => {
                let x = e.var("fill value");
                m.set_all(x);
                x
            }
        };
        let now = m.as_slice().to_vec();
        e.eq_all(name, &now[..k], &vec![val; k]);
        e.eq_all(&format!("{name}: memory behind"), &now[k..], &old[k..]);
    }
    // at every valid pair of positions
    for i in 0..R.min(K) {
        for j in 0..R.min(K) {
            let mut want = fresh(e, &format!("sym {i} {j}"), m);
            let x = e.var(&format!("symmetric {i} {j}"));
            m.set_symmetric(i, j, x);
            want[i * K + j] = x;
            want[j * K + i] = x;
            let now = m.as_slice().to_vec();
            e.eq_all(&format!("set_symmetric({i},{j})"), &now, &want);
        }
    }
}

pub fn square<E: Env, const N: usize, M: MatrixMut<N, N, E::T> + SquareMatrixMut<N, E::T>>(e: &mut E, m: &mut M) {
    let zero = <E::T as Zero>::zero();
    let one = <E::T as One>::one();
    let (d, o) = (e.var("diagonal"), e.var("off-diagonal"));
    for op in 0..4 {
        let name = ["make_identity", "make_scalar", "set_diagonal_to_scalar", "make_comatrix"][op];
        let mut want = fresh(e, name, m);
        match op {
            0 => m.make_identity(),
            1 => m.make_scalar(d),
            2 => m.set_diagonal_to_scalar(d),
            _ => m.make_comatrix(d, o),
        }
        for i in 0..N {
            for j in 0..N {
                let w = &mut want[i * N + j];
                *w = match (op, i == j) {
                    (0, true) => one,
                    (0, false) => zero,
                    (1, true) => d,
                    (1, false) => zero,
                    (2, true) => d,
                    (2, false) => *w,
                    (_, true) => d,
                    (_, false) => o,
                };
            }
        }
        let now = m.as_slice().to_vec();
        e.eq_all(name, &now, &want);
    }
}

#[cfg(feature = "c18")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    crate::harness::also_any(base, crate::env::Contents::Any, |n| !n.starts_with("huge"))
}
#[cfg(feature = "c18")]
pub fn base() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! f {
        ($($k:ident $r:literal $c:literal),* $(,)?) => {$(
            scen!(v, core, concat!("fill ", stringify!($k), " ", $r, "x", $c), |e| {
                let vals = e.mat("v", $r, $c);
                mx!($k e, "m"; m, mem, $r, $c, vals);
                fills::<_, $r, $c, _>(e, &mut m);
            });
        )*};
    }
    f!(array 1 1, slice 1 1, slice 1 4, boxed 4 1, array 2 2, arrayx 2 3, slice 3 2, rowmajor 3 3, boxed 3 4, slice 4 3, arrayx 5 5, slice 6 6, boxed 16 3, rowmajor 3 16, slice 2 130, boxed 130 2, array 1 257);
    macro_rules! q {
        ($($k:ident $n:literal),* $(,)?) => {$(
            scen!(v, core, concat!("square ", stringify!($k), " ", $n), |e| {
                let vals = e.mat("v", $n, $n);
                mx!($k e, "m"; m, mem, $n, $n, vals);
                square::<_, $n, _>(e, &mut m);
            });
        )*};
    }
    q!(array 1, slice 1, array 2, slice 2, boxed 3, arrayx 3, rowmajor 3, slice 4, boxed 5, arrayx 5, slice 6, rowmajor 7, array 8, boxed 16, slice 17);
    // more elements than a 16 bit position can tell apart
    macro_rules! huge {
        ($($k:ident $n:literal),*) => {$(
            scen!(v, core, concat!("huge ", stringify!($k), " ", $n, "x", $n), |e| {
                let old = e.mat("v", $n, $n);
                mx!($k e, "m"; m, mem, $n, $n, old);
                let (zero, one) = (<_ as Zero>::zero(), <_ as One>::one());
                let (d, o, x) = (e.var("diagonal"), e.var("off-diagonal"), e.var("fill"));
                let diag = |d, o: Option<_>| -> Vec<_> { (0..$n * $n).map(|i| if i / $n == i % $n { d } else { o.unwrap_or(old[i]) }).collect() };
                for op in 0..7 {
                    m.as_mut_slice()[..$n * $n].copy_from_slice(&old);
                    let (name, want) = match op {
                        0 => { m.make_identity(); ("make_identity", diag(one, Some(zero))) }
                        1 => { m.make_scalar(d); ("make_scalar", diag(d, Some(zero))) }
                        2 => { m.set_diagonal_to_scalar(d); ("set_diagonal_to_scalar", diag(d, None)) }
                        3 => { m.make_comatrix(d, o); ("make_comatrix", diag(d, Some(o))) }
                        4 => { m.clear(); ("clear", vec![zero; $n * $n]) }
                        5 => { m.set_zero(); ("set_zero", vec![zero; $n * $n]) }
                        _ => { m.set_all(x); ("set_all", vec![x; $n * $n]) }
                    };
                    some(e, name, &m.as_slice()[..$n * $n], &want);
                    let now: Vec<_> = (0..$n).map(|i| m.as_slice()[i * $n + i]).collect();
                    let w: Vec<_> = (0..$n).map(|i| want[i * $n + i]).collect();
                    some(e, &format!("{name}, the diagonal"), &now, &w);
                }
                let mut want = vec![x; $n * $n];
                for (i, j) in [(0, 255), (1, 255), (255, 255), (256, 0), (256, 255), (255, 256), (256, 256), ($n - 1, 3), (2, $n - 1), ($n - 1, $n - 2)] {
                    let w = e.var(&format!("symmetric {i} {j}"));
                    m.set_symmetric(i, j, w);
                    want[i * $n + j] = w;
                    want[j * $n + i] = w;
                }
                some(e, "set_symmetric", &m.as_slice()[..$n * $n], &want);
                for (i, j) in [(0, 255), (255, 0), (1, 255), (255, 1), (255, 255), (256, 0), (0, 256), (256, 255), (255, 256), (256, 256), ($n - 1, 3), (3, $n - 1), (2, $n - 1), ($n - 1, 2), ($n - 1, $n - 2), ($n - 2, $n - 1)] {
                    e.eq(&format!("set_symmetric ({i},{j})"), m.as_slice()[i * $n + j], want[i * $n + j]);
                }
            });
        )*};
    }
    huge!(slice 257, boxed 260);
    scen!(v, core, "typed buffers", |e| {
        let vals = e.mat("v", 3, 3);
        let mut p = EstimateCovarianceMatrixBuffer::<3, _, _>::from(arr::<_, 9>(vals.clone()));
        fills::<_, 3, 3, _>(e, &mut p);
        square::<_, 3, _>(e, &mut p);
        let mut mem = [e.mat("w", 2, 4), e.junks("m", 3)].concat();
        let mut h = ObservationMatrixMutBuffer::<2, 4, _, _>::from(mem.as_mut_slice());
        fills::<_, 2, 4, _>(e, &mut h);
        let mut mem = [e.mat("q", 2, 2), e.junks("mq", 3)].concat();
        let mut q = ControlProcessNoiseCovarianceMatrixMutBuffer::<2, _, _>::from(mem.as_mut_slice());
        square::<_, 2, _>(e, &mut q);
        let mut mem = [e.mat("z", 5, 1), e.junks("mz", 3)].concat();
        let mut z = MeasurementVectorBuffer::<5, _, _>::from(mem.as_mut_slice());
        fills::<_, 5, 1, _>(e, &mut z);
    });
    v
}
