//! C26: the nalgebra view of an array-backed matrix (features nalgebra + unsafe).
use crate::env::Env;
use crate::kf::arr;
use crate::mx::*;
use crate::scen;
use nalgebra as na;
use std::panic::{catch_unwind, AssertUnwindSafe};

type View<T, const R: usize, const K: usize, const TOTAL: usize> = na::Matrix<T, na::Const<R>, na::Const<K>, MatrixDataArray<R, K, TOTAL, T>>;

/// every way of looking at the view agrees with `v` (row-major)
fn looks<E: Env, const R: usize, const K: usize, const TOTAL: usize>(e: &mut E, p: &str, m: &View<E::T, R, K, TOTAL>, v: &[E::T]) {
    e.ok(&format!("{p} shape"), m.shape() == (R, K) && m.nrows() == R && m.ncols() == K && m.len() == R * K);
    let mut it = m.iter();
    for j in 0..K {
        for i in 0..R {
            let w = v[i * K + j];
            e.eq(&format!("{p} [({i},{j})]"), m[(i, j)], w);
            // nalgebra counts elements column by column
            e.eq(&format!("{p} [{}]", j * R + i), m[j * R + i], w);
            e.eq(&format!("{p} index({i},{j})"), *m.index((i, j)), w);
            match m.get((i, j)) {
                Some(x) => e.eq(&format!("{p} get({i},{j})"), *x, w),
                None => e.ok(&format!("{p} get({i},{j})"), false),
            }
            match it.next() {
                Some(x) => e.eq(&format!("{p} iter({i},{j})"), *x, w),
                None => e.ok(&format!("{p} iter({i},{j})"), false),
            }
            e.eq(&format!("{p} view({i},{j})"), m.view((i, j), (1, 1))[(0, 0)], w);
            e.eq(&format!("{p} row({i})[{j}]"), m.row(i)[j], w);
            e.eq(&format!("{p} column({j})[{i}]"), m.column(j)[i], w);
        }
    }
    e.ok(&format!("{p} iter ends"), it.next().is_none());
    // exactly the matrix' own elements, not what lies behind them
    e.ok(&format!("{p} slice length"), m.as_slice().len() == R * K);
    if R == 1 || K == 1 {
        e.eq_all(&format!("{p} slice"), m.as_slice(), v);
    }
    e.ok(&format!("{p} get outside"), m.get((R, 0)).is_none() && m.get((0, K)).is_none());
    let mut count = 0;
    for (i, row) in m.row_iter().enumerate() {
        for (j, x) in row.iter().enumerate() {
            e.eq(&format!("{p} row_iter({i},{j})"), *x, v[i * K + j]);
            count += 1;
        }
    }
    for (j, col) in m.column_iter().enumerate() {
        for (i, x) in col.iter().enumerate() {
            e.eq(&format!("{p} column_iter({i},{j})"), *x, v[i * K + j]);
            count += 1;
        }
    }
    e.ok(&format!("{p} iterators cover everything"), count == 2 * R * K);
}

fn copies<E: Env, const R: usize, const K: usize, const TOTAL: usize>(e: &mut E, m: &View<E::T, R, K, TOTAL>, v: &[E::T]) {
    let t: na::SMatrix<E::T, K, R> = m.transpose();
    let c: na::SMatrix<E::T, R, K> = m.map(|x| x);
    for i in 0..R {
        for j in 0..K {
            e.eq(&format!("transpose({j},{i})"), t[(j, i)], v[i * K + j]);
            e.eq(&format!("map({i},{j})"), c[(i, j)], v[i * K + j]);
        }
    }
}

fn reshaped<E: Env, const R: usize, const K: usize, const TOTAL: usize>(e: &mut E, tail: usize) {
    let v = e.mat("v", R, K);
    let t = e.junks("tail", tail);
    let all = [v.clone(), t.clone()].concat();
    let data = MatrixData::new_array::<R, K, TOTAL, E::T>(arr::<_, TOTAL>(all.clone()));
    let mut m: View<E::T, R, K, TOTAL> = na::Matrix::from_data(data);
    looks::<E, R, K, TOTAL>(e, "built", &m, &v);
    copies::<E, R, K, TOTAL>(e, &m, &v);
    // this library still sees the same matrix
    for i in 0..R {
        for j in 0..K {
            e.eq(&format!("get_at({i},{j})"), m.data.get_at(i, j), v[i * K + j]);
        }
    }
    // and its changes show in the view
    let w = e.mat("w", R, K);
    for i in 0..R {
        for j in 0..K {
            m.data.set_at(i, j, w[i * K + j]);
        }
    }
    looks::<E, R, K, TOTAL>(e, "changed", &m, &w);
    let x = e.var("fill");
    m.data.set_all(x);
    looks::<E, R, K, TOTAL>(e, "filled", &m, &vec![x; R * K]);
    e.eq_all("memory behind", &m.data.as_slice()[R * K..], &t);
    use minikalman::matrix::IntoInnerData;
    let back = m.data.into_inner();
    e.eq_all("memory behind given back", &back[R * K..], &t);
}

/// an array with too few elements: construction or any look at the data is refused
fn undersized<E: Env, const R: usize, const K: usize, const TOTAL: usize>(e: &mut E) {
    let v = e.junks("v", TOTAL);
    let data = catch_unwind(AssertUnwindSafe(|| MatrixData::new_array::<R, K, TOTAL, E::T>(arr::<_, TOTAL>(v.clone()))));
    let Ok(data) = data else { return e.ok("construction refused", true) };
    let m: View<E::T, R, K, TOTAL> = na::Matrix::from_data(data);
    // positions that lie outside of the array
    for i in 0..R {
        for j in 0..K {
            if i * K + j >= TOTAL {
                e.ok(&format!("[({i},{j})] refused"), catch_unwind(AssertUnwindSafe(|| m[(i, j)])).is_err());
                e.ok(&format!("get({i},{j}) refused"), catch_unwind(AssertUnwindSafe(|| m.get((i, j)).is_some())).unwrap_or(false) == false);
            }
        }
    }
    e.ok("iteration refused", catch_unwind(AssertUnwindSafe(|| m.iter().count() > TOTAL)).unwrap_or(false) == false);
    e.ok("slice refused", catch_unwind(AssertUnwindSafe(|| m.as_slice().len() > TOTAL)).unwrap_or(false) == false);
}

pub fn scenarios() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($r:literal $k:literal $t:literal),* $(,)?) => {$(
            scen!(v, core, concat!("view ", $r, "x", $k, " + ", $t), |e| reshaped::<_, $r, $k, { $r * $k + $t }>(e, $t));
        )*};
    }
    s!(1 1 0, 1 4 0, 4 1 0, 2 2 0, 2 3 0, 3 2 0, 3 3 0, 4 3 0, 3 4 0, 5 5 0, 2 7 0, 7 2 0,
       1 1 2, 1 3 2, 3 1 2, 2 3 1, 3 2 5, 4 4 3, 16 17 0, 17 16 2);
    macro_rules! u {
        ($($r:literal $k:literal $t:literal),* $(,)?) => {$(
            scen!(v, core, concat!("undersized ", $r, "x", $k, " in ", $t), |e| undersized::<_, $r, $k, $t>(e));
        )*};
    }
    u!(1 1 0, 2 2 3, 2 3 5, 3 2 1, 4 4 4, 1 5 4, 5 1 0);
    scen!(v, core, "coordinates of a non-vector view", |e| {
        let x = e.mat("v", 2, 2);
        let m: View<_, 2, 2, 4> = na::Matrix::from_data(MatrixData::new_array::<2, 2, 4, _>(arr::<_, 4>(x.clone())));
        e.eq("m11", m.m11, x[0]);
        e.eq("m12", m.m12, x[1]);
        e.eq("m21", m.m21, x[2]);
        e.eq("m22", m.m22, x[3]);
    });
    scen!(v, core, "coordinates of a vector view", |e| {
        let x = e.vec("v", 3);
        let m: View<_, 3, 1, 3> = na::Matrix::from_data(MatrixData::new_array::<3, 1, 3, _>(arr::<_, 3>(x.clone())));
        e.eq("x", m.x, x[0]);
        e.eq("y", m.y, x[1]);
        e.eq("z", m.z, x[2]);
        e.eq_all("as_slice", m.as_slice(), &x);
        let r: View<_, 1, 3, 3> = na::Matrix::from_data(MatrixData::new_array::<1, 3, 3, _>(arr::<_, 3>(x.clone())));
        e.eq_all("as_slice of a row", r.as_slice(), &x);
    });
    v
}
