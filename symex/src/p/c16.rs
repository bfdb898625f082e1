//! C16: element access of every matrix and buffer kind.
use crate::bufs::*;
use crate::env::Env;
use crate::mx::*;
use crate::{each_const_buffer, each_mut_buffer, each_vec_buffer, mx, scen};
use core::ops::{Index, IndexMut};

pub fn reads<E: Env, const R: usize, const K: usize, M>(e: &mut E, p: &str, m: &M, v: &[E::T])
where
    M: Matrix<R, K, E::T> + Index<usize, Output = E::T> + ?Sized,
{
    e.ok(&format!("{p} rows"), m.rows() == R);
    e.ok(&format!("{p} cols"), m.cols() == K);
    let s = m.as_slice().to_vec();
    e.ok(&format!("{p} slice length"), s.len() >= R * K);
    e.eq_all(&format!("{p} slice"), &s[..R * K], v);
    let t = m.inspect(|x| x.as_slice().to_vec());
    e.eq_all(&format!("{p} inspect"), &t, &s);
    for i in 0..R {
        for j in 0..K {
            e.eq(&format!("{p} get_at({i},{j})"), m.get_at(i, j), v[i * K + j]);
            e.eq(&format!("{p} get({i},{j})"), m.get(i, j), v[i * K + j]);
            e.eq(&format!("{p} [{}]", i * K + j), m[i * K + j], v[i * K + j]);
        }
    }
}

/// the matrix without elements
pub fn empty<E: Env>(e: &mut E) {
    let m = MatrixData::empty::<E::T>();
    e.ok("shape", m.rows() == 0 && m.cols() == 0 && m.is_empty() && m.as_slice().is_empty());
}

pub fn writes<E: Env, const R: usize, const K: usize, M>(e: &mut E, p: &str, m: &mut M)
where
    M: MatrixMut<R, K, E::T> + IndexMut<usize> + Index<usize, Output = E::T>,
{
    let big = R * K > 40;
    for acc in 0..5 {
        let name = ["set", "set_at", "index", "slice", "apply"][acc];
        let mut want = m.as_slice().to_vec();
        for i in 0..R {
            for j in 0..K {
                let w = e.junk(&format!("{p} {name} {i},{j}"));
                match acc {
                    0 => m.set(i, j, w),
                    1 => m.set_at(i, j, w),
                    2 => m[i * K + j] = w,
                    3 => m.as_mut_slice()[i * K + j] = w,
                    _ => m.apply(|x| x.set(i, j, w)),
                }
                want[i * K + j] = w;
                e.eq(&format!("{p} {name} read back"), m.get(i, j), w);
                e.eq(&format!("{p} {name} read back (at)"), m.get_at(i, j), w);
                e.eq(&format!("{p} {name} read back (index)"), m[i * K + j], w);
                if !big {
                    let now = m.as_slice().to_vec();
                    e.eq_all(&format!("{p} after {name}({i},{j})"), &now, &want);
                }
            }
        }
        let now = m.as_slice().to_vec();
        e.eq_all(&format!("{p} after all {name}"), &now, &want);
    }
}

pub fn rowvec<E: Env, const N: usize, M>(e: &mut E, m: &mut M)
where
    M: RowVectorMut<N, E::T> + RowVector<N, E::T> + MatrixMut<N, 1, E::T>,
{
    let mut want = m.as_slice().to_vec();
    for i in 0..N {
        e.eq("get_row", m.get_row(i), want[i]);
        let w = e.junk(&format!("set_row {i}"));
        m.set_row(i, w);
        want[i] = w;
        e.eq("get_row after set_row", m.get_row(i), w);
        let now = m.as_slice().to_vec();
        e.eq_all("after set_row", &now, &want);
    }
}

pub fn colvec<E: Env, const N: usize, M>(e: &mut E, m: &mut M)
where
    M: ColumnVectorMut<N, E::T> + ColumnVector<N, E::T> + MatrixMut<1, N, E::T>,
{
    let mut want = m.as_slice().to_vec();
    for i in 0..N {
        e.eq("get_col", m.get_col(i), want[i]);
        let w = e.junk(&format!("set_col {i}"));
        m.set_col(i, w);
        want[i] = w;
        e.eq("get_col after set_col", m.get_col(i), w);
        let now = m.as_slice().to_vec();
        e.eq_all("after set_col", &now, &want);
    }
}

pub fn scalar<E: Env, M>(e: &mut E, m: &mut M)
where
    M: ScalarMut<E::T> + Scalar<E::T> + MatrixMut<1, 1, E::T>,
{
    let mut want = m.as_slice().to_vec();
    e.eq("get_value", m.get_value(), want[0]);
    let w = e.junk("set_value");
    m.set_value(w);
    want[0] = w;
    e.eq("get_value after set_value", m.get_value(), w);
    let now = m.as_slice().to_vec();
    e.eq_all("after set_value", &now, &want);
}

#[cfg(feature = "c16")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    crate::harness::also_any(base, crate::env::Contents::Any, |n| !n.starts_with("huge"))
}
#[cfg(feature = "c16")]
pub fn base() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! w {
        ($($k:ident $r:literal $c:literal),* $(,)?) => {$(
            scen!(v, core, concat!(stringify!($k), " ", $r, "x", $c), |e| {
                let vals = e.mat("v", $r, $c);
                mx!($k e, "m"; m, mem, $r, $c, vals);
                reads::<_, $r, $c, _>(e, "built", &m, &vals);
                writes::<_, $r, $c, _>(e, "m", &mut m);
                let now = m.as_slice()[..$r * $c].to_vec();
                reads::<_, $r, $c, _>(e, "after", &m, &now);
            });
        )*};
    }
    macro_rules! r {
        ($($k:ident $r:literal $c:literal),* $(,)?) => {$(
            scen!(v, core, concat!(stringify!($k), " ", $r, "x", $c), |e| {
                let vals = e.mat("v", $r, $c);
                mx!($k e, "m"; m, mem, $r, $c, vals);
                reads::<_, $r, $c, _>(e, "built", &m, &vals);
            });
        )*};
    }
    w!(array 1 1, array 1 4, array 4 1, array 2 3, array 3 2, array 3 3, array 5 4, array 17 16, arrayx 2 3, arrayx 3 2, arrayx 4 4, boxed 2 3, boxed 3 2, boxed 4 4, boxed 1 5, boxed 5 1, boxed 16 17,
       slice 1 1, slice 2 3, slice 3 2, slice 4 4, slice 5 1, slice 1 5, slice 6 5, slice 3 100, slice 100 3, rowmajor 1 1, rowmajor 2 3, rowmajor 3 2, rowmajor 4 4, rowmajor 5 1, rowmajor 1 5, rowmajor 19 14);
    r!(cref 1 1, cref 2 3, cref 3 2, cref 4 4, cref 5 1, cref 1 5, cref 16 17, crowmajor 1 1, crowmajor 2 3, crowmajor 3 2, crowmajor 4 4, crowmajor 5 1, crowmajor 1 5, crowmajor 17 16);
    macro_rules! vecs {
        ($($k:ident $n:literal),* $(,)?) => {$(
            scen!(v, core, concat!("row vector ", stringify!($k), " ", $n), |e| {
                let vals = e.mat("v", $n, 1);
                mx!($k e, "m"; m, mem, $n, 1, vals);
                rowvec::<_, $n, _>(e, &mut m);
            });
            scen!(v, core, concat!("column vector ", stringify!($k), " ", $n), |e| {
                let vals = e.mat("v", 1, $n);
                mx!($k e, "m"; m, mem, 1, $n, vals);
                colvec::<_, $n, _>(e, &mut m);
            });
            scen!(v, core, concat!("scalar ", stringify!($k), " (", $n, ")"), |e| {
                let vals = e.mat("v", 1, 1);
                mx!($k e, "m"; m, mem, 1, 1, vals);
                scalar(e, &mut m);
            });
        )*};
    }
    vecs!(array 1, array 3, arrayx 4, boxed 3, slice 5, rowmajor 4);
    // more elements than a 16 bit position can tell apart
    macro_rules! huge {
        ($($k:ident $r:literal $c:literal),*) => {$(
            scen!(v, core, concat!("huge ", stringify!($k), " ", $r, "x", $c), |e| {
                let mut want = e.mat("v", $r, $c);
                mx!($k e, "m"; m, mem, $r, $c, want);
                e.ok("shape", m.rows() == $r && m.cols() == $c);
                for p in places($r * $c) {
                    let (i, j) = (p / $c, p % $c);
                    e.eq(&format!("get({i},{j})"), m.get(i, j), want[p]);
                    e.eq(&format!("get_at({i},{j})"), m.get_at(i, j), want[p]);
                    e.eq(&format!("[{p}]"), m[p], want[p]);
                    let w = e.var(&format!("w{p}"));
                    match p % 3 {
                        0 => m.set(i, j, w),
                        1 => m.set_at(i, j, w),
                        _ => m[p] = w,
                    }
                    want[p] = w;
                }
                some(e, "written", &m.as_slice()[..$r * $c], &want);
                for p in places($r * $c) {
                    let (i, j) = (p / $c, p % $c);
                    e.eq(&format!("written get({i},{j})"), m.get(i, j), want[p]);
                    let w = e.var(&format!("u{p}"));
                    match p % 3 {
                        1 => m.set(i, j, w),
                        2 => m.set_at(i, j, w),
                        _ => m[p] = w,
                    }
                    want[p] = w;
                }
                some(e, "written again", &m.as_slice()[..$r * $c], &want);
            });
        )*};
    }
    huge!(slice 257 256, boxed 3 22000, rowmajor 22000 3);
    scen!(v, core, "huge vectors", |e| {
        let (mut r, mut c) = (e.mat("r", 65600, 1), e.mat("c", 1, 65600));
        mx!(slice e, "r"; row, _mr, 65600, 1, r);
        mx!(slice e, "c"; col, _mc, 1, 65600, c);
        for p in places(65600) {
            e.eq(&format!("get_row {p}"), row.get_row(p), r[p]);
            e.eq(&format!("get_col {p}"), col.get_col(p), c[p]);
            r[p] = e.var(&format!("wr{p}"));
            c[p] = e.var(&format!("wc{p}"));
            row.set_row(p, r[p]);
            col.set_col(p, c[p]);
        }
        some(e, "rows", &row.as_slice()[..65600], &r);
        some(e, "columns", &col.as_slice()[..65600], &c);
    });
    // typed buffers
    macro_rules! mb {
        ($t:ident [$($d:literal),*] $r:literal $c:literal) => {
            scen!(v, core, concat!(stringify!($t), " array"), |e| {
                let vals = e.mat("v", $r, $c);
                let mut b = $t::<$($d,)* _, _>::from(arr::<_, { $r * $c }>(vals.clone()));
                reads::<_, $r, $c, _>(e, "built", &b, &vals);
                writes::<_, $r, $c, _>(e, "buffer", &mut b);
                let now = b.as_slice().to_vec();
                reads::<_, $r, $c, _>(e, "inner", b.as_matrix(), &now);
                writes::<_, $r, $c, _>(e, "inner", b.as_matrix_mut());
                let now = b.as_matrix().as_slice().to_vec();
                reads::<_, $r, $c, _>(e, "after", &b, &now);
            });
            scen!(v, core, concat!(stringify!($t), " longer slice"), |e| {
                let vals = e.mat("v", $r, $c);
                let mut mem = [vals.clone(), e.junks("m", 3)].concat();
                let mut b = $t::<$($d,)* _, _>::from(mem.as_mut_slice());
                reads::<_, $r, $c, _>(e, "built", &b, &vals);
                writes::<_, $r, $c, _>(e, "buffer", &mut b);
                let now = b.as_slice()[..$r * $c].to_vec();
                reads::<_, $r, $c, _>(e, "inner", b.as_matrix(), &now);
                writes::<_, $r, $c, _>(e, "inner", b.as_matrix_mut());
                let now = b.as_slice().to_vec();
                drop(b);
                e.eq_all("seen in the borrowed memory", &mem, &now);
            });
        };
    }
    each_mut_buffer!(mb);
    macro_rules! cb {
        ($t:ident [$($d:literal),*] $r:literal $c:literal) => {
            scen!(v, core, concat!(stringify!($t), " array"), |e| {
                let vals = e.mat("v", $r, $c);
                let b = $t::<$($d,)* _, _>::from(arr::<_, { $r * $c }>(vals.clone()));
                reads::<_, $r, $c, _>(e, "buffer", &b, &vals);
                reads::<_, $r, $c, _>(e, "inner", b.as_matrix(), &vals);
            });
            scen!(v, core, concat!(stringify!($t), " longer slice"), |e| {
                let vals = e.mat("v", $r, $c);
                let mut mem = [vals.clone(), e.junks("m", 3)].concat();
                {
                    let b = $t::<$($d,)* _, _>::from(mem.as_slice());
                    reads::<_, $r, $c, _>(e, "buffer", &b, &vals);
                    reads::<_, $r, $c, _>(e, "inner", b.as_matrix(), &vals);
                }
                let b = $t::<$($d,)* _, _>::from(mem.as_mut_slice());
                reads::<_, $r, $c, _>(e, "buffer", &b, &vals);
                reads::<_, $r, $c, _>(e, "inner", b.as_matrix(), &vals);
            });
        };
    }
    each_const_buffer!(cb);
    macro_rules! vb {
        ($t:ident $n:literal) => {
            scen!(v, core, concat!(stringify!($t), " array"), |e| {
                let vals = e.mat("v", $n, 1);
                let mut b = $t::<$n, _, _>::from(arr::<_, $n>(vals.clone()));
                reads::<_, $n, 1, _>(e, "built", &b, &vals);
                writes::<_, $n, 1, _>(e, "buffer", &mut b);
                rowvec::<_, $n, _>(e, &mut b);
                let now = b.as_slice().to_vec();
                reads::<_, $n, 1, _>(e, "inner", b.as_matrix(), &now);
                writes::<_, $n, 1, _>(e, "inner", b.as_matrix_mut());
                let now = b.as_matrix().as_slice().to_vec();
                reads::<_, $n, 1, _>(e, "after", &b, &now);
            });
            scen!(v, core, concat!(stringify!($t), " longer slice"), |e| {
                let vals = e.mat("v", $n, 1);
                let mut mem = [vals.clone(), e.junks("m", 3)].concat();
                let mut b = $t::<$n, _, _>::from(mem.as_mut_slice());
                reads::<_, $n, 1, _>(e, "built", &b, &vals);
                writes::<_, $n, 1, _>(e, "buffer", &mut b);
                rowvec::<_, $n, _>(e, &mut b);
                writes::<_, $n, 1, _>(e, "inner", b.as_matrix_mut());
                let now = b.as_slice().to_vec();
                drop(b);
                e.eq_all("seen in the borrowed memory", &mem, &now);
            });
        };
    }
    each_vec_buffer!(vb);
    // a clone holds the same contents and is a matrix of its own
    macro_rules! cl {
        ($($k:ident $r:literal $c:literal),*) => {$(
            scen!(v, core, concat!("clone ", stringify!($k), " ", $r, "x", $c), |e| {
                let vals = e.mat("v", $r, $c);
                mx!($k e, "m"; m, _mm, $r, $c, vals);
                let mut d = m.clone();
                reads::<_, $r, $c, _>(e, "clone", &d, &vals);
                writes::<_, $r, $c, _>(e, "clone", &mut d);
                reads::<_, $r, $c, _>(e, "original", &m, &vals);
                let now = d.as_slice()[..$r * $c].to_vec();
                writes::<_, $r, $c, _>(e, "original", &mut m);
                reads::<_, $r, $c, _>(e, "clone after", &d, &now);
            });
        )*};
    }
    cl!(array 1 1, array 3 2, arrayx 2 3, boxed 2 3, boxed 17 2);
    scen!(v, core, "clone of a reference", |e| {
        let vals = e.mat("v", 2, 3);
        mx!(cref e, "m"; m, _mm, 2, 3, vals);
        let d = m.clone();
        reads::<_, 2, 3, _>(e, "clone", &d, &vals);
    });
    scen!(v, core, "no elements", |e| empty(e));
    v
}
