//! C17: row, column and whole-matrix copies.
use crate::env::Env;
use crate::mx::*;
use crate::{mx, scen};
use minikalman::buffers::types::*;

/// row and column copies into exactly sized and longer targets holding arbitrary values
pub fn lines<E: Env, const R: usize, const K: usize, M: Matrix<R, K, E::T>>(e: &mut E, m: &M, v: &[E::T]) {
    let all = m.as_slice().to_vec();
    for extra in [0, 2] {
        for i in 0..R {
            let mut t = e.junks(&format!("row{i}+{extra}"), K + extra);
            let t0 = t.clone();
            m.get_row_copy(i, &mut t);
            e.eq_all(&format!("row {i}"), &t[..K], &v[i * K..(i + 1) * K]);
            e.eq_all(&format!("behind row {i}"), &t[K..], &t0[K..]);
        }
        for j in 0..K {
            let mut t = e.junks(&format!("col{j}+{extra}"), R + extra);
            let t0 = t.clone();
            m.get_column_copy(j, &mut t);
            let w: Vec<E::T> = (0..R).map(|i| v[i * K + j]).collect();
            e.eq_all(&format!("column {j}"), &t[..R], &w);
            e.eq_all(&format!("behind column {j}"), &t[R..], &t0[R..]);
        }
    }
    e.eq_all("source unchanged", m.as_slice(), &all);
}

pub fn whole<E: Env, const R: usize, const K: usize, A, B>(e: &mut E, a: &A, b: &mut B)
where
    A: Matrix<R, K, E::T>,
    B: MatrixMut<R, K, E::T>,
{
    let a0 = a.as_slice().to_vec();
    for k in 0..2 {
        let n = b.as_slice().len();
        let t0 = e.junks(&format!("target{k}"), n);
        b.as_mut_slice().copy_from_slice(&t0);
        #[allow(deprecated)]
        if k == 0 {
            a.copy_to(b)
        } else {
            a.copy(b)
        }
        e.eq_all("copy", &b.as_slice()[..R * K], &a0[..R * K]);
        e.eq_all("memory behind the copy", &b.as_slice()[R * K..], &t0[R * K..]);
        e.eq_all("source unchanged", a.as_slice(), &a0);
    }
}

pub fn back<E: Env, const R: usize, const K: usize, A, B>(e: &mut E, a: &A, b: &mut B)
where
    A: MatrixMut<R, K, E::T>,
    B: MatrixMut<R, K, E::T>,
{
    let a0 = a.as_slice().to_vec();
    let n = b.as_slice().len();
    let t0 = e.junks("from", n);
    b.as_mut_slice().copy_from_slice(&t0);
    b.copy_from(a);
    e.eq_all("copy_from", &b.as_slice()[..R * K], &a0[..R * K]);
    e.eq_all("memory behind copy_from", &b.as_slice()[R * K..], &t0[R * K..]);
    e.eq_all("source of copy_from unchanged", a.as_slice(), &a0);
}

#[cfg(feature = "c17")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    crate::harness::also_any(base, crate::env::Contents::Any, |n| !n.starts_with("huge"))
}
#[cfg(feature = "c17")]
pub fn base() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! l {
        ($($k:ident $r:literal $c:literal),* $(,)?) => {$(
            scen!(v, core, concat!("lines ", stringify!($k), " ", $r, "x", $c), |e| {
                let vals = e.mat("v", $r, $c);
                mx!($k e, "m"; m, mem, $r, $c, vals);
                lines::<_, $r, $c, _>(e, &m, &vals);
            });
        )*};
    }
    l!(array 1 1, cref 1 1, array 1 4, slice 4 1, boxed 1 3, rowmajor 3 1, array 2 2, array 2 3, slice 3 2, cref 2 4, boxed 4 2, crowmajor 3 5, rowmajor 5 3, arrayx 4 4, arrayx 2 5, slice 5 5, cref 6 4, boxed 4 7, slice 9 8, boxed 16 17, cref 100 3, array 3 100, slice 1 33, slice 33 1);
    macro_rules! w {
        ($($ka:ident $kb:ident $r:literal $c:literal),* $(,)?) => {$(
            scen!(v, core, concat!("copy_to ", stringify!($ka), "->", stringify!($kb), " ", $r, "x", $c), |e| {
                let (va, vb) = (e.mat("v", $r, $c), e.mat("t", $r, $c));
                mx!($ka e, "a"; a, ma, $r, $c, va);
                mx!($kb e, "b"; b, mb, $r, $c, vb);
                whole::<_, $r, $c, _, _>(e, &a, &mut b);
            });
        )*};
    }
    w!(array array 1 1, slice slice 1 1, cref slice 1 4, crowmajor rowmajor 4 1, cref boxed 2 3, array slice 3 2, slice array 2 2, boxed arrayx 3 4, arrayx slice 4 3, rowmajor rowmajor 3 3, slice slice 5 5, boxed boxed 4 6, cref array 7 2, slice slice 16 17, boxed array 17 16, array boxed 2 130, slice rowmajor 130 2);
    macro_rules! b {
        ($($ka:ident $kb:ident $r:literal $c:literal),* $(,)?) => {$(
            scen!(v, core, concat!("copy_from ", stringify!($ka), "->", stringify!($kb), " ", $r, "x", $c), |e| {
                let (va, vb) = (e.mat("v", $r, $c), e.mat("t", $r, $c));
                mx!($ka e, "a"; a, ma, $r, $c, va);
                mx!($kb e, "b"; b, mb, $r, $c, vb);
                back::<_, $r, $c, _, _>(e, &a, &mut b);
            });
        )*};
    }
    b!(array array 1 1, slice slice 1 4, arrayx rowmajor 4 1, slice boxed 2 3, array slice 3 2, slice array 2 2, boxed arrayx 3 4, rowmajor slice 4 3, rowmajor rowmajor 3 3, slice slice 5 5, boxed boxed 4 6, slice slice 16 17);
    // more elements than a 16 bit position can tell apart
    macro_rules! huge {
        ($($ka:ident $kb:ident $r:literal $c:literal),*) => {$(
            scen!(v, core, concat!("huge ", stringify!($ka), "->", stringify!($kb), " ", $r, "x", $c), |e| {
                let (va, vb) = (e.mat("v", $r, $c), e.mat("t", $r, $c));
                mx!($ka e, "a"; a, ma, $r, $c, va);
                mx!($kb e, "b"; b, mb, $r, $c, vb);
                for i in [0, 1, 127, 128, 254, 255, 256, $r / 2, $r - 2, $r - 1].into_iter().filter(|i| *i < $r) {
                    let mut t = e.junks(&format!("row{i}"), $c);
                    a.get_row_copy(i, &mut t);
                    some(e, &format!("row {i}"), &t, &va[i * $c..(i + 1) * $c]);
                }
                for j in [0, 1, 127, 128, 254, 255, 256, $c / 2, $c - 2, $c - 1].into_iter().filter(|j| *j < $c) {
                    let mut t = e.junks(&format!("col{j}"), $r);
                    a.get_column_copy(j, &mut t);
                    let w: Vec<_> = (0..$r).map(|i| va[i * $c + j]).collect();
                    some(e, &format!("column {j}"), &t, &w);
                }
                a.copy_to(&mut b);
                some(e, "copy_to", &b.as_slice()[..$r * $c], &va);
                b.as_mut_slice()[..$r * $c].copy_from_slice(&vb);
                b.copy_from(&a);
                some(e, "copy_from", &b.as_slice()[..$r * $c], &va);
                some(e, "source unchanged", &a.as_slice()[..$r * $c], &va);
            });
        )*};
    }
    huge!(slice boxed 257 256, boxed slice 3 22000, rowmajor boxed 22000 3);
    // typed buffers as source and target
    scen!(v, core, "typed buffers", |e| {
        let vals = e.mat("v", 3, 2);
        let old = e.mat("t", 3, 2);
        let mut mem = [old.clone(), e.junks("m", 3)].concat();
        let tail = mem[6..].to_vec();
        let mut b = ControlMatrixMutBuffer::<3, 2, _, _>::from(arr::<_, 6>(vals.clone()));
        let mut t = TemporaryBQMatrixBuffer::<3, 2, _, _>::from(mem.as_mut_slice());
        lines::<_, 3, 2, _>(e, &b, &vals);
        lines::<_, 3, 2, _>(e, &t, &old);
        whole::<_, 3, 2, _, _>(e, &b, &mut t);
        b.copy_to(&mut t);
        e.eq_all("copied", &t.as_slice()[..6], &vals);
        back::<_, 3, 2, _, _>(e, &t, &mut b);
        t.copy_from(&b);
        drop(t);
        e.eq_all("seen in the borrowed memory", &mem[..6], &vals);
        let _ = tail;
    });
    scen!(v, core, "typed vector buffers", |e| {
        let vals = e.mat("v", 4, 1);
        let old = e.mat("t", 4, 1);
        let mut mem = [old.clone(), e.junks("m", 3)].concat();
        let z = MeasurementVectorBuffer::<4, _, _>::from(arr::<_, 4>(vals.clone()));
        let mut y = InnovationVectorBuffer::<4, _, _>::from(mem.as_mut_slice());
        lines::<_, 4, 1, _>(e, &z, &vals);
        lines::<_, 4, 1, _>(e, &y, &old);
        whole::<_, 4, 1, _, _>(e, &z, &mut y);
        back::<_, 4, 1, _, _>(e, &z, &mut y);
        drop(y);
        e.eq_all("seen in the borrowed memory", &mem[..4], &vals);
    });
    v
}
