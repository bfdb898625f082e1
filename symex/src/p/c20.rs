//! C20: typed buffers report shape, wrap faithfully and convert back.
use crate::bufs::*;
use crate::env::Env;
use crate::{each_const_buffer, each_mut_buffer, each_vec_buffer, scen};
use minikalman::matrix::{IntoInnerData, MatrixDataArray, MatrixDataBoxed, MatrixDataMut, MatrixDataRef, MatrixDataRowMajor, MatrixDataRowMajorMut};

/// shape through the trait
fn shape<E: Env, const R: usize, const K: usize, M: Matrix<R, K, E::T>>(e: &mut E, n: &str, m: &M, backing: &[E::T]) {
    e.ok(&format!("{n} len"), RowMajorSequentialData::len(m) == R * K);
    e.ok(&format!("{n} buffer_len"), m.buffer_len() == backing.len());
    e.ok(&format!("{n} is_empty"), RowMajorSequentialData::is_empty(m) == (R * K == 0));
    e.ok(&format!("{n} is_valid"), RowMajorSequentialData::is_valid(m) == (backing.len() >= R * K));
    e.ok(&format!("{n} rows/cols"), m.rows() == R && m.cols() == K);
    let s = m.as_slice().to_vec();
    e.eq_all(&format!("{n} data"), &s, backing);
    if backing.len() >= R * K {
        for i in 0..R {
            for j in 0..K {
                e.eq(&format!("{n} ({i},{j})"), m.get(i, j), backing[i * K + j]);
            }
        }
    }
}
/// overwrite the first element and the last one of the whole backing memory
fn poke<E: Env, const R: usize, const K: usize, M: MatrixMut<R, K, E::T>>(e: &mut E, n: &str, m: &mut M, backing: &mut [E::T]) {
    let k = backing.len();
    let (a, b) = (e.var(&format!("{n} first")), e.var(&format!("{n} last")));
    m.set(0, 0, a);
    m.as_mut_slice()[k - 1] = b;
    backing[0] = a;
    backing[k - 1] = b;
}
macro_rules! inherent {
    ($e:ident, $n:literal, $b:ident, $len:expr, $cap:expr) => {
        $e.ok(concat!($n, ": len()"), $b.len() == $len);
        $e.ok(concat!($n, ": is_empty()"), $b.is_empty() == ($len == 0));
        $e.ok(concat!($n, ": is_valid()"), $b.is_valid() == ($cap >= $len));
    };
}

#[cfg(feature = "c20")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    crate::harness::also_any(base, crate::env::Contents::Any, |_| true)
}
#[cfg(feature = "c20")]
pub fn base() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! ctor_array {
        ($e:ident $t:ident [$($d:literal),*] $r:literal $c:literal $extra:literal, $($mu:tt)*) => {{
            let mut vals = $e.junks(concat!("a", $extra), $r * $c + $extra);
            #[allow(unused_mut)]
            let mut b = $t::<$($d,)* _, _>::from(arr::<_, { $r * $c + $extra }>(vals.clone()));
            inherent!($e, "array", b, $r * $c, vals.len());
            shape::<_, $r, $c, _>($e, "array", &b, &vals);
            shape::<_, $r, $c, _>($e, "array inner", b.as_matrix(), &vals);
            ctor_array!(@ $($mu)*; $e b vals $r $c);
            let inner = b.into_inner();
            $e.eq_all("array given back", &inner, &vals);
            vals.clear();
        }};
        (@ mutable; $e:ident $b:ident $vals:ident $r:literal $c:literal) => {
            poke::<_, $r, $c, _>($e, "p", &mut $b, &mut $vals);
            shape::<_, $r, $c, _>($e, "array changed", $b.as_matrix(), &$vals);
            poke::<_, $r, $c, _>($e, "q", $b.as_matrix_mut(), &mut $vals);
            shape::<_, $r, $c, _>($e, "array changed inside", &$b, &$vals);
        };
        (@ constant; $($x:tt)*) => {};
    }
    macro_rules! slice_mut {
        ($e:ident $t:ident [$($d:literal),*] $r:literal $c:literal $extra:literal) => {{
            let mut mem = $e.junks(concat!("s", $extra), $r * $c + $extra);
            let mut vals = mem.clone();
            {
                let mut b = $t::<$($d,)* _, _>::from(mem.as_mut_slice());
                inherent!($e, "slice", b, $r * $c, vals.len());
                shape::<_, $r, $c, _>($e, "slice", &b, &vals);
                shape::<_, $r, $c, _>($e, "slice inner", b.as_matrix(), &vals);
                poke::<_, $r, $c, _>($e, "r", &mut b, &mut vals);
                shape::<_, $r, $c, _>($e, "slice changed", b.as_matrix(), &vals);
                poke::<_, $r, $c, _>($e, "s", b.as_matrix_mut(), &mut vals);
                shape::<_, $r, $c, _>($e, "slice changed inside", &b, &vals);
                let inner = b.into_inner();
                $e.eq_all("slice given back", inner, &vals);
                inner[0] = vals[vals.len() - 1];
            }
            vals[0] = vals[vals.len() - 1];
            $e.eq_all("given back slice is the same memory", &mem, &vals);
        }};
    }
    macro_rules! new_mut {
        ($e:ident $t:ident [$($d:literal),*] $r:literal $c:literal) => {
            for cap in 0..$r * $c + 3 {
                let mut mem = $e.junks("n", cap);
                let vals = mem.clone();
                let b = $t::<$($d,)* _, _>::new(MatrixDataMut::<$r, $c, _>::new(&mut mem));
                inherent!($e, "new", b, $r * $c, cap);
                shape::<_, $r, $c, _>($e, &format!("new over {cap}"), &b, &vals);
                let inner = b.into_inner();
                $e.eq_all("new: given back", inner, &vals);
            }
            // boxed and row-major wrapped storage
            let vals = $e.junks("box", $r * $c);
            let b = $t::<$($d,)* _, _>::new(MatrixDataBoxed::<$r, $c, _>::new(vals.clone()));
            inherent!($e, "boxed", b, $r * $c, $r * $c);
            shape::<_, $r, $c, _>($e, "boxed", &b, &vals);
            let inner: Box<[_]> = b.into_inner();
            $e.eq_all("box given back", &inner, &vals);
            let mut mem = $e.junks("rm", $r * $c + 1);
            let vals = mem.clone();
            let b = $t::<$($d,)* _, _>::new(MatrixDataRowMajorMut::<$r, $c, _, _>::new(MatrixDataMut::<$r, $c, _>::new(&mut mem)));
            inherent!($e, "wrapped", b, $r * $c, $r * $c + 1);
            shape::<_, $r, $c, _>($e, "wrapped", &b, &vals);
            let inner = b.into_inner();
            $e.eq_all("wrapped: given back", inner.as_slice(), &vals);
        };
    }
    macro_rules! mb {
        ($t:ident [$($d:literal),*] $r:literal $c:literal) => {
            scen!(v, core, stringify!($t), |e| {
                ctor_array!(e $t [$($d),*] $r $c 0, mutable);
                ctor_array!(e $t [$($d),*] $r $c 1, mutable);
                ctor_array!(e $t [$($d),*] $r $c 5, mutable);
                slice_mut!(e $t [$($d),*] $r $c 0);
                slice_mut!(e $t [$($d),*] $r $c 1);
                slice_mut!(e $t [$($d),*] $r $c 5);
                new_mut!(e $t [$($d),*] $r $c);
            });
        };
    }
    each_mut_buffer!(mb);
    macro_rules! cb {
        ($t:ident [$($d:literal),*] $r:literal $c:literal) => {
            scen!(v, core, stringify!($t), |e| {
                ctor_array!(e $t [$($d),*] $r $c 0, constant);
                ctor_array!(e $t [$($d),*] $r $c 1, constant);
                ctor_array!(e $t [$($d),*] $r $c 5, constant);
                for extra in [0, 1, 5] {
                    let mut mem = e.junks("s", $r * $c + extra);
                    let vals = mem.clone();
                    {
                        let b = $t::<$($d,)* _, _>::from(mem.as_slice());
                        inherent!(e, "slice", b, $r * $c, vals.len());
                        shape::<_, $r, $c, _>(e, "slice", &b, &vals);
                        shape::<_, $r, $c, _>(e, "slice inner", b.as_matrix(), &vals);
                    }
                    let b = $t::<$($d,)* _, _>::from(mem.as_mut_slice());
                    inherent!(e, "mutable slice", b, $r * $c, vals.len());
                    shape::<_, $r, $c, _>(e, "mutable slice", &b, &vals);
                }
                for cap in 0..$r * $c + 3 {
                    let mem = e.junks("n", cap);
                    let b = $t::<$($d,)* _, _>::new(MatrixDataRef::<$r, $c, _>::new(&mem));
                    inherent!(e, "new", b, $r * $c, cap);
                    shape::<_, $r, $c, _>(e, &format!("new over {cap}"), &b, &mem);
                }
                new_mut!(e $t [$($d),*] $r $c);
            });
        };
    }
    each_const_buffer!(cb);
    macro_rules! vb {
        ($t:ident $n:literal) => {
            scen!(v, core, stringify!($t), |e| {
                ctor_array!(e $t [$n] $n 1 0, mutable);
                slice_mut!(e $t [$n] $n 1 0);
                slice_mut!(e $t [$n] $n 1 1);
                slice_mut!(e $t [$n] $n 1 5);
                new_mut!(e $t [$n] $n 1);
                let vals = e.vec("v", $n);
                let mut b = $t::<$n, _, _>::from(arr::<_, $n>(vals.clone()));
                let r: &[_] = b.as_ref();
                e.eq_all("as_ref", r, &vals);
                let w = e.var("as_mut");
                {
                    let m: &mut [_] = b.as_mut();
                    e.ok("as_mut length", m.len() == $n);
                    m[$n - 1] = w;
                }
                e.eq("written through as_mut", b.get($n - 1, 0), w);
                for i in 0..$n - 1 {
                    e.eq("others untouched", b[i], vals[i]);
                }
            });
        };
    }
    each_vec_buffer!(vb);
    // the matrix kinds themselves
    macro_rules! kinds {
        ($($r:literal $c:literal),*) => {$(
            scen!(v, core, concat!("matrix kinds ", $r, "x", $c), |e| {
                const N: usize = $r * $c;
                let vals = e.mat("v", $r, $c);
                let a = arr::<_, N>(vals.clone());
                // arrays
                let m = MatrixDataArray::<$r, $c, N, _>::new(a);
                shape::<_, $r, $c, _>(e, "array", &m, &vals);
                e.eq_all("array into_inner", &m.into_inner(), &vals);
                let m = MatrixDataArray::<$r, $c, N, _>::from(a);
                shape::<_, $r, $c, _>(e, "array from", &m, &vals);
                let back: [_; N] = m.into();
                e.eq_all("array into", &back, &vals);
                let m = MatrixData::new_array::<$r, $c, N, _>(a);
                e.eq_all("array IntoInnerData", &IntoInnerData::into_inner(m), &vals);
                let long = [vals.clone(), e.junks("x", 2)].concat();
                let m = MatrixDataArray::<$r, $c, { N + 2 }, _>::new_unchecked(arr(long.clone()));
                shape::<_, $r, $c, _>(e, "longer array", &m, &long);
                e.eq_all("longer array into_inner", &IntoInnerData::into_inner(m), &long);
                let m = MatrixDataArray::<$r, $c, { N - 1 }, _>::new_unchecked(arr(long.clone()));
                shape::<_, $r, $c, _>(e, "shorter array", &m, &long[..N - 1]);
                // boxed
                let m = MatrixDataBoxed::<$r, $c, _>::new(vals.clone());
                shape::<_, $r, $c, _>(e, "boxed", &m, &vals);
                e.eq_all("boxed into_inner", &m.into_inner(), &vals);
                let m = MatrixDataBoxed::<$r, $c, _>::from(vals.clone());
                shape::<_, $r, $c, _>(e, "boxed from", &m, &vals);
                e.eq_all("boxed IntoInnerData", &IntoInnerData::into_inner(m), &vals);
                let m = MatrixData::new_boxed::<$r, $c, _, _>(a);
                shape::<_, $r, $c, _>(e, "new_boxed", &m, &vals);
                let w = e.var("init");
                let m = MatrixData::new::<$r, $c, _>(w);
                shape::<_, $r, $c, _>(e, "new(init)", &m, &vec![w; N]);
                // borrowed
                let m = MatrixDataRef::<$r, $c, _>::new(&vals);
                shape::<_, $r, $c, _>(e, "ref", &m, &vals);
                e.eq_all("ref into_inner", m.into_inner(), &vals);
                let m = MatrixDataRef::<$r, $c, _>::from(long.as_slice());
                shape::<_, $r, $c, _>(e, "ref from", &m, &long);
                e.eq_all("ref IntoInnerData", IntoInnerData::into_inner(m), &long);
                let mut mem = long.clone();
                let m = MatrixDataRef::<$r, $c, _>::from(mem.as_mut_slice());
                let s: &[_] = m.into();
                e.eq_all("ref into slice", s, &long);
                let m = MatrixDataMut::<$r, $c, _>::from(mem.as_mut_slice());
                shape::<_, $r, $c, _>(e, "mut from", &m, &long);
                e.eq_all("mut into_inner", m.into_inner(), &long);
                let m = MatrixDataMut::<$r, $c, _>::new(mem.as_mut_slice());
                e.eq_all("mut IntoInnerData", IntoInnerData::into_inner(m), &long);
                let m = MatrixDataMut::<$r, $c, _>::new(mem.as_mut_slice());
                let s: &[_] = m.into();
                e.eq_all("mut into slice", s, &long);
                let m = MatrixDataMut::<$r, $c, _>::new(mem.as_mut_slice());
                let s: &mut [_] = m.into();
                e.eq_all("mut into mutable slice", s, &long);
                s[0] = w;
                e.eq("is the borrowed memory", mem[0], w);
                // row-major wrappers
                let m = MatrixData::new_from::<$r, $c, _, _>(MatrixDataRef::<$r, $c, _>::new(&vals));
                shape::<_, $r, $c, _>(e, "wrapped", &m, &vals);
                let inner: MatrixDataRef<$r, $c, _> = IntoInnerData::into_inner(m);
                e.eq_all("wrapped into_inner", inner.as_slice(), &vals);
                let m = MatrixDataRowMajor::<$r, $c, _, _>::new(MatrixData::new_array::<$r, $c, N, _>(a));
                shape::<_, $r, $c, _>(e, "wrapped new", &m, &vals);
                let mut m = MatrixData::new_mut_from::<$r, $c, _, _>(MatrixData::new_boxed::<$r, $c, _, _>(vals.clone()));
                let mut now = vals.clone();
                poke::<_, $r, $c, _>(e, "wrapped mut", &mut m, &mut now);
                shape::<_, $r, $c, _>(e, "wrapped mut", &m, &now);
                let inner: MatrixDataBoxed<$r, $c, _> = IntoInnerData::into_inner(m);
                e.eq_all("wrapped mut into_inner", inner.as_slice(), &now);
            });
        )*};
    }
    kinds!(1 1, 1 4, 4 1, 2 3, 3 2, 3 3, 5 4);
    v
}
