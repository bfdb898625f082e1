//! C13: addition and subtraction.
use crate::env::Env;
use crate::mx::*;
use crate::{mx, scen, spec};

pub fn sums<E: Env, const R: usize, const K: usize, A, B, C>(e: &mut E, a: &A, b: &mut B, c: &mut C)
where
    A: Matrix<R, K, E::T>,
    B: MatrixMut<R, K, E::T>,
    C: MatrixMut<R, K, E::T>,
{
    let k = R * K;
    let a0 = a.as_slice().to_vec();
    macro_rules! step {
        ($op:literal, $t:ident, $o:ident, $call:expr, |$old:ident, $oth:ident| $want:expr) => {{
            // the target holds fresh values
            let n = $t.as_slice().len();
            let v = e.junks($op, n);
            $t.as_mut_slice().copy_from_slice(&v);
            let other = $o.as_slice().to_vec();
            $call;
            let $old = &v[..k];
            let $oth = &other[..k];
            let want: Vec<E::T> = $want;
            let got = $t.as_slice().to_vec();
            e.eq_all(concat!($op, " result"), &got[..k], &want);
            e.eq_all(concat!($op, " memory behind the target"), &got[k..], &v[k..]);
            let o2 = $o.as_slice().to_vec();
            e.eq_all(concat!($op, " other operand unchanged"), &o2, &other);
        }};
    }
    step!("add_inplace_b", b, a, a.add_inplace_b(b), |t, o| spec::add(o, t));
    step!("sub_inplace_b", b, a, a.sub_inplace_b(b), |t, o| spec::sub(o, t));
    step!("add_inplace_a", c, a, c.add_inplace_a(a), |t, o| spec::add(t, o));
    step!("sub_inplace_a", c, a, c.sub_inplace_a(a), |t, o| spec::sub(t, o));
    step!("sub", c, a, a.sub(b, c), |_t, o| spec::sub(o, &b.as_slice()[..k]));
    let b0 = b.as_slice().to_vec();
    step!("b - a", c, a, b.sub(a, c), |_t, o| spec::sub(&b0[..k], o));
    e.eq_all("b unchanged", b.as_slice(), &b0);
    // results of earlier operations as operands
    let c0 = c.as_slice().to_vec();
    step!("add of a result", b, c, c.add_inplace_b(b), |t, o| spec::add(o, t));
    e.eq_all("c unchanged", c.as_slice(), &c0);
    e.eq_all("a unchanged", a.as_slice(), &a0);
}

/// operands that are views into one and the same memory, the second `$off` elements after the first
#[macro_export]
macro_rules! shared_sums {
    ($v:ident; $($r:literal $k:literal $off:literal),* $(,)?) => {$(
        scen!($v, core, concat!("one memory, offset ", $off, ": ", $r, "x", $k), |e| {
            let mem = e.mat("table", 1, $off + $r * $k);
            let all = mem.clone();
            let (va, vb) = (mem[..$r * $k].to_vec(), mem[$off..$off + $r * $k].to_vec());
            let a = MatrixData::new_ref::<$r, $k, _>(&mem);
            let b = MatrixData::new_ref::<$r, $k, _>(&mem[$off..]);
            let jc = e.mat("c", $r, $k);
            mx!(slice e, "c"; c, mc, $r, $k, jc);
            a.sub(&b, &mut c);
            e.eq_all("a - b", &c.as_slice()[..$r * $k], &spec::sub(&va, &vb));
            b.sub(&a, &mut c);
            e.eq_all("b - a", &c.as_slice()[..$r * $k], &spec::sub(&vb, &va));
            a.sub(&a, &mut c);
            e.eq_all("a - a", &c.as_slice()[..$r * $k], &spec::sub(&va, &va));
            e.eq_all("table unchanged", &mem, &all);
        });
    )*};
}

#[cfg(feature = "c13")]
pub fn scenarios() -> Vec<crate::harness::Scenario> {
    crate::harness::also_any(base, crate::env::Contents::Any, |name| {
        if name.starts_with("huge") {
            return false;
        }
        let (r, c) = name.rsplit(' ').next().unwrap().split_once('x').unwrap();
        r.parse::<usize>().unwrap() * c.parse::<usize>().unwrap() <= 20
    })
}
#[cfg(feature = "c13")]
pub fn base() -> Vec<crate::harness::Scenario> {
    let mut v = vec![];
    macro_rules! s {
        ($($ka:ident $kb:ident $kc:ident $r:literal $k:literal),* $(,)?) => {$(
            scen!(v, core, concat!(stringify!($ka), " ", stringify!($kb), " ", stringify!($kc), " ", $r, "x", $k), |e| {
                let (va, vb, vc) = (e.mat("a", $r, $k), e.mat("b", $r, $k), e.mat("c", $r, $k));
                mx!($ka e, "a"; a, ma, $r, $k, va);
                mx!($kb e, "b"; b, mb, $r, $k, vb);
                mx!($kc e, "c"; c, mc, $r, $k, vc);
                sums::<_, $r, $k, _, _, _>(e, &a, &mut b, &mut c);
            });
        )*};
    }
    s!(array array array 1 1, slice slice slice 1 1, cref boxed slice 1 1, array array array 1 4, slice slice slice 4 1, cref slice slice 1 2, boxed boxed boxed 2 1,
       array array array 2 2, cref slice boxed 2 3, slice arrayx slice 3 2, boxed boxed boxed 3 3, crowmajor rowmajor rowmajor 3 4, arrayx arrayx arrayx 4 3,
       cref array array 4 4, rowmajor slice array 5 2, array boxed slice 2 5, slice slice slice 5 5, boxed boxed boxed 6 6, slice slice slice 7 3, array array array 3 8, slice slice slice 9 9, boxed slice array 1 16, slice slice slice 16 1, array array array 12 12, boxed boxed boxed 16 16,
       slice slice slice 17 17, boxed slice boxed 2 130, slice boxed slice 130 2, slice slice slice 1 257, boxed boxed boxed 33 16, slice boxed boxed 16 33, boxed boxed boxed 300 1);
    shared_sums!(v; 1 1 0, 1 1 1, 2 2 0, 2 2 1, 2 3 0, 3 2 2, 3 3 0, 3 3 9, 4 4 3, 2 9 0, 5 5 0, 9 9 9, 16 3 1);
    // more elements than a 16 bit position can tell apart
    macro_rules! huge {
        ($($ka:ident $kb:ident $r:literal $k:literal),*) => {$(
            scen!(v, core, concat!("huge ", stringify!($ka), " ", stringify!($kb), " ", $r, "x", $k), |e| {
                let (va, vb) = (e.mat("a", $r, $k), e.mat("b", $r, $k));
                mx!($ka e, "a"; a, ma, $r, $k, va);
                mx!($kb e, "b"; b, mb, $r, $k, vb);
                let mut c = MatrixData::new_boxed::<$r, $k, _, _>(vb.clone());
                a.sub(&b, &mut c);
                some(e, "sub", c.as_slice(), &spec::sub(&va, &vb));
                c.add_inplace_a(&a);
                some(e, "add_inplace_a", c.as_slice(), &spec::add(&va, &spec::sub(&va, &vb)));
                c.sub_inplace_a(&b);
                a.add_inplace_b(&mut b);
                some(e, "add_inplace_b", &b.as_slice()[..$r * $k], &spec::add(&va, &vb));
                a.sub_inplace_b(&mut b);
                some(e, "sub_inplace_b", &b.as_slice()[..$r * $k], &spec::sub(&va, &spec::add(&va, &vb)));
                let two = spec::sub(&spec::add(&va, &spec::sub(&va, &vb)), &vb);
                some(e, "sub_inplace_a", c.as_slice(), &two);
                some(e, "a unchanged", &a.as_slice()[..$r * $k], &va);
            });
        )*};
    }
    huge!(slice boxed 257 256, boxed slice 2 32800);
    #[cfg(feature = "thorough")]
    s!(boxed boxed boxed 64 64, boxed slice boxed 3 700, boxed boxed slice 1025 4, boxed boxed boxed 257 256);
    v
}
