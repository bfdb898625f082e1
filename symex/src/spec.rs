//! Textbook reference formulas, written naively over flat row-major vectors.
//! They share no code with minikalman.
use minikalman::matrix::MatrixDataType;

pub fn mul<T: MatrixDataType>(a: &[T], b: &[T], r: usize, n: usize, c: usize) -> Vec<T> {
    assert_eq!(a.len(), r * n);
    assert_eq!(b.len(), n * c);
    let mut out = vec![];
    for i in 0..r {
        for j in 0..c {
            let mut s = T::zero();
            for k in 0..n {
                s = s + a[i * n + k] * b[k * c + j];
            }
            out.push(s);
        }
    }
    out
}
pub fn tr<T: MatrixDataType>(a: &[T], r: usize, c: usize) -> Vec<T> {
    let mut out = vec![];
    for j in 0..c {
        for i in 0..r {
            out.push(a[i * c + j]);
        }
    }
    out
}
pub fn add<T: MatrixDataType>(a: &[T], b: &[T]) -> Vec<T> {
    assert_eq!(a.len(), b.len());
    a.iter().zip(b).map(|(x, y)| *x + *y).collect()
}
pub fn sub<T: MatrixDataType>(a: &[T], b: &[T]) -> Vec<T> {
    assert_eq!(a.len(), b.len());
    a.iter().zip(b).map(|(x, y)| *x - *y).collect()
}
pub fn scale<T: MatrixDataType>(a: &[T], s: T) -> Vec<T> {
    a.iter().map(|x| *x * s).collect()
}
/// m * p * m^T for an r x n matrix m
pub fn sandwich<T: MatrixDataType>(m: &[T], p: &[T], r: usize, n: usize) -> Vec<T> {
    let mp = mul(m, p, r, n, n);
    mul(&mp, &tr(m, r, n), r, n, r)
}
/// L * L^T for lower triangular L (only the nonzero entries are used)
pub fn llt<T: MatrixDataType>(l: &[T], n: usize) -> Vec<T> {
    let mut out = vec![T::zero(); n * n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = l[i * n] * l[j * n];
            for k in 1..=j {
                s = s + l[i * n + k] * l[j * n + k];
            }
            out[i * n + j] = s;
            out[j * n + i] = s;
        }
    }
    out
}
/// inverse of a lower triangular matrix by forward substitution
pub fn linv<T: MatrixDataType>(l: &[T], n: usize) -> Vec<T> {
    let mut inv = vec![T::zero(); n * n];
    let d: Vec<T> = (0..n).map(|i| T::one() / l[i * n + i]).collect();
    for j in 0..n {
        inv[j * n + j] = d[j];
        for i in (j + 1)..n {
            let mut s = l[i * n + j] * inv[j * n + j];
            for k in (j + 1)..i {
                s = s + l[i * n + k] * inv[k * n + j];
            }
            inv[i * n + j] = -(s * d[i]);
        }
    }
    inv
}
/// (L L^T)^-1 = L^-T L^-1
pub fn lltinv<T: MatrixDataType>(l: &[T], n: usize) -> Vec<T> {
    let li = linv(l, n);
    let mut out = vec![T::zero(); n * n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = T::zero();
            for k in i..n {
                s = s + li[k * n + i] * li[k * n + j];
            }
            out[i * n + j] = s;
            out[j * n + i] = s;
        }
    }
    out
}
pub fn eye<T: MatrixDataType>(n: usize) -> Vec<T> {
    let mut v = vec![T::zero(); n * n];
    for i in 0..n {
        v[i * n + i] = T::one();
    }
    v
}
