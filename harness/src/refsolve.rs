//! Independent exact LP solver: dense two-phase simplex with Bland's rule that checks a certificate
//! for each of its answers.
use crate::engine::oracle_broken;
use crate::q::{take_overflow, Num, Q, RB};

#[derive(Clone, Debug)]
pub enum Std<N> {
    Infeasible,
    Unbounded { x: Vec<N> },
    Optimal { x: Vec<N>, y: Vec<N>, value: N },
}

/// min c'x, A x = b, x >= 0.
pub fn solve_std<N: Num>(a: &[Vec<N>], b: &[N], c: &[N]) -> Std<N> {
    let m = a.len();
    let n = c.len();
    let sign: Vec<bool> = b.iter().map(|v| v.sgn() < 0).collect();
    let w = n + m + 1;
    let mut t: Vec<Vec<N>> = Vec::with_capacity(m);
    for i in 0..m {
        let mut row = Vec::with_capacity(w);
        for j in 0..n { row.push(if sign[i] { a[i][j].neg() } else { a[i][j].clone() }); }
        for k in 0..m { row.push(if k == i { N::one() } else { N::zero() }); }
        row.push(if sign[i] { b[i].neg() } else { b[i].clone() });
        t.push(row);
    }
    let mut basis: Vec<usize> = (n..n + m).collect();
    // Phase one cost row: minimise the sum of artificials.
    let mut z: Vec<N> = vec![N::zero(); w];
    for j in n..n + m { z[j] = N::one(); }
    for i in 0..m { for j in 0..w { if !t[i][j].is0() { z[j] = z[j].sub(&t[i][j]); } } }
    if !iterate(&mut t, &mut z, &mut basis, n) { oracle_broken("phase one unbounded"); }
    let infeasibility = z[w - 1].neg();
    if infeasibility.sgn() > 0 {
        // Farkas: y = 1 - reduced cost of artificials (in row-signed space).
        let y: Vec<N> = (0..m).map(|i| {
            let v = N::one().sub(&z[n + i]);
            if sign[i] { v.neg() } else { v }
        }).collect();
        for j in 0..n {
            let s = (0..m).fold(N::zero(), |s, i| if a[i][j].is0() { s } else { s.add(&a[i][j].mul(&y[i])) });
            if s.sgn() > 0 { oracle_broken("farkas column"); }
        }
        let s = (0..m).fold(N::zero(), |s, i| s.add(&b[i].mul(&y[i])));
        if s.sgn() <= 0 { oracle_broken("farkas value"); }
        return Std::Infeasible;
    }
    // Drive artificials out.
    for i in 0..m {
        if basis[i] >= n {
            if let Some(j) = (0..n).find(|&j| !t[i][j].is0()) { pivot(&mut t, &mut z, &mut basis, i, j); }
        }
    }
    // Phase two.
    let mut z: Vec<N> = vec![N::zero(); w];
    for j in 0..n { z[j] = c[j].clone(); }
    for i in 0..m {
        if basis[i] < n && !c[basis[i]].is0() {
            let f = c[basis[i]].clone();
            for j in 0..w { if !t[i][j].is0() { z[j] = z[j].sub(&f.mul(&t[i][j])); } }
        }
    }
    let finite = iterate(&mut t, &mut z, &mut basis, n);
    let mut x = vec![N::zero(); n];
    for i in 0..m { if basis[i] < n { x[basis[i]] = t[i][w - 1].clone(); } }
    for j in 0..n { if x[j].sgn() < 0 { oracle_broken("negative x"); } }
    for i in 0..m {
        let s = (0..n).fold(N::zero(), |s, j| if a[i][j].is0() || x[j].is0() { s } else { s.add(&a[i][j].mul(&x[j])) });
        if s != b[i] { oracle_broken("row not satisfied"); }
    }
    if !finite {
        // ray from the entering column
        let q = (0..n).find(|&j| z[j].sgn() < 0 && (0..m).all(|i| t[i][j].sgn() <= 0)).unwrap_or_else(|| oracle_broken("no ray"));
        let mut d = vec![N::zero(); n];
        d[q] = N::one();
        for i in 0..m {
            if basis[i] < n { d[basis[i]] = t[i][q].neg(); }
            else if !t[i][q].is0() { oracle_broken("ray uses artificial"); }
        }
        for i in 0..m {
            let s = (0..n).fold(N::zero(), |s, j| if a[i][j].is0() || d[j].is0() { s } else { s.add(&a[i][j].mul(&d[j])) });
            if !s.is0() { oracle_broken("ray row"); }
        }
        let s = (0..n).fold(N::zero(), |s, j| s.add(&c[j].mul(&d[j])));
        if s.sgn() >= 0 || d.iter().any(|v| v.sgn() < 0) { oracle_broken("ray cost"); }
        return Std::Unbounded { x };
    }
    let y: Vec<N> = (0..m).map(|i| { let v = z[n + i].neg(); if sign[i] { v.neg() } else { v } }).collect();
    for j in 0..n {
        let s = (0..m).fold(c[j].clone(), |s, i| if a[i][j].is0() { s } else { s.sub(&a[i][j].mul(&y[i])) });
        if s.sgn() < 0 { oracle_broken("dual infeasible"); }
    }
    let value = (0..n).fold(N::zero(), |s, j| if c[j].is0() { s } else { s.add(&c[j].mul(&x[j])) });
    let dual = (0..m).fold(N::zero(), |s, i| s.add(&b[i].mul(&y[i])));
    if value != dual { oracle_broken("duality gap"); }
    Std::Optimal { x, y, value }
}

fn pivot<N: Num>(t: &mut [Vec<N>], z: &mut [N], basis: &mut [usize], r: usize, q: usize) {
    let w = z.len();
    let p = t[r][q].clone();
    for v in &mut t[r] { if !v.is0() { *v = v.div(&p); } }
    let row = t[r].clone();
    for i in 0..t.len() {
        if i != r && !t[i][q].is0() {
            let f = t[i][q].clone();
            for j in 0..w { if !row[j].is0() { t[i][j] = t[i][j].sub(&f.mul(&row[j])); } }
        }
    }
    if !z[q].is0() {
        let f = z[q].clone();
        for j in 0..w { if !row[j].is0() { z[j] = z[j].sub(&f.mul(&row[j])); } }
    }
    basis[r] = q;
}

/// Bland's rule over columns `0..n`. Returns false when unbounded.
fn iterate<N: Num>(t: &mut [Vec<N>], z: &mut [N], basis: &mut [usize], n: usize) -> bool {
    let w = z.len();
    let mut count = 0u64;
    loop {
        let Some(q) = (0..n).find(|&j| z[j].sgn() < 0) else { return true };
        let mut best: Option<(usize, N)> = None;
        for i in 0..t.len() {
            // a basic artificial (at zero, redundant row) must not move away from zero
            if t[i][q].sgn() > 0 {
                let ratio = t[i][w - 1].div(&t[i][q]);
                let take = match &best {
                    None => true,
                    Some((k, r)) => ratio.less(r) || (ratio == *r && basis[i] < basis[*k]),
                };
                if take { best = Some((i, ratio)); }
            }
        }
        let Some((r, _)) = best else { return false };
        pivot(t, z, basis, r, q);
        count += 1;
        if N::bad() { oracle_broken("overflow"); }
        if count > 200_000 { oracle_broken("reference simplex does not end"); }
    }
}

/// Rank of a matrix.
pub fn rank<N: Num>(a: &[Vec<N>]) -> usize {
    let mut a = a.to_vec();
    let (m, n) = (a.len(), a.first().map_or(0, |r| r.len()));
    let mut r = 0;
    for j in 0..n {
        let Some(p) = (r..m).find(|&i| !a[i][j].is0()) else { continue };
        a.swap(p, r);
        let row = a[r].clone();
        for i in r + 1..m {
            if !a[i][j].is0() {
                let f = a[i][j].div(&row[j]);
                for k in j..n { if !row[k].is0() { a[i][k] = a[i][k].sub(&f.mul(&row[k])); } }
            }
        }
        r += 1;
        if r == m { break; }
    }
    r
}

/// Inverse of a square matrix, if it has one.
pub fn inverse<N: Num>(a: &[Vec<N>]) -> Option<Vec<Vec<N>>> {
    let n = a.len();
    let mut t: Vec<Vec<N>> = a.iter().enumerate().map(|(i, r)| {
        let mut r = r.clone();
        for k in 0..n { r.push(if k == i { N::one() } else { N::zero() }); }
        r
    }).collect();
    for j in 0..n {
        let p = (j..n).find(|&i| !t[i][j].is0())?;
        t.swap(p, j);
        let d = t[j][j].clone();
        for v in &mut t[j] { if !v.is0() { *v = v.div(&d); } }
        let row = t[j].clone();
        for i in 0..n {
            if i != j && !t[i][j].is0() {
                let f = t[i][j].clone();
                for k in 0..2 * n { if !row[k].is0() { t[i][k] = t[i][k].sub(&f.mul(&row[k])); } }
            }
        }
    }
    Some(t.into_iter().map(|r| r[n..].to_vec()).collect())
}

/// Verdict on rational data, computed in 128 bits when that suffices and with big rationals otherwise.
pub fn solve(a: &[Vec<Q>], b: &[Q], c: &[Q]) -> Std<RB> {
    take_overflow();
    // Overflow makes certificates meaningless, so those failures only count without overflow.
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| solve_std(a, b, c)));
    let over = take_overflow();
    if !over {
        match r {
            Ok(Std::Infeasible) => return Std::Infeasible,
            Ok(Std::Unbounded { x }) => return Std::Unbounded { x: x.iter().map(|v| v.big()).collect() },
            Ok(Std::Optimal { x, y, value }) => return Std::Optimal {
                x: x.iter().map(|v| v.big()).collect(), y: y.iter().map(|v| v.big()).collect(), value: value.big(),
            },
            Err(e) => std::panic::resume_unwind(e),
        }
    }
    let conv = |v: &[Q]| -> Vec<RB> { v.iter().map(|q| q.big()).collect() };
    let ab: Vec<Vec<RB>> = a.iter().map(|r| conv(r)).collect();
    solve_std(&ab, &conv(b), &conv(c))
}
