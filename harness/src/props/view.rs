//! Dense copies of the problems the code under test presents.
use relp::algorithm::two_phase::matrix_provider::column::Column;
use relp::algorithm::two_phase::matrix_provider::matrix_data::MatrixData;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::data::linear_algebra::vector::{SparseVector, Vector};

use crate::engine::{Fail, Gen, Res};
use crate::q::{Num, Q, RB};
use crate::refsolve::{self, Std};
use crate::ensure;

/// A x = b, x >= 0 with costs.
#[derive(Clone, Debug, PartialEq)]
pub struct Dense { pub a: Vec<Vec<RB>>, pub b: Vec<RB>, pub c: Vec<RB> }

pub fn zero() -> RB { <RB as Num>::zero() }
pub fn one() -> RB { <RB as Num>::one() }

/// Dense copy of any provider over big rationals; column entries must be increasing and nonzero.
pub fn rows_of<P>(p: &P) -> Result<(Vec<Vec<RB>>, Vec<RB>), Fail>
where P: MatrixProvider<Rhs = RB>, P::Column: Column<F = RB> {
    let (m, n) = (p.nr_rows(), p.nr_columns());
    let mut a = vec![vec![zero(); n]; m];
    for j in 0..n {
        let mut last = None;
        for (i, v) in p.column(j).iter() {
            ensure!(i < m, "column-index", "column {} has an entry in row {} of {}", j, i, m);
            ensure!(last.map_or(true, |l| l < i), "column-order", "entries of column {} are not increasing", j);
            ensure!(!v.is0(), "column-zero", "column {} has an explicit zero in row {}", j, i);
            last = Some(i);
            a[i][j] = v.clone();
        }
    }
    let rhs = p.right_hand_side();
    ensure!(rhs.len() == m, "rhs-length", "right-hand side has length {}, there are {} rows", rhs.len(), m);
    let b = (0..m).map(|i| rhs[i].clone()).collect();
    Ok((a, b))
}

/// Every way to go over the elements of a column gives the same ones.
pub fn agree<C: Column>(fresh: &dyn Fn() -> C, j: usize) -> Res
where C::F: Clone + PartialEq + std::fmt::Debug {
    let c = fresh();
    let mut a: Vec<(usize, C::F)> = Vec::new();
    let mut it = c.iter();
    while let Some((i, v)) = it.next() { a.push((i, v.clone())); }
    ensure!(it.next().is_none() && it.count() == 0, "iterator-end", "column {} goes on after its end", j);
    for k in 0..=a.len().min(3) { // after a few steps
        let start = || { let mut it = c.iter(); for _ in 0..k { it.next(); } it };
        let rest = &a[k..];
        let mut folded = Vec::new();
        start().for_each(|(i, v)| folded.push((i, v.clone())));
        ensure!(folded == rest, "iterator-fold", "from {} on, folding over column {} gives {:?}, should be {:?}", k, j, folded, rest);
        ensure!(start().count() == rest.len(), "iterator-count", "from {} on, column {} counts {} elements, should be {}", k, j, start().count(), rest.len());
        let (low, high) = start().size_hint();
        ensure!(low <= rest.len() && high.is_none_or(|h| h >= rest.len()), "size-hint", "from {} on, column {} announces {:?} elements, there are {}", k, j, (low, high), rest.len());
        ensure!(start().clone().map(|(i, v)| (i, v.clone())).collect::<Vec<_>>() == rest, "iterator-clone", "from {} on, a clone of the iterator over column {} differs", k, j);
        let start = || { let mut it = fresh().into_iter(); for _ in 0..k { it.next(); } it };
        let mut folded = Vec::new();
        start().for_each(|e| folded.push(e));
        ensure!(folded == rest, "iterators", "from {} on, folding over column {} by value gives {:?}, should be {:?}", k, j, folded, rest);
        ensure!(start().count() == rest.len(), "iterator-count", "from {} on, column {} counts {} elements by value, should be {}", k, j, start().count(), rest.len());
        let (low, high) = start().size_hint();
        ensure!(low <= rest.len() && high.is_none_or(|h| h >= rest.len()), "size-hint", "from {} on, column {} announces {:?} elements by value, there are {}", k, j, (low, high), rest.len());
    }
    let mut by_value = Vec::new();
    let mut it = fresh().into_iter();
    while let Some(e) = it.next() { by_value.push(e); }
    ensure!(by_value == a, "iterators", "iterating column {} by reference gives {:?}, by value {:?}", j, a, by_value);
    Ok(())
}

pub fn dense(d: &MatrixData<'_, RB>) -> Result<Dense, Fail> {
    let (a, b) = rows_of(d)?;
    let c = (0..d.nr_columns()).map(|j| d.cost_value(j).cloned().unwrap_or_else(zero)).collect();
    Ok(Dense { a, b, c })
}

impl Dense {
    pub fn m(&self) -> usize { self.b.len() }
    pub fn n(&self) -> usize { self.c.len() }
    pub fn small(&self) -> Option<(Vec<Vec<Q>>, Vec<Q>, Vec<Q>)> {
        let f = |v: &Vec<RB>| v.iter().map(to_q).collect::<Option<Vec<Q>>>();
        Some((self.a.iter().map(f).collect::<Option<Vec<_>>>()?, f(&self.b)?, f(&self.c)?))
    }
    pub fn solve(&self) -> Std<RB> { self.solve_costs(&self.c) }
    pub fn solve_costs(&self, c: &[RB]) -> Std<RB> {
        let d = Dense { a: self.a.clone(), b: self.b.clone(), c: c.to_vec() };
        match d.small() {
            Some((a, b, c)) => refsolve::solve(&a, &b, &c),
            None => refsolve::solve_std(&d.a, &d.b, &d.c),
        }
    }
    /// A random vertex of the set of optimal points (or of all feasible points).
    pub fn random_point(&self, g: &mut Gen, optimal: Option<&RB>) -> Option<Vec<RB>> {
        let n = self.n();
        let mut a = self.a.clone();
        let mut b = self.b.clone();
        if let Some(v) = optimal { a.push(self.c.clone()); b.push(v.clone()); }
        let c: Vec<RB> = (0..n).map(|_| Q::int(g.int(3)).big()).collect();
        let d = Dense { a, b, c };
        match d.solve() {
            Std::Infeasible => None,
            Std::Unbounded { x } => Some(x),
            Std::Optimal { x, .. } => Some(x),
        }
    }
    pub fn cost_at(&self, x: &[RB]) -> RB { self.c.iter().zip(x).fold(zero(), |s, (c, x)| if c.is0() || x.is0() { s } else { s.add(&c.mul(x)) }) }
}

pub fn to_q(v: &RB) -> Option<Q> {
    let s = format!("{}", v);
    let (n, d) = match s.split_once('/') { Some((n, d)) => (n, d), None => (s.as_str(), "1") };
    let (n, d): (i128, i128) = (n.trim().parse().ok()?, d.trim().parse().ok()?);
    if n.abs() > 1 << 60 || d > 1 << 60 { return None; }
    Some(Q::new(n, d))
}

pub fn sparse(x: &[RB]) -> SparseVector<RB, RB> {
    SparseVector::new(x.iter().enumerate().filter(|(_, v)| !v.is0()).map(|(i, v)| (i, v.clone())).collect(), x.len())
}
pub fn unsparse(v: &SparseVector<RB, RB>) -> Vec<RB> {
    let mut x = vec![zero(); v.len()];
    for (i, w) in v.iter() { x[i] = w.clone(); }
    x
}
