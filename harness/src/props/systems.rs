//! Systems A x = b, x >= 0 as providers of their own, and generators of them and of feasible bases.
use std::collections::BTreeSet;

use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
use relp::algorithm::two_phase::matrix_provider::column::{Column, SparseSliceIterator};
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn;
use relp::algorithm::two_phase::matrix_provider::variable::FeasibilityLogic;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::{FullInitialBasis, PartialInitialBasis};
use relp::data::linear_algebra::traits::{SparseComparator, SparseElement};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::BoundDirection;

use crate::engine::{Cx, Gen};
use crate::lp;
use crate::props::standard::gen_form;
use crate::props::view::{one, zero, Dense};
use crate::q::{Num, Q, RB};
use crate::refsolve::{self, Std};

#[derive(Clone, Debug)]
pub struct Col(pub Vec<(usize, RB)>);
impl Column for Col {
    type F = RB;
    type Iter<'a> = SparseSliceIterator<'a, RB>;
    fn iter(&self) -> Self::Iter<'_> { SparseSliceIterator::new(&self.0) }
    fn index_to_string(&self, i: usize) -> String {
        self.0.iter().find(|e| e.0 == i).map_or("0".into(), |e| e.1.to_string())
    }
}
impl IntoIterator for Col {
    type Item = (usize, RB);
    type IntoIter = std::vec::IntoIter<(usize, RB)>;
    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
}
impl Identity for Col {
    fn identity(i: usize, len: usize) -> Self {
        assert!(i < len, "identity column {} of length {}", i, len);
        Col(vec![(i, one())])
    }
}
impl IntoFilteredColumn for Col {
    type Filtered = Col;
    fn into_filtered(self, to_remove: &[usize]) -> Col {
        Col(self.0.into_iter().filter(|e| !to_remove.contains(&e.0))
            .map(|(i, v)| (i - to_remove.iter().filter(|&&r| r < i).count(), v)).collect())
    }
}

#[derive(Clone, Debug)]
pub struct System {
    pub d: Dense,
    cols: Vec<Vec<(usize, RB)>>,
    /// Unit columns offered as initial basis, (row, column) by row.
    pub pivots: Vec<(usize, usize)>,
    /// How many of the last rows are presented as variable bounds.
    pub bounds: usize,
}
impl System {
    pub fn new(d: Dense, pivots: Vec<(usize, usize)>) -> Self {
        let cols = (0..d.n()).map(|j| (0..d.m()).filter(|&i| !d.a[i][j].is0()).map(|i| (i, d.a[i][j].clone())).collect()).collect();
        System { d, cols, pivots, bounds: 0 }
    }
    pub fn render(&self) -> String {
        let mut s = format!("min {}\n", show(&self.d.c));
        for (a, b) in self.d.a.iter().zip(&self.d.b) { s.push_str(&format!("  {} = {}\n", show(a), b)); }
        if !self.pivots.is_empty() { s.push_str(&format!("  initial pivots {:?}\n", self.pivots)); }
        s
    }
}
pub fn show(v: &[RB]) -> String {
    v.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
}

macro_rules! provider {
    ($name:ident) => {
        pub struct $name<'s>(pub &'s System);
        impl MatrixProvider for $name<'_> {
            type Column = Col;
            type Cost<'b> = &'b RB where Self: 'b;
            type Rhs = RB;
            fn column(&self, j: usize) -> Col { Col(self.0.cols[j].clone()) }
            fn cost_value(&self, j: usize) -> &RB { &self.0.d.c[j] }
            fn right_hand_side(&self) -> DenseVector<RB> { DenseVector::new(self.0.d.b.clone(), self.0.d.m()) }
            fn bound_row_index(&self, j: usize, bound_type: BoundDirection) -> Option<usize> {
                // the bound rows belong to the first columns
                match bound_type {
                    BoundDirection::Upper if j < self.0.bounds => Some(self.0.d.m() - self.0.bounds + j),
                    _ => None,
                }
            }
            fn nr_constraints(&self) -> usize { self.0.d.m() - self.0.bounds }
            fn nr_variable_bounds(&self) -> usize { self.0.bounds }
            fn nr_columns(&self) -> usize { self.0.d.n() }
            fn reconstruct_solution<G>(&self, column_values: SparseVector<G, G>) -> SparseVector<G, G>
            where G: SparseElement<G> + SparseComparator {
                column_values
            }
        }
    };
}
provider!(Plain);
provider!(Part);
provider!(Full);
impl PartialInitialBasis for Part<'_> {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> { self.0.pivots.clone() }
    fn nr_initial_elements(&self) -> usize { self.0.pivots.len() }
}
/// Each variable may take two values, in different places.
impl FeasibilityLogic for Part<'_> {
    fn is_feasible(&self, j: usize, value: RB) -> bool { (0..2).any(|k| value == Q::int((2 * j + k) as i64).big()) }
    fn closest_feasible(&self, j: usize, value: RB) -> (Option<RB>, Option<RB>) {
        let values: Vec<RB> = (0..2).map(|k| Q::int((2 * j + k) as i64).big()).collect();
        (values.iter().rev().find(|v| **v <= value).cloned(), values.iter().find(|v| **v >= value).cloned())
    }
}
impl PartialInitialBasis for Full<'_> {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> { self.0.pivots.clone() }
    fn nr_initial_elements(&self) -> usize { self.0.pivots.len() }
}
impl FullInitialBasis for Full<'_> {}

fn big(a: Vec<Vec<Q>>, b: Vec<Q>, c: Vec<Q>) -> Dense {
    let f = |v: Vec<Q>| v.iter().map(|q| q.big()).collect::<Vec<_>>();
    Dense { a: a.into_iter().map(f).collect(), b: f(b), c: f(c) }
}

fn coefs(g: &mut Gen, n: usize, p: lp::Palette, fill: u64) -> Vec<Q> {
    (0..n).map(|_| if g.chance(fill, 10) { lp::coef(g, p) } else { Q::ZERO }).collect()
}

/// A system with nonnegative right-hand side.
pub fn gen_system(cx: &mut Cx, max: usize, degenerate: bool) -> (Dense, &'static str) {
    let p = if cx.g.chance(1, 25) { lp::Palette::Wide } else { *cx.g.pick(&[lp::Palette::Ints, lp::Palette::Units, lp::Palette::Fractions]) };
    match cx.g.weighted(&[5, 3, 2, if degenerate { 3 } else { 1 }, 1]) {
        0 => {
            // around a point
            let g = &mut cx.g;
            let m = g.upto(max);
            let n = g.upto(max + 3);
            let mostly_zero = g.chance(if degenerate { 1 } else { 1 }, if degenerate { 2 } else { 4 });
            let x: Vec<Q> = (0..n).map(|_| if g.chance(if mostly_zero { 5 } else { 2 }, 6) { Q::ZERO } else { lp::value(g, p).abs() }).collect();
            let fill = g.range(2, 9) as u64;
            let mut a: Vec<Vec<Q>> = Vec::new();
            let mut b: Vec<Q> = Vec::new();
            let redundant = g.chance(1, 3);
            for i in 0..m {
                let (row, rhs) = if redundant && i > 0 && g.chance(1, 2) {
                    let (k, l) = (g.idx(i), g.idx(i));
                    let (f, h) = (Q::int(g.int(2)), Q::int(g.int(2)));
                    ((0..n).map(|j| a[k][j] * f + a[l][j] * h).collect(), b[k] * f + b[l] * h)
                } else {
                    let row = coefs(g, n, p, fill);
                    let rhs = row.iter().zip(&x).fold(Q::ZERO, |s, (a, x)| s + *a * *x);
                    (row, rhs)
                };
                let row: Vec<Q> = row;
                if rhs.is_neg() { a.push(row.iter().map(|v| -*v).collect()); b.push(-rhs); } else { a.push(row); b.push(rhs); }
            }
            let c = (0..n).map(|_| lp::value(g, p)).collect();
            (big(a, b, c), "around a point")
        }
        1 => {
            let feasible = cx.g.chance(3, 4);
            (gen_form(cx, max.min(5), feasible, false).layout(), "standard form")
        }
        2 => {
            // any right-hand side
            let g = &mut cx.g;
            let m = g.upto(max);
            let n = g.upto(max + 3);
            let fill = g.range(2, 9) as u64;
            let a = (0..m).map(|_| coefs(g, n, p, fill)).collect();
            let b = (0..m).map(|_| if g.bool() { Q::ZERO } else { lp::value(g, p).abs() }).collect();
            let c = (0..n).map(|_| lp::value(g, p)).collect();
            (big(a, b, c), "any right-hand side")
        }
        3 => {
            // relatives of problems on which simplex variants cycle
            let g = &mut cx.g;
            let (mut c, mut a) = lp::cycling(g);
            let m = a.len();
            if g.bool() {
                let (i, j) = (g.idx(m), g.idx(4));
                if g.bool() { a[i][j] = lp::coef(g, p); } else { c[j] = lp::coef(g, p); }
            }
            let order = if g.bool() { g.permutation(4 + m) } else { (0..4 + m).collect() };
            for (i, row) in a.iter_mut().enumerate() { for k in 0..m { row.push(if k == i { Q::ONE } else { Q::ZERO }); } }
            for _ in 0..m { c.push(Q::ZERO); }
            let shuffle = |v: &[Q]| order.iter().map(|&j| v[j]).collect::<Vec<_>>();
            let bounded = g.bool();
            let b = (0..m).map(|i| if i == 2 && bounded || i > 2 { Q::ONE } else { Q::ZERO }).collect();
            (big(a.iter().map(|r| shuffle(r)).collect(), b, shuffle(&c)), "cycling")
        }
        _ => {
            // assignment-like: many ties
            let g = &mut cx.g;
            let k = g.range(2, if max > 5 { 4 } else { 3 });
            let mut a = vec![vec![Q::ZERO; k * k]; 2 * k];
            for i in 0..k { for j in 0..k { a[i][i * k + j] = Q::ONE; a[k + j][i * k + j] = Q::ONE; } }
            let b = vec![Q::ONE; 2 * k];
            let c = (0..k * k).map(|_| Q::int(g.int(4))).collect();
            (big(a, b, c), "assignment")
        }
    }
}

/// Bigger systems, for histories that pass refactoring.
pub fn gen_large(g: &mut Gen) -> Dense {
    let (m, n) = if g.chance(1, 25) { (g.range(3, 6), g.range(60, 140)) } else { let m = g.range(8, 16); (m, m + g.range(4, 16)) };
    let x: Vec<Q> = (0..n).map(|_| Q::int(if g.bool() { 0 } else { g.upto(3) as i64 })).collect();
    let mut a = Vec::new();
    let mut b = Vec::new();
    for i in 0..m {
        let mut row = vec![Q::ZERO; n];
        row[i] = Q::ONE;
        for _ in 0..g.range(1, 4) { row[g.idx(n)] = Q::int(g.nonzero(2)); }
        let rhs = row.iter().zip(&x).fold(Q::ZERO, |s, (a, x)| s + *a * *x);
        if rhs.is_neg() { for v in &mut row { *v = -*v; } }
        a.push(row);
        b.push(rhs.abs());
    }
    let c = (0..n).map(|_| Q::int(g.int(5))).collect();
    big(a, b, c)
}

/// Positive unit columns with distinct rows, a random choice of them.
pub fn gen_pivots(g: &mut Gen, d: &Dense) -> Vec<(usize, usize)> {
    let mut pivots = Vec::new();
    for i in 0..d.m() {
        let candidates: Vec<usize> = (0..d.n()).filter(|&j| (0..d.m()).all(|k| d.a[k][j] == if k == i { one() } else { zero() })).collect();
        if !candidates.is_empty() && g.chance(3, 4) { pivots.push((i, *g.pick(&candidates))); }
    }
    pivots
}

/// Drop rows that depend on others.
pub fn independent(d: &Dense) -> Dense {
    let mut a: Vec<Vec<RB>> = Vec::new();
    let mut b = Vec::new();
    for (row, rhs) in d.a.iter().zip(&d.b) {
        a.push(row.clone());
        if refsolve::rank(&a) == a.len() { b.push(rhs.clone()); } else { a.pop(); }
    }
    Dense { a, b, c: d.c.clone() }
}

/// A random feasible basis of a system with independent rows, in a random order.
pub fn gen_basis(g: &mut Gen, d: &Dense) -> Option<Vec<usize>> {
    let x = match d.random_vertex(g) { Some(x) => x, None => return None };
    let mut basis: Vec<usize> = (0..d.n()).filter(|&j| !x[j].is0()).collect();
    let mut span: Vec<Vec<RB>> = basis.iter().map(|&j| column(d, j)).collect();
    if refsolve::rank(&span) < span.len() { return None; }
    for j in g.permutation(d.n()) {
        if basis.len() == d.m() { break; }
        if basis.contains(&j) { continue; }
        span.push(column(d, j));
        if refsolve::rank(&span) == span.len() { basis.push(j); } else { span.pop(); }
    }
    if basis.len() < d.m() { return None; }
    let order = g.permutation(basis.len());
    Some(order.into_iter().map(|i| basis[i]).collect())
}

pub fn column(d: &Dense, j: usize) -> Vec<RB> { (0..d.m()).map(|i| d.a[i][j].clone()).collect() }

impl Dense {
    pub fn random_vertex(&self, g: &mut Gen) -> Option<Vec<RB>> {
        // nonnegative costs: bounded
        let c: Vec<RB> = (0..self.n()).map(|_| Q::int(g.upto(3) as i64).big()).collect();
        match self.solve_costs(&c) {
            Std::Optimal { x, .. } => Some(x),
            _ => None,
        }
    }
}

/// Everything that follows from a basis, computed from scratch.
pub struct Exact { pub inverse: Vec<Vec<RB>>, pub x: Vec<RB>, pub y: Vec<RB> }
impl Exact {
    pub fn new(d: &Dense, basis: &[usize]) -> Option<Self> {
        let m = d.m();
        if basis.len() != m || basis.iter().collect::<BTreeSet<_>>().len() != m { return None; }
        let b: Vec<Vec<RB>> = (0..m).map(|i| basis.iter().map(|&j| d.a[i][j].clone()).collect()).collect();
        let inverse = inverse(&b)?;
        let x = mul(&inverse, &d.b);
        let y = (0..m).map(|k| (0..m).fold(zero(), |s, i| add_product(s, &d.c[basis[i]], &inverse[i][k]))).collect();
        Some(Exact { inverse, x, y })
    }
    pub fn generated(&self, column: &[RB]) -> Vec<RB> { mul(&self.inverse, column) }
    pub fn relative_cost(&self, d: &Dense, j: usize) -> RB {
        (0..d.m()).fold(d.c[j].clone(), |s, i| if self.y[i].is0() || d.a[i][j].is0() { s } else { s.sub(&self.y[i].mul(&d.a[i][j])) })
    }
}

/// Inverse, in 128 bits when that suffices.
pub fn inverse(b: &[Vec<RB>]) -> Option<Vec<Vec<RB>>> {
    let small: Option<Vec<Vec<Q>>> = b.iter().map(|r| r.iter().map(crate::props::view::to_q).collect()).collect();
    if let Some(q) = small {
        crate::q::take_overflow();
        let r = refsolve::inverse(&q);
        if !crate::q::take_overflow() { return r.map(|r| r.iter().map(|r| r.iter().map(|v| v.big()).collect()).collect()); }
    }
    refsolve::inverse(b)
}

pub fn add_product(s: RB, a: &RB, b: &RB) -> RB { if a.is0() || b.is0() { s } else { s.add(&a.mul(b)) } }
pub fn mul(a: &[Vec<RB>], x: &[RB]) -> Vec<RB> {
    a.iter().map(|r| r.iter().zip(x).fold(zero(), |s, (a, x)| add_product(s, a, x))).collect()
}
pub fn sparse_of(v: &[RB]) -> Vec<(usize, RB)> { v.iter().enumerate().filter(|e| !e.1.is0()).map(|(i, v)| (i, v.clone())).collect() }
