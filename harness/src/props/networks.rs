//! C20: problems given as matrix providers of one's own.
use std::iter::Chain;
use std::ops::{Add, Mul};

use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
use relp::algorithm::two_phase::matrix_provider::column::{Column, SparseSliceIterator};
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::{FullInitialBasis, PartialInitialBasis};
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::Carry;
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, SparseMatrix};
use relp::data::linear_algebra::traits::{SparseComparator, SparseElement};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::BoundDirection;
use relp::data::linear_program::network::representation::{ArcDirection, ArcIncidenceColumn, IncidenceMatrix};
use relp_num::{Binary, Rational64};

use crate::engine::{guard, oracle_broken, Cx, Gen, Res};
use crate::lp::{self, Palette};
use crate::props::systems::{self, show, Full, Part, Plain, System};
use crate::props::view::{agree, zero, Dense};
use crate::q::{FromQ, Num, Q, RB};
use crate::refsolve::Std;
use crate::{ensure, fail};

type Lu = Carry<RB, LUDecomposition<RB>>;
type Rows = Carry<RB, BasisInverseRows<RB>>;

/// A directed graph; arcs sorted by tail and then head, with a nonzero weight each.
#[derive(Debug, Clone)]
struct Graph { n: usize, arcs: Vec<(usize, usize, Q)> }

fn gen_graph(g: &mut Gen, least: usize, most: usize, weight: &dyn Fn(&mut Gen) -> Q) -> Graph {
    let n = g.range(least, most);
    let mut pairs: Vec<(usize, usize)> = Vec::new();
    match g.weighted(&[4, 2, 2, 1]) {
        0 => {
            let p = g.range(1, 9) as u64;
            for i in 0..n { for j in 0..n { if i != j && g.chance(p, 10) { pairs.push((i, j)); } } }
        }
        1 => {
            // in layers, so that there are long paths and many ties
            let w = g.range(1, 3);
            for i in 0..n { for j in 0..n { if j / w == i / w + 1 && g.chance(4, 5) { pairs.push((i, j)); } } }
            for _ in 0..g.upto(3) { if n > 1 { let i = g.idx(n); let j = (i + 1 + g.idx(n - 1)) % n; if !pairs.contains(&(i, j)) { pairs.push((i, j)); } } }
        }
        2 => {
            // several components, vertices without arcs
            let k = g.range(1, 3);
            let p = g.range(2, 9) as u64;
            for i in 0..n { for j in 0..n { if i != j && i % k == j % k && i % 4 != 3 && g.chance(p, 10) { pairs.push((i, j)); } } }
        }
        _ => for i in 0..n { for j in 0..n { if i != j { pairs.push((i, j)); } } }
    }
    let names = g.permutation(n);
    for p in &mut pairs { *p = (names[p.0], names[p.1]); }
    pairs.sort_unstable();
    Graph { n, arcs: pairs.into_iter().map(|(i, j)| (i, j, weight(g))).collect() }
}
fn adjacency<T: FromQ + SparseElement<T> + SparseComparator>(g: &Graph) -> SparseMatrix<T, T, ColumnMajor> {
    let mut data = vec![vec![]; g.n];
    for &(from, to, w) in &g.arcs { data[from].push((to, T::from_q(w))); }
    ColumnMajor::new(data, g.n, g.n)
}
/// The rows of the vertices that are left, computed directly.
fn incidence(g: &Graph, removed: &[usize]) -> Vec<Vec<Q>> {
    (0..g.n).filter(|v| !removed.contains(v))
        .map(|v| g.arcs.iter().map(|a| if a.0 == v { Q::int(-1) } else if a.1 == v { Q::ONE } else { Q::ZERO }).collect()).collect()
}

pub fn c20(cx: &mut Cx) -> Res {
    match cx.g.weighted(&[2, 5, 5, 4, 4, 1]) {
        0 => representation(cx),
        1 => shortest_path(cx),
        2 => max_flow(cx),
        3 => flow(cx),
        4 => full_basis(cx),
        _ => arithmetic(cx),
    }
}

fn representation(cx: &mut Cx) -> Res {
    cx.tag("representation");
    let graph = gen_graph(&mut cx.g, 0, 8, &|g| lp::coef(g, Palette::Fractions));
    let p = cx.g.range(0, 4) as u64;
    let order = cx.g.permutation(graph.n);
    let removed: Vec<usize> = order.into_iter().filter(|_| cx.g.chance(p, 4)).collect();
    cx.note(format!("{:?} without {:?}", graph, removed));
    cx.nontrivial = graph.arcs.len() > 1 && graph.n > removed.len() + 1;
    let (m, values) = guard("incidence matrix", || IncidenceMatrix::new(adjacency::<RB>(&graph), removed.clone()))?;
    ensure!(m.nr_vertices() == graph.n, "vertices", "{} vertices, should be {}", m.nr_vertices(), graph.n);
    ensure!(m.nr_edges() == graph.arcs.len(), "edges", "{} edges, should be {}", m.nr_edges(), graph.arcs.len());
    let weights: Vec<RB> = graph.arcs.iter().map(|a| a.2.big()).collect();
    ensure!(values.inner() == &weights[..], "weights", "weights {}, should be {}", show(values.inner()), show(&weights));
    let rows = incidence(&graph, &removed);
    for j in 0..graph.arcs.len() {
        let expected: Vec<(usize, ArcDirection)> = (0..rows.len()).filter(|&i| !rows[i][j].is_zero())
            .map(|i| (i, if rows[i][j].is_neg() { ArcDirection::Outgoing } else { ArcDirection::Incoming })).collect();
        let column = guard("incidence matrix column", || m.column(j))?;
        ensure!(column == expected, "column", "column of arc {:?} is {:?}, should be {:?}", graph.arcs[j], column, expected);
        let column = ArcIncidenceColumn(column);
        ensure!(column.iter().map(|(i, v)| (i, v.clone())).collect::<Vec<_>>() == expected && column.clone().into_iter().collect::<Vec<_>>() == expected, "column-iterate", "iterating over {:?}", expected);
        for i in 0..rows.len() {
            ensure!(column.index_to_string(i) == rows[i][j].to_string(), "column-string", "element {} of {:?} reads {}", i, expected, column.index_to_string(i));
        }
        agree(&|| column.clone(), j)?;
        let out: Vec<usize> = (0..rows.len()).filter(|_| cx.g.bool()).collect();
        let left: Vec<(usize, ArcDirection)> = expected.iter().filter(|e| !out.contains(&e.0))
            .map(|e| (e.0 - out.iter().filter(|&&o| o < e.0).count(), e.1.clone())).collect();
        let filtered = guard("filtering a column", || column.into_filtered(&out))?;
        ensure!(filtered.0 == left, "filtered", "{:?} without {:?} is {:?}, should be {:?}", expected, out, filtered.0, left);
    }
    if !rows.is_empty() {
        let i = cx.g.idx(rows.len());
        let unit: Vec<_> = ArcIncidenceColumn::identity(i, rows.len()).iter().map(|(i, v)| (i, RB::from(v))).collect();
        ensure!(unit == vec![(i, Q::ONE.big())], "identity", "identity column {} is {:?}", i, unit);
    }
    Ok(())
}

fn arithmetic(cx: &mut Cx) -> Res {
    cx.tag("arithmetic");
    let v = match cx.g.below(3) {
        0 => Q::int(cx.g.int(3)),
        1 => Q::new(cx.g.int(5) as i128, cx.g.range(1, 5) as i128),
        _ => Q::new(cx.g.int(1 << 40) as i128, cx.g.range(1, 1 << 40) as i128),
    };
    cx.nontrivial = true;
    cx.note(format!("{}", v));
    for (d, q) in [(ArcDirection::Incoming, Q::ONE), (ArcDirection::Outgoing, Q::int(-1))] {
        let b = v.big();
        let results = guard("arithmetic with an arc direction", || {
            let mut results = vec![
                ("from", RB::from(d.clone()), q), ("from &", RB::from(&d), q),
                ("+", b.clone() + d.clone(), v + q), ("+ &", b.clone() + &d, v + q),
                ("-", b.clone() - d.clone(), v - q), ("- &", b.clone() - &d, v - q),
                ("*", b.clone() * d.clone(), v * q), ("* &", b.clone() * &d, v * q), ("& * &", &b * &d, v * q),
                ("/", b.clone() / d.clone(), v / q), ("/ &", b.clone() / &d, v / q),
            ];
            macro_rules! assign {
                ($name:expr, $op:tt, $expected:expr) => {
                    let (mut x, mut y) = (b.clone(), b.clone());
                    x $op d.clone();
                    y $op &d;
                    results.push(($name, x, $expected));
                    results.push(($name, y, $expected));
                };
            }
            assign!("+=", +=, v + q);
            assign!("-=", -=, v - q);
            assign!("*=", *=, v * q);
            assign!("/=", /=, v / q);
            results
        })?;
        for (op, got, expected) in results {
            ensure!(got == expected.big(), "arithmetic", "{} {} {} is {}, should be {}", v, op, d, got, expected);
        }
    }
    Ok(())
}

/// What a solve must come to.
enum Expected { Infeasible, Unbounded, Value(RB) }
impl Expected {
    fn of(d: &Dense) -> Self {
        match d.solve() { Std::Infeasible => Expected::Infeasible, Std::Unbounded { .. } => Expected::Unbounded, Std::Optimal { value, .. } => Expected::Value(value) }
    }
}
fn judge(result: &OptimizationResult<RB>, d: &Dense, expected: &Expected, what: &str) -> Res {
    match (result, expected) {
        (OptimizationResult::Infeasible, Expected::Infeasible) | (OptimizationResult::Unbounded, Expected::Unbounded) => Ok(()),
        (OptimizationResult::FiniteOptimum(v), Expected::Value(value)) => {
            ensure!(v.len() == d.n(), "length", "{}: solution of length {} for {} columns", what, v.len(), d.n());
            let x = crate::props::view::unsparse(v);
            ensure!(x.iter().all(|v| v.sgn() >= 0), "negative", "{}: solution {}", what, show(&x));
            let ax = systems::mul(&d.a, &x);
            ensure!(ax == d.b, "violates", "{}: solution {} gives {}, should be {}", what, show(&x), show(&ax), show(&d.b));
            let at = d.cost_at(&x);
            ensure!(at == *value, "not-optimal", "{}: solution {} costs {}, the optimum is {}", what, show(&x), at, value);
            Ok(())
        }
        _ => {
            let name = match result { OptimizationResult::Infeasible => "infeasible", OptimizationResult::Unbounded => "unbounded", _ => "optimal" };
            let is = match expected { Expected::Infeasible => "infeasible".to_string(), Expected::Unbounded => "unbounded".to_string(), Expected::Value(v) => format!("optimal with value {}", v) };
            fail!(format!("verdict:{}", name), "{}: reported {}, is {}", what, name, is)
        }
    }
}
macro_rules! both {
    ($cx:expr, $what:expr, $problem:expr, $d:expr, $expected:expr) => {{
        let r = guard($what, || $problem.solve_relaxation::<Lu>())?;
        judge(&r, $d, $expected, concat!($what, " (lu)"))?;
        let r = guard($what, || $problem.solve_relaxation::<Rows>())?;
        judge(&r, $d, $expected, concat!($what, " (rows)"))?;
    }};
}

/// One unit from `s` to `t`, as in the example of the project.
struct ShortestPath { matrix: IncidenceMatrix, cost: DenseVector<Rational64>, s: usize, t: usize }
impl MatrixProvider for ShortestPath {
    type Column = ArcIncidenceColumn;
    type Cost<'a> = &'a Rational64;
    type Rhs = Binary;
    fn column(&self, j: usize) -> ArcIncidenceColumn { ArcIncidenceColumn(self.matrix.column(j)) }
    fn cost_value(&self, j: usize) -> &Rational64 { &self.cost[j] }
    fn right_hand_side(&self) -> DenseVector<Binary> {
        let mut b = DenseVector::constant(Binary::Zero, self.nr_rows());
        b[if self.t < self.s { self.t } else { self.t - 1 }] = Binary::One;
        b
    }
    fn bound_row_index(&self, _j: usize, _bound_type: BoundDirection) -> Option<usize> { None }
    fn nr_constraints(&self) -> usize { self.matrix.nr_vertices() - 1 }
    fn nr_variable_bounds(&self) -> usize { 0 }
    fn nr_columns(&self) -> usize { self.matrix.nr_edges() }
    fn reconstruct_solution<G>(&self, v: SparseVector<G, G>) -> SparseVector<G, G> where G: SparseElement<G> + SparseComparator { v }
}

fn shortest_path(cx: &mut Cx) -> Res {
    cx.tag("shortest path");
    let fractions = cx.g.chance(1, 4);
    let negative = cx.g.weighted(&[3, 2, 1]);
    let large = cx.g.chance(1, if cx.thorough { 8 } else { 25 });
    let graph = gen_graph(&mut cx.g, 2, if large { 14 } else { 7 }, &|g| {
        let q = if fractions { lp::coef(g, Palette::Fractions).abs() } else { Q::int(g.range(1, 6) as i64) };
        if negative == 1 && g.chance(1, 8) || negative == 2 && g.bool() { -q } else { q }
    });
    let s = cx.g.idx(graph.n);
    let t = (s + 1 + cx.g.idx(graph.n - 1)) % graph.n;
    cx.note(format!("{:?} from {} to {}", graph, s, t));
    cx.nontrivial = graph.arcs.len() >= 3 && graph.n >= 3;
    // Bellman-Ford from s
    let mut dist: Vec<Option<Q>> = vec![None; graph.n];
    dist[s] = Some(Q::ZERO);
    for _ in 0..graph.n { relax(&graph, &mut dist); }
    // and from everywhere at once: a negative cycle anywhere makes it unbounded
    let mut all = vec![Some(Q::ZERO); graph.n];
    for _ in 0..graph.n { relax(&graph, &mut all); }
    let cycle = relax(&graph, &mut all);
    let expected = match dist[t] {
        None => Expected::Infeasible,
        Some(_) if cycle => Expected::Unbounded,
        Some(d) => Expected::Value(d.big()),
    };
    cx.tag(match expected { Expected::Infeasible => "unreachable", Expected::Unbounded => "negative cycle", _ => "path" });
    let a = incidence(&graph, &[s]);
    let b: Vec<Q> = (0..graph.n).filter(|&v| v != s).map(|v| if v == t { Q::ONE } else { Q::ZERO }).collect();
    let d = big(&a, &b, &graph.arcs.iter().map(|a| a.2).collect::<Vec<_>>());
    if !large { check_oracle(&d, &expected); }
    let (matrix, cost) = guard("incidence matrix", || IncidenceMatrix::new(adjacency::<Rational64>(&graph), vec![s]))?;
    let problem = ShortestPath { matrix, cost, s, t };
    both!(cx, "shortest path", problem, &d, &expected);
    Ok(())
}
fn relax(graph: &Graph, dist: &mut [Option<Q>]) -> bool {
    let mut changed = false;
    for &(i, j, w) in &graph.arcs {
        if let Some(d) = dist[i] {
            let through = d + w;
            if dist[j].map_or(true, |d| through < d) { dist[j] = Some(through); changed = true; }
        }
    }
    changed
}
fn check_oracle(d: &Dense, expected: &Expected) {
    let same = match (Expected::of(d), expected) {
        (Expected::Infeasible, Expected::Infeasible) | (Expected::Unbounded, Expected::Unbounded) => true,
        (Expected::Value(v), Expected::Value(w)) => v == *w,
        _ => false,
    };
    if !same { oracle_broken("the combinatorial and the linear programming oracle disagree"); }
}
fn big(a: &[Vec<Q>], b: &[Q], c: &[Q]) -> Dense {
    let f = |v: &[Q]| v.iter().map(|q| q.big()).collect::<Vec<_>>();
    Dense { a: a.iter().map(|r| f(r)).collect(), b: f(b), c: f(c) }
}

/// An arc and perhaps a row for its capacity.
#[derive(Debug, Clone)]
struct ArcColumn { arc: Vec<(usize, ArcDirection)>, slack: Option<(usize, ArcDirection)> }
impl Column for ArcColumn {
    type F = ArcDirection;
    type Iter<'a> = Chain<SparseSliceIterator<'a, ArcDirection>, relp::algorithm::two_phase::matrix_provider::column::SparseOptionIterator<'a, ArcDirection>>;
    fn iter(&self) -> Self::Iter<'_> {
        SparseSliceIterator::new(&self.arc).chain(relp::algorithm::two_phase::matrix_provider::column::SparseOptionIterator::new(&self.slack))
    }
    fn index_to_string(&self, i: usize) -> String {
        self.iter().find(|e| e.0 == i).map_or("0".into(), |e| e.1.to_string())
    }
}
impl IntoIterator for ArcColumn {
    type Item = (usize, ArcDirection);
    type IntoIter = Chain<std::vec::IntoIter<(usize, ArcDirection)>, std::option::IntoIter<(usize, ArcDirection)>>;
    fn into_iter(self) -> Self::IntoIter { self.arc.into_iter().chain(self.slack) }
}
impl Identity for ArcColumn {
    fn identity(i: usize, _len: usize) -> Self { ArcColumn { arc: vec![], slack: Some((i, ArcDirection::Incoming)) } }
}
impl IntoFilteredColumn for ArcColumn {
    type Filtered = Self;
    fn into_filtered(self, to_remove: &[usize]) -> Self {
        let shift = |(i, v): (usize, ArcDirection)| if to_remove.contains(&i) { None } else { Some((i - to_remove.iter().filter(|&&r| r < i).count(), v)) };
        ArcColumn { arc: self.arc.into_iter().filter_map(shift).collect(), slack: self.slack.and_then(shift) }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Unit { Zero, Plus, Minus }
impl Add<Unit> for RB {
    type Output = RB;
    fn add(self, u: Unit) -> RB { match u { Unit::Zero => self, Unit::Plus => self + Q::ONE.big(), Unit::Minus => self - Q::ONE.big() } }
}
impl Mul<Unit> for RB {
    type Output = RB;
    fn mul(self, u: Unit) -> RB { match u { Unit::Zero => zero(), Unit::Plus => self, Unit::Minus => -self } }
}
impl Mul<Unit> for &RB {
    type Output = RB;
    fn mul(self, u: Unit) -> RB { self.clone() * u }
}

/// Maximum flow from `s` to `t`, both removed.
struct MaxFlow { matrix: IncidenceMatrix, capacity: DenseVector<Rational64>, gain: Vec<Unit> }
impl MaxFlow {
    fn edges(&self) -> usize { self.matrix.nr_edges() }
}
impl MatrixProvider for MaxFlow {
    type Column = ArcColumn;
    type Cost<'a> = Unit;
    type Rhs = Rational64;
    fn column(&self, j: usize) -> ArcColumn {
        let e = self.edges();
        ArcColumn { arc: if j < e { self.matrix.column(j) } else { vec![] }, slack: Some((self.nr_constraints() + j % e, ArcDirection::Incoming)) }
    }
    fn cost_value(&self, j: usize) -> Unit { if j < self.edges() { self.gain[j] } else { Unit::Zero } }
    fn right_hand_side(&self) -> DenseVector<Rational64> {
        let mut b = DenseVector::constant(Rational64::from_q(Q::ZERO), self.nr_constraints());
        b.extend_with_values(self.capacity.iter().cloned().collect());
        b
    }
    fn bound_row_index(&self, j: usize, bound_type: BoundDirection) -> Option<usize> {
        if matches!(bound_type, BoundDirection::Upper) && j < self.edges() { Some(self.nr_constraints() + j) } else { None }
    }
    fn nr_constraints(&self) -> usize { self.matrix.nr_vertices() - 2 }
    fn nr_variable_bounds(&self) -> usize { self.edges() }
    fn nr_columns(&self) -> usize { 2 * self.edges() }
    fn reconstruct_solution<G>(&self, v: SparseVector<G, G>) -> SparseVector<G, G> where G: SparseElement<G> + SparseComparator { v }
}
impl PartialInitialBasis for MaxFlow {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> { (0..self.edges()).map(|j| (self.nr_constraints() + j, self.edges() + j)).collect() }
    fn nr_initial_elements(&self) -> usize { self.edges() }
}

fn max_flow(cx: &mut Cx) -> Res {
    cx.tag("maximum flow");
    let fractions = cx.g.chance(1, 4);
    let large = cx.g.chance(1, if cx.thorough { 10 } else { 40 });
    let graph = gen_graph(&mut cx.g, 2, if large { 9 } else { 6 }, &|g| if fractions { lp::coef(g, Palette::Fractions).abs() } else { Q::int(g.range(1, 5) as i64) });
    let s = cx.g.idx(graph.n);
    let t = (s + 1 + cx.g.idx(graph.n - 1)) % graph.n;
    cx.note(format!("{:?} from {} to {}", graph, s, t));
    cx.nontrivial = graph.arcs.len() >= 3 && graph.n >= 4;
    let value = augment(&graph, s, t);
    if value.is_pos() { cx.tag("flow"); }
    let removed = if cx.g.bool() { vec![s, t] } else { vec![t, s] };
    let e = graph.arcs.len();
    let mut a = incidence(&graph, &removed);
    for row in &mut a { row.extend(vec![Q::ZERO; e]); }
    for j in 0..e { a.push((0..2 * e).map(|k| if k % e == j { Q::ONE } else { Q::ZERO }).collect()); }
    let b: Vec<Q> = (0..graph.n - 2).map(|_| Q::ZERO).chain(graph.arcs.iter().map(|a| a.2)).collect();
    let gain: Vec<Unit> = graph.arcs.iter().map(|a| if a.0 == s { Unit::Minus } else if a.1 == s { Unit::Plus } else { Unit::Zero }).collect();
    let c: Vec<Q> = gain.iter().map(|u| match u { Unit::Zero => Q::ZERO, Unit::Plus => Q::ONE, Unit::Minus => Q::int(-1) }).chain((0..e).map(|_| Q::ZERO)).collect();
    let d = big(&a, &b, &c);
    let expected = Expected::Value((-value).big());
    if !large { check_oracle(&d, &expected); }
    let (matrix, capacity) = guard("incidence matrix", || IncidenceMatrix::new(adjacency::<Rational64>(&graph), removed))?;
    let problem = MaxFlow { matrix, capacity, gain };
    both!(cx, "maximum flow", problem, &d, &expected);
    Ok(())
}
/// Largest flow by shortest augmenting paths.
fn augment(graph: &Graph, s: usize, t: usize) -> Q {
    let n = graph.n;
    let mut left = vec![vec![Q::ZERO; n]; n];
    for &(i, j, w) in &graph.arcs { left[i][j] = w; }
    let mut total = Q::ZERO;
    loop {
        let mut from = vec![usize::MAX; n];
        from[s] = s;
        let mut queue = vec![s];
        let mut k = 0;
        while k < queue.len() {
            let i = queue[k];
            k += 1;
            for j in 0..n { if from[j] == usize::MAX && left[i][j].is_pos() { from[j] = i; queue.push(j); } }
        }
        if from[t] == usize::MAX { return total; }
        let mut path = vec![];
        let mut v = t;
        while v != s { path.push((from[v], v)); v = from[v]; }
        let f = path.iter().map(|&(i, j)| left[i][j]).min().unwrap();
        for (i, j) in path { left[i][j] = left[i][j] - f; left[j][i] = left[j][i] + f; }
        total = total + f;
    }
}

/// Cheapest way to supply all vertices that are left from those removed, some arcs with capacity.
struct Flow { matrix: IncidenceMatrix, vertices: usize, cost: DenseVector<RB>, demand: Vec<RB>, capacity: Vec<(usize, RB)> }
impl MatrixProvider for Flow {
    type Column = ArcColumn;
    type Cost<'a> = RB;
    type Rhs = RB;
    fn column(&self, j: usize) -> ArcColumn {
        let e = self.matrix.nr_edges();
        if j < e {
            ArcColumn { arc: self.matrix.column(j), slack: self.capacity.iter().position(|c| c.0 == j).map(|k| (self.vertices + k, ArcDirection::Incoming)) }
        } else {
            ArcColumn { arc: vec![(self.vertices + j - e, ArcDirection::Incoming)], slack: None }
        }
    }
    fn cost_value(&self, j: usize) -> RB { if j < self.matrix.nr_edges() { self.cost[j].clone() } else { zero() } }
    fn right_hand_side(&self) -> DenseVector<RB> {
        self.demand.iter().chain(self.capacity.iter().map(|c| &c.1)).cloned().collect()
    }
    fn bound_row_index(&self, j: usize, bound_type: BoundDirection) -> Option<usize> {
        match bound_type { BoundDirection::Lower => None, BoundDirection::Upper => self.capacity.iter().position(|c| c.0 == j).map(|k| self.vertices + k) }
    }
    fn nr_constraints(&self) -> usize { self.vertices }
    fn nr_variable_bounds(&self) -> usize { self.capacity.len() }
    fn nr_columns(&self) -> usize { self.matrix.nr_edges() + self.capacity.len() }
    fn reconstruct_solution<G>(&self, v: SparseVector<G, G>) -> SparseVector<G, G> where G: SparseElement<G> + SparseComparator { v }
}
struct PartFlow(Flow);
impl MatrixProvider for PartFlow {
    type Column = ArcColumn;
    type Cost<'a> = RB;
    type Rhs = RB;
    fn column(&self, j: usize) -> ArcColumn { self.0.column(j) }
    fn cost_value(&self, j: usize) -> RB { self.0.cost_value(j) }
    fn right_hand_side(&self) -> DenseVector<RB> { self.0.right_hand_side() }
    fn bound_row_index(&self, j: usize, bound_type: BoundDirection) -> Option<usize> { self.0.bound_row_index(j, bound_type) }
    fn nr_constraints(&self) -> usize { self.0.nr_constraints() }
    fn nr_variable_bounds(&self) -> usize { self.0.nr_variable_bounds() }
    fn nr_columns(&self) -> usize { self.0.nr_columns() }
    fn reconstruct_solution<G>(&self, v: SparseVector<G, G>) -> SparseVector<G, G> where G: SparseElement<G> + SparseComparator { v }
}
impl PartialInitialBasis for PartFlow {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> { (0..self.0.capacity.len()).map(|k| (self.0.vertices + k, self.0.matrix.nr_edges() + k)).collect() }
    fn nr_initial_elements(&self) -> usize { self.0.capacity.len() }
}

fn flow(cx: &mut Cx) -> Res {
    cx.tag("flow with costs");
    let graph = gen_graph(&mut cx.g, 1, 6, &|g| if g.chance(1, 4) { -lp::coef(g, Palette::Fractions).abs() } else { lp::coef(g, Palette::Fractions).abs() });
    let k = cx.g.upto(graph.n.min(2));
    let removed: Vec<usize> = cx.g.permutation(graph.n).into_iter().take(k).collect();
    let p = cx.g.upto(4) as u64;
    let capacity: Vec<(usize, Q)> = (0..graph.arcs.len()).filter_map(|j| if cx.g.chance(p, 4) { Some((j, lp::value(&mut cx.g, Palette::Fractions).abs())) } else { None }).collect();
    let kept = graph.n - k;
    let demand: Vec<Q> = (0..kept).map(|_| if k > 0 && cx.g.bool() { Q::int(cx.g.upto(3) as i64) } else { Q::ZERO }).collect();
    cx.note(format!("{:?} without {:?}, demand {:?}, capacities {:?}", graph, removed, demand, capacity));
    cx.nontrivial = graph.arcs.len() >= 3 && kept >= 2;
    let e = graph.arcs.len();
    let mut a = incidence(&graph, &removed);
    for row in &mut a { row.extend(vec![Q::ZERO; capacity.len()]); }
    for (k, c) in capacity.iter().enumerate() { a.push((0..e + capacity.len()).map(|j| if j == c.0 || j == e + k { Q::ONE } else { Q::ZERO }).collect()); }
    let b: Vec<Q> = demand.iter().copied().chain(capacity.iter().map(|c| c.1)).collect();
    let c: Vec<Q> = graph.arcs.iter().map(|a| a.2).chain(capacity.iter().map(|_| Q::ZERO)).collect();
    let d = big(&a, &b, &c);
    let expected = Expected::of(&d);
    cx.tag(match expected { Expected::Infeasible => "infeasible", Expected::Unbounded => "unbounded", _ => "optimal" });
    let (matrix, cost) = guard("incidence matrix", || IncidenceMatrix::new(adjacency::<RB>(&graph), removed))?;
    let problem = Flow { matrix, vertices: kept, cost, demand: demand.iter().map(|q| q.big()).collect(), capacity: capacity.iter().map(|c| (c.0, c.1.big())).collect() };
    if cx.g.bool() {
        both!(cx, "flow", problem, &d, &expected);
    } else {
        let problem = PartFlow(problem);
        both!(cx, "flow from slacks", problem, &d, &expected);
    }
    Ok(())
}

/// Columns of one type and computation in another.
macro_rules! full {
    ($name:ident, $column:ident, $t:ty) => {
        #[derive(Debug, Clone)]
        struct $column(Vec<(usize, $t)>);
        impl Column for $column {
            type F = $t;
            type Iter<'a> = SparseSliceIterator<'a, $t>;
            fn iter(&self) -> Self::Iter<'_> { SparseSliceIterator::new(&self.0) }
            fn index_to_string(&self, i: usize) -> String { self.0.iter().find(|e| e.0 == i).map_or("0".into(), |e| e.1.to_string()) }
        }
        impl IntoIterator for $column {
            type Item = (usize, $t);
            type IntoIter = std::vec::IntoIter<(usize, $t)>;
            fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
        }
        impl Identity for $column {
            fn identity(i: usize, _len: usize) -> Self { $column(vec![(i, <$t as FromQ>::from_q(Q::ONE))]) }
        }
        impl IntoFilteredColumn for $column {
            type Filtered = Self;
            fn into_filtered(self, out: &[usize]) -> Self {
                $column(self.0.into_iter().filter(|e| !out.contains(&e.0)).map(|(i, v)| (i - out.iter().filter(|&&r| r < i).count(), v)).collect())
            }
        }
        struct $name { columns: Vec<$column>, b: Vec<$t>, c: Vec<$t>, pivots: Vec<(usize, usize)> }
        impl $name {
            fn new(a: &[Vec<Q>], b: &[Q], c: &[Q], pivots: Vec<(usize, usize)>) -> Self {
                let t = |q: &Q| <$t as FromQ>::from_q(*q);
                $name {
                    columns: (0..c.len()).map(|j| $column((0..b.len()).filter(|&i| !a[i][j].is_zero()).map(|i| (i, t(&a[i][j]))).collect())).collect(),
                    b: b.iter().map(t).collect(), c: c.iter().map(t).collect(), pivots,
                }
            }
        }
        impl MatrixProvider for $name {
            type Column = $column;
            type Cost<'a> = &'a $t;
            type Rhs = $t;
            fn column(&self, j: usize) -> $column { self.columns[j].clone() }
            fn cost_value(&self, j: usize) -> &$t { &self.c[j] }
            fn right_hand_side(&self) -> DenseVector<$t> { self.b.iter().cloned().collect() }
            fn bound_row_index(&self, _j: usize, _bound_type: BoundDirection) -> Option<usize> { None }
            fn nr_constraints(&self) -> usize { self.b.len() }
            fn nr_variable_bounds(&self) -> usize { 0 }
            fn nr_columns(&self) -> usize { self.c.len() }
            fn reconstruct_solution<G>(&self, v: SparseVector<G, G>) -> SparseVector<G, G> where G: SparseElement<G> + SparseComparator { v }
        }
        impl PartialInitialBasis for $name {
            fn pivot_element_indices(&self) -> Vec<(usize, usize)> { self.pivots.clone() }
            fn nr_initial_elements(&self) -> usize { self.pivots.len() }
        }
        impl FullInitialBasis for $name {}
    };
}
full!(Full64, Column64, Rational64);


/// A x <= b with b nonnegative, all slacks offered as first basis.
fn full_basis(cx: &mut Cx) -> Res {
    cx.tag("full basis");
    let g = &mut cx.g;
    let small = g.chance(1, 4);
    let p = if !small && g.chance(1, 25) { Palette::Wide } else { *g.pick(&[Palette::Ints, Palette::Units, Palette::Fractions]) };
    let (m, n) = if small { (g.upto(3), g.upto(3)) } else { (g.upto(6), g.upto(7)) };
    let fill = g.range(2, 9) as u64;
    let entry = |g: &mut Gen| if small { Q::int(g.int(2)) } else { lp::value(g, p) };
    let mut a: Vec<Vec<Q>> = (0..m).map(|_| (0..n).map(|_| if g.chance(fill, 10) { entry(g) } else { Q::ZERO }).collect()).collect();
    let degenerate = g.bool();
    let b: Vec<Q> = (0..m).map(|_| if degenerate && g.bool() { Q::ZERO } else { entry(g).abs() }).collect();
    // slacks may cost something too
    let slack_costs = g.chance(1, 4);
    let mut c: Vec<Q> = (0..n).map(|_| entry(g)).collect();
    for i in 0..m {
        c.push(if slack_costs { entry(g) } else { Q::ZERO });
        for k in 0..m { a[k].push(if i == k { Q::ONE } else { Q::ZERO }); }
    }
    let order = if g.chance(1, 3) { g.permutation(n + m) } else { (0..n + m).collect() };
    let shuffle = |v: &[Q]| order.iter().map(|&j| v[j]).collect::<Vec<_>>();
    let a: Vec<Vec<Q>> = a.iter().map(|r| shuffle(r)).collect();
    let c = shuffle(&c);
    let mut pivots: Vec<(usize, usize)> = (0..m).map(|i| (i, order.iter().position(|&j| j == n + i).unwrap())).collect();
    let d = big(&a, &b, &c);
    let s = System::new(d.clone(), pivots.clone());
    cx.note(s.render());
    cx.nontrivial = m >= 2 && n >= 2;
    let expected = Expected::of(&d);
    cx.tag(match expected { Expected::Infeasible => "infeasible", Expected::Unbounded => "unbounded", _ => "optimal" });
    match cx.g.below(3) {
        0 => {
            let full = Full(&s);
            both!(cx, "full basis", full, &d, &expected);
            // the same without being told so
            let s = System::new(d.clone(), { let keep = cx.g.upto(m); pivots.truncate(keep); pivots });
            let part = Part(&s);
            both!(cx, "part of a basis", part, &d, &expected);
        }
        1 => {
            let plain = Plain(&s);
            both!(cx, "no basis", plain, &d, &expected);
        }
        _ => {
            let full = Full64::new(&a, &b, &c, pivots);
            both!(cx, "64 bits computed with big", full, &d, &expected);
        }
    }
    Ok(())
}
