//! C04: standardising; C05: the matrix view of a standard form.
use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
use relp::algorithm::two_phase::matrix_provider::column::Column as ColumnTrait;
use relp::algorithm::two_phase::matrix_provider::matrix_data::{Column, MatrixData};
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::PartialInitialBasis;
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder};
use relp::data::linear_algebra::vector::{DenseVector, Vector};
use relp::data::linear_program::elements::{BoundDirection, VariableType};
use relp::data::linear_program::general_form::Variable;

use crate::engine::{guard, Cx, Res};
use crate::lp::{self, gen_lp, Kind, Lp, Verdict};
use crate::props::solve::{values, FRACTIONS, PRESOLVE};
use crate::props::view::{agree, dense, one, sparse, unsparse, zero, Dense};
use crate::q::{Num, Q, RB};
use crate::refsolve::Std;
use crate::{ensure, fail};

pub fn c04(cx: &mut Cx) -> Res {
    let o = *cx.g.pick(&[lp::SMALL, FRACTIONS, PRESOLVE]);
    let (mut lp, class) = loop {
        let (lp, class) = gen_lp(&mut cx.g, &o);
        if class != "larger" || cx.g.chance(1, 20) { break (lp, class) }
    };
    // Bounds and signs are what matters here
    for v in &mut lp.vars {
        match cx.g.weighted(&[6, 1, 1, 1, 1]) {
            1 => { v.lo = None; v.hi = None; }
            2 => { v.lo = None; v.hi = Some(v.hi.unwrap_or(Q::int(cx.g.int(5)))); }
            3 => { let l = Q::int(cx.g.int(5)); v.lo = Some(l); v.hi = Some(l + Q::int(cx.g.upto(4) as i64)); }
            4 => { v.lo = Some(Q::int(cx.g.int(5))); v.hi = None; }
            _ => {}
        }
    }
    cx.tag(class);
    cx.note(lp.render());
    cx.nontrivial = lp.n() >= 2 && lp.m() >= 1 && lp.vars.iter().any(|v| v.lo != Some(Q::ZERO));
    let (d, counts, standard) = guard("standardize", || {
        let mut standard = lp.general::<RB>();
        let counts = standard.standardize();
        let d = dense(&standard.derive_matrix_data(counts));
        (d, counts, standard)
    })?;
    let d = d?;
    // shape
    let kinds = |f: &dyn Fn(Kind) -> bool| lp.rows.iter().filter(|r| f(r.kind)).count();
    let (e, r) = (kinds(&|k| k == Kind::E), kinds(&|k| matches!(k, Kind::R(_))));
    ensure!(counts[0] == e && counts[1] == r && counts.iter().sum::<usize>() == lp.m(), "counts",
        "counts {:?} for {} equality, {} range and {} other rows", counts, e, r, lp.m() - e - r);
    let free = lp.vars.iter().filter(|v| v.lo.is_none() && v.hi.is_none()).count();
    let both = lp.vars.iter().filter(|v| v.lo.is_some() && v.hi.is_some()).count();
    let nv = standard.nr_variables();
    ensure!(nv == lp.n() + free, "nr-variables", "{} variables, {} of which free, became {}", lp.n(), free, nv);
    ensure!(standard.nr_constraints() == lp.m(), "nr-constraints", "{} constraints became {}", lp.m(), standard.nr_constraints());
    ensure!(d.m() == lp.m() + both + r, "nr-rows", "{} rows for {} constraints, {} bounded variables and {} ranges", d.m(), lp.m(), both, r);
    ensure!(d.n() == nv + counts[1] + counts[2] + counts[3] + both + r, "nr-columns", "{} columns", d.n());
    for (i, b) in d.b.iter().enumerate() { ensure!(b.sgn() >= 0, "negative-rhs", "right-hand side {} is {}", i, b); }
    // the way back is affine: x = t + M y
    let back = |y: &[RB]| {
        let s = guard("map back", || standard.clone().compute_full_solution_with_reduced_solution(sparse(y)))?;
        let x = values(&lp, &s, "mapped back")?;
        let at = lp.objective_at(&x);
        let at = if lp.max { at.neg() } else { at };
        ensure!(at == s.objective_value, "objective", "mapped back point {:?} has objective {} (as minimisation), reported {}", x.iter().map(|v| v.to_string()).collect::<Vec<_>>(), at, s.objective_value);
        Ok((x, s.objective_value))
    };
    let (t, f0) = back(&vec![zero(); nv])?;
    let mut m = Vec::new();
    for j in 0..nv {
        let mut y = vec![zero(); nv];
        y[j] = one();
        let (x, f) = back(&y)?;
        ensure!(f.sub(&f0) == d.c[j], "cost", "column {} has cost {}, moving along it changes the objective by {}", j, d.c[j], f.sub(&f0));
        m.push(x.iter().zip(&t).map(|(x, t)| x.sub(t)).collect::<Vec<RB>>());
    }
    for j in nv..d.n() { ensure!(d.c[j].is0(), "slack-cost", "slack column {} has cost {}", j, d.c[j]); }
    let y: Vec<RB> = (0..nv).map(|_| Q::new(cx.g.upto(9) as i128, 1 + cx.g.upto(2) as i128).big()).collect();
    let (x, _) = back(&y)?;
    for i in 0..lp.n() {
        let e = (0..nv).fold(t[i].clone(), |s, j| s.add(&m[j][i].mul(&y[j])));
        ensure!(e == x[i], "not-affine", "value of {} is {} instead of {}", lp.vars[i].name, x[i], e);
    }
    // standard form is feasible exactly when the problem is
    let expected = lp.verdict();
    cx.tag(expected.name());
    let feasible = !matches!(d.solve_costs(&vec![zero(); d.n()]), Std::Infeasible);
    ensure!(feasible != matches!(expected, Verdict::Infeasible), "feasibility", "the problem is {}, its standard form is {}feasible", expected.name(), if feasible { "" } else { "not " });
    if !feasible { return Ok(()); }
    // each point of the standard form maps to a point of the problem: no constraint can be exceeded
    let coefs = |a: &[(usize, Q)]| {
        let mut c = vec![zero(); d.n()];
        for j in 0..nv { for (i, v) in a { if !m[j][*i].is0() { c[j] = c[j].add(&v.big().mul(&m[j][*i])); } } }
        let k = a.iter().fold(zero(), |s, (i, v)| s.add(&v.big().mul(&t[*i])));
        (c, k)
    };
    let mut limits: Vec<(String, Vec<(usize, Q)>, Option<Q>, Option<Q>)> = Vec::new();
    for (i, r) in lp.rows.iter().enumerate() { limits.push((format!("row {}", i), r.a.clone(), r.lower(), r.upper())); }
    for (j, v) in lp.vars.iter().enumerate() { limits.push((v.name.clone(), vec![(j, Q::ONE)], v.lo, v.hi)); }
    if class == "larger" { let k = cx.g.idx(limits.len()); limits = limits.drain(..).skip(k).take(2).collect(); }
    for (what, a, lower, upper) in &limits {
        let (c, k) = coefs(a);
        for (side, limit) in [(false, lower), (true, upper)] {
            let Some(limit) = limit else { continue };
            let c: Vec<RB> = if side { c.iter().map(|v| v.neg()).collect() } else { c.clone() };
            let extreme = match d.solve_costs(&c) {
                Std::Infeasible => crate::engine::oracle_broken("feasible and infeasible"),
                Std::Unbounded { .. } => fail!("limit-lost", "{} is not limited {} by {} in the standard form", what, if side { "above" } else { "below" }, limit),
                Std::Optimal { value, .. } => if side { k.sub(&value) } else { k.add(&value) },
            };
            let bad = if side { limit.big().less(&extreme) } else { extreme.less(&limit.big()) };
            ensure!(!bad, "limit-exceeded", "{} can become {} in the standard form, the limit is {}", what, extreme, limit);
        }
    }
    // each point of the problem is reached
    for _ in 0..2 {
        let x = random_point(&mut cx.g, &lp);
        let mut r = Dense { a: d.a.clone(), b: d.b.clone(), c: vec![zero(); d.n()] };
        for i in 0..lp.n() {
            r.a.push((0..d.n()).map(|j| if j < nv { m[j][i].clone() } else { zero() }).collect());
            r.b.push(x[i].sub(&t[i]));
        }
        ensure!(!matches!(r.solve(), Std::Infeasible), "point-lost", "feasible point {:?} has no counterpart in the standard form", x.iter().map(|v| v.to_string()).collect::<Vec<_>>());
    }
    Ok(())
}

/// A feasible point of a feasible problem: mean of two random vertices.
pub fn random_point(g: &mut crate::engine::Gen, lp: &Lp) -> Vec<RB> {
    let (a, b, _, recipe, shift) = lp.to_std();
    let n = a.first().map_or_else(|| recipe.iter().flatten().map(|e| e.0 + 1).max().unwrap_or(0), |r| r.len());
    let mut points = Vec::new();
    for _ in 0..2 {
        let c: Vec<Q> = (0..n).map(|_| Q::int(g.int(3))).collect();
        let y = match crate::refsolve::solve(&a, &b, &c) {
            Std::Infeasible => crate::engine::oracle_broken("no point"),
            Std::Unbounded { x } | Std::Optimal { x, .. } => x,
        };
        points.push((0..lp.n()).map(|j| recipe[j].iter().fold(shift[j].big(), |s, (k, t)| s.add(&y[*k].mul(&t.big())))).collect::<Vec<RB>>());
    }
    let half = Q::new(1, 2).big();
    let x: Vec<RB> = if g.bool() { points.swap_remove(0) } else { (0..lp.n()).map(|j| points[0][j].add(&points[1][j]).mul(&half)).collect() };
    if let Some(w) = lp.violated(&x) { crate::engine::oracle_broken(format!("random point violates {}", w)); }
    x
}

pub fn variable(cost: Q, hi: Option<Q>) -> Variable<RB> {
    Variable { variable_type: VariableType::Continuous, cost: cost.big(), lower_bound: Some(zero()), upper_bound: hi.map(|h| h.big()), shift: zero(), flipped: false }
}

/// A problem in standard form, and what `MatrixData` is documented to make of it.
#[derive(Clone, Debug)]
pub struct Form {
    pub counts: [usize; 4],
    /// Dense constraint coefficients, one row per constraint.
    pub rows: Vec<Vec<Q>>,
    pub b: Vec<Q>,
    pub ranges: Vec<Q>,
    pub cost: Vec<Q>,
    pub hi: Vec<Option<Q>>,
}
impl Form {
    pub fn n(&self) -> usize { self.cost.len() }
    pub fn m(&self) -> usize { self.rows.len() }
    pub fn bounded(&self) -> Vec<usize> { (0..self.n()).filter(|&j| self.hi[j].is_some()).collect() }
    /// The documented layout.
    pub fn layout(&self) -> Dense {
        let [e, r, u, l] = self.counts;
        let bounded = self.bounded();
        let nr_cols = self.n() + r + u + l + bounded.len() + r;
        let nr_rows = self.m() + bounded.len() + r;
        let mut a = vec![vec![zero(); nr_cols]; nr_rows];
        let mut b: Vec<RB> = self.b.iter().map(|v| v.big()).collect();
        for (i, row) in self.rows.iter().enumerate() { for (j, v) in row.iter().enumerate() { a[i][j] = v.big(); } }
        let mut j = self.n();
        for k in 0..r { a[e + k][j] = one(); a[self.m() + bounded.len() + k][j] = one(); j += 1; }
        for k in 0..u { a[e + r + k][j] = one(); j += 1; }
        for k in 0..l { a[e + r + u + k][j] = one().neg(); j += 1; }
        for (k, v) in bounded.iter().enumerate() { a[self.m() + k][*v] = one(); a[self.m() + k][j] = one(); b.push(self.hi[*v].unwrap().big()); j += 1; }
        for k in 0..r { a[self.m() + bounded.len() + k][j] = one(); b.push(self.ranges[k].big()); j += 1; }
        let mut c = vec![zero(); nr_cols];
        for (k, v) in self.cost.iter().enumerate() { c[k] = v.big(); }
        Dense { a, b, c }
    }
    pub fn render(&self) -> String {
        let mut s = format!("counts (=, range, <=, >=) {:?}\n", self.counts);
        for (i, r) in self.rows.iter().enumerate() { s += &format!("{} | {}\n", r.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "), self.b[i]); }
        s += &format!("ranges {}\ncosts {}\nupper bounds {}\n", self.ranges.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "),
            self.cost.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "),
            self.hi.iter().map(|v| v.map_or("-".into(), |v| v.to_string())).collect::<Vec<_>>().join(" "));
        s
    }
    pub fn matrix(&self) -> relp::data::linear_algebra::matrix::SparseMatrix<RB, RB, ColumnMajor> {
        let cols = (0..self.n()).map(|j| (0..self.m()).filter(|&i| !self.rows[i][j].is_zero()).map(|i| (i, self.rows[i][j].big())).collect()).collect();
        ColumnMajor::new(cols, self.m(), self.n())
    }
    /// Run something with the view of this problem.
    pub fn with<T>(&self, f: impl FnOnce(&MatrixData<'_, RB>) -> T) -> T {
        let matrix = self.matrix();
        let b = DenseVector::new(self.b.iter().map(|v| v.big()).collect(), self.m());
        let ranges: Vec<RB> = self.ranges.iter().map(|v| v.big()).collect();
        let variables: Vec<Variable<RB>> = (0..self.n()).map(|j| variable(self.cost[j], self.hi[j])).collect();
        let [e, r, u, l] = self.counts;
        let data = MatrixData::new(&matrix, &b, ranges.iter().collect(), e, r, u, l, &variables);
        f(&data)
    }
}

pub fn gen_form(cx: &mut Cx, max: usize, feasible: bool, huge: bool) -> Form {
    let g = &mut cx.g;
    let p = if g.chance(1, 25) { lp::Palette::Wide } else { *g.pick(&[lp::Palette::Ints, lp::Palette::Units, lp::Palette::Fractions]) };
    let many = g.chance(1, 80);
    // rarely more than fits in some type
    let huge = huge && many && g.chance(1, 25);
    let n = if huge { g.range(60, 300) } else if many { g.range(6, 26) } else { g.upto(max) };
    let mut counts = [g.weighted(&[3, 2, 2, 1]), g.weighted(&[4, 2, 1]), g.weighted(&[3, 2, 1]), g.weighted(&[3, 2, 1])];
    if many { let f = if huge && g.chance(1, 3) { g.range(20, 60) } else { 3 }; for c in &mut counts { *c *= f; } }
    let (num, den) = if many { (3, n as u64) } else { (3, 5) };
    let m = counts.iter().sum::<usize>();
    let x: Vec<Q> = (0..n).map(|_| if g.bool() { Q::ZERO } else { Q::int(g.upto(4) as i64) }).collect();
    let hi: Vec<Option<Q>> = (0..n).map(|j| if g.chance(1, 3) { Some(x[j] + Q::int(g.upto(3) as i64)) } else { None }).collect();
    let cost: Vec<Q> = (0..n).map(|_| lp::value(g, p)).collect();
    let mut rows: Vec<Vec<Q>> = Vec::new();
    let mut b = Vec::new();
    let mut ranges = Vec::new();
    for i in 0..m {
        // equality rows sometimes depend on others
        let mut row: Vec<Q> = if i > 0 && i < counts[0] && g.chance(1, 3) {
            let (k, f) = (g.idx(i), Q::int(g.nonzero(2)));
            let k2 = g.idx(i);
            (0..n).map(|j| rows[k][j] * f + rows[k2][j]).collect()
        } else { (0..n).map(|_| if g.chance(num, den) { lp::coef(g, p) } else { Q::ZERO }).collect() };
        let mut act = row.iter().zip(&x).fold(Q::ZERO, |s, (a, x)| s + *a * *x);
        let [e, r, u, _] = counts;
        let gap = Q::int(g.upto(3) as i64);
        let mut rhs = if i < e { act } else if i < e + r + u { act + gap } else { act - gap };
        if rhs.is_neg() {
            if i < e { for v in &mut row { *v = -*v; } act = -act; rhs = -rhs; }
            else if i < e + r + u { rhs = Q::ZERO.max(act); }
            else { rhs = Q::ZERO; for v in &mut row { *v = v.abs(); } act = row.iter().zip(&x).fold(Q::ZERO, |s, (a, x)| s + *a * *x); }
        }
        if !feasible && g.chance(1, 4) { rhs = Q::int(g.upto(5) as i64); }
        if i >= e && i < e + r { ranges.push((rhs - act).abs() + Q::int(g.upto(3) as i64)); }
        rows.push(row);
        b.push(rhs);
    }
    Form { counts, rows, b, ranges, cost, hi }
}

pub fn c05(cx: &mut Cx) -> Res {
    let max = if cx.g.chance(1, 5) { 9 } else { 5 };
    let form = gen_form(cx, max, false, true);
    cx.note(form.render());
    cx.nontrivial = form.n() >= 2 && form.counts.iter().filter(|c| **c > 0).count() >= 2 && !form.bounded().is_empty();
    let expected = form.layout();
    let extra: Vec<Q> = (0..expected.n()).map(|_| if cx.g.bool() { Q::ZERO } else { Q::int(cx.g.int(9)) }).collect();
    let at = cx.g.idx(expected.m().max(1));
    guard("matrix view", || form.with(|data| judge_view(data, &form, &expected, &extra, at)))?
}

fn judge_view(data: &MatrixData<'_, RB>, form: &Form, expected: &Dense, extra: &[Q], at: usize) -> Res {
    ensure!(data.nr_rows() == expected.m() && data.nr_columns() == expected.n(), "dimensions", "view is {} by {}, should be {} by {}", data.nr_rows(), data.nr_columns(), expected.m(), expected.n());
    ensure!(data.nr_constraints() == form.m(), "dimensions", "{} constraints, should be {}", data.nr_constraints(), form.m());
    ensure!(data.nr_variable_bounds() == expected.m() - form.m(), "dimensions", "{} bounds, should be {}", data.nr_variable_bounds(), expected.m() - form.m());
    let got = dense(data)?;
    for j in 0..expected.n() {
        for i in 0..expected.m() { ensure!(got.a[i][j] == expected.a[i][j], "element", "element ({}, {}) is {}, should be {}", i, j, got.a[i][j], expected.a[i][j]); }
        ensure!(got.c[j] == expected.c[j], "cost", "cost of column {} is {}, should be {}", j, got.c[j], expected.c[j]);
        if j >= form.n() { ensure!(data.cost_value(j).is_none(), "slack-cost", "slack column {} has a cost value", j); }
        // both iterations and the text agree
        let column = data.column(j);
        let a: Vec<(usize, RB)> = column.iter().map(|(i, v)| (i, v.clone())).collect();
        agree(&|| data.column(j), j)?;
        for i in 0..expected.m() {
            let t = column.index_to_string(i);
            ensure!(t == expected.a[i][j].to_string(), "index-to-string", "element ({}, {}) shows as {}, should be {}", i, j, t, expected.a[i][j]);
        }
        let b: Vec<(usize, RB)> = column.into_iter().collect();
        ensure!(a == b, "iterators", "iterating column {} by reference gives {:?}, by value {:?}", j, a, b);
        // bound rows
        ensure!(data.bound_row_index(j, BoundDirection::Lower).is_none(), "lower-bound-row", "column {} has a lower bound row", j);
        let [e, r, _, _] = form.counts;
        let _ = e;
        let nb = form.bounded().len();
        let want = if j < form.n() { form.bounded().iter().position(|&k| k == j).map(|k| form.m() + k) }
            else if j < form.n() + r { Some(form.m() + nb + (j - form.n())) } else { None };
        let have = data.bound_row_index(j, BoundDirection::Upper);
        ensure!(have == want, "bound-row", "bound row of column {} is {:?}, should be {:?}", j, have, want);
    }
    for i in 0..expected.m() { ensure!(got.b[i] == expected.b[i], "rhs", "right-hand side {} is {}, should be {}", i, got.b[i], expected.b[i]); }
    // initial pivots
    let pivots = data.pivot_element_indices();
    ensure!(pivots.len() == data.nr_initial_elements(), "nr-initial", "{} initial pivots, announced {}", pivots.len(), data.nr_initial_elements());
    let mut last = None;
    for &(i, j) in &pivots {
        ensure!(i < expected.m() && j < expected.n(), "initial-pivot", "initial pivot ({}, {}) outside the matrix", i, j);
        ensure!(last.map_or(true, |l| l < i), "initial-order", "initial pivots {:?} not in increasing row order", pivots);
        last = Some(i);
        for k in 0..expected.m() {
            let want = if k == i { one() } else { zero() };
            ensure!(expected.a[k][j] == want, "initial-unit", "initial pivot column {} is not unit column {}", j, i);
        }
    }
    let columns: std::collections::HashSet<usize> = pivots.iter().map(|p| p.1).collect();
    ensure!(columns.len() == pivots.len(), "initial-distinct", "initial pivot columns not distinct: {:?}", pivots);
    // identity columns
    if expected.m() > 0 {
        let c = Column::<RB>::identity(at, expected.m());
        let v: Vec<(usize, RB)> = c.iter().map(|(i, v)| (i, v.clone())).collect();
        ensure!(v == vec![(at, one())], "identity", "identity column {} is {:?}", at, v);
    }
    // slack values are dropped
    let x: Vec<RB> = extra.iter().map(|v| v.big()).collect();
    let y = data.reconstruct_solution(sparse(&x));
    ensure!(y.len() == form.n(), "reconstruct-length", "reconstructed solution has {} values", y.len());
    let y = unsparse(&y);
    ensure!(y[..] == x[..form.n()], "reconstruct", "reconstructed solution {:?} of {:?}", y, x);
    let _ = format!("{}", data);
    Ok(())
}
