//! C08, C09, C10, C12: walks over bases, compared with recomputation from scratch.
use std::collections::{BTreeSet, HashSet};

use relp::algorithm::two_phase::matrix_provider::column::Column;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::RemoveRows;
use relp::algorithm::two_phase::phase_one::{FeasibilityComputeTrait, Rank, RankedFeasibilityResult};
use relp::algorithm::two_phase::phase_two;
use relp::algorithm::two_phase::strategy::pivot_rule::{FirstProfitable, FirstProfitableWithMemory, PivotRule, SteepestDescentAlongObjective, SteepestDescentAlongVariable};
use relp::algorithm::two_phase::tableau::inverse_maintenance::{ColumnComputationInfo, InverseMaintainer};
use relp::algorithm::two_phase::tableau::kind::artificial::Cost;
use relp::algorithm::two_phase::tableau::kind::non_artificial::NonArtificial;
use relp::algorithm::two_phase::tableau::kind::Kind;
use relp::algorithm::two_phase::tableau::{BasisChangeComputationInfo, Tableau};
use relp::algorithm::OptimizationResult;

use crate::engine::{guard, oracle_broken, Cx, Fail, Gen, Res};
use crate::props::hook;
use crate::props::phase_one::{Lu, Rows};
use crate::props::systems::{self, show, Exact, Part, Plain, System};
use crate::props::view::{one, unsparse, zero, Dense};
use crate::q::{Num, RB};
use crate::refsolve::Std;
use crate::{ensure, fail};

/// What phase one and phase two differ in.
pub trait Costs { fn costs(self) -> RB; }
impl Costs for &RB { fn costs(self) -> RB { self.clone() } }
impl Costs for Cost { fn costs(self) -> RB { match self { Cost::Zero => zero(), Cost::One => one() } } }

pub type Two<'p, IM> = Tableau<IM, NonArtificial<'p, Plain<'p>>>;

pub fn tableau<'p, IM>(p: &'p Plain<'p>, order: &[usize]) -> Two<'p, IM>
where IM: InverseMaintainer<F = RB> {
    let im = IM::from_basis(order, p);
    Tableau::<_, NonArtificial<_>>::new_with_inverse_maintainer(p, im, order.iter().copied().collect())
}

/// The rules, with what each should choose.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rule { First, Memory, Variable, Objective }
pub const RULES: [Rule; 4] = [Rule::First, Rule::Memory, Rule::Variable, Rule::Objective];
pub enum Running { First(FirstProfitable), Memory(FirstProfitableWithMemory), Variable(SteepestDescentAlongVariable), Objective(SteepestDescentAlongObjective<RB>) }
impl Running {
    pub fn new<IM, K>(rule: Rule, t: &Tableau<IM, K>) -> Self
    where IM: InverseMaintainer<F = RB>, K: Kind<Column: Column<F = RB>>, RB: relp::algorithm::two_phase::tableau::inverse_maintenance::ops::Cost<K::Cost>, for<'r> &'r RB: std::ops::Mul<K::Cost, Output = RB> {
        match rule {
            Rule::First => Running::First(PivotRule::<RB>::new(t)),
            Rule::Memory => Running::Memory(PivotRule::<RB>::new(t)),
            Rule::Variable => Running::Variable(PivotRule::<RB>::new(t)),
            Rule::Objective => Running::Objective(PivotRule::<RB>::new(t)),
        }
    }
    pub fn select<IM, K>(&mut self, t: &Tableau<IM, K>) -> Option<(usize, RB)>
    where IM: InverseMaintainer<F = RB>, K: Kind<Column: Column<F = RB>>, RB: relp::algorithm::two_phase::tableau::inverse_maintenance::ops::Cost<K::Cost>, for<'r> &'r RB: std::ops::Mul<K::Cost, Output = RB> {
        match self {
            Running::First(r) => r.select_primal_pivot_column(t),
            Running::Memory(r) => r.select_primal_pivot_column(t),
            Running::Variable(r) => r.select_primal_pivot_column(t),
            Running::Objective(r) => r.select_primal_pivot_column(t),
        }
    }
    pub fn after<IM, K>(&mut self, info: BasisChangeComputationInfo<RB>, t: &Tableau<IM, K>)
    where IM: InverseMaintainer<F = RB>, K: Kind<Column: Column<F = RB>>, RB: relp::algorithm::two_phase::tableau::inverse_maintenance::ops::Cost<K::Cost>, for<'r> &'r RB: std::ops::Mul<K::Cost, Output = RB> {
        match self {
            Running::First(r) => r.after_basis_update(info, t),
            Running::Memory(r) => r.after_basis_update(info, t),
            Running::Variable(r) => r.after_basis_update(info, t),
            Running::Objective(r) => r.after_basis_update(info, t),
        }
    }
}

/// The reference state that accompanies a tableau: costs and columns as the tableau should present
/// them (with artificial columns in phase one) and the column that is basic in each row.
pub struct Model { pub d: Dense, pub order: Vec<usize>, pub artificial: usize, pub exact: Exact }
impl Model {
    pub fn new(d: Dense, order: Vec<usize>, artificial: usize) -> Self {
        let exact = Exact::new(&d, &order).unwrap_or_else(|| oracle_broken("start of a walk is not a basis"));
        Model { d, order, artificial, exact }
    }
    pub fn pivot(&mut self, row: usize, column: usize) -> Result<(), Fail> {
        self.order[row] = column;
        match Exact::new(&self.d, &self.order) {
            Some(e) => { self.exact = e; Ok(()) }
            None => fail!("singular", "columns {:?} are no basis", self.order),
        }
    }
    pub fn is_basic(&self, j: usize) -> bool { self.order.contains(&j) }
    pub fn candidates(&self) -> Vec<usize> { (self.artificial..self.d.n()).filter(|&j| !self.is_basic(j)).collect() }
    pub fn generated(&self, j: usize) -> Vec<RB> { self.exact.generated(&systems::column(&self.d, j)) }
    pub fn relative_cost(&self, j: usize) -> RB { self.exact.relative_cost(&self.d, j) }
    pub fn objective(&self) -> RB { self.order.iter().zip(&self.exact.x).fold(zero(), |s, (&j, x)| systems::add_product(s, &self.d.c[j], x)) }
    /// Row by the ratio test, ties to the lowest basic column.
    pub fn ratio_test(&self, column: &[RB]) -> Option<usize> {
        let mut best: Option<(RB, usize, usize)> = None;
        for i in 0..self.d.m() {
            if column[i].sgn() <= 0 { continue; }
            let r = self.exact.x[i].div(&column[i]);
            let better = match &best { None => true, Some((b, j, _)) => r.less(b) || r == *b && self.order[i] < *j };
            if better { best = Some((r, self.order[i], i)); }
        }
        best.map(|b| b.2)
    }
    pub fn key(&self) -> Vec<usize> { let mut k = self.order.clone(); k.sort_unstable(); k }
}

/// Check the choice of a rule against its definition.
fn judge_choice(m: &Model, rule: Rule, previous: Option<usize>, choice: &Option<(usize, RB)>) -> Res {
    let profitable: Vec<(usize, RB)> = m.candidates().into_iter().map(|j| (j, m.relative_cost(j))).filter(|e| e.1.sgn() < 0).collect();
    let (j, cost) = match choice {
        None => {
            ensure!(profitable.is_empty(), "missed", "{:?} proposes no column, but column {} has reduced cost {}", rule, profitable[0].0, profitable[0].1);
            return Ok(());
        }
        Some(c) => c,
    };
    ensure!(*j < m.d.n(), "out-of-range", "{:?} proposes column {} of {}", rule, j, m.d.n());
    ensure!(*j >= m.artificial, "artificial", "{:?} proposes artificial column {}", rule, j);
    ensure!(!m.is_basic(*j), "basic", "{:?} proposes basic column {}", rule, j);
    let exact = m.relative_cost(*j);
    ensure!(*cost == exact, "reported-cost", "{:?} reports cost {} for column {}, should be {}", rule, cost, j, exact);
    ensure!(exact.sgn() < 0, "not-profitable", "{:?} proposes column {} with reduced cost {}", rule, j, exact);
    match rule {
        Rule::First => ensure!(*j == profitable[0].0, "not-first", "first profitable column is {}, {} was proposed", profitable[0].0, j),
        Rule::Memory => {
            let want = match previous {
                None => profitable[0].0,
                Some(p) => profitable.iter().map(|e| e.0).find(|&k| k > p).unwrap_or(profitable[0].0),
            };
            ensure!(*j == want, "not-next", "next profitable column after {:?} is {}, {} was proposed", previous, want, j);
        }
        Rule::Variable => {
            for (k, c) in &profitable { ensure!(!c.less(&exact), "not-most-negative", "column {} has reduced cost {}, {} with {} was proposed", k, c, j, exact); }
        }
        Rule::Objective => {
            let score = |k: usize, c: &RB| {
                let g = m.generated(k).iter().fold(one(), |s, v| systems::add_product(s, v, v));
                c.mul(c).div(&g)
            };
            let mine = score(*j, &exact);
            for (k, c) in &profitable {
                if k == j { continue; }
                let other = score(*k, c);
                ensure!(!mine.less(&other), "not-steepest", "column {} descends {} per unit, {} with {} was proposed", k, other, j, mine);
            }
        }
    }
    Ok(())
}

/// Compare the whole state with recomputation.
pub fn judge_state<IM, K>(t: &Tableau<IM, K>, m: &Model) -> Res
where IM: InverseMaintainer<F = RB>, K: Kind<Column: Column<F = RB>>, RB: relp::algorithm::two_phase::tableau::inverse_maintenance::ops::Cost<K::Cost>, for<'r> &'r RB: std::ops::Mul<K::Cost, Output = RB> {
    let (rows, n) = (m.d.m(), m.d.n());
    ensure!(t.nr_rows() == rows && t.nr_columns() == n, "dimensions", "tableau is {} by {}, should be {} by {}", t.nr_rows(), t.nr_columns(), rows, n);
    let objective = m.objective();
    ensure!(t.objective_function_value() == objective, "objective", "objective is {}, should be {}", t.objective_function_value(), objective);
    let mut x = vec![zero(); n];
    for (i, &j) in m.order.iter().enumerate() { x[j] = m.exact.x[i].clone(); }
    let bfs = t.current_bfs();
    let have = unsparse(&bfs);
    ensure!(have == x, "current-bfs", "current solution is {}, should be {}", show(&have), show(&x));
    let tuples: Vec<(usize, RB)> = bfs.iter().map(|(i, v)| (i, v.clone())).collect();
    ensure!(tuples.windows(2).all(|w| w[0].0 < w[1].0) && tuples.iter().all(|e| !e.1.is0()), "bfs-form", "current solution is not stored as sorted nonzeros: {:?}", tuples);
    for j in 0..n {
        ensure!(t.is_in_basis(j) == m.is_basic(j), "is-basic", "column {} is reported {}", j, if t.is_in_basis(j) { "basic" } else { "nonbasic" });
        let v = t.variable_value(j);
        ensure!(v == x[j], "variable-value", "value of column {} is {}, should be {}", j, v, x[j]);
        let c = t.relative_cost(j);
        let want = m.relative_cost(j);
        ensure!(c == want, "relative-cost", "relative cost of column {} is {}, should be {}", j, c, want);
        let original: Vec<(usize, RB)> = t.original_column(j).iter().map(|(i, v)| (i, v.clone())).collect();
        ensure!(original == systems::sparse_of(&systems::column(&m.d, j)), "original-column", "original column {} is {:?}", j, original);
        let want = m.generated(j);
        let have = t.generate_column(j);
        ensure!(unsparse(have.column()) == want, "generated-column", "column {} with respect to the basis is {}, should be {}", j, show(&unsparse(have.column())), show(&want));
        for i in 0..rows {
            let e = t.generate_element(i, j);
            ensure!(e.as_ref().map_or(want[i].is0(), |v| *v == want[i] && !v.is0()), "generated-element", "element ({}, {}) is {:?}, should be {}", i, j, e, want[i]);
        }
        let row = t.select_primal_pivot_row(have.column());
        ensure!(row == m.ratio_test(&want), "ratio-test", "column {}: row {:?} is chosen, the ratio test gives {:?}", j, row, m.ratio_test(&want));
    }
    Ok(())
}

/// Carry out a pivot in both, and check what is returned.
fn pivot<IM, K>(t: &mut Tableau<IM, K>, m: &mut Model, row: usize, column: usize) -> Result<BasisChangeComputationInfo<RB>, Fail>
where IM: InverseMaintainer<F = RB>, K: Kind<Column: Column<F = RB>>, RB: relp::algorithm::two_phase::tableau::inverse_maintenance::ops::Cost<K::Cost>, for<'r> &'r RB: std::ops::Mul<K::Cost, Output = RB> {
    let before = m.generated(column);
    let leaving = m.order[row];
    // B^-T (B^-1 a)
    let work: Vec<RB> = (0..m.d.m()).map(|k| (0..m.d.m()).fold(zero(), |s, i| systems::add_product(s, &m.exact.inverse[i][k], &before[i]))).collect();
    let info = t.generate_column(column);
    let cost = t.relative_cost(column);
    let info = guard("basis change", || t.bring_into_basis(column, row, info, cost))?;
    m.pivot(row, column)?;
    ensure!(info.pivot_row_index == row && info.pivot_column_index == column, "info-pivot", "basis change at ({}, {}) reports ({}, {})", row, column, info.pivot_row_index, info.pivot_column_index);
    ensure!(info.leaving_column_index == leaving, "info-leaving", "column {} left, {} is reported", leaving, info.leaving_column_index);
    ensure!(unsparse(&info.column_before_change) == before, "info-column", "column before the change was {}, {} is reported", show(&before), show(&unsparse(&info.column_before_change)));
    ensure!(unsparse(&info.work_vector) == work, "info-work-vector", "work vector is {}, {} is reported", show(&work), show(&unsparse(&info.work_vector)));
    ensure!(unsparse(&info.basis_inverse_row) == m.exact.inverse[row], "info-inverse-row", "inverse row is {}, {} is reported", show(&m.exact.inverse[row]), show(&unsparse(&info.basis_inverse_row)));
    Ok(info)
}

/// A feasible system with independent rows and a basis of it.
pub fn gen_start(cx: &mut Cx, max: usize, degenerate: bool, large: u64) -> Option<(Dense, Vec<usize>)> {
    let (d, class) = if cx.g.chance(1, large) { (systems::gen_large(&mut cx.g), "larger") } else { systems::gen_system(cx, max, degenerate) };
    let d = systems::independent(&d);
    let order = systems::gen_basis(&mut cx.g, &d);
    match order {
        Some(o) => { cx.tag(class); Some((d, o)) }
        None => { cx.tag("infeasible"); None }
    }
}

/// Phase one as a dense problem: artificial columns first.
pub fn with_artificial(d: &Dense, rows: &[usize]) -> Dense {
    Dense {
        a: (0..d.m()).map(|i| rows.iter().map(|&r| if r == i { one() } else { zero() }).chain(d.a[i].iter().cloned()).collect()).collect(),
        b: d.b.clone(),
        c: rows.iter().map(|_| one()).chain(d.c.iter().map(|_| zero())).collect(),
    }
}

// ---------------------------------------------------------------------------------------------
// C08

pub fn c08(cx: &mut Cx) -> Res {
    let degenerate = cx.g.bool();
    let Some((d, order)) = gen_start(cx, 6, degenerate, 80) else { return Ok(()) };
    let s = System::new(d, vec![]);
    cx.note(s.render());
    cx.note(format!("basis {:?}", order));
    let reference = s.d.solve();
    cx.tag(match &reference { Std::Infeasible => oracle_broken("a system with a feasible basis is infeasible"), Std::Unbounded { .. } => "unbounded", Std::Optimal { .. } => "optimal" });
    let mut pivots = 0;
    let mut cycle = None;
    let flip = cx.g.bool();
    for (k, rule) in RULES.into_iter().enumerate() {
        match if flip ^ (k % 2 == 0) { run_two::<Lu>(&s, &order, rule, &reference) } else { run_two::<Rows>(&s, &order, rule, &reference) } {
            Ok(n) => pivots = pivots.max(n),
            Err(e) if e.sig.starts_with("cycle") => cycle = Some(e),
            Err(e) => return Err(e),
        }
    }
    cx.nontrivial = s.d.m() >= 2 && s.d.n() >= 2 && pivots >= 1;
    if pivots >= 3 { cx.tag("three or more pivots"); }
    if pivots > 31 { cx.tag("refactored"); }
    cycle.map_or(Ok(()), Err)
}

fn run_two<IM>(s: &System, order: &[usize], rule: Rule, reference: &Std<RB>) -> Result<usize, Fail>
where IM: InverseMaintainer<F = RB> {
    let p = Plain(s);
    // step by step
    let mut t = guard("state from a basis", || tableau::<IM>(&p, order))?;
    let mut r = guard("new rule", || Running::new(rule, &t))?;
    let mut m = Model::new(s.d.clone(), order.to_vec(), 0);
    let mut seen = HashSet::new();
    let mut steps = 0;
    let mut last: Option<usize> = None;
    let mut value = t.objective_function_value();
    let unbounded = loop {
        if !seen.insert((m.key(), if rule == Rule::Memory { last } else { None })) {
            // Does the rule, followed to the letter, do this?
            let sig = if inherent(s, order, rule) { format!("cycle-{:?}", rule) } else { format!("needless-cycle-{:?}", rule) };
            fail!(sig, "{:?} came back to basis {:?} after {} steps", rule, m.key(), steps);
        }
        let now = t.current_bfs();
        ensure!(now.iter().all(|(_, v)| v.sgn() >= 0), "infeasible-point", "{:?}: infeasible point after {} steps", rule, steps);
        let x = unsparse(&now);
        for (i, row) in s.d.a.iter().enumerate() {
            let lhs = row.iter().zip(&x).fold(zero(), |s, (a, x)| systems::add_product(s, a, x));
            ensure!(lhs == s.d.b[i], "violated", "{:?}: point after {} steps violates row {}", rule, steps, i);
        }
        let z = t.objective_function_value();
        ensure!(z == s.d.cost_at(&x), "objective", "{:?}: objective {} of a point with cost {}", rule, z, s.d.cost_at(&x));
        ensure!(!value.less(&z), "worse", "{:?}: objective went from {} to {}", rule, value, z);
        value = z;
        let Some((j, cost)) = guard("rule", || r.select(&t))? else { break false };
        last = Some(j);
        let info = t.generate_column(j);
        let Some(row) = t.select_primal_pivot_row(info.column()) else { break true };
        let info = guard("basis change", || t.bring_into_basis(j, row, info, cost))?;
        guard("rule update", || r.after(info, &t))?;
        m.order[row] = j;
        steps += 1;
    };
    match (reference, unbounded) {
        (Std::Unbounded { .. }, true) => {}
        (Std::Optimal { value: v, .. }, false) => ensure!(*v == value, "value", "{:?} ends at {}, the optimum is {}", rule, value, v),
        (_, u) => fail!("verdict", "{:?} ends as {}", rule, if u { "unbounded" } else { "optimal" }),
    }
    // in one go
    let mut t = tableau::<IM>(&p, order);
    let result = guard("phase two", || match rule {
        Rule::First => phase_two::primal::<_, _, FirstProfitable>(&mut t),
        Rule::Memory => phase_two::primal::<_, _, FirstProfitableWithMemory>(&mut t),
        Rule::Variable => phase_two::primal::<_, _, SteepestDescentAlongVariable>(&mut t),
        Rule::Objective => phase_two::primal::<_, _, SteepestDescentAlongObjective<_>>(&mut t),
    })?;
    match (reference, result) {
        (Std::Unbounded { .. }, OptimizationResult::Unbounded) => {}
        (Std::Optimal { value: v, .. }, OptimizationResult::FiniteOptimum(x)) => {
            let x = unsparse(&x);
            ensure!(x.len() == s.d.n(), "length", "{:?}: optimal solution has {} values", rule, x.len());
            ensure!(x.iter().all(|v| v.sgn() >= 0), "infeasible-point", "{:?}: negative value in the optimal solution", rule);
            for (i, row) in s.d.a.iter().enumerate() {
                let lhs = row.iter().zip(&x).fold(zero(), |s, (a, x)| systems::add_product(s, a, x));
                ensure!(lhs == s.d.b[i], "violated", "{:?}: optimal solution violates row {}", rule, i);
            }
            ensure!(s.d.cost_at(&x) == *v, "value", "{:?} returns a solution of cost {}, the optimum is {}", rule, s.d.cost_at(&x), v);
            ensure!(t.objective_function_value() == *v, "value", "{:?} ends with objective {}, the optimum is {}", rule, t.objective_function_value(), v);
        }
        (_, o) => fail!("verdict", "{:?} returns {}", rule, match o { OptimizationResult::Infeasible => "infeasible", OptimizationResult::Unbounded => "unbounded", OptimizationResult::FiniteOptimum(_) => "an optimum" }),
    }
    Ok(steps)
}

/// Whether a run by the definitions, with the smallest eligible index everywhere, cycles.
fn inherent(s: &System, order: &[usize], rule: Rule) -> bool {
    let mut m = Model::new(s.d.clone(), order.to_vec(), 0);
    let mut seen = HashSet::new();
    let mut last: Option<usize> = None;
    loop {
        if !seen.insert((m.key(), if rule == Rule::Memory { last } else { None })) { return true; }
        let profitable: Vec<(usize, RB)> = m.candidates().into_iter().map(|j| (j, m.relative_cost(j))).filter(|e| e.1.sgn() < 0).collect();
        let Some(first) = profitable.first() else { return false };
        let j = match rule {
            Rule::First => first.0,
            Rule::Memory => last.and_then(|p| profitable.iter().map(|e| e.0).find(|&k| k > p)).unwrap_or(first.0),
            Rule::Variable => profitable.iter().fold(first, |b, e| if e.1.less(&b.1) { e } else { b }).0,
            // ties to the last, unlike the others
            Rule::Objective => profitable.iter().map(|e| {
                let g = m.generated(e.0).iter().fold(one(), |s, v| systems::add_product(s, v, v));
                (e.0, e.1.mul(&e.1).div(&g))
            }).reduce(|b, e| if e.1.less(&b.1) { b } else { e }).unwrap().0,
        };
        last = Some(j);
        let Some(row) = m.ratio_test(&m.generated(j)) else { return false };
        if m.pivot(row, j).is_err() { return false; }
    }
}

// ---------------------------------------------------------------------------------------------
// C09

pub fn c09(cx: &mut Cx) -> Res {
    let Some((d, order)) = gen_start(cx, 6, true, 60) else { return Ok(()) };
    let s = System::new(d, vec![]);
    cx.note(s.render());
    cx.note(format!("basis {:?}", order));
    let p = Plain(&s);
    let model = Model::new(s.d.clone(), order.clone(), 0);
    let (pivots, ties) = if cx.g.bool() {
        let mut t = guard("state from a basis", || tableau::<Lu>(&p, &order))?;
        bland(&mut t, model)?
    } else {
        let mut t = guard("state from a basis", || tableau::<Rows>(&p, &order))?;
        bland(&mut t, model)?
    };
    if ties > 0 { cx.tag("tie in the ratio test"); }
    if pivots.1 > 0 { cx.tag("degenerate pivot"); }
    // and from the start of phase one
    let d = with_artificial(&s.d, &(0..s.d.m()).collect::<Vec<_>>());
    let model = Model::new(d, (0..s.d.m()).collect(), s.d.m());
    let mut first = (0, 0);
    if hook::AVAILABLE {
        let mut t = guard("artificial tableau", || hook::fully::<Lu, _>(&p))?;
        first = bland(&mut t, model)?.0;
    }
    cx.nontrivial = s.d.m() >= 2 && s.d.n() >= 2 && pivots.0 + first.0 >= 2;
    Ok(())
}

/// Ends with (pivots, degenerate pivots) and ties.
fn bland<IM, K>(t: &mut Tableau<IM, K>, mut m: Model) -> Result<((usize, usize), usize), Fail>
where IM: InverseMaintainer<F = RB>, K: Kind<Column: Column<F = RB>>, RB: relp::algorithm::two_phase::tableau::inverse_maintenance::ops::Cost<K::Cost>, for<'r> &'r RB: std::ops::Mul<K::Cost, Output = RB> {
    let mut r = Running::new(Rule::First, t);
    let mut seen = HashSet::new();
    let (mut pivots, mut degenerate, mut ties) = (0, 0, 0);
    loop {
        ensure!(seen.insert(m.key()), "cycle", "basis {:?} is visited again after {} pivots", m.key(), pivots);
        // the ratio test, for every column at hand
        let mut chosen = None;
        for j in m.candidates() {
            let want = m.generated(j);
            let info = guard("column", || t.generate_column(j))?;
            let row = guard("ratio test", || t.select_primal_pivot_row(info.column()))?;
            judge_row(&m, &want, row, j)?;
            if chosen.is_none() && m.relative_cost(j).sgn() < 0 { chosen = Some((j, row)); }
        }
        let choice = guard("rule", || r.select(t))?;
        judge_choice(&m, Rule::First, None, &choice)?;
        let Some((j, cost)) = choice else { break };
        let info = t.generate_column(j);
        let Some(row) = t.select_primal_pivot_row(info.column()) else { break };
        let column = m.generated(j);
        judge_row(&m, &column, Some(row), j)?;
        let ratio = m.exact.x[row].div(&column[row]);
        if ratio.is0() { degenerate += 1; }
        if (0..m.d.m()).any(|i| i != row && column[i].sgn() > 0 && m.exact.x[i].div(&column[i]) == ratio) { ties += 1; }
        let info = guard("basis change", || t.bring_into_basis(j, row, info, cost))?;
        guard("rule update", || r.after(info, t))?;
        m.pivot(row, j)?;
        pivots += 1;
        ensure!(pivots < 20_000, "endless", "no end after {} pivots", pivots);
    }
    Ok(((pivots, degenerate), ties))
}

fn judge_row(m: &Model, column: &[RB], row: Option<usize>, j: usize) -> Res {
    match row {
        None => { let i = column.iter().position(|v| v.sgn() > 0); ensure!(i.is_none(), "no-row", "column {} is positive in row {:?}, but no row is chosen", j, i); }
        Some(row) => {
            ensure!(row < column.len() && column[row].sgn() > 0, "not-positive", "column {} is not positive in the chosen row {}", j, row);
            let ratio = m.exact.x[row].div(&column[row]);
            for i in 0..column.len() {
                if i == row || column[i].sgn() <= 0 { continue; }
                let other = m.exact.x[i].div(&column[i]);
                ensure!(!other.less(&ratio), "not-minimal", "column {}: row {} has ratio {}, row {} with {} was chosen", j, i, other, row, ratio);
                ensure!(other != ratio || m.order[row] < m.order[i], "tie", "column {}: rows {} and {} both have ratio {}, the chosen second has basic column {}, the first {}", j, i, row, ratio, m.order[row], m.order[i]);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C10

pub fn c10(cx: &mut Cx) -> Res {
    let degenerate = cx.g.chance(1, 3);
    let phase_one = cx.g.chance(1, 3);
    if phase_one && hook::AVAILABLE {
        let (d, class) = if cx.g.chance(1, 40) { (systems::gen_large(&mut cx.g), "larger") } else { systems::gen_system(cx, 6, degenerate) };
        cx.tag(class);
        cx.tag("phase one");
        let pivots = systems::gen_pivots(&mut cx.g, &d);
        let s = System::new(d, pivots);
        cx.note(s.render());
        let rule = *cx.g.pick(&RULES);
        cx.note(format!("{:?}", rule));
        let steps = if cx.g.bool() {
            let p = Plain(&s);
            let rows: Vec<usize> = (0..s.d.m()).collect();
            let m = Model::new(with_artificial(&s.d, &rows), rows.clone(), s.d.m());
            let mut t = guard("artificial tableau", || hook::fully::<Lu, _>(&p))?;
            choices(&mut cx.g, &mut t, m, rule, false)?
        } else {
            let p = Part(&s);
            let rows: Vec<usize> = (0..s.d.m()).filter(|i| s.pivots.iter().all(|e| e.0 != *i)).collect();
            let order = (0..s.d.m()).map(|i| match s.pivots.iter().find(|e| e.0 == i) {
                Some(e) => rows.len() + e.1,
                None => rows.iter().position(|&r| r == i).unwrap(),
            }).collect();
            let m = Model::new(with_artificial(&s.d, &rows), order, rows.len());
            let mut t = guard("artificial tableau", || hook::partially::<Rows, _>(&p))?;
            choices(&mut cx.g, &mut t, m, rule, false)?
        };
        cx.nontrivial = steps >= 2;
        return Ok(());
    }
    let Some((d, order)) = gen_start(cx, 6, degenerate, 40) else { return Ok(()) };
    let s = System::new(d, vec![]);
    cx.note(s.render());
    let rule = *cx.g.pick(&RULES);
    let detours = cx.g.chance(1, 3);
    cx.note(format!("basis {:?}, {:?}, detours {}", order, rule, detours));
    let p = Plain(&s);
    let m = Model::new(s.d.clone(), order.clone(), 0);
    let steps = if cx.g.chance(2, 3) {
        let mut t = guard("state from a basis", || tableau::<Lu>(&p, &order))?;
        choices(&mut cx.g, &mut t, m, rule, detours)?
    } else {
        let mut t = guard("state from a basis", || tableau::<Rows>(&p, &order))?;
        choices(&mut cx.g, &mut t, m, rule, detours)?
    };
    if steps > 31 { cx.tag("more than 31 basis changes"); }
    if detours { cx.tag("detours"); }
    cx.nontrivial = steps >= 2;
    Ok(())
}

fn choices<IM, K>(g: &mut Gen, t: &mut Tableau<IM, K>, mut m: Model, rule: Rule, detours: bool) -> Result<usize, Fail>
where IM: InverseMaintainer<F = RB>, K: Kind<Column: Column<F = RB>>, RB: relp::algorithm::two_phase::tableau::inverse_maintenance::ops::Cost<K::Cost>, for<'r> &'r RB: std::ops::Mul<K::Cost, Output = RB> {
    let mut r = guard("new rule", || Running::new(rule, t))?;
    let mut previous = None;
    let limit = if detours { if m.d.m() <= 4 && g.chance(1, 6) { 60 } else { g.range(1, 12) } } else { 60 };
    for step in 0..limit {
        let choice = guard("rule", || r.select(t))?;
        judge_choice(&m, rule, previous, &choice)?;
        // Another change of basis than the one the rule proposes is not in the history of the rule
        // with memory, so that one is followed.
        let (j, cost) = if detours && rule != Rule::Memory && g.chance(3, 4) {
            let candidates = m.candidates();
            if candidates.is_empty() { return Ok(step); }
            let j = *g.pick(&candidates);
            (j, t.relative_cost(j))
        } else {
            match choice { None => return Ok(step), Some(c) => c }
        };
        previous = Some(j);
        let Some(row) = m.ratio_test(&m.generated(j)) else { if detours && rule != Rule::Memory { continue; } return Ok(step) };
        let info = guard("column", || t.generate_column(j))?;
        let info = guard("basis change", || t.bring_into_basis(j, row, info, cost))?;
        guard("rule update", || r.after(info, t))?;
        m.pivot(row, j)?;
    }
    Ok(limit)
}

// ---------------------------------------------------------------------------------------------
// C12

pub fn c12(cx: &mut Cx) -> Res {
    let degenerate = cx.g.bool();
    match cx.g.weighted(&[5, 1, 1, 1]) {
        0 => {}
        1 if hook::AVAILABLE => return c12_partial(cx, degenerate),
        1 => {}
        2 => return c12_pivots(cx, degenerate),
        _ => return c12_handed_over(cx, degenerate),
    }
    let Some((d, order)) = gen_start(cx, 5, degenerate, 100) else { return Ok(()) };
    let s = System::new(d, vec![]);
    cx.note(s.render());
    cx.note(format!("basis {:?}", order));
    let p = Plain(&s);
    let start = cx.g.weighted(&[4, 1, 1]);
    let steps = if start == 0 || !hook::AVAILABLE || s.d.m() == 0 {
        let m = Model::new(s.d.clone(), order.clone(), 0);
        if cx.g.chance(2, 3) {
            let mut t = guard("state from a basis", || tableau::<Lu>(&p, &order))?;
            walk(cx, &mut t, m)?
        } else {
            let mut t = guard("state from a basis", || tableau::<Rows>(&p, &order))?;
            walk(cx, &mut t, m)?
        }
    } else {
        // with artificial variables
        cx.tag("artificial");
        let rows: Vec<usize> = (0..s.d.m()).collect();
        let m = Model::new(with_artificial(&s.d, &rows), rows, s.d.m());
        if start == 1 {
            let mut t = guard("artificial tableau", || hook::fully::<Lu, _>(&p))?;
            walk(cx, &mut t, m)?
        } else {
            let mut t = guard("artificial tableau", || hook::fully::<Rows, _>(&p))?;
            walk(cx, &mut t, m)?
        }
    };
    cx.nontrivial = s.d.m() >= 2 && s.d.n() >= 2 && steps >= 2;
    if steps > 31 { cx.tag("more than 31 basis changes"); }
    Ok(())
}

/// Artificial variables for some of the rows.
fn c12_partial(cx: &mut Cx, degenerate: bool) -> Res {
    let (d, _) = systems::gen_system(cx, 5, degenerate);
    let pivots = systems::gen_pivots(&mut cx.g, &d);
    let s = System::new(d, pivots);
    cx.note(s.render());
    cx.tag("partially artificial");
    let rows: Vec<usize> = (0..s.d.m()).filter(|&i| s.pivots.iter().all(|e| e.0 != i)).collect();
    let k = rows.len();
    let order = (0..s.d.m()).map(|i| match s.pivots.iter().find(|e| e.0 == i) {
        Some(&(_, j)) => k + j,
        None => rows.iter().position(|&r| r == i).unwrap(),
    }).collect();
    let m = Model::new(with_artificial(&s.d, &rows), order, k);
    let p = Part(&s);
    let steps = if cx.g.bool() {
        let mut t = guard("artificial tableau", || hook::partially::<Lu, _>(&p))?;
        walk(cx, &mut t, m)?
    } else {
        let mut t = guard("artificial tableau", || hook::partially::<Rows, _>(&p))?;
        walk(cx, &mut t, m)?
    };
    cx.nontrivial = s.d.m() >= 2 && s.d.n() >= 2 && steps >= 2;
    Ok(())
}

/// From a full set of unit columns with any costs, named in any order.
fn c12_pivots(cx: &mut Cx, degenerate: bool) -> Res {
    let (mut d, _) = systems::gen_system(cx, 5, degenerate);
    let mut pivots = systems::gen_pivots(&mut cx.g, &d);
    let missing: Vec<usize> = (0..d.m()).filter(|&i| pivots.iter().all(|e| e.0 != i)).collect();
    for i in missing {
        let at = cx.g.upto(d.n());
        for k in 0..d.m() { d.a[k].insert(at, if k == i { one() } else { zero() }); }
        d.c.insert(at, crate::q::Q::int(cx.g.int(3)).big());
        for e in &mut pivots { if e.1 >= at { e.1 += 1; } }
        pivots.push((i, at));
    }
    let p = cx.g.permutation(pivots.len());
    let pivots: Vec<(usize, usize)> = p.into_iter().map(|k| pivots[k]).collect();
    let mut order = vec![0; d.m()];
    for &(i, j) in &pivots { order[i] = j; }
    let s = System::new(d, vec![]);
    cx.note(s.render());
    cx.note(format!("start from {:?}", pivots));
    cx.tag("from unit columns");
    let m = Model::new(s.d.clone(), order.clone(), 0);
    let p = Plain(&s);
    let basis = || order.iter().copied().collect();
    let steps = if cx.g.bool() {
        let mut t: Two<Lu> = guard("state from unit columns", || Tableau::<_, NonArtificial<_>>::new_with_inverse_maintainer(&p, Lu::from_basis_pivots(&pivots, &p), basis()))?;
        walk(cx, &mut t, m)?
    } else {
        let mut t: Two<Rows> = guard("state from unit columns", || Tableau::<_, NonArtificial<_>>::new_with_inverse_maintainer(&p, Rows::from_basis_pivots(&pivots, &p), basis()))?;
        walk(cx, &mut t, m)?
    };
    cx.nontrivial = s.d.m() >= 2 && s.d.n() >= 2 && steps >= 2;
    Ok(())
}

/// What phase one leaves behind.
fn c12_handed_over(cx: &mut Cx, degenerate: bool) -> Res {
    let (d, _) = systems::gen_system(cx, 5, degenerate);
    let pivots = systems::gen_pivots(&mut cx.g, &d);
    let s = System::new(d, pivots);
    cx.note(s.render());
    let (plain, part) = (Plain(&s), Part(&s));
    let steps = match cx.g.idx(4) {
        0 => { let r = guard("phase one", || plain.compute_bfs_giving_im::<Lu>())?; go_on(cx, &plain, &s, r) }
        1 => { let r = guard("phase one", || plain.compute_bfs_giving_im::<Rows>())?; go_on(cx, &plain, &s, r) }
        2 => { let r = guard("phase one", || part.compute_bfs_giving_im::<Lu>())?; go_on(cx, &plain, &s, r) }
        _ => { let r = guard("phase one", || part.compute_bfs_giving_im::<Rows>())?; go_on(cx, &plain, &s, r) }
    }?;
    cx.nontrivial = s.d.m() >= 2 && s.d.n() >= 2 && steps >= 2;
    Ok(())
}
fn go_on<IM: InverseMaintainer<F = RB>>(cx: &mut Cx, p: &Plain<'_>, s: &System, result: RankedFeasibilityResult<IM>) -> Result<usize, Fail> {
    let RankedFeasibilityResult::Feasible { rank, nr_artificial_variables: k, inverse_maintainer, basis } = result else { cx.tag("infeasible"); return Ok(0) };
    let removed = match rank { Rank::Deficient(r) => r, Rank::Full => vec![] };
    let kept: Vec<usize> = (0..s.d.m()).filter(|i| !removed.contains(i)).collect();
    let order: Vec<usize> = kept.iter().map(|&i| inverse_maintainer.basis_column_index_for_row(i).wrapping_sub(k)).collect();
    ensure!(order.iter().all(|&j| j < s.d.n()), "basis", "columns {:?} left by phase one", order);
    let d = Dense { a: kept.iter().map(|&i| s.d.a[i].clone()).collect(), b: kept.iter().map(|&i| s.d.b[i].clone()).collect(), c: s.d.c.clone() };
    ensure!(Exact::new(&d, &order).is_some(), "not-a-basis", "columns {:?} left by phase one are no basis of rows {:?}", order, kept);
    cx.note(format!("phase one leaves columns {:?} of rows {:?}", order, kept));
    let m = Model::new(d, order, 0);
    if removed.is_empty() {
        cx.tag("handed over");
        let mut t = guard("continue", || Tableau::<_, NonArtificial<_>>::from_artificial(inverse_maintainer, k, basis, p))?;
        walk(cx, &mut t, m)
    } else {
        cx.tag("handed over, rows removed");
        let f = RemoveRows::new(p, removed);
        let mut t = guard("continue", || Tableau::<_, NonArtificial<_>>::from_artificial_removing_rows(inverse_maintainer, k, basis, &f))?;
        walk(cx, &mut t, m)
    }
}

fn walk<IM, K>(cx: &mut Cx, t: &mut Tableau<IM, K>, mut m: Model) -> Result<usize, Fail>
where IM: InverseMaintainer<F = RB>, K: Kind<Column: Column<F = RB>>, RB: relp::algorithm::two_phase::tableau::inverse_maintenance::ops::Cost<K::Cost>, for<'r> &'r RB: std::ops::Mul<K::Cost, Output = RB> {
    guard("state", || judge_state(t, &m))??;
    let long = m.d.m() >= 1 && cx.g.chance(1, 40);
    let limit = if long { cx.g.range(32, 70) } else { cx.g.upto(8) };
    let mut steps = 0;
    for step in 0..limit {
        let candidates = m.candidates();
        if candidates.is_empty() { break; }
        let j = *cx.g.pick(&candidates);
        let column = m.generated(j);
        // rows in which a pivot keeps the point feasible
        let mut rows: BTreeSet<usize> = m.ratio_test(&column).into_iter().collect();
        if let Some(&r) = rows.iter().next() {
            let ratio = m.exact.x[r].div(&column[r]);
            for i in 0..m.d.m() { if column[i].sgn() > 0 && m.exact.x[i].div(&column[i]) == ratio { rows.insert(i); } }
        }
        for i in 0..m.d.m() { if m.exact.x[i].is0() && !column[i].is0() { rows.insert(i); } }
        if rows.is_empty() { continue; }
        let rows: Vec<usize> = rows.into_iter().collect();
        let row = *cx.g.pick(&rows);
        cx.note(format!("column {} enters in row {}", j, row));
        pivot(t, &mut m, row, j)?;
        steps += 1;
        if !long || step % 8 == 0 || step > 28 && step < 35 || step + 1 == limit { guard("state", || judge_state(t, &m))??; }
    }
    Ok(steps)
}
