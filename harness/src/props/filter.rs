//! C13: views from which rows are removed.
use std::collections::BTreeSet;

use relp::algorithm::two_phase::matrix_provider::column::Column;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::RemoveRows;
use relp::algorithm::two_phase::matrix_provider::filter::{Filtered, ToFiltered};
use relp::algorithm::two_phase::matrix_provider::variable::FeasibilityLogic;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::{FeasibilityComputeTrait, PartialInitialBasis, Rank, RankedFeasibilityResult};
use relp::algorithm::two_phase::tableau::inverse_maintenance::InverseMaintainer;
use relp::algorithm::two_phase::tableau::kind::non_artificial::NonArtificial;
use relp::algorithm::two_phase::tableau::Tableau;
use relp::data::linear_program::elements::BoundDirection;

use crate::engine::{guard, Cx, Fail, Gen, Res};
use crate::props::phase_one::{Lu, Rows};
use crate::props::simplex::{judge_state, Model};
use crate::props::standard::gen_form;
use crate::props::systems::{self, show, Part, Plain, System};
use crate::props::view::{agree, rows_of, sparse, unsparse, Dense};
use crate::q::{Q, RB};
use crate::refsolve::{self, Std};
use crate::ensure;

fn choose(g: &mut Gen, n: usize) -> Vec<usize> {
    let p = g.range(0, 3) as u64;
    (0..n).filter(|_| g.chance(p, 3)).collect()
}
fn without<T: Clone>(v: &[T], rows: &[usize]) -> Vec<T> {
    v.iter().enumerate().filter(|(i, _)| !rows.contains(i)).map(|(_, v)| v.clone()).collect()
}

pub fn c13(cx: &mut Cx) -> Res {
    match cx.g.weighted(&[3, 3, 4]) {
        0 => from_matrix(cx),
        1 => from_custom(cx),
        _ => continued(cx),
    }
}

fn from_matrix(cx: &mut Cx) -> Res {
    cx.tag("matrix data");
    let feasible = cx.g.bool();
    let form = gen_form(cx, 5, feasible, true);
    let d = form.layout();
    // only equality rows can depend on others
    let skip = choose(&mut cx.g, form.counts[0]);
    cx.note(form.render());
    cx.note(format!("skip {:?}", skip));
    cx.nontrivial = !skip.is_empty() && d.m() - skip.len() >= 2;
    let rest = form.counts[0] - skip.len();
    let more = if rest > 0 && cx.g.bool() { Some(cx.g.idx(rest)) } else { None };
    let values: Vec<RB> = (0..d.n()).map(|_| Q::int(cx.g.int(3)).big()).collect();
    guard("filtered matrix data", || form.with(|data| -> Res {
        let bound = |j: usize| data.bound_row_index(j, BoundDirection::Upper);
        let mut f = RemoveRows::new(data, skip.clone());
        judge(&f, &d, &skip, data.nr_constraints(), &bound)?;
        judge_rows(&f, &d, &skip)?;
        pivots(&f, &data.pivot_element_indices(), &skip)?;
        let have = unsparse(&f.reconstruct_solution(sparse(&values)));
        ensure!(have == values[..form.n()], "reconstruct", "reconstructed solution {} of {}", show(&have), show(&values));
        for j in 0..d.n() {
            ensure!(f.cost_value(j) == data.cost_value(j), "cost", "cost of column {}", j);
        }
        let _ = format!("{}", f);
        if let Some(i) = more {
            let original = f.get_underlying_row_index(i);
            f.delete_row(i);
            let mut skip = skip.clone();
            skip.push(original);
            skip.sort_unstable();
            ensure!(f.rows_to_skip == skip, "delete", "rows {:?} are skipped, should be {:?}", f.rows_to_skip, skip);
            judge(&f, &d, &skip, data.nr_constraints(), &bound)?;
            judge_rows(&f, &d, &skip)?;
        }
        Ok(())
    }))?
}

fn from_custom(cx: &mut Cx) -> Res {
    cx.tag("custom");
    let d = if cx.g.chance(1, 6) { systems::gen_large(&mut cx.g) } else { systems::gen_system(cx, 7, false).0 };
    let initial = systems::gen_pivots(&mut cx.g, &d);
    let mut s = System::new(d, initial);
    s.bounds = if cx.g.bool() { 0 } else { cx.g.upto(s.d.m().min(s.d.n())) };
    let constraints = s.d.m() - s.bounds;
    let skip = choose(&mut cx.g, constraints);
    cx.note(s.render());
    cx.note(format!("{} bound rows, skip {:?}", s.bounds, skip));
    cx.nontrivial = !skip.is_empty() && s.d.m() - skip.len() >= 2;
    let deletions = cx.g.upto(3);
    let values: Vec<RB> = (0..s.d.n()).map(|_| Q::int(cx.g.int(3)).big()).collect();
    let p = Part(&s);
    let bound = |j: usize| p.bound_row_index(j, BoundDirection::Upper);
    let mut f = RemoveRows::new(&p, skip.clone());
    let mut skip = skip;
    let all = |f: &RemoveRows<'_, Part<'_>>, skip: &[usize]| guard("filtered provider", || -> Res {
        judge(f, &s.d, skip, constraints, &bound)?;
        judge_rows(f, &s.d, skip)?;
        pivots(f, &s.pivots, skip)?;
        for j in 0..s.d.n() {
            for v in (0..6).map(|k| Q::new((4 * j + k) as i128 - 1, 2).big()) {
                ensure!(f.is_feasible(j, v.clone()) == p.is_feasible(j, v.clone()), "feasible-value", "whether value {} suits column {}", v, j);
                ensure!(f.closest_feasible(j, v.clone()) == p.closest_feasible(j, v.clone()), "closest-value", "the values closest to {} that suit column {}", v, j);
            }
        }
        for j in 0..s.d.n() { ensure!(f.cost_value(j) == &s.d.c[j], "cost", "cost of column {} is {}, should be {}", j, f.cost_value(j), s.d.c[j]); }
        let have = unsparse(&f.reconstruct_solution(sparse(&values)));
        ensure!(have == values, "reconstruct", "reconstructed solution {} of {}", show(&have), show(&values));
        let _ = format!("{}", f);
        Ok(())
    })?;
    all(&f, &skip)?;
    for _ in 0..deletions {
        let left = constraints - skip.len();
        if left == 0 { break; }
        let i = cx.g.idx(left);
        let original = without(&(0..s.d.m()).collect::<Vec<_>>(), &skip)[i];
        cx.note(format!("delete row {}", i));
        guard("delete a row", || f.delete_row(i))?;
        skip.push(original);
        skip.sort_unstable();
        ensure!(f.rows_to_skip == skip, "delete", "rows {:?} are skipped, should be {:?}", f.rows_to_skip, skip);
        all(&f, &skip)?;
    }
    if cx.g.chance(1, 20) {
        // the same through the trait, which wants something that lives forever
        let kept: &'static System = Box::leak(Box::new(s.clone()));
        let p: &'static Plain<'static> = Box::leak(Box::new(Plain(kept)));
        let bound = |j: usize| p.bound_row_index(j, BoundDirection::Upper);
        guard("to filtered", || -> Res {
            let f = p.to_filtered(skip.clone());
            judge(&f, &s.d, &skip, constraints, &bound)?;
            judge_rows(&f, &s.d, &skip)
        })??;
    }
    Ok(())
}

fn judge<'p, P>(f: &RemoveRows<'p, P>, d: &Dense, skip: &[usize], constraints: usize, bound: &dyn Fn(usize) -> Option<usize>) -> Res
where P: MatrixProvider, RemoveRows<'p, P>: Filtered {
    let kept: Vec<usize> = (0..d.m()).filter(|i| !skip.contains(i)).collect();
    ensure!(f.nr_rows() == kept.len(), "dimensions", "{} rows, should be {}", f.nr_rows(), kept.len());
    ensure!(f.nr_columns() == d.n(), "dimensions", "{} columns, should be {}", f.nr_columns(), d.n());
    ensure!(f.nr_constraints() == constraints - skip.len(), "dimensions", "{} constraints, should be {}", f.nr_constraints(), constraints - skip.len());
    ensure!(f.nr_variable_bounds() == d.m() - constraints, "dimensions", "{} bounds, should be {}", f.nr_variable_bounds(), d.m() - constraints);
    ensure!(f.nr_constraints_deleted() == skip.len(), "dimensions", "{} constraints deleted, should be {}", f.nr_constraints_deleted(), skip.len());
    ensure!(f.filtered_rows() == skip, "filtered-rows", "rows {:?} are filtered, should be {:?}", f.filtered_rows(), skip);
    for (i, &k) in kept.iter().enumerate() {
        ensure!(f.get_underlying_row_index(i) == k, "underlying", "row {} is row {} of the whole, should be {} (skipping {:?})", i, f.get_underlying_row_index(i), k, skip);
    }
    for j in 0..d.n() {
        let want = bound(j).map(|k| kept.iter().position(|&i| i == k).unwrap());
        let have = f.bound_row_index(j, BoundDirection::Upper);
        ensure!(have == want, "bound-row", "bound row of column {} is {:?}, should be {:?}", j, have, want);
        ensure!(f.bound_row_index(j, BoundDirection::Lower).is_none(), "bound-row", "column {} has a lower bound row", j);
    }
    Ok(())
}

fn judge_rows<P>(f: &P, d: &Dense, skip: &[usize]) -> Res
where P: MatrixProvider<Rhs = RB>, P::Column: Column<F = RB> {
    let (a, b) = rows_of(f)?;
    let (want_a, want_b) = (without(&d.a, skip), without(&d.b, skip));
    ensure!(b == want_b, "rhs", "right-hand side is {}, should be {}", show(&b), show(&want_b));
    for i in 0..a.len() { ensure!(a[i] == want_a[i], "row", "row {} is {}, should be {}", i, show(&a[i]), show(&want_a[i])); }
    for j in 0..d.n() {
        let c = f.column(j);
        for i in 0..a.len() { ensure!(c.index_to_string(i) == want_a[i][j].to_string(), "index-to-string", "element ({}, {}) shows as {}, should be {}", i, j, c.index_to_string(i), want_a[i][j]); }
        agree(&|| f.column(j), j)?;
    }
    Ok(())
}

fn pivots<P: PartialInitialBasis>(f: &P, full: &[(usize, usize)], skip: &[usize]) -> Res {
    let want: Vec<(usize, usize)> = full.iter().filter(|e| !skip.contains(&e.0)).map(|&(i, j)| (i - skip.iter().filter(|&&k| k < i).count(), j)).collect();
    let have = f.pivot_element_indices();
    ensure!(have == want, "pivots", "initial pivots {:?}, should be {:?}", have, want);
    ensure!(f.nr_initial_elements() == want.len(), "nr-initial", "{} initial pivots, should be {}", f.nr_initial_elements(), want.len());
    Ok(())
}

/// From phase one into the filtered problem.
fn continued(cx: &mut Cx) -> Res {
    let (d, _) = systems::gen_system(cx, 6, false);
    // add rows that depend on others
    let mut d = d;
    if d.m() > 0 {
        for _ in 0..cx.g.range(1, 2) {
            let (k, l) = (cx.g.idx(d.m()), cx.g.idx(d.m()));
            let (f, h) = (Q::int(cx.g.upto(2) as i64).big(), Q::int(cx.g.range(1, 2) as i64).big());
            let combine = |x: &RB, y: &RB| &(&f * x) + &(&h * y);
            let row: Vec<RB> = (0..d.n()).map(|j| combine(&d.a[k][j], &d.a[l][j])).collect();
            let rhs = combine(&d.b[k], &d.b[l]);
            let at = cx.g.upto(d.m());
            d.a.insert(at, row);
            d.b.insert(at, rhs);
        }
    }
    let initial = systems::gen_pivots(&mut cx.g, &d);
    let s = System::new(d, initial);
    cx.note(s.render());
    let deficient = refsolve::rank(&s.d.a) < s.d.m();
    if !deficient || matches!(s.d.solve_costs(&vec![crate::props::view::zero(); s.d.n()]), Std::Infeasible) { cx.tag("not deficient or infeasible"); return Ok(()); }
    cx.tag("continued");
    cx.nontrivial = s.d.m() >= 2;
    match cx.g.idx(4) {
        0 => { let p = Plain(&s); let r = guard("phase one", || p.compute_bfs_giving_im::<Lu>())?; resume(cx, &p, &s, r) }
        1 => { let p = Plain(&s); let r = guard("phase one", || p.compute_bfs_giving_im::<Rows>())?; resume(cx, &p, &s, r) }
        2 => { let p = Plain(&s); let q = Part(&s); let r = guard("phase one", || q.compute_bfs_giving_im::<Lu>())?; resume(cx, &p, &s, r) }
        _ => { let p = Plain(&s); let q = Part(&s); let r = guard("phase one", || q.compute_bfs_giving_im::<Rows>())?; resume(cx, &p, &s, r) }
    }
}

fn resume<IM: InverseMaintainer<F = RB>>(cx: &mut Cx, p: &Plain<'_>, s: &System, result: RankedFeasibilityResult<IM>) -> Result<(), Fail> {
    let RankedFeasibilityResult::Feasible { rank: Rank::Deficient(rows), nr_artificial_variables: k, inverse_maintainer, basis } = result
        else { crate::fail!("rank", "phase one does not report a rank deficiency") };
    let order: Vec<usize> = (0..s.d.m()).filter(|i| !rows.contains(i)).map(|i| inverse_maintainer.basis_column_index_for_row(i) - k).collect();
    ensure!(order.iter().collect::<BTreeSet<_>>().len() == order.len(), "basis", "basis {:?}", order);
    let reduced = Dense { a: without(&s.d.a, &rows), b: without(&s.d.b, &rows), c: s.d.c.clone() };
    ensure!(systems::Exact::new(&reduced, &order).is_some(), "not-a-basis", "columns {:?} are no basis after dropping rows {:?}", order, rows);
    let m = Model::new(reduced, order.clone(), 0);
    let f = RemoveRows::new(p, rows);
    let mut t = guard("continue", || Tableau::<_, NonArtificial<_>>::from_artificial_removing_rows(inverse_maintainer, k, basis, &f))?;
    guard("state", || judge_state(&t, &m))??;
    let mut fresh = guard("fresh", || Tableau::<_, NonArtificial<_>>::new_with_inverse_maintainer(&f, IM::from_basis(&order, &f), order.iter().copied().collect()))?;
    guard("state", || judge_state(&fresh, &m))??;
    // both keep agreeing
    let mut m = m;
    for _ in 0..cx.g.upto(4) {
        let candidates = m.candidates();
        if candidates.is_empty() { break; }
        let j = *cx.g.pick(&candidates);
        let Some(row) = m.ratio_test(&m.generated(j)) else { continue };
        cx.note(format!("column {} enters in row {}", j, row));
        let cost = t.relative_cost(j);
        let info = t.generate_column(j);
        guard("basis change", || t.bring_into_basis(j, row, info, cost))?;
        let cost = fresh.relative_cost(j);
        let info = fresh.generate_column(j);
        guard("basis change", || fresh.bring_into_basis(j, row, info, cost))?;
        m.pivot(row, j)?;
        guard("state", || judge_state(&t, &m))??;
        guard("state", || judge_state(&fresh, &m))??;
    }
    Ok(())
}
