//! C07: phase one.
use std::collections::HashSet;

use relp::algorithm::two_phase::phase_one::{FeasibilityComputeTrait, Rank, RankedFeasibilityResult};
use relp::algorithm::two_phase::matrix_provider::matrix_data::MatrixData;
use relp::algorithm::two_phase::strategy::pivot_rule::{FirstProfitable, FirstProfitableWithMemory, SteepestDescentAlongObjective, SteepestDescentAlongVariable};
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::Carry;
use relp::algorithm::two_phase::tableau::inverse_maintenance::InverseMaintainer;

use crate::engine::{guard, Cx, Fail, Res};
use crate::props::hook;
use crate::props::standard::{gen_form, Form};
use crate::props::systems::{self, Exact, Part, Plain, System};
use crate::props::view::{one, zero, Dense};
use crate::q::{Num, RB};
use crate::refsolve::{self, Std};
use crate::ensure;

pub type Lu = Carry<RB, LUDecomposition<RB>>;
pub type Rows = Carry<RB, BasisInverseRows<RB>>;

struct Known { feasible: bool, rank: usize }

fn judge<IM: InverseMaintainer<F = RB>>(d: &Dense, known: &Known, artificial_rows: &[usize], result: RankedFeasibilityResult<IM>, what: &str) -> Result<bool, Fail> {
    match result {
        RankedFeasibilityResult::Infeasible => {
            ensure!(!known.feasible, "wrong-infeasible", "{}: a feasible system is reported infeasible", what);
            Ok(false)
        }
        RankedFeasibilityResult::Feasible { rank, nr_artificial_variables, inverse_maintainer, basis } => {
            ensure!(known.feasible, "wrong-feasible", "{}: an infeasible system is reported feasible", what);
            let k = nr_artificial_variables;
            ensure!(k == artificial_rows.len(), "nr-artificial", "{}: {} artificial variables, {} rows need one", what, k, artificial_rows.len());
            let removed = match &rank { Rank::Full => vec![], Rank::Deficient(r) => r.clone() };
            ensure!(removed.windows(2).all(|w| w[0] < w[1]), "rows-order", "{}: redundant rows {:?} are not sorted and distinct", what, removed);
            ensure!(removed.iter().all(|&i| i < d.m()), "rows-range", "{}: redundant rows {:?} of {} rows", what, removed, d.m());
            ensure!(d.m() - removed.len() == known.rank, "rank", "{}: {} of {} rows are redundant, the rank is {}", what, removed.len(), d.m(), known.rank);
            let kept: Vec<usize> = (0..d.m()).filter(|i| !removed.contains(i)).collect();
            // what is left has the same rank, so the removed rows follow from it
            let rows: Vec<Vec<RB>> = kept.iter().map(|&i| d.a[i].clone()).collect();
            ensure!(refsolve::rank(&rows) == known.rank, "not-implied", "{}: removed rows {:?} are not implied by the others", what, removed);
            let order: Vec<usize> = (0..d.m()).map(|i| inverse_maintainer.basis_column_index_for_row(i)).collect();
            ensure!(order.iter().copied().collect::<HashSet<_>>() == basis && order.len() == basis.len(), "basis-set", "{}: basis {:?} but per row {:?}", what, basis, order);
            for i in 0..d.m() {
                if removed.contains(&i) { ensure!(order[i] < k, "removed-basic", "{}: row {} is redundant but column {} is basic in it", what, i, order[i]); }
                else { ensure!(order[i] >= k && order[i] < k + d.n(), "artificial-left", "{}: artificial column {} is still basic in row {}", what, order[i], i); }
            }
            let columns: Vec<usize> = kept.iter().map(|&i| order[i] - k).collect();
            let reduced = Dense { a: rows, b: kept.iter().map(|&i| d.b[i].clone()).collect(), c: d.c.clone() };
            let exact = Exact::new(&reduced, &columns);
            ensure!(exact.is_some(), "not-a-basis", "{}: columns {:?} are not a basis of rows {:?}", what, columns, kept);
            let exact = exact.unwrap();
            let mut x = vec![zero(); d.n()];
            for (v, &j) in exact.x.iter().zip(&columns) {
                ensure!(v.sgn() >= 0, "negative", "{}: basic solution has value {} for column {}", what, v, j);
                x[j] = v.clone();
            }
            for (i, row) in d.a.iter().enumerate() {
                let s = row.iter().zip(&x).fold(zero(), |s, (a, x)| systems::add_product(s, a, x));
                ensure!(s == d.b[i], "violated", "{}: basic solution violates row {}", what, i);
            }
            // the state handed over is that of this basis
            let b = inverse_maintainer.b();
            for (p, &i) in kept.iter().enumerate() {
                ensure!(b[i] == exact.x[p], "basic-value", "{}: value of row {} is {}, should be {}", what, i, b[i], exact.x[p]);
                ensure!(inverse_maintainer.get_constraint_value(i) == &exact.x[p], "basic-value", "{}: constraint value of row {}", what, i);
            }
            let full = Dense {
                a: (0..d.m()).map(|i| artificial_rows.iter().map(|&r| if r == i { one() } else { zero() }).chain(d.a[i].iter().cloned()).collect()).collect(),
                b: d.b.clone(), c: vec![zero(); k + d.n()],
            };
            let exact = Exact::new(&full, &order);
            ensure!(exact.is_some(), "singular", "{}: basis {:?} including artificial columns is singular", what, order);
            let exact = exact.unwrap();
            for j in 0..d.n() {
                let column = systems::Col(systems::sparse_of(&systems::column(d, j)));
                let have = relp::algorithm::two_phase::tableau::inverse_maintenance::ColumnComputationInfo::into_column(inverse_maintainer.generate_column(column));
                let have = crate::props::view::unsparse(&have);
                let want = exact.generated(&systems::column(d, j));
                ensure!(have == want, "handed-inverse", "{}: column {} with respect to the basis is {}, should be {}", what, j, systems::show(&have), systems::show(&want));
            }
            Ok(!removed.is_empty())
        }
    }
}

pub fn c07(cx: &mut Cx) -> Res {
    if cx.g.chance(1, 4) { return matrix(cx); }
    let degenerate = cx.g.bool();
    let (d, class) = if cx.g.chance(1, 60) { (systems::gen_large(&mut cx.g), "larger") } else { systems::gen_system(cx, 6, degenerate) };
    cx.tag(class);
    let pivots = systems::gen_pivots(&mut cx.g, &d);
    let s = System::new(d, pivots);
    cx.note(s.render());
    let known = learn(cx, &s.d);
    let all: Vec<usize> = (0..s.d.m()).collect();
    let without: Vec<usize> = all.iter().copied().filter(|i| s.pivots.iter().all(|p| p.0 != *i)).collect();
    let (plain, part) = (Plain(&s), Part(&s));
    match cx.g.idx(4) {
        0 => { let r = guard("phase one", || plain.compute_bfs_giving_im::<Lu>())?; after(cx, judge(&s.d, &known, &all, r, "without initial basis, LU")?); }
        1 => { let r = guard("phase one", || plain.compute_bfs_giving_im::<Rows>())?; after(cx, judge(&s.d, &known, &all, r, "without initial basis, rows")?); }
        2 => { let r = guard("phase one", || part.compute_bfs_giving_im::<Lu>())?; after(cx, judge(&s.d, &known, &without, r, "with initial basis, LU")?); }
        _ => { let r = guard("phase one", || part.compute_bfs_giving_im::<Rows>())?; after(cx, judge(&s.d, &known, &without, r, "with initial basis, rows")?); }
    }
    if !hook::AVAILABLE { return Ok(()) }
    // with the other rules, of which only the first certainly ends
    let r = guard("phase one", || hook::run::<_, _, Plain<'_>, FirstProfitable>(hook::fully::<Lu, _>(&plain)))?;
    judge(&s.d, &known, &all, r, "first profitable without initial basis, LU")?;
    let r = guard("phase one", || hook::run::<_, _, Part<'_>, FirstProfitable>(hook::partially::<Rows, _>(&part)))?;
    judge(&s.d, &known, &without, r, "first profitable with initial basis, rows")?;
    Ok(())
}

fn learn(cx: &mut Cx, d: &Dense) -> Known {
    let feasible = !matches!(d.solve_costs(&vec![zero(); d.n()]), Std::Infeasible);
    crate::q::take_overflow();
    let quick = d.small().map(|(a, _, _)| refsolve::rank(&a));
    let rank = match quick { Some(r) if !crate::q::take_overflow() => r, _ => refsolve::rank(&d.a) };
    cx.tag(if feasible { "feasible" } else { "infeasible" });
    if rank < d.m() { cx.tag("rank deficient"); }
    cx.nontrivial = d.m() >= 2 && d.n() >= 2;
    Known { feasible, rank }
}
fn after(cx: &mut Cx, removed: bool) { if removed { cx.tag("rows removed"); } }

/// The provider made from a general form problem.
fn matrix(cx: &mut Cx) -> Res {
    let feasible = cx.g.chance(3, 4);
    let form: Form = gen_form(cx, 5, feasible, false);
    cx.note(form.render());
    cx.tag("matrix data");
    let d = form.layout();
    let known = learn(cx, &d);
    let [e, _, _, l] = form.counts;
    let m = form.m();
    let lu = cx.g.bool();
    let removed = guard("phase one", || form.with(|data| -> Result<bool, Fail> {
        // equality and lower rows need an artificial variable
        let rows: Vec<usize> = initial_rows(data, d.m());
        let _ = (e, l, m);
        if lu { judge(&d, &known, &rows, data.compute_bfs_giving_im::<Lu>(), "matrix data, LU") }
        else { judge(&d, &known, &rows, data.compute_bfs_giving_im::<Rows>(), "matrix data, rows") }
    }))??;
    after(cx, removed);
    Ok(())
}
fn initial_rows(data: &MatrixData<'_, RB>, m: usize) -> Vec<usize> {
    use relp::algorithm::two_phase::phase_one::PartialInitialBasis;
    let p = data.pivot_element_indices();
    (0..m).filter(|i| p.iter().all(|e| e.0 != *i)).collect()
}

#[allow(unused)]
type Others = (FirstProfitableWithMemory, SteepestDescentAlongVariable, SteepestDescentAlongObjective<RB>);
