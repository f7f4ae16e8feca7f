//! C06: scaling and scaling back.
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::Carry;
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::data::linear_program::general_form::{GeneralForm, Scalable, Scaling};

use crate::engine::{guard, Cx, Fail, Res};
use crate::lp::{gen_lp, Lp, Opts, Palette, Verdict, SMALL};
use crate::props::solve::{judge_solution, show, values};
use crate::props::view::{dense, one, sparse, unsparse, zero};
use crate::q::{Num, Q, RB};
use crate::{ensure, fail};

const OPTS: Opts = Opts { palettes: &[Palette::Primes, Palette::Primes, Palette::Units, Palette::Ints, Palette::Fractions], wide: false, ..SMALL };

fn factors(scaling: &Scaling<RB>, n: usize) -> Result<Vec<RB>, Fail> {
    let f = guard("scale back a solution", || {
        let mut v = sparse(&vec![one(); n]);
        scaling.scale_back(&mut v);
        unsparse(&v)
    })?;
    for (j, v) in f.iter().enumerate() { ensure!(v.sgn() > 0, "factor-sign", "variable {} is scaled by {}", j, v); }
    Ok(f)
}

pub fn c06(cx: &mut Cx) -> Res {
    let (mut lp, class) = loop {
        let (lp, class) = gen_lp(&mut cx.g, &OPTS);
        if class != "larger" || cx.g.chance(1, 10) { break (lp, class) }
    };
    // whole rows, columns or the costs with a common factor
    for _ in 0..cx.g.upto(3) {
        let f = *cx.g.pick(&[Q::int(2), Q::int(3), Q::new(1, 2), Q::int(12), Q::new(5, 7), Q::int(1021), Q::int(1_048_583)]);
        match cx.g.idx(3) {
            0 if lp.m() > 0 => {
                let i = cx.g.idx(lp.m());
                let r = &mut lp.rows[i];
                r.b = r.b * f;
                for e in &mut r.a { e.1 = e.1 * f; }
                if let crate::lp::Kind::R(w) = &mut r.kind { *w = *w * f; }
            }
            1 if lp.n() > 0 => {
                let j = cx.g.idx(lp.n());
                let v = &mut lp.vars[j];
                v.cost = v.cost * f;
                v.lo = v.lo.map(|l| l / f);
                v.hi = v.hi.map(|l| l / f);
                for r in &mut lp.rows { for e in &mut r.a { if e.0 == j { e.1 = e.1 * f; } } }
            }
            _ => for v in &mut lp.vars { v.cost = v.cost * f; },
        }
    }
    cx.tag(class);
    let standard_first = cx.g.bool();
    let presolve = standard_first && cx.g.chance(1, 3);
    cx.note(if standard_first { if presolve { "presolve, standardise, scale" } else { "standardise, scale" } } else { "scale, standardise" });
    cx.note(lp.render());
    let expected = lp.verdict();
    cx.tag(expected.name());
    if standard_first { scaled_standard(cx, &lp, &expected, presolve) } else { scaled_raw(cx, &lp, &expected) }
}

fn verdict_of(result: &OptimizationResult<RB>) -> &'static str {
    match result { OptimizationResult::Infeasible => "infeasible", OptimizationResult::Unbounded => "unbounded", OptimizationResult::FiniteOptimum(_) => "optimal" }
}

fn scaled_standard(cx: &mut Cx, lp: &Lp, expected: &Verdict, presolve: bool) -> Res {
    let mut g: GeneralForm<RB> = lp.general();
    if presolve && guard("presolve", || g.presolve())?.is_err() { cx.tag("decided by presolve"); return Ok(()); }
    let counts = guard("standardize", || g.standardize())?;
    let before = g.clone();
    let d0 = guard("view", || dense(&before.derive_matrix_data(counts)))??;
    let scaling = guard("scale", || g.scale())?;
    let n = before.nr_variables();
    let columns = factors(&scaling, n)?;
    let d1 = guard("scaled view", || dense(&g.derive_matrix_data(counts)))??;
    ensure!(d0.m() == d1.m() && d0.n() == d1.n(), "dimensions", "scaling changed the dimensions");
    let changed = d0 != d1;
    cx.nontrivial = changed && lp.n() >= 2 && lp.m() >= 2;
    if changed { cx.tag("scaled"); }
    if columns.iter().any(|v| *v != one()) { cx.tag("columns scaled"); }
    // the scaled problem is the same one in other units
    let m = before.nr_constraints();
    let mut rows = vec![None; m];
    let ratio = |what: String, a: &RB, b: &RB, known: &mut Option<RB>| -> Res {
        // a = b * factor
        ensure!(a.is0() == b.is0(), "zero-pattern", "{} became {} from {}", what, a, b);
        if b.is0() { return Ok(()); }
        let f = a.div(b);
        ensure!(f.sgn() > 0, "factor-sign", "{} scaled by {}", what, f);
        if let Some(k) = known { ensure!(*k == f, "not-equivalent", "{} scaled by {} where {} was due", what, f, k); }
        *known = Some(f);
        Ok(())
    };
    let mut cost = None;
    for j in 0..n {
        ratio(format!("cost {}", j), &d1.c[j], &d0.c[j].mul(&columns[j]), &mut cost)?;
        for i in 0..m { ratio(format!("element ({}, {})", i, j), &d1.a[i][j], &d0.a[i][j].mul(&columns[j]), &mut rows[i])?; }
    }
    for i in 0..m { ratio(format!("right-hand side {}", i), &d1.b[i], &d0.b[i], &mut rows[i])?; }
    let mut next = m;
    for j in 0..n {
        if next < d0.m() && d0.a[next][j] == one() && d0.a[next][..n].iter().filter(|v| !v.is0()).count() == 1 {
            let mut k = Some(columns[j].clone());
            ratio(format!("bound of variable {}", j), &d0.b[next], &d1.b[next], &mut k)?;
            next += 1;
        }
    }
    for k in 0..counts[1] {
        let i = counts[0] + k;
        ratio(format!("range of row {}", i), &d1.b[next + k], &d0.b[next + k], &mut rows[i])?;
    }
    ensure!(next + counts[1] == d0.m(), "bound-rows", "{} rows of {} recognised", next + counts[1], d0.m());
    // solve, and everything back in the old units
    let result = guard("solve scaled", || {
        let data = g.derive_matrix_data(counts);
        match data.solve_relaxation::<Carry<RB, LUDecomposition<_>>>() {
            OptimizationResult::FiniteOptimum(v) => OptimizationResult::FiniteOptimum(data.reconstruct_solution(v)),
            r => r,
        }
    })?;
    let got = verdict_of(&result);
    ensure!(got == expected.name(), "verdict", "scaled problem is {}, the original {}", got, expected.name());
    let s = guard("back", || {
        if let OptimizationResult::FiniteOptimum(mut v) = result {
            scaling.scale_back(&mut v);
            g.scale_back(scaling);
            Some((g.clone(), v))
        } else { g.scale_back(scaling); None }
    })?;
    ensure!(g == before, "not-undone", "undoing the scaling gives another problem");
    if let (Some((g, v)), Verdict::Optimal { value, .. }) = (s, expected) {
        let mut s = guard("map back", || g.compute_full_solution_with_reduced_solution(v))?;
        if lp.max { s.objective_value = s.objective_value.neg(); }
        judge_solution(lp, &s, value, "scaled solution")?;
    }
    Ok(())
}

fn scaled_raw(cx: &mut Cx, lp: &Lp, expected: &Verdict) -> Res {
    let mut g: GeneralForm<RB> = lp.general();
    let before = g.clone();
    let scaling = guard("scale", || g.scale())?;
    let columns = factors(&scaling, lp.n())?;
    let changed = g != before;
    cx.nontrivial = changed && lp.n() >= 2 && lp.m() >= 2;
    if changed { cx.tag("scaled"); }
    if columns.iter().any(|v| *v != one()) { cx.tag("columns scaled"); }
    let (result, standard) = guard("solve scaled", || {
        let mut standard = g.clone();
        let counts = standard.standardize();
        let data = standard.derive_matrix_data(counts);
        let r = match data.solve_relaxation::<Carry<RB, LUDecomposition<_>>>() {
            OptimizationResult::FiniteOptimum(v) => OptimizationResult::FiniteOptimum(data.reconstruct_solution(v)),
            r => r,
        };
        (r, standard.clone())
    })?;
    let got = verdict_of(&result);
    ensure!(got == expected.name(), "verdict", "scaled problem is {}, the original {}", got, expected.name());
    if let (OptimizationResult::FiniteOptimum(v), Verdict::Optimal { value, .. }) = (result, expected) {
        let s = guard("map back", || standard.compute_full_solution_with_reduced_solution(v))?;
        let scaled = values(lp, &s, "scaled solution")?;
        let mut v = sparse(&scaled);
        guard("scale back a solution", || scaling.scale_back(&mut v))?;
        let x = unsparse(&v);
        if let Some(w) = lp.violated(&x) { fail!("violates", "scaled solution {} is {:?} unscaled, which violates {}", show(&s), x, w); }
        let at = lp.objective_at(&x);
        ensure!(at == *value, "not-optimal", "scaled solution has objective {} unscaled, the optimum is {}", at, value);
    }
    guard("scale back", || g.scale_back(scaling))?;
    ensure!(g == before, "not-undone", "undoing the scaling gives another problem");
    let _ = zero();
    Ok(())
}
