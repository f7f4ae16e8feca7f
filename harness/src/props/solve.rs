//! C01, C02, C03: the whole way from a linear program to a reported answer.
use relp::data::linear_program::elements::LinearProgramType;
use relp::data::linear_program::solution::Solution;

use crate::engine::{guard, Cx, Fail, Res};
use crate::lp::{gen_lp, Lp, Opts, Palette, Verdict, SMALL};
use crate::props::pipeline::{run, Backend, Outcome};
use crate::props::view::{dense, sparse};
use crate::q::RB;
use crate::refsolve::Std;
use crate::{ensure, fail};

fn nontrivial(lp: &Lp) -> bool { lp.n() >= 2 && lp.m() >= 2 && lp.nnz() >= 3 }
const CONFIGS: [(usize, Backend); 4] = [(0, Backend::Lu), (1, Backend::Lu), (0, Backend::Rows), (1, Backend::Rows)];
pub const PRESOLVE: Opts = Opts { presolve_bias: true, ..SMALL };
pub const FRACTIONS: Opts = Opts { palettes: &[Palette::Fractions, Palette::Primes], ..SMALL };

fn pick_opts(cx: &mut Cx, weights: &[u64; 3]) -> Opts {
    match cx.g.weighted(weights) { 0 => SMALL, 1 => PRESOLVE, _ => FRACTIONS }
}

pub fn c01(cx: &mut Cx) -> Res {
    let o = pick_opts(cx, &[4, 2, 1]);
    let (lp, class) = gen_lp(&mut cx.g, &o);
    cx.tag(class);
    let pick: Vec<(usize, Backend)> = if class == "larger" { vec![*cx.g.pick(&CONFIGS)] } else { CONFIGS.to_vec() };
    cx.note(lp.render());
    cx.nontrivial = nontrivial(&lp);
    let expected = lp.verdict();
    cx.tag(expected.name());
    for (presolves, backend) in pick {
        let what = format!("presolve x{}, {:?}", presolves, backend);
        let got = run(lp.general(), lp.max, presolves, backend).map_err(|mut f| { f.msg = format!("{}: {}", what, f.msg); f })?;
        ensure!(got.name() == expected.name(), format!("verdict:{}-for-{}", got.name(), expected.name()), "{}: reported {}, is {}", what, got.name(), expected.name());
        if let (Outcome::Optimal(s), Verdict::Optimal { value, .. }) = (&got, &expected) {
            if s.objective_value != *value { fail!("value", "{}: reported {}, is {}", what, s.objective_value, value); }
        }
    }
    Ok(())
}

/// Every variable once under its own name; values satisfy everything; the objective is that of the values.
pub fn judge_solution(lp: &Lp, s: &Solution<RB>, optimum: &RB, what: &str) -> Res {
    let x = values(lp, s, what)?;
    if let Some(v) = lp.violated(&x) { fail!("violates", "{}: solution {:?} violates {}", what, show(s), v); }
    let at = lp.objective_at(&x);
    ensure!(at == s.objective_value, "objective-of-values", "{}: reported objective {}, the values have {} ({})", what, s.objective_value, at, show(s));
    ensure!(at == *optimum, "not-optimal", "{}: the values have objective {}, the optimum is {}", what, at, optimum);
    Ok(())
}
pub fn values(lp: &Lp, s: &Solution<RB>, what: &str) -> Result<Vec<RB>, Fail> {
    ensure!(s.solution_values.len() == lp.n(), "names", "{}: {} values for {} variables", what, s.solution_values.len(), lp.n());
    let mut x: Vec<Option<RB>> = vec![None; lp.n()];
    for (name, v) in &s.solution_values {
        let Some(j) = lp.vars.iter().position(|w| &w.name == name) else { fail!("names", "{}: unknown variable {:?}", what, name) };
        ensure!(x[j].is_none(), "names", "{}: variable {:?} twice", what, name);
        x[j] = Some(v.clone());
    }
    Ok(x.into_iter().map(|v| v.unwrap()).collect())
}
pub fn show(s: &Solution<RB>) -> String {
    s.solution_values.iter().map(|(n, v)| format!("{}={}", n, v)).collect::<Vec<_>>().join(" ")
}

pub fn c02(cx: &mut Cx) -> Res {
    let o = pick_opts(cx, &[2, 4, 1]);
    let (lp, class) = gen_lp(&mut cx.g, &o);
    cx.tag(class);
    let mut pick: Vec<(usize, Backend)> = if class == "larger" { vec![*cx.g.pick(&CONFIGS)] } else { CONFIGS.to_vec() };
    if class != "larger" { pick.push((2, Backend::Lu)); }
    cx.note(lp.render());
    let Verdict::Optimal { value, .. } = lp.verdict() else { cx.tag("no-optimum"); return Ok(()) };
    cx.nontrivial = nontrivial(&lp);
    for (presolves, backend) in pick {
        let what = format!("presolve x{}, {:?}", presolves, backend);
        if let Outcome::Optimal(s) = run(lp.general(), lp.max, presolves, backend).map_err(|mut f| { f.msg = format!("{}: {}", what, f.msg); f })? {
            judge_solution(&lp, &s, &value, &what)?;
        } else { cx.tag("optimum-not-reported"); }
    }
    Ok(())
}

pub fn c03(cx: &mut Cx) -> Res {
    let (mut lp, class) = loop {
        let (lp, class) = gen_lp(&mut cx.g, &PRESOLVE);
        if class != "larger" || cx.thorough || cx.g.chance(1, 6) { break (lp, class) }
    };
    if cx.g.chance(1, 4) { add_duplicates(cx, &mut lp); }
    cx.tag(class);
    let times = cx.g.weighted(&[6, 3, 1]) + 1;
    cx.note(format!("presolve x{}", times));
    cx.note(lp.render());
    cx.nontrivial = nontrivial(&lp);
    let expected = lp.verdict();
    cx.tag(expected.name());
    let mut general = lp.general::<RB>();
    let mut done = None;
    for k in 0..times {
        let before = general.clone();
        match guard("presolve", || general.presolve())? {
            Ok(()) => {
                if before == general { cx.tag("presolve-changed-nothing"); break; }
                cx.tag(if k == 0 { "reduced" } else { "reduced-again" });
            }
            Err(e) => { done = Some(e); break; }
        }
    }
    match done {
        Some(LinearProgramType::Infeasible) => {
            cx.tag("presolve-infeasible");
            ensure!(matches!(expected, Verdict::Infeasible), format!("verdict:infeasible-for-{}", expected.name()), "presolve says infeasible, the problem is {}", expected.name());
            return Ok(());
        }
        Some(LinearProgramType::Unbounded) => {
            cx.tag("presolve-unbounded");
            ensure!(matches!(expected, Verdict::Unbounded), format!("verdict:unbounded-for-{}", expected.name()), "presolve says unbounded, the problem is {}", expected.name());
            return Ok(());
        }
        Some(LinearProgramType::FiniteOptimum(s)) => {
            cx.tag("presolve-solved");
            let Verdict::Optimal { value, .. } = &expected else { fail!(format!("verdict:optimal-for-{}", expected.name()), "presolve says solved ({}), the problem is {}", show(&s), expected.name()) };
            return judge_solution(&lp, &s, value, "solved by presolve");
        }
        None => {}
    }
    // What is left, read through the matrix view of its standard form
    let (reduced, standard) = guard("standardize", || {
        let mut standard = general.clone();
        let counts = standard.standardize();
        let d = dense(&standard.derive_matrix_data(counts));
        (d, standard)
    })?;
    let reduced = reduced?;
    let verdict = reduced.solve();
    let name = match &verdict { Std::Infeasible => "infeasible", Std::Unbounded { .. } => "unbounded", Std::Optimal { .. } => "optimal" };
    ensure!(name == expected.name(), format!("reduced:{}-for-{}", name, expected.name()), "the reduced problem is {}, the original is {}", name, expected.name());
    let nr_variables = standard.nr_variables();
    let back = |x: &[RB]| guard("map back", || {
        let mut s = standard.clone().compute_full_solution_with_reduced_solution(sparse(&x[..nr_variables]));
        if lp.max { s.objective_value = -s.objective_value; }
        s
    });
    if let (Std::Optimal { x, value: v, .. }, Verdict::Optimal { value, .. }) = (&verdict, &expected) {
        let s = back(x)?;
        judge_solution(&lp, &s, value, "extended optimum of the reduced problem")?;
        for _ in 0..2 {
            if let Some(x) = reduced.random_point(&mut cx.g, Some(v)) {
                let s = back(&x)?;
                judge_solution(&lp, &s, value, "extended other optimum of the reduced problem")?;
            }
        }
    }
    if !matches!(verdict, Std::Infeasible) {
        // Any feasible point extends to a feasible one with the same objective
        if let Some(x) = reduced.random_point(&mut cx.g, None) {
            let s = back(&x)?;
            let full = values(&lp, &s, "extended feasible point")?;
            if let Some(v) = lp.violated(&full) { fail!("extended-violates", "feasible point of the reduced problem extends to {}, which violates {}", show(&s), v); }
            let at = lp.objective_at(&full);
            ensure!(at == s.objective_value, "extended-objective", "extended point {} has objective {}, reported {}", show(&s), at, s.objective_value);
        }
    }
    Ok(())
}

/// Rows repeated with a factor, so that redundancy has to be noticed the right way around.
fn add_duplicates(cx: &mut Cx, lp: &mut Lp) {
    use crate::lp::{Kind, Row};
    use crate::q::Q;
    if lp.rows.is_empty() { return; }
    for _ in 0..cx.g.range(1, 2) {
        let i = cx.g.idx(lp.rows.len());
        let r = lp.rows[i].clone();
        let f = Q::int(cx.g.nonzero(2));
        let kind = match (r.kind, f.is_neg()) { (Kind::L, true) => Kind::G, (Kind::G, true) => Kind::L, (Kind::R(w), _) => Kind::R(w * f.abs()), (k, _) => k };
        let b = match (r.kind, f.is_neg()) { (Kind::R(w), true) => (r.b - w) * f, _ => r.b * f };
        let slack = if cx.g.bool() { Q::ZERO } else { Q::int(cx.g.int(2)) };
        lp.rows.push(Row { kind, b: b + slack, a: r.a.iter().map(|&(j, v)| (j, v * f)).collect() });
    }
}
