//! C26: what is printed is what is there.
use std::fmt::Display;

use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::RemoveRows;
use relp::algorithm::two_phase::matrix_provider::column::Column;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::BasisInverse;
use relp::algorithm::two_phase::tableau::inverse_maintenance::ops as im_ops;
use relp::algorithm::two_phase::tableau::inverse_maintenance::InverseMaintainer;
use relp::algorithm::two_phase::tableau::kind::Kind;
use relp::algorithm::two_phase::tableau::Tableau;
use relp::data::linear_algebra::vector::{DenseVector, Vector};
use relp::data::linear_program::elements::RangedConstraintRelation;
use relp::data::linear_program::network::representation::ArcDirection;
use relp::data::linear_program::solution::Solution;

use crate::engine::{guard, Cx, Fail, Gen, Res};
use crate::props::hook;
use crate::props::phase_one::{Lu, Rows};
use crate::props::simplex::{gen_start, tableau, with_artificial, Costs, Model};
use crate::props::standard::gen_form;
use crate::props::systems::{self, show, sparse_of, Col, Part, Plain, System};
use crate::props::view::{rows_of, sparse, zero, Dense};
use crate::q::{Num, Q, RB};
use crate::{ensure, fail};

pub fn c26(cx: &mut Cx) -> Res {
    match cx.g.weighted(&[6, 2, 2, 2, 3]) {
        0 => of_tableau(cx),
        1 => of_matrix(cx),
        2 => of_filtered(cx),
        3 => of_inverse(cx),
        _ => of_values(cx),
    }
}

fn print(what: &str, d: &dyn Display) -> Result<String, Fail> { guard(what, || d.to_string()) }
fn words(line: &str) -> Vec<String> { line.split(|c: char| c.is_whitespace() || c == '|').filter(|w| !w.is_empty()).map(String::from).collect() }
/// Words of all lines without rulers; a ruler may share its line with what comes next.
fn without_rulers(text: &str) -> Vec<Vec<String>> {
    text.lines().map(|l| {
        let mut s = l;
        while let Some(c) = s.chars().next().filter(|&c| (c == '-' || c == '=') && s.len() >= 8 && s.starts_with(&c.to_string().repeat(8))) { s = s.trim_start_matches(c); }
        words(s)
    }).filter(|w| !w.is_empty()).collect()
}
fn texts(v: &[RB]) -> Vec<String> { v.iter().map(RB::to_string).collect() }
fn short(v: &Dense) -> bool { v.a.iter().flatten().chain(&v.b).chain(&v.c).all(|v| v.to_string().len() < 7) }

/// Words with the place of their middle.
fn placed(line: &str) -> Vec<(String, usize, usize)> {
    let mut out: Vec<(String, usize, usize)> = Vec::new();
    let mut fresh = true;
    for (at, c) in line.chars().enumerate() {
        if c.is_whitespace() { fresh = true; continue; }
        if fresh { out.push((String::new(), at, at)); fresh = false; }
        let last = out.last_mut().unwrap();
        last.0.push(c);
        last.2 = at;
    }
    out
}
/// Read a row of a table by the place of the numbers under those of the header.
fn under(header: &[(String, usize, usize)], line: &str, what: &str) -> Result<Vec<Option<String>>, Fail> {
    let mut out = vec![None; header.len()];
    for (text, from, to) in placed(line) {
        if text == "|" { continue; }
        let fits: Vec<usize> = (0..header.len()).filter(|&k| header[k].1 <= to && from <= header[k].2).collect();
        ensure!(fits.len() == 1, "place", "{}: {:?} is not below one column: {:?}", what, text, line);
        ensure!(out[fits[0]].is_none(), "place", "{}: two texts below column {}: {:?}", what, fits[0], line);
        out[fits[0]] = Some(text);
    }
    Ok(out)
}

// ---------------------------------------------------------------------------------------------

fn of_tableau(cx: &mut Cx) -> Res {
    cx.tag("tableau");
    let degenerate = cx.g.bool();
    let partial = hook::AVAILABLE && cx.g.chance(1, 3);
    if partial {
        let (d, _) = systems::gen_system(cx, 6, degenerate);
        let pivots = systems::gen_pivots(&mut cx.g, &d);
        let s = System::new(d, pivots);
        cx.note(s.render());
        let rows: Vec<usize> = (0..s.d.m()).filter(|&i| s.pivots.iter().all(|e| e.0 != i)).collect();
        let k = rows.len();
        let order = (0..s.d.m()).map(|i| match s.pivots.iter().find(|e| e.0 == i) {
            Some(&(_, j)) => k + j,
            None => rows.iter().position(|&r| r == i).unwrap(),
        }).collect();
        let m = Model::new(with_artificial(&s.d, &rows), order, k);
        let p = Part(&s);
        cx.nontrivial = s.d.m() >= 2 && s.d.n() >= 2;
        if cx.g.bool() {
            let t = guard("artificial tableau", || hook::partially::<Lu, _>(&p))?;
            judge_tableau(&t, &m, false)
        } else {
            let t = guard("artificial tableau", || hook::partially::<Rows, _>(&p))?;
            judge_tableau(&t, &m, true)
        }
    } else {
        let Some((d, order)) = gen_start(cx, 6, degenerate, 60) else { return Ok(()) };
        let s = System::new(d, vec![]);
        cx.note(s.render());
        cx.note(format!("basis {:?}", order));
        cx.nontrivial = s.d.m() >= 2 && s.d.n() >= 2;
        let p = Plain(&s);
        let m = Model::new(s.d.clone(), order.clone(), 0);
        if cx.g.bool() {
            let t = guard("state from a basis", || tableau::<Lu>(&p, &order))?;
            judge_tableau(&t, &m, false)
        } else {
            let t = guard("state from a basis", || tableau::<Rows>(&p, &order))?;
            judge_tableau(&t, &m, true)
        }
    }
}

fn judge_tableau<IM, K>(t: &Tableau<IM, K>, m: &Model, explicit: bool) -> Res
where
    IM: InverseMaintainer<F = RB>,
    K: Kind<Column: Column<F = RB>, Cost: Costs>,
    RB: im_ops::Cost<K::Cost>,
{
    let text = print("printing a tableau", t)?;
    let lines: Vec<&str> = text.lines().collect();
    let Some(cost_at) = lines.iter().position(|l| l.trim_start().starts_with("cost ")) else { fail!("cost-row", "there is no cost row:\n{}", text) };
    let Some(header_at) = (0..cost_at).rev().find(|&k| placed(lines[k]).iter().any(|w| w.0 == "b")) else { fail!("header", "there is no header:\n{}", text) };
    let mut header: Vec<_> = placed(lines[header_at]).into_iter().filter(|w| w.0 != "|").collect();
    ensure!(header.len() == m.d.n() + 1 && header[0].0 == "b" && header[1..].iter().enumerate().all(|(j, w)| w.0 == j.to_string()), "header", "the header should be b and {} columns: {:?}", m.d.n(), lines[header_at]);
    let width = lines[cost_at].find('|').map_or(4, |k| k - 1);
    header.insert(0, (String::new(), 0, width - 1));
    // the cost row
    let read = under(&header, lines[cost_at], "cost row")?;
    let costs: Vec<RB> = (0..m.d.n()).map(|j| m.relative_cost(j)).collect();
    let want: Vec<Option<String>> = [Some("cost".to_string()), Some(minus(m.objective()).to_string())].into_iter().chain(costs.iter().map(|c| Some(c.to_string()))).collect();
    ensure!(read == want, "cost-row", "the cost row shows {:?}, it is {:?}:\n{}", read, want, text);
    // the other rows
    let columns: Vec<Vec<RB>> = (0..m.d.n()).map(|j| m.generated(j)).collect();
    let mut at = cost_at + 1;
    for i in 0..m.d.m() {
        while at < lines.len() && words(lines[at]).iter().all(|w| w.len() > 2 && w.chars().all(|c| c == '-')) { at += 1; }
        ensure!(at < lines.len(), "rows", "row {} is missing:\n{}", i, text);
        let read = under(&header, lines[at], "row")?;
        let want: Vec<Option<String>> = [Some(i.to_string()), Some(m.exact.x[i].to_string())].into_iter()
            .chain(columns.iter().map(|c| if c[i].is0() { None } else { Some(c[i].to_string()) })).collect();
        ensure!(read == want, "row", "row {} shows {:?}, it is {:?}:\n{}", i, read, want, text);
        at += 1;
    }
    // the basis
    let Some(basis) = lines.iter().position(|l| l.contains("Basis Columns")).and_then(|k| lines.get(k + 1)) else { fail!("basis", "there is no basis:\n{}", text) };
    let numbers: Vec<usize> = basis.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect();
    let want: Vec<usize> = m.order.iter().enumerate().flat_map(|(i, &j)| [i, j]).collect();
    ensure!(numbers == want, "basis", "the basis shows as {}, it is {:?}", basis, m.order);
    if explicit {
        let Some(from) = lines.iter().position(|l| l.contains("B^-1")) else { fail!("inverse", "there is no inverse:\n{}", text) };
        judge_inverse(&lines[from + 1..].join("\n"), &m.exact.inverse)?;
    }
    Ok(())
}
fn minus(v: RB) -> RB { zero().sub(&v) }

/// A table with a header of column numbers, a ruler, and numbered rows.
fn judge_inverse(text: &str, exact: &[Vec<RB>]) -> Res {
    let have: Vec<Vec<String>> = text.lines().map(words).filter(|w| !w.is_empty() && !w[0].starts_with("--")).collect();
    let mut want: Vec<Vec<String>> = vec![(0..exact.len()).map(|j| j.to_string()).collect()];
    for (i, row) in exact.iter().enumerate() { want.push([i.to_string()].into_iter().chain(texts(row)).collect()); }
    want.retain(|w| !w.is_empty());
    ensure!(have == want, "inverse", "the inverse shows as\n{}\nit should be {:?}", text, want);
    Ok(())
}

fn of_inverse(cx: &mut Cx) -> Res {
    cx.tag("inverse");
    let Some((d, order)) = gen_start(cx, 6, false, 60) else { return Ok(()) };
    let m = Model::new(d, order, 0);
    let columns: Vec<Col> = m.order.iter().map(|&j| Col(sparse_of(&systems::column(&m.d, j)))).collect();
    cx.note(columns.iter().map(|c| format!("{:?}", c.0)).collect::<Vec<_>>().join("\n"));
    cx.nontrivial = columns.len() >= 2;
    let (mut rows, mut lu) = guard("invert", || (<BasisInverseRows<RB> as BasisInverse>::invert(columns.iter().cloned()), <LUDecomposition<RB> as BasisInverse>::invert(columns.iter().cloned())))?;
    let mut m = m;
    for k in 0..3 {
        judge_inverse(&print("printing the rows", &rows)?, &m.exact.inverse)?;
        judge_lu(&print("printing a decomposition", &lu)?, &m, k == 0)?;
        // and after another column came in
        let candidates: Vec<(usize, usize)> = m.candidates().into_iter().flat_map(|j| { let c = m.generated(j); (0..m.d.m()).filter(move |&i| !c[i].is0()).map(move |i| (i, j)).collect::<Vec<_>>() }).collect();
        if candidates.is_empty() { break; }
        let (i, j) = *cx.g.pick(&candidates);
        cx.note(format!("column {} comes in for row {}", j, i));
        let sparse = sparse_of(&systems::column(&m.d, j));
        let c = Col(sparse);
        guard("replace a column", || {
            let info = rows.left_multiply_by_basis_inverse(c.iter());
            rows.change_basis(i, info);
            let info = lu.left_multiply_by_basis_inverse(c.iter());
            lu.change_basis(i, info);
        })?;
        m.pivot(i, j)?;
    }
    Ok(())
}

/// The triangles have the right shape, and the diagonal the right product.
fn judge_lu(text: &str, m: &Model, fresh: bool) -> Res {
    let n = m.d.m();
    let mut tables: Vec<Vec<Vec<RB>>> = Vec::new();
    let lines: Vec<&str> = text.lines().collect();
    for (name, lower) in [("Lower:", true), ("Upper:", false)] {
        let Some(from) = lines.iter().position(|l| l.trim() == name) else { fail!("triangle", "there is no {:?}:\n{}", name, text) };
        let header = words(lines.get(from + 1).unwrap_or(&""));
        ensure!(header == (0..n).map(|j| j.to_string()).collect::<Vec<_>>(), "triangle", "the header of {} is {:?}", name, header);
        let mut product = RB::from(Q::ONE.big());
        let mut table = vec![vec![zero(); n]; n];
        for i in 0..n {
            let row = lines.get(from + 3 + i).map_or(vec![], |l| words(l));
            let cells = if lower { i + 1 } else { n - i };
            if row.iter().any(|w| w.len() >= 10) { return Ok(()); } // these run into each other
            ensure!(row.len() == 1 + cells && row[0] == i.to_string(), "triangle", "row {} of {} shows {:?}:\n{}", i, name, row, text);
            let diagonal = if lower { &row[cells] } else { &row[1] };
            let Some(v) = number(diagonal) else { fail!("number", "{:?} is no number", diagonal) };
            if lower { ensure!(diagonal == "1", "diagonal", "diagonal element {} of the lower triangle is {}", i, diagonal); }
            product = product.mul(&v);
            for (k, text) in row[1..].iter().enumerate() {
                let Some(v) = number(text) else { fail!("number", "{:?} is no number", text) };
                table[i][if lower { k } else { i + k }] = v;
            }
        }
        tables.push(table);
        if !lower {
            let basis: Vec<Vec<RB>> = m.order.iter().map(|&j| systems::column(&m.d, j)).collect();
            let det = determinant(basis);
            ensure!(product == det || product == minus(det.clone()), "determinant", "the product of the diagonal is {}, the determinant {}:\n{}", product, det, text);
        }
    }
    if fresh {
        // The product is the basis, with its rows and columns in another order
        let product: Vec<Vec<RB>> = (0..n).map(|i| (0..n).map(|j| (0..n).fold(zero(), |s, k| s.add(&tables[0][i][k].mul(&tables[1][k][j])))).collect()).collect();
        let basis: Vec<Vec<RB>> = (0..n).map(|i| m.order.iter().map(|&j| systems::column(&m.d, j)[i].clone()).collect()).collect();
        ensure!(permuted(&product, &basis, &mut vec![], &mut 300), "product", "the product of the triangles is {:?}, which isn't the basis {:?} in another order:\n{}", product, basis, text);
    }
    Ok(())
}
/// Whether the rows and columns of the second matrix can be put in an order that makes it the first.
///
/// Says so as well when it is too hard to find out.
fn permuted(a: &[Vec<RB>], b: &[Vec<RB>], rows: &mut Vec<usize>, budget: &mut usize) -> bool {
    let n = a.len();
    let sorted = |row: &[RB]| { let mut r = row.to_vec(); r.sort(); r };
    let columns = |m: Vec<&Vec<RB>>| { let mut c: Vec<Vec<RB>> = (0..n).map(|j| m.iter().map(|r| r[j].clone()).collect()).collect(); c.sort(); c };
    if *budget == 0 { return true; }
    *budget -= 1;
    if columns(a.iter().take(rows.len()).collect()) != columns(rows.iter().map(|&i| &b[i]).collect()) { return false; }
    if rows.len() == n { return true; }
    let target = sorted(&a[rows.len()]);
    (0..n).any(|i| {
        if rows.contains(&i) || sorted(&b[i]) != target { return false; }
        rows.push(i);
        let found = permuted(a, b, rows, budget);
        rows.pop();
        found
    })
}
fn number(text: &str) -> Option<RB> {
    let (n, d) = text.split_once('/').unwrap_or((text, "1"));
    let (n, d): (i128, i128) = (n.parse().ok()?, d.parse().ok()?);
    if d == 0 { None } else { Some(Q::new(n, d).big()) }
}
fn determinant(mut a: Vec<Vec<RB>>) -> RB {
    let n = a.len();
    let mut det = Q::ONE.big();
    for k in 0..n {
        let Some(p) = (k..n).find(|&i| !a[i][k].is0()) else { return zero() };
        if p != k { a.swap(p, k); det = minus(det); }
        det = det.mul(&a[k][k]);
        for i in k + 1..n {
            if a[i][k].is0() { continue; }
            let f = a[i][k].div(&a[k][k]);
            for j in k..n { let v = a[i][j].sub(&f.mul(&a[k][j])); a[i][j] = v; }
        }
    }
    det
}

// ---------------------------------------------------------------------------------------------

fn judge_view(have: &[Vec<String>], d: &Dense, costs: bool, text: &str) -> Res {
    let mut want: Vec<Vec<String>> = vec![(0..d.n()).map(|j| j.to_string()).collect()];
    if costs { want.push(["cost".to_string()].into_iter().chain(texts(&d.c)).collect()); }
    for (i, row) in d.a.iter().enumerate() { want.push([i.to_string()].into_iter().chain(texts(row)).collect()); }
    want.retain(|w| !w.is_empty());
    ensure!(have == want, "view", "printed is\n{}\nthat should be {:?}", text, want);
    Ok(())
}

fn of_matrix(cx: &mut Cx) -> Res {
    cx.tag("matrix data");
    let feasible = cx.g.bool();
    let form = gen_form(cx, 5, feasible, false);
    let d = form.layout();
    cx.note(form.render());
    cx.nontrivial = d.m() >= 2 && d.n() >= 2;
    let text = guard("printing matrix data", || form.with(|data| data.to_string()))?;
    if !short(&d) { return Ok(()); } // these run into each other
    judge_view(&without_rulers(&text), &d, true, &text)
}

fn of_filtered(cx: &mut Cx) -> Res {
    cx.tag("filtered");
    if cx.g.bool() {
        let feasible = cx.g.bool();
        let form = gen_form(cx, 5, feasible, true);
        let d = form.layout();
        // only equality rows can depend on others
        let skip: Vec<usize> = (0..form.counts[0]).filter(|_| cx.g.chance(1, 3)).collect();
        cx.note(form.render());
        cx.note(format!("skip {:?}", skip));
        cx.nontrivial = d.m() >= skip.len() + 2 && d.n() >= 2;
        let text = guard("printing a filtered view", || form.with(|data| RemoveRows::new(data, skip.clone()).to_string()))?;
        let kept = |i: &usize| !skip.contains(i);
        let rest = Dense { a: (0..d.m()).filter(kept).map(|i| d.a[i].clone()).collect(), b: (0..d.m()).filter(kept).map(|i| d.b[i].clone()).collect(), c: d.c.clone() };
        if !short(&rest) { return Ok(()); }
        return judge_view(&without_rulers(&text), &rest, false, &text);
    }
    let (d, _) = systems::gen_system(cx, 6, false);
    let skip: Vec<usize> = (0..d.m()).filter(|_| cx.g.chance(1, 3)).collect();
    let s = System::new(d, vec![]);
    cx.note(s.render());
    cx.note(format!("skip {:?}", skip));
    cx.nontrivial = s.d.m() >= skip.len() + 2 && s.d.n() >= 2;
    let p = Plain(&s);
    let f = RemoveRows::new(&p, skip);
    let text = print("printing a filtered view", &f)?;
    let (a, b) = rows_of(&f)?;
    let d = Dense { a, b, c: s.d.c.clone() };
    if !short(&d) { return Ok(()); }
    judge_view(&without_rulers(&text), &d, false, &text)
}

fn value(g: &mut Gen) -> RB {
    match g.idx(3) { 0 => zero(), 1 => Q::int(g.int(2000)).big(), _ => Q::new(g.int(99_999) as i128, 1 + g.below(99_999) as i128).big() }
}

fn of_values(cx: &mut Cx) -> Res {
    cx.tag("values");
    let g = &mut cx.g;
    let most = if g.chance(1, 10) { 40 } else { 6 };
    let n = g.upto(most);
    let v: Vec<RB> = (0..n).map(|_| value(g)).collect();
    let objective = value(g);
    let size = value(g);
    cx.note(format!("{} {} {}", show(&v), objective, size));
    cx.nontrivial = n >= 2;
    let text = print("printing a vector", &DenseVector::new(v.clone(), n))?;
    ensure!(words(&text) == texts(&v), "dense", "{} is printed as {:?}", show(&v), text);
    let text = print("printing a vector", &sparse(&v))?;
    let numbers: Vec<String> = text.split(|c: char| "[](), ".contains(c)).filter(|w| !w.is_empty()).map(String::from).collect();
    let want: Vec<String> = sparse_of(&v).into_iter().flat_map(|(i, v)| [i.to_string(), v.to_string()]).collect();
    ensure!(numbers == want, "sparse", "{} is printed as {:?}", show(&v), text);
    let solution = Solution::new(objective.clone(), v.iter().enumerate().map(|(j, v)| (format!("x{}", j), v.clone())).collect());
    let text = print("printing a solution", &solution)?;
    ensure!(text.split_whitespace().any(|w| w == objective.to_string()), "solution", "the value {} is not in {:?}", objective, text);
    for (r, want) in [(RangedConstraintRelation::Less, "<=".to_string()), (RangedConstraintRelation::Equal, "==".to_string()), (RangedConstraintRelation::Greater, ">=".to_string()), (RangedConstraintRelation::Range(size.clone()), format!("={}=", size))] {
        let text = print("printing a relation", &r)?;
        ensure!(text == want, "relation", "{:?} is printed as {:?}", r, text);
    }
    for (d, want) in [(ArcDirection::Incoming, "1"), (ArcDirection::Outgoing, "-1")] {
        let text = print("printing a direction", &d)?;
        ensure!(text == want, "direction", "{:?} is printed as {:?}", d, text);
    }
    Ok(())
}
