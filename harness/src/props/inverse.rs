//! C11: representations of the basis inverse through histories of column replacements.
use relp::algorithm::two_phase::matrix_provider::column::identity::IdentityColumn;
use relp::algorithm::two_phase::matrix_provider::column::{Column, SparseSliceIterator};
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::BasisInverse;
use relp::algorithm::two_phase::tableau::inverse_maintenance::ColumnComputationInfo;
use relp::data::linear_algebra::vector::{SparseVector, Vector};

use crate::engine::{guard, Cx, Fail, Gen, Res};
use crate::props::systems::{add_product, inverse, show, sparse_of, Col};
use crate::props::view::{one, zero};
use crate::q::{Num, Q, RB};
use crate::ensure;

fn entry(g: &mut Gen, style: usize) -> RB {
    match style {
        0 => Q::int(g.nonzero(1)).big(),
        1 => Q::int(g.nonzero(5)).big(),
        3 => crate::lp::coef(g, crate::lp::Palette::Wide).big(),
        _ => Q::new(g.nonzero(6) as i128, g.range(1, 4) as i128).big(),
    }
}
fn vector(g: &mut Gen, m: usize, style: usize, fill: u64) -> Vec<RB> {
    if g.chance(1, 6) { let k = g.idx(m); return (0..m).map(|i| if i == k { one() } else { zero() }).collect(); }
    (0..m).map(|_| if g.chance(fill, 10) { entry(g, style) } else { zero() }).collect()
}
fn same(have: &SparseVector<RB, RB>, want: &[RB], sig: &str, what: &str) -> Res {
    ensure!(Vector::len(have) == want.len(), sig, "{}: length {}, should be {}", what, Vector::len(have), want.len());
    let tuples: Vec<(usize, RB)> = have.iter().map(|(i, v)| (i, v.clone())).collect();
    let sparse = sparse_of(want);
    ensure!(tuples == sparse, sig, "{} is {:?}, should be {:?}", what, tuples, sparse);
    Ok(())
}

struct Both { lu: LUDecomposition<RB>, rows: BasisInverseRows<RB> }

pub fn c11(cx: &mut Cx) -> Res {
    let style = cx.g.weighted(&[8, 8, 8, 1]);
    let m = match cx.g.weighted(&[1200, 300, 100, 1]) { 0 => cx.g.range(1, 5), 1 => cx.g.range(1, 9), 2 => cx.g.range(8, 16), _ => cx.g.range(30, 80) };
    let fill = if m > 6 { cx.g.range(1, 3) as u64 } else { cx.g.range(1, 8) as u64 };
    let style = if m > 9 { 0 } else { style };
    // columns of the matrix
    let mut columns: Vec<Vec<RB>> = (0..m).map(|k| (0..m).map(|i| if i == k { one() } else { zero() }).collect()).collect();
    let identity = cx.g.chance(1, 3);
    if m > 16 && !identity {
        // triangular up to the order of the rows and columns
        let p = cx.g.permutation(m);
        let at = cx.g.permutation(m);
        for k in 0..m {
            let mut c = vec![zero(); m];
            c[p[k]] = Q::int(cx.g.nonzero(2)).big();
            for _ in 0..cx.g.upto(2) { c[p[cx.g.range(k, m - 1)]] = one(); }
            columns[at[k]] = c;
        }
    } else if !identity {
        let p = cx.g.permutation(m);
        for k in 0..m {
            let v = vector(&mut cx.g, m, style, fill);
            let old = columns[p[k]].clone();
            columns[p[k]] = v;
            if inverse(&transpose(&columns)).is_none() { columns[p[k]] = old; }
        }
        let p = cx.g.permutation(m);
        columns = p.into_iter().map(|k| columns[k].clone()).collect();
    }
    cx.note(format!("start {}", columns.iter().map(|c| show(c)).collect::<Vec<_>>().join(" | ")));
    let mut exact = inverse(&transpose(&columns)).expect("invertible");
    let mut both = guard("invert", || {
        if identity { Both { lu: BasisInverse::identity(m), rows: BasisInverse::identity(m) } }
        else { build(&columns) }
    })?;
    judge(cx, &both.lu, &exact, style, fill, "LU")?;
    judge(cx, &both.rows, &exact, style, fill, "rows")?;
    let long = m <= 5 && cx.g.chance(1, 12);
    let limit = if m > 16 { cx.g.upto(6) } else if long { cx.g.range(32, 80) } else { cx.g.upto(if m > 9 { 20 } else { 10 }) };
    let refactor = cx.g.chance(1, 3);
    let mut steps = 0;
    let mut small = 0;
    for step in 0..limit {
        let mut column = vector(&mut cx.g, m, style, fill);
        // keep numbers small now and then
        if long && cx.g.chance(1, 3) { let k = cx.g.idx(m); column = (0..m).map(|i| if i == k { one() } else { zero() }).collect(); }
        let generated = crate::props::systems::mul(&exact, &column);
        let candidates: Vec<usize> = (0..m).filter(|&i| !generated[i].is0()).collect();
        if candidates.is_empty() { continue; }
        let p = *cx.g.pick(&candidates);
        cx.note(format!("column {} becomes {}", p, show(&column)));
        let sparse = sparse_of(&column);
        let (a, b) = guard("replace a column", || {
            let info = both.lu.left_multiply_by_basis_inverse(SparseSliceIterator::new(&sparse));
            let a = both.lu.change_basis(p, info);
            let info = both.rows.left_multiply_by_basis_inverse(SparseSliceIterator::new(&sparse));
            let b = both.rows.change_basis(p, info);
            (a, b)
        })?;
        same(&a, &generated, "returned-column", "LU: column with respect to the matrix before the change")?;
        same(&b, &generated, "returned-column", "rows: column with respect to the matrix before the change")?;
        columns[p] = column;
        steps += 1;
        exact = inverse(&transpose(&columns)).expect("invertible");
        if refactor && cx.g.chance(1, 8) {
            cx.note("refactor");
            both = guard("refactor", || build(&columns))?;
        }
        if exact.iter().flatten().any(|v| v.to_string().len() > 40) { small += 1; if small > 3 { break; } }
        if !long || step % 5 == 0 || step + 1 == limit {
            judge(cx, &both.lu, &exact, style, fill, "LU")?;
            judge(cx, &both.rows, &exact, style, fill, "rows")?;
        }
    }
    if long { judge(cx, &both.lu, &exact, style, fill, "LU")?; judge(cx, &both.rows, &exact, style, fill, "rows")?; }
    cx.nontrivial = m >= 2 && steps >= 2;
    if steps > 31 { cx.tag("more than 31 replacements"); }
    if m > 9 { cx.tag("ten or more rows"); }
    if identity { cx.tag("from the identity"); }
    Ok(())
}

fn build(columns: &[Vec<RB>]) -> Both {
    let c: Vec<Col> = columns.iter().map(|c| Col(sparse_of(c))).collect();
    Both { lu: BasisInverse::invert(c.iter().cloned()), rows: BasisInverse::invert(c.iter().cloned()) }
}
fn transpose(columns: &[Vec<RB>]) -> Vec<Vec<RB>> {
    (0..columns.len()).map(|i| columns.iter().map(|c| c[i].clone()).collect()).collect()
}

fn judge<B: BasisInverse<F = RB>>(cx: &mut Cx, bi: &B, exact: &[Vec<RB>], style: usize, fill: u64, what: &str) -> Result<(), Fail> {
    let m = exact.len();
    ensure!(bi.m() == m, "size", "{}: m is {}, should be {}", what, bi.m(), m);
    let column = vector(&mut cx.g, m, style, fill);
    let row = vector(&mut cx.g, m, style, fill);
    let unit = cx.g.idx(m);
    guard(what, || -> Res {
        let sparse = sparse_of(&column);
        let left = bi.left_multiply_by_basis_inverse(SparseSliceIterator::new(&sparse));
        let want = crate::props::systems::mul(exact, &column);
        same(left.column(), &want, "left", &format!("{}: inverse times column {}", what, show(&column)))?;
        same(&left.into_column(), &want, "left", &format!("{}: inverse times column {}", what, show(&column)))?;
        for i in 0..m {
            let e = bi.generate_element(i, SparseSliceIterator::new(&sparse));
            ensure!(e.as_ref().map_or(want[i].is0(), |v| *v == want[i] && !v.is0()), "element", "{}: element {} of inverse times column {} is {:?}, should be {}", what, i, show(&column), e, want[i]);
        }
        // a unit column in the other type that is used
        let left = bi.left_multiply_by_basis_inverse(IdentityColumn::new(unit).iter());
        let want: Vec<RB> = (0..m).map(|i| exact[i][unit].clone()).collect();
        same(&left.into_column(), &want, "left-unit", &format!("{}: column {} of the inverse", what, unit))?;
        let sparse = sparse_of(&row);
        let right = bi.right_multiply_by_basis_inverse(SparseSliceIterator::new(&sparse));
        let want: Vec<RB> = (0..m).map(|k| (0..m).fold(zero(), |s, i| add_product(s, &row[i], &exact[i][k]))).collect();
        same(&right, &want, "right", &format!("{}: row {} times the inverse", what, show(&row)))?;
        for i in 0..m { same(&bi.basis_inverse_row(i), &exact[i], "row", &format!("{}: row {} of the inverse", what, i))?; }
        let _ = format!("{}", bi);
        Ok(())
    })?
}
