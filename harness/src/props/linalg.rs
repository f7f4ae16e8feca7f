//! C18, C19: vectors and matrices against dense models.
use std::collections::HashSet;

use relp::algorithm::two_phase::matrix_provider::column::identity::IdentityColumn;
use relp::algorithm::two_phase::matrix_provider::column::{Column, DenseSliceIterator, SparseColumn, SparseOptionIterator, SparseSliceIterator};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, RowMajor, SparseMatrix};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp_num::Rational64;

use crate::engine::{guard, Cx, Gen, Res};
use crate::lp::{self, Palette};
use crate::q::{FromQ, Q, RB};
use crate::{ensure, fail};

impl FromQ for i64 { fn from_q(q: Q) -> i64 { assert!(q.d == 1); q.n as i64 } }

fn gen_value(g: &mut Gen, ints: bool) -> Q {
    if ints { Q::int(g.int(4)) } else {
        match g.below(4) { 0 => Q::ZERO, 1 => Q::int(g.int(4)), _ => lp::value(g, Palette::Fractions) }
    }
}
fn gen_nonzero(g: &mut Gen, ints: bool) -> Q {
    if ints { Q::int(g.nonzero(4)) } else { lp::coef(g, Palette::Fractions) }
}
fn gen_dense(g: &mut Gen, n: usize, ints: bool) -> Vec<Q> {
    let p = g.range(0, 10) as u64;
    (0..n).map(|_| if g.chance(p, 10) { gen_value(g, ints) } else { Q::ZERO }).collect()
}
/// Sorted, distinct.
fn gen_indices(g: &mut Gen, n: usize) -> Vec<usize> {
    match g.weighted(&[4, 1, 1]) {
        0 => { let p = g.range(0, 4) as u64; (0..n).filter(|_| g.chance(p, 4)).collect() }
        1 => { let k = g.upto(n); (0..k).collect() }
        _ => { let k = g.upto(n); (n - k..n).collect() }
    }
}
fn small(v: &[Q]) -> bool { v.iter().all(|q| q.n.abs() < 1 << 20 && q.d < 1 << 20) }
fn keep<T: Clone>(v: &[T], out: &[usize]) -> Vec<T> {
    v.iter().enumerate().filter(|(i, _)| !out.contains(i)).map(|e| e.1.clone()).collect()
}
fn dot(a: &[Q], b: &[Q]) -> Q { a.iter().zip(b).fold(Q::ZERO, |s, (a, b)| s + *a * *b) }

pub fn c18(cx: &mut Cx) -> Res {
    match cx.g.below(3) {
        0 => { cx.tag("big"); guard("vectors", || big::vectors(cx))? }
        1 => { cx.tag("64 bits"); guard("vectors", || short::vectors(cx))? }
        _ => { cx.tag("integers"); guard("vectors", || ints::vectors(cx))? }
    }
}
pub fn c19(cx: &mut Cx) -> Res {
    if cx.g.bool() { cx.tag("big"); guard("matrices", || big::matrices(cx))? } else { cx.tag("64 bits"); guard("matrices", || short::matrices(cx))? }
}

macro_rules! vectors {
    ($t:ty, $ints:expr) => {
        type T = $t;
        const INTS: bool = $ints;
        fn t(q: &Q) -> T { <T as FromQ>::from_q(*q) }
        fn tuples(m: &[Q]) -> Vec<(usize, T)> { m.iter().enumerate().filter(|e| !e.1.is_zero()).map(|(i, q)| (i, t(q))).collect() }
        fn sparse(m: &[Q]) -> SparseVector<T, T> { SparseVector::new(tuples(m), m.len()) }
        fn dense(m: &[Q]) -> DenseVector<T> { DenseVector::new(m.iter().map(t).collect(), m.len()) }

        pub fn vectors(cx: &mut Cx) -> Res {
            let n = if cx.g.chance(1, 30) { if cx.g.chance(1, 40) { cx.g.range(200, 700) } else { cx.g.range(8, 150) } } else { cx.g.upto(7) };
            let mut m = gen_dense(&mut cx.g, n, INTS);
            cx.note(format!("start {:?}", m));
            let (mut s, mut d) = build(cx, &m)?;
            judge(cx, &s, &d, &m, "start")?;
            let steps = cx.g.upto(if cx.thorough { 40 } else { 16 });
            let mut done = 0;
            for _ in 0..steps {
                let before = m.clone();
                let n = m.len();
                let what = match cx.g.weighted(&[3, 2, 2, 4, 4, 2, 2, 3, 1, 1, 1, 1]) {
                    0 if n > 0 => {
                        let (i, v) = (cx.g.idx(n), gen_nonzero(&mut cx.g, INTS));
                        m[i] = v;
                        s.set(i, t(&v));
                        d.set(i, t(&v));
                        format!("set {} to {}", i, v)
                    }
                    1 => {
                        let v = gen_nonzero(&mut cx.g, INTS);
                        m.push(v);
                        s.push_value(t(&v));
                        d.push_value(t(&v));
                        format!("push {}", v)
                    }
                    2 => {
                        let k = cx.g.upto(3);
                        m.extend(vec![Q::ZERO; k]);
                        s.extend(k);
                        d.extend_with_values(vec![t(&Q::ZERO); k]);
                        format!("extend by {}", k)
                    }
                    3 if n > 0 => {
                        let i = cx.g.idx(n);
                        let v = if cx.g.chance(2, 5) { -m[i] } else { gen_value(&mut cx.g, INTS) };
                        m[i] = m[i] + v;
                        if !small(&m) { m = before; break; }
                        s.shift_value(i, t(&v));
                        d[i] += t(&v);
                        format!("shift {} by {}", i, v)
                    }
                    4 => {
                        let f = gen_nonzero(&mut cx.g, INTS);
                        let mut o = gen_dense(&mut cx.g, n, INTS);
                        // so that some cancel
                        for i in 0..n { if cx.g.chance(1, 3) { let q = -m[i] / f; if !INTS || q.is_int() { o[i] = q; } } }
                        for i in 0..n { m[i] = m[i] + o[i] * f; }
                        if !small(&m) || !small(&o) { m = before; break; }
                        s.add_multiple_of_row(&t(&f), &sparse(&o));
                        for i in 0..n { let x = t(&o[i]); d[i] += x * t(&f); }
                        format!("add {} times {:?}", f, o)
                    }
                    5 => {
                        let f = gen_nonzero(&mut cx.g, INTS);
                        for q in &mut m { *q = *q * f; }
                        if !small(&m) { m = before; break; }
                        s.element_wise_multiply(&t(&f));
                        for v in Vector::iter_mut(&mut d) { *v *= &t(&f); }
                        format!("multiply by {}", f)
                    }
                    6 => {
                        let f = gen_nonzero(&mut cx.g, INTS);
                        let r: Vec<Q> = m.iter().map(|q| *q / f).collect();
                        if INTS && r.iter().any(|q| !q.is_int()) || !small(&r) { continue; }
                        m = r;
                        s.element_wise_divide(&t(&f));
                        for v in d.inner_mut() { *v /= &t(&f); }
                        format!("divide by {}", f)
                    }
                    7 => {
                        let out = gen_indices(&mut cx.g, n);
                        m = keep(&m, &out);
                        s.remove_indices(&out);
                        d.remove_indices(&out);
                        format!("remove {:?}", out)
                    }
                    8 => {
                        let f = gen_nonzero(&mut cx.g, INTS);
                        for q in &mut m { *q = *q * f; }
                        if !small(&m) { m = before; break; }
                        for (_, v) in s.iter_mut() { *v *= &t(&f); }
                        for v in d.inner_mut() { *v *= &t(&f); }
                        format!("multiply by {} one by one", f)
                    }
                    9 if n > 0 => {
                        let i = cx.g.idx(n);
                        m = (0..n).map(|k| if k == i { Q::ONE } else { Q::ZERO }).collect();
                        s = SparseVector::standard_basis_vector(i, n);
                        d = dense(&m);
                        format!("unit vector {}", i)
                    }
                    10 => {
                        let (v, k) = (gen_value(&mut cx.g, INTS), cx.g.upto(6));
                        m = vec![v; k];
                        d = DenseVector::constant(t(&v), k);
                        s = d.clone().into_iter().collect();
                        format!("{} times {}", k, v)
                    }
                    11 => {
                        let k = cx.g.upto(3);
                        let more = gen_dense(&mut cx.g, k, INTS);
                        for q in &more { if q.is_zero() { s.extend(1); } else { s.push_value(t(q)); } }
                        d.extend_with_values(more.iter().map(t).collect());
                        m.extend(more);
                        format!("extend by {:?}", &m[n..])
                    }
                    _ => continue,
                };
                cx.note(&what);
                done += 1;
                judge(cx, &s, &d, &m, &what)?;
            }
            cx.nontrivial = done >= 3;
            Ok(())
        }

        /// One of the ways to create them.
        fn build(cx: &mut Cx, m: &[Q]) -> Result<(SparseVector<T, T>, DenseVector<T>), crate::engine::Fail> {
            Ok(match cx.g.below(3) {
                0 => (sparse(m), dense(m)),
                1 => (m.iter().map(t).collect(), m.iter().map(t).collect()),
                _ => {
                    let mut s = SparseVector::new(vec![], m.len());
                    let mut d = DenseVector::constant(t(&Q::ZERO), m.len());
                    for i in cx.g.permutation(m.len()) {
                        if !m[i].is_zero() { s.set(i, t(&m[i])); }
                        d.set(i, t(&m[i]));
                    }
                    (s, d)
                }
            })
        }

        fn judge(cx: &mut Cx, s: &SparseVector<T, T>, d: &DenseVector<T>, m: &[Q], what: &str) -> Res {
            let n = m.len();
            let expected = tuples(m);
            ensure!(Vector::len(s) == n && Vector::len(d) == n, "length", "after {}: lengths {} and {}, should be {}", what, Vector::len(s), Vector::len(d), n);
            ensure!(Vector::is_empty(s) == (n == 0) && Vector::is_empty(d) == (n == 0), "empty", "after {}: emptiness", what);
            ensure!(s[..] == expected[..], "entries", "after {}: entries {:?}, should be {:?}", what, &s[..], expected);
            ensure!(s.size() == expected.len(), "size", "after {}: size {}, should be {}", what, s.size(), expected.len());
            ensure!(*s == sparse(m), "equal", "after {}: {:?} is not equal to the same vector created directly", what, s);
            ensure!(*d == dense(m) && d.inner() == &m.iter().map(t).collect::<Vec<_>>()[..] && d.size() == n, "dense", "after {}: dense {:?}, should be {:?}", what, d.inner(), m);
            for i in 0..n {
                let v = t(&m[i]);
                let get = s.get(i);
                ensure!(if m[i].is_zero() { get.is_none() } else { get == Some(&v) }, "get", "after {}: get {} gives {:?}", what, i, get);
                ensure!(d.get(i) == Some(&v) && d[i] == v, "dense-get", "after {}: dense get {} gives {:?}", what, i, d.get(i));
                ensure!(s.index_to_string(i) == m[i].to_string(), "index-to-string", "after {}: index {} reads {:?}, should be {}", what, i, s.index_to_string(i), m[i]);
            }
            let col = |it: Vec<(usize, &T)>| it.into_iter().map(|(i, v)| (i, v.clone())).collect::<Vec<_>>();
            ensure!(col(Column::iter(s).collect()) == expected, "iterate", "after {}: column iteration", what);
            ensure!(Vector::iter(s).cloned().collect::<Vec<_>>() == expected && s.clone().into_iter().collect::<Vec<_>>() == expected, "iterate", "after {}: iteration", what);
            ensure!(Vector::iter(d).cloned().collect::<Vec<_>>() == d.clone().into_iter().collect::<Vec<_>>(), "iterate", "after {}: dense iteration", what);
            ensure!(col(DenseSliceIterator::new(d.inner()).collect()) == expected, "iterate", "after {}: iterating over the nonzeros of the dense vector", what);
            let c = SparseColumn::new(expected.clone());
            ensure!(col(c.iter().collect()) == expected && (0..n).all(|i| c.index_to_string(i) == m[i].to_string()) && c.into_iter().collect::<Vec<_>>() == expected, "column", "sparse column of {:?}", expected);
            if let Some(first) = expected.first() {
                let o = Some(first.clone());
                ensure!(col(SparseOptionIterator::new(&o).collect()) == vec![first.clone()], "iterate", "option iterator");
            }
            if n > 0 {
                let i = cx.g.idx(n);
                let u = IdentityColumn::new(i);
                let one = t(&Q::ONE);
                let unit: Vec<(usize, T)> = u.iter().map(|(i, _)| (i, one.clone())).collect();
                ensure!(unit == vec![(i, one)] && (0..n).all(|k| u.index_to_string(k) == if k == i { "1" } else { "0" }) && u.into_iter().count() == 1, "identity-column", "identity column {}", i);
            }
            // inner products
            let o = gen_dense(&mut cx.g, n, INTS);
            let (so, dn) = (tuples(&o), dense(&o));
            let p = t(&dot(m, &o));
            let got: T = s.sparse_inner_product(SparseSliceIterator::new(&so));
            ensure!(got == p, "inner", "after {}: inner product with {:?} is {}, should be {}", what, o, got, p);
            let got: T = d.sparse_inner_product(SparseSliceIterator::new(&so));
            ensure!(got == p, "inner", "after {}: inner product of the dense vector with {:?} is {}, should be {}", what, o, got, p);
            let got: T = s.sparse_inner_product(DenseSliceIterator::new(dn.inner()));
            ensure!(got == p, "inner", "after {}: inner product with dense {:?} is {}, should be {}", what, o, got, p);
            let got: T = s.inner_product_with_dense::<T, T>(&dn);
            ensure!(got == p, "inner", "after {}: inner product with dense {:?} is {}, should be {}", what, o, got, p);
            let references: DenseVector<&T> = dn.inner().iter().collect();
            let got: T = s.inner_product_with_dense::<&T, T>(&references);
            ensure!(got == p, "inner", "after {}: inner product with references {:?} is {}, should be {}", what, o, got, p);
            let q = t(&dot(m, m));
            ensure!(s.squared_norm() == q, "norm", "after {}: squared norm {}, should be {}", what, s.squared_norm(), q);
            let other = sparse(&o);
            ensure!((other == *s) == (o == m) && (dn == *d) == (o == m), "equal", "after {}: comparison with {:?}", what, o);
            Ok(())
        }
    };
}

macro_rules! matrices {
    () => {
        type Rm = SparseMatrix<T, T, RowMajor>;
        type Cm = SparseMatrix<T, T, ColumnMajor>;
        fn turn(m: &Model) -> Vec<Vec<Q>> { (0..m.n).map(|j| m.a.iter().map(|r| r[j]).collect()).collect() }
        fn lists(v: &[Vec<Q>]) -> Vec<Vec<(usize, T)>> { v.iter().map(|v| tuples(v)).collect() }
        fn build_matrix(g: &mut Gen, m: &Model) -> (Rm, Cm) {
            let (rows, columns) = (lists(&m.a), lists(&turn(m)));
            match g.below(3) {
                0 => (RowMajor::new(rows, m.a.len(), m.n), ColumnMajor::new(columns, m.a.len(), m.n)),
                1 if m.a.iter().flatten().all(|q| q.is_int()) => {
                    let data: Vec<Vec<i32>> = m.a.iter().map(|r| r.iter().map(|q| q.n as i32).collect()).collect();
                    (RowMajor::from_test_data(&data, m.n), ColumnMajor::from_test_data(&data, m.n))
                }
                _ => {
                    let mut r: Rm = RowMajor::new(vec![vec![]; m.a.len()], m.a.len(), m.n);
                    let mut c: Cm = ColumnMajor::new(vec![vec![]; m.n], m.a.len(), m.n);
                    for k in g.permutation(m.a.len() * m.n) {
                        let (i, j) = (k / m.n, k % m.n);
                        if !m.a[i][j].is_zero() { r.set_value(i, j, t(&m.a[i][j])); c.set_value(i, j, t(&m.a[i][j])); }
                    }
                    (r, c)
                }
            }
        }

        pub fn matrices(cx: &mut Cx) -> Res {
            let mut m = gen_model(&mut cx.g, 0, None, None);
            cx.note(format!("start {:?}", m));
            let (mut r, mut c) = build_matrix(&mut cx.g, &m);
            judge_matrix(&r, &c, &m, "start")?;
            let steps = cx.g.upto(if cx.thorough { 25 } else { 10 });
            let mut done = 0;
            for _ in 0..steps {
                let rows = m.a.len();
                let what = match cx.g.weighted(&[4, 3, 3, 2, 2, 2, 1, 2]) {
                    0 if rows > 0 && m.n > 0 => {
                        let (i, j, v) = (cx.g.idx(rows), cx.g.idx(m.n), gen_nonzero(&mut cx.g, INTS));
                        m.a[i][j] = v;
                        r.set_value(i, j, t(&v));
                        c.set_value(i, j, t(&v));
                        format!("set ({}, {}) to {}", i, j, v)
                    }
                    1 => {
                        let out = gen_indices(&mut cx.g, rows);
                        m.a = keep(&m.a, &out);
                        r.remove_rows(&out);
                        c.remove_rows_although_this_matrix_is_column_major(&out);
                        format!("remove rows {:?}", out)
                    }
                    2 => {
                        let out = gen_indices(&mut cx.g, m.n);
                        for row in &mut m.a { *row = keep(row, &out); }
                        m.n -= out.len();
                        r.remove_columns_although_this_matrix_is_row_ordered(&out);
                        c.remove_columns(&out);
                        format!("remove columns {:?}", out)
                    }
                    3 => {
                        // below each other; only the row major one can
                        if rows > 8 { continue; }
                        let o = gen_model(&mut cx.g, 1, None, Some(m.n));
                        let (ro, _) = build_matrix(&mut cx.g, &o);
                        let first = cx.g.bool();
                        r = if first { r.concatenate_vertically(ro) } else { ro.concatenate_vertically(r) };
                        if first { m.a.extend(o.a.clone()); } else { m.a = o.a.iter().chain(&m.a).cloned().collect(); }
                        c = ColumnMajor::new(lists(&turn(&m)), m.a.len(), m.n);
                        format!("{} rows {:?}", if first { "append" } else { "prepend" }, o.a)
                    }
                    4 => {
                        if m.n > 8 { continue; }
                        let o = gen_model(&mut cx.g, 1, Some(rows), None);
                        let (_, co) = build_matrix(&mut cx.g, &o);
                        let first = cx.g.bool();
                        c = if first { c.concatenate_horizontally(co) } else { co.concatenate_horizontally(c) };
                        m.n += o.n;
                        m.a = m.a.iter().zip(&o.a).map(|(x, y)| if first { x.iter().chain(y).cloned().collect() } else { y.iter().chain(x).cloned().collect() }).collect();
                        r = RowMajor::new(lists(&m.a), rows, m.n);
                        format!("{} columns {:?}", if first { "append" } else { "prepend" }, o.a)
                    }
                    5 => {
                        let flip: HashSet<usize> = gen_indices(&mut cx.g, rows).into_iter().collect();
                        for &i in &flip { for q in &mut m.a[i] { *q = -*q; } }
                        c.change_row_signs(&flip);
                        r = RowMajor::new(lists(&m.a), rows, m.n);
                        let mut f: Vec<_> = flip.into_iter().collect();
                        f.sort_unstable();
                        format!("flip rows {:?}", f)
                    }
                    6 => {
                        let n = cx.g.range(1, 5);
                        m = Model { a: (0..n).map(|i| (0..n).map(|j| if i == j { Q::ONE } else { Q::ZERO }).collect()).collect(), n };
                        r = RowMajor::identity(n);
                        c = ColumnMajor::identity(n);
                        format!("identity of {}", n)
                    }
                    7 => {
                        // each becomes a converted copy of the other
                        let from = SparseMatrix::<T, T, RowMajor>::from_column_major(&c);
                        let owned: Vec<Vec<(usize, T)>> = from.data.iter().map(|v| v.iter().map(|(i, v)| (*i, (*v).clone())).collect()).collect();
                        let (nr, nc) = (from.nr_rows(), from.nr_columns());
                        let to = Cm::from_row_ordered_tuples_although_this_is_expensive(&r.data, m.n);
                        let columns: Vec<Vec<(usize, T)>> = to.data.iter().map(|v| v.iter().map(|(i, v)| (*i, (*v).clone())).collect()).collect();
                        ensure!((to.nr_rows(), to.nr_columns()) == (rows, m.n) && (nr, nc) == (rows, m.n), "convert", "dimensions after conversion: {} by {} and {} by {}, should be {} by {}", nr, nc, to.nr_rows(), to.nr_columns(), rows, m.n);
                        drop((from, to));
                        c = ColumnMajor::new(columns, rows, m.n);
                        r = RowMajor::new(owned, rows, m.n);
                        "convert both".to_string()
                    }
                    _ => continue,
                };
                cx.note(&what);
                done += 1;
                judge_matrix(&r, &c, &m, &what)?;
            }
            cx.nontrivial = done >= 2 && m.a.len() + m.n > 2;
            Ok(())
        }

        fn judge_matrix(r: &Rm, c: &Cm, m: &Model, what: &str) -> Res {
            let (rows, columns) = (lists(&m.a), lists(&turn(m)));
            let (nr, nc) = (m.a.len(), m.n);
            ensure!((r.nr_rows(), r.nr_columns()) == (nr, nc), "dimensions", "after {}: row major is {} by {}, should be {} by {}", what, r.nr_rows(), r.nr_columns(), nr, nc);
            ensure!((c.nr_rows(), c.nr_columns()) == (nr, nc), "dimensions", "after {}: column major is {} by {}, should be {} by {}", what, c.nr_rows(), c.nr_columns(), nr, nc);
            ensure!(r.data == rows, "entries", "after {}: rows {:?}, should be {:?}", what, r.data, rows);
            ensure!(c.data == columns, "entries", "after {}: columns {:?}, should be {:?}", what, c.data, columns);
            ensure!(r.iter_rows().eq(rows.iter()) && c.iter_columns().eq(columns.iter()), "iterate", "after {}: iteration over rows or columns", what);
            ensure!((0..nr).all(|i| r.iter_row(i).eq(rows[i].iter())) && (0..nc).all(|j| c.iter_column(j).eq(columns[j].iter())), "iterate", "after {}: iteration over a row or column", what);
            let size = rows.iter().map(Vec::len).sum::<usize>();
            ensure!(r.size() == size && c.size() == size, "size", "after {}: sizes {} and {}, should be {}", what, r.size(), c.size(), size);
            let same_r: Rm = RowMajor::new(rows.clone(), nr, nc);
            let same_c: Cm = ColumnMajor::new(columns.clone(), nr, nc);
            ensure!(*r == same_r && *c == same_c, "equal", "after {}: not equal to the same matrix created directly", what);
            let longer: Rm = RowMajor::new(rows, nr, nc + 1);
            ensure!(*r != longer, "equal", "after {}: equal to a matrix with another column", what);
            let from = SparseMatrix::<T, T, RowMajor>::from_column_major(c);
            ensure!((from.nr_rows(), from.nr_columns(), from.size()) == (nr, nc, size), "convert", "after {}: converted is {} by {}", what, from.nr_rows(), from.nr_columns());
            for i in 0..nr {
                if !from.iter_row(i).map(|(j, v)| (*j, *v)).eq(r.iter_row(i).map(|(j, v)| (*j, v))) { fail!("convert", "after {}: row {} converted from column major is {:?}", what, i, from.iter_row(i).collect::<Vec<_>>()); }
            }
            Ok(())
        }
    };
}

#[derive(Debug, Clone)]
struct Model { a: Vec<Vec<Q>>, n: usize }
fn gen_model(g: &mut Gen, least: usize, rows: Option<usize>, columns: Option<usize>) -> Model {
    // sometimes tall, wide or both
    let size = |g: &mut Gen| if g.chance(1, 40) { if g.chance(1, 40) { g.range(40, 300) } else { g.range(5, 40) } } else { g.upto(5 - least) };
    let m = rows.unwrap_or_else(|| size(g));
    let n = columns.unwrap_or_else(|| size(g));
    let ints = g.bool();
    Model { a: (0..m).map(|_| gen_dense(g, n, ints)).collect(), n }
}

mod big { use super::*; vectors!(RB, false); matrices!(); }
mod short { use super::*; vectors!(Rational64, false); matrices!(); }
mod ints { use super::*; vectors!(i64, true); }

