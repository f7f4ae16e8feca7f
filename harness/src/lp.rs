//! Linear programs as the checks see them: model, generators, reference verdict, rendering.
use std::fmt::Write;

use num_traits::Zero;
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder};
use relp::data::linear_algebra::traits::{SparseComparator, SparseElement};
use relp::data::linear_algebra::vector::{DenseVector, Vector};
use relp::data::linear_program::elements::{Objective, RangedConstraintRelation, VariableType};
use relp::data::linear_program::general_form::{GeneralForm, Variable};
use relp_num::NonZero;

use crate::engine::Gen;
use crate::q::{FromQ, Num, Q, RB};
use crate::refsolve::{self, Std};

#[derive(Clone, Debug, PartialEq)]
pub struct Var { pub name: String, pub lo: Option<Q>, pub hi: Option<Q>, pub cost: Q, pub int: bool }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { E, L, G, R(Q) }
#[derive(Clone, Debug, PartialEq)]
pub struct Row { pub kind: Kind, pub b: Q, pub a: Vec<(usize, Q)> }
impl Row {
    pub fn lower(&self) -> Option<Q> { match self.kind { Kind::E | Kind::G => Some(self.b), Kind::R(r) => Some(self.b - r), Kind::L => None } }
    pub fn upper(&self) -> Option<Q> { match self.kind { Kind::E | Kind::L | Kind::R(_) => Some(self.b), Kind::G => None } }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Lp { pub max: bool, pub fixed: Q, pub vars: Vec<Var>, pub rows: Vec<Row> }

#[derive(Clone, Debug)]
pub enum Verdict { Infeasible, Unbounded, Optimal { value: RB, x: Vec<RB> } }
impl Verdict {
    pub fn name(&self) -> &'static str {
        match self { Verdict::Infeasible => "infeasible", Verdict::Unbounded => "unbounded", Verdict::Optimal { .. } => "optimal" }
    }
}

impl Lp {
    pub fn n(&self) -> usize { self.vars.len() }
    pub fn m(&self) -> usize { self.rows.len() }
    pub fn nnz(&self) -> usize { self.rows.iter().map(|r| r.a.len()).sum() }

    pub fn general<F>(&self) -> GeneralForm<F>
    where F: FromQ + SparseElement<F> + SparseComparator + Zero + NonZero {
        let mut cols: Vec<Vec<(usize, F)>> = vec![Vec::new(); self.n()];
        for (i, r) in self.rows.iter().enumerate() { for &(j, v) in &r.a { cols[j].push((i, F::from_q(v))); } }
        GeneralForm::new(
            if self.max { Objective::Maximize } else { Objective::Minimize },
            ColumnMajor::new(cols, self.m(), self.n()),
            self.rows.iter().map(|r| match r.kind {
                Kind::E => RangedConstraintRelation::Equal,
                Kind::L => RangedConstraintRelation::Less,
                Kind::G => RangedConstraintRelation::Greater,
                Kind::R(v) => RangedConstraintRelation::Range(F::from_q(v)),
            }).collect(),
            DenseVector::new(self.rows.iter().map(|r| F::from_q(r.b)).collect(), self.m()),
            self.vars.iter().map(|v| Variable {
                variable_type: if v.int { VariableType::Integer } else { VariableType::Continuous },
                cost: F::from_q(v.cost),
                lower_bound: v.lo.map(F::from_q),
                upper_bound: v.hi.map(F::from_q),
                shift: F::from_q(Q::ZERO),
                flipped: false,
            }).collect(),
            self.vars.iter().map(|v| v.name.clone()).collect(),
            F::from_q(self.fixed),
        )
    }

    /// Rewrite as min c'y, Ay = b, y >= 0 and a recipe to get x back.
    pub fn to_std(&self) -> (Vec<Vec<Q>>, Vec<Q>, Vec<Q>, Vec<Vec<(usize, Q)>>, Vec<Q>) {
        crate::q::take_overflow();
        let mut nc = 0;
        let mut recipe: Vec<Vec<(usize, Q)>> = Vec::new();
        let mut shift: Vec<Q> = Vec::new();
        let mut bounds: Vec<(usize, Q)> = Vec::new();
        for v in &self.vars {
            match (v.lo, v.hi) {
                (Some(l), h) => {
                    recipe.push(vec![(nc, Q::ONE)]);
                    shift.push(l);
                    if let Some(h) = h { bounds.push((nc, h - l)); }
                    nc += 1;
                }
                (None, Some(h)) => { recipe.push(vec![(nc, -Q::ONE)]); shift.push(h); nc += 1; }
                (None, None) => { recipe.push(vec![(nc, Q::ONE), (nc + 1, -Q::ONE)]); shift.push(Q::ZERO); nc += 2; }
            }
        }
        let s = if self.max { -Q::ONE } else { Q::ONE };
        let mut rows: Vec<(Vec<(usize, Q)>, Q)> = Vec::new();
        for r in &self.rows {
            let mut base: Vec<(usize, Q)> = Vec::new();
            let mut off = Q::ZERO;
            for &(j, a) in &r.a {
                for &(k, t) in &recipe[j] { base.push((k, a * t)); }
                off = off + a * shift[j];
            }
            if r.kind == Kind::E { rows.push((base, r.b - off)); continue; }
            if let Some(u) = r.upper() {
                let mut e = base.clone(); e.push((nc, Q::ONE)); nc += 1;
                rows.push((e, u - off));
            }
            if let Some(l) = r.lower() {
                let mut e = base.clone(); e.push((nc, -Q::ONE)); nc += 1;
                rows.push((e, l - off));
            }
        }
        for (k, u) in bounds { rows.push((vec![(k, Q::ONE), (nc, Q::ONE)], u)); nc += 1; }
        let mut c = vec![Q::ZERO; nc];
        for (j, v) in self.vars.iter().enumerate() { for &(k, t) in &recipe[j] { c[k] = c[k] + s * t * v.cost; } }
        let mut a = vec![vec![Q::ZERO; nc]; rows.len()];
        let mut b = Vec::new();
        for (i, (e, rhs)) in rows.into_iter().enumerate() {
            for (k, v) in e { a[i][k] = a[i][k] + v; }
            b.push(rhs);
        }
        if crate::q::take_overflow() { crate::engine::oracle_broken("the numbers are too large"); }
        (a, b, c, recipe, shift)
    }

    pub fn verdict(&self) -> Verdict {
        let (a, b, c, recipe, shift) = self.to_std();
        match refsolve::solve(&a, &b, &c) {
            Std::Infeasible => Verdict::Infeasible,
            Std::Unbounded { .. } => Verdict::Unbounded,
            Std::Optimal { x, .. } => {
                let xs: Vec<RB> = (0..self.n()).map(|j| recipe[j].iter().fold(shift[j].big(), |s, (k, t)| s.add(&x[*k].mul(&t.big())))).collect();
                let value = self.objective_at(&xs);
                if let Some(w) = self.violated(&xs) { crate::engine::oracle_broken(format!("reference point violates {}", w)); }
                Verdict::Optimal { value, x: xs }
            }
        }
    }
    pub fn objective_at(&self, x: &[RB]) -> RB {
        self.vars.iter().zip(x).fold(self.fixed.big(), |s, (v, x)| if v.cost.is_zero() { s } else { s.add(&x.mul(&v.cost.big())) })
    }
    /// Which constraint a point violates.
    pub fn violated(&self, x: &[RB]) -> Option<String> {
        for (j, v) in self.vars.iter().enumerate() {
            if let Some(l) = v.lo { if x[j].less(&l.big()) { return Some(format!("lower bound {} <= {} = {}", l, v.name, x[j])); } }
            if let Some(h) = v.hi { if h.big().less(&x[j]) { return Some(format!("upper bound {} = {} <= {}", v.name, x[j], h)); } }
        }
        for (i, r) in self.rows.iter().enumerate() {
            let s = r.a.iter().fold(<RB as Num>::zero(), |s, (j, a)| s.add(&x[*j].mul(&a.big())));
            if let Some(l) = r.lower() { if s.less(&l.big()) { return Some(format!("row {}: {} >= {}", i, s, l)); } }
            if let Some(u) = r.upper() { if u.big().less(&s) { return Some(format!("row {}: {} <= {}", i, s, u)); } }
        }
        None
    }

    pub fn render(&self) -> String {
        let mut o = String::new();
        let term = |o: &mut String, c: Q, name: &str| {
            let sep = if o.is_empty() || o.ends_with(": ") { if c.is_neg() { "-" } else { "" } } else if c.is_neg() { " - " } else { " + " };
            o.push_str(sep);
            if c.abs() != Q::ONE { write!(o, "{} ", c.abs()).unwrap(); }
            o.push_str(name);
        };
        let mut s = String::from(if self.max { "max: " } else { "min: " });
        for v in &self.vars { if !v.cost.is_zero() { term(&mut s, v.cost, &v.name); } }
        writeln!(o, "{}   (constant {})", s, self.fixed).unwrap();
        for (i, r) in self.rows.iter().enumerate() {
            let mut s = format!("r{}: ", i);
            for &(j, a) in &r.a { term(&mut s, a, &self.vars[j].name); }
            if r.a.is_empty() { s.push('0'); }
            match r.kind {
                Kind::E => writeln!(o, "{} = {}", s, r.b), Kind::L => writeln!(o, "{} <= {}", s, r.b),
                Kind::G => writeln!(o, "{} >= {}", s, r.b), Kind::R(w) => writeln!(o, "{} in [{}, {}] (b={}, range {})", s, r.b - w, r.b, r.b, w),
            }.unwrap();
        }
        let b: Vec<String> = self.vars.iter().map(|v| format!("{} in {}, {}{}",
            v.name, v.lo.map_or("(-oo".into(), |l| format!("[{}", l)), v.hi.map_or("oo)".into(), |l| format!("{}]", l)), if v.int { " int" } else { "" })).collect();
        writeln!(o, "{}", b.join("; ")).unwrap();
        o
    }
}

// ---- generators --------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
pub enum Palette { Units, Ints, Fractions, Primes, Wide }

pub fn coef(g: &mut Gen, p: Palette) -> Q {
    match p {
        Palette::Units => Q::int(if g.chance(1, 4) { -1 } else { 1 }),
        Palette::Ints => {
            let k = *g.pick(&[1, 1, 2, 3, 5, 9]);
            Q::int(g.nonzero(k))
        }
        Palette::Fractions => {
            let n = g.nonzero(6);
            let d = *g.pick(&[1, 1, 1, 2, 3, 4, 5, 7]);
            Q::new(n as i128, d)
        }
        Palette::Primes => {
            let mut v = Q::int(if g.chance(1, 3) { -1 } else { 1 });
            for _ in 0..g.upto(3) {
                let p = Q::int(*g.pick(&[2, 2, 2, 3, 3, 5, 7, 11]));
                v = if g.bool() { v * p } else { v / p };
            }
            v
        }
        Palette::Wide => {
            // past the limits of small machine numbers, and decimals
            if g.bool() { return Q::int(g.nonzero(9)); }
            let k = g.idx(WIDE.len());
            let n = (WIDE[k] + g.int(2) as i128).max(1) * if g.chance(1, 3) { -1 } else { 1 };
            Q::new(n, *g.pick(&[1, 1, 1, 10, 1000]))
        }
    }
}
const WIDE: [i128; 7] = [100, 12_345, 65_536, 1 << 24, 1 << 31, 1 << 32, 10_000_000_000];
/// A right-hand side, cost or bound value; may be zero.
pub fn value(g: &mut Gen, p: Palette) -> Q {
    if g.chance(1, 3) { return Q::ZERO; }
    match p {
        Palette::Units => Q::int(g.int(3)),
        Palette::Ints => { let k = *g.pick(&[2, 4, 10, 30]); Q::int(g.int(k)) }
        _ => coef(g, p) * Q::int(g.int(4)),
    }
}
fn nonneg(g: &mut Gen, p: Palette) -> Q { value(g, p).abs() }

#[derive(Clone, Copy)]
pub struct Opts {
    pub palettes: &'static [Palette],
    /// Small: at most about 5 x 5.
    pub max_rows: usize,
    pub max_vars: usize,
    /// Weighted towards rows and columns presolving acts on.
    pub presolve_bias: bool,
    /// Sometimes numbers of very different sizes.
    pub wide: bool,
    /// Allow the structured and the larger classes.
    pub classes: bool,
    pub allow_max: bool,
    pub allow_fixed_cost: bool,
}
pub const SMALL: Opts = Opts {
    palettes: &[Palette::Ints, Palette::Units, Palette::Ints, Palette::Fractions],
    max_rows: 5, max_vars: 5, presolve_bias: false, wide: true, classes: true, allow_max: true, allow_fixed_cost: true,
};

fn name(j: usize) -> String { format!("x{}", j) }

fn var(g: &mut Gen, p: Palette, point: Q) -> Var {
    // bounds that contain `point`
    let (lo, hi) = match g.weighted(&[8, 2, 2, 3, 2, 2]) {
        0 => (Some(Q::ZERO.min(point)), None),
        1 => (Some(point - nonneg(g, p)), None),
        2 => (None, Some(point + nonneg(g, p))),
        3 => { let l = point - nonneg(g, p); (Some(l), Some(point + nonneg(g, p))) }
        4 => (None, None),
        _ => { let l = Q::ZERO.min(point); (Some(l), Some(point + nonneg(g, p))) }
    };
    Var { name: String::new(), lo, hi, cost: Q::ZERO, int: false }
}

/// A row through or beside the point with activity `act`.
fn row_for(g: &mut Gen, p: Palette, a: Vec<(usize, Q)>, act: Q, tight: bool) -> Row {
    let gap = if tight || g.chance(1, 3) { Q::ZERO } else { nonneg(g, p) };
    match g.weighted(&[4, 4, 3, 2]) {
        0 => Row { kind: Kind::L, b: act + gap, a },
        1 => Row { kind: Kind::G, b: act - gap, a },
        2 => Row { kind: Kind::E, b: act, a },
        _ => {
            let below = nonneg(g, p);
            Row { kind: Kind::R(gap + below), b: act + gap, a }
        }
    }
}

fn act(a: &[(usize, Q)], x: &[Q]) -> Q { a.iter().fold(Q::ZERO, |s, &(j, v)| s + v * x[j]) }

fn sparse_row(g: &mut Gen, p: Palette, n: usize, num: u64, den: u64) -> Vec<(usize, Q)> {
    let mut a = Vec::new();
    for j in 0..n { if g.chance(num, den) { let c = coef(g, p); a.push((j, c)); } }
    a
}

/// The general random class.
fn random(g: &mut Gen, o: &Opts, p: Palette) -> Lp {
    let n = g.upto(o.max_vars);
    let m = g.upto(o.max_rows);
    let feasible = !g.chance(1, 5);
    let zero_point = g.chance(1, 3);
    let x: Vec<Q> = (0..n).map(|_| if zero_point { Q::ZERO } else { value(g, p) }).collect();
    let mut vars: Vec<Var> = x.iter().map(|&v| var(g, p, v)).collect();
    let tight = g.chance(1, 3);
    let (num, den) = if n > 8 { (3, n as u64) } else { *g.pick(&[(1, 2), (3, 4), (1, 3), (1, 1)]) };
    let mut rows = Vec::new();
    for _ in 0..m {
        let special = if o.presolve_bias { g.weighted(&[3, 3, 2, 2, 2]) } else { g.weighted(&[20, 2, 1, 2, 2]) };
        let a = match special {
            1 if n > 0 => { let j = g.idx(n); let c = coef(g, p); vec![(j, c)] }
            2 => Vec::new(),
            3 if n > 1 => {
                let j = g.idx(n); let k = g.idx(n);
                let (c, d) = (coef(g, p), coef(g, p));
                if j == k { vec![(j, c)] } else { vec![(j.min(k), c), (j.max(k), d)] }
            }
            4 if !rows.is_empty() => {
                // combination of earlier rows
                let mut dense = vec![Q::ZERO; n];
                for _ in 0..g.range(1, 2) {
                    let r: &Row = &rows[g.idx(rows.len())];
                    let f = Q::int(g.nonzero(2));
                    for &(j, v) in &r.a { dense[j] = dense[j] + f * v; }
                }
                dense.into_iter().enumerate().filter(|(_, v)| !v.is_zero()).collect()
            }
            _ => sparse_row(g, p, n, num, den),
        };
        let at = act(&a, &x);
        let mut r = row_for(g, p, a, at, tight);
        if !feasible && g.chance(1, 3) { r.b = value(g, p); }
        rows.push(r);
    }
    costs(g, p, &mut vars);
    if o.presolve_bias && n > 0 && m > 0 && g.chance(1, 3) {
        // slack columns: appear in one row, no cost
        let j = g.idx(n);
        let i = g.idx(m);
        for (k, r) in rows.iter_mut().enumerate() { if k != i { r.a.retain(|e| e.0 != j); } }
        vars[j].cost = Q::ZERO;
    }
    Lp { max: false, fixed: Q::ZERO, vars, rows }
}

fn costs(g: &mut Gen, p: Palette, vars: &mut [Var]) {
    // often costs that make the problem bounded: towards a finite bound
    let mode = g.weighted(&[3, 3, 1]);
    for v in vars.iter_mut() {
        let c = value(g, p);
        v.cost = match mode {
            0 => match (v.lo.is_some(), v.hi.is_some()) {
                (true, false) => c.abs(),
                (false, true) => -c.abs(),
                (true, true) => c,
                (false, false) => if g.chance(1, 4) { c } else { Q::ZERO },
            },
            1 => c,
            _ => Q::ZERO,
        };
    }
}

fn structured(g: &mut Gen, p: Palette) -> Lp {
    let nn = |n: usize| -> Vec<Var> { (0..n).map(|_| Var { name: String::new(), lo: Some(Q::ZERO), hi: None, cost: Q::ZERO, int: false }).collect() };
    match g.weighted(&[2, 2, 2, 3, 2, 2, 2]) {
        0 => {
            // transportation, balanced (redundant) or not
            let (s, d) = (g.range(1, 4), g.range(1, 4));
            let flow: Vec<Q> = (0..s * d).map(|_| Q::int(g.upto(4) as i64)).collect();
            let mut vars = nn(s * d);
            for v in &mut vars { v.cost = Q::int(g.upto(9) as i64); if g.chance(1, 6) { v.hi = Some(Q::int(g.range(4, 8) as i64)); } }
            let exact = g.chance(3, 4);
            let mut rows = Vec::new();
            for i in 0..s {
                let a: Vec<_> = (0..d).map(|j| (i * d + j, Q::ONE)).collect();
                let t = act(&a, &flow);
                rows.push(Row { kind: if exact { Kind::E } else { Kind::L }, b: t, a });
            }
            for j in 0..d {
                let a: Vec<_> = (0..s).map(|i| (i * d + j, Q::ONE)).collect();
                let t = act(&a, &flow);
                rows.push(Row { kind: if exact { Kind::E } else { Kind::G }, b: t, a });
            }
            Lp { max: false, fixed: Q::ZERO, vars, rows }
        }
        1 => {
            // Klee-Minty
            let n = g.range(1, 5);
            let mut vars = nn(n);
            let mut rows = Vec::new();
            for i in 0..n {
                vars[i].cost = -Q::int(1 << (n - 1 - i));
                let mut a: Vec<(usize, Q)> = (0..i).map(|j| (j, Q::int(1 << (i - j + 1)))).collect();
                a.push((i, Q::ONE));
                let mut b = 1i64;
                for _ in 0..=i { b *= 5; }
                rows.push(Row { kind: Kind::L, b: Q::int(b), a });
            }
            Lp { max: false, fixed: Q::ZERO, vars, rows }
        }
        2 => {
            // cycling examples, possibly perturbed and permuted
            let (c, a): (Vec<Q>, Vec<Vec<Q>>) = cycling(g);
            let n = c.len();
            let mut vars = nn(n);
            let perm = g.permutation(n);
            for j in 0..n { vars[perm[j]].cost = c[j]; }
            let mut rows: Vec<Row> = a.iter().map(|r| {
                let mut e: Vec<(usize, Q)> = r.iter().enumerate().filter(|(_, v)| !v.is_zero()).map(|(j, v)| (perm[j], *v)).collect();
                e.sort_by_key(|x| x.0);
                Row { kind: Kind::L, b: Q::ZERO, a: e }
            }).collect();
            if g.bool() { let j = g.idx(n); rows.push(Row { kind: Kind::L, b: Q::ONE, a: vec![(j, Q::ONE)] }); }
            for _ in 0..g.upto(2) {
                let i = g.idx(rows.len());
                if rows[i].a.is_empty() { continue; }
                let k = g.idx(rows[i].a.len());
                rows[i].a[k].1 = coef(g, p);
            }
            Lp { max: false, fixed: Q::ZERO, vars, rows }
        }
        3 => {
            // highly degenerate cone
            let n = g.range(2, 7);
            let m = g.range(2, 7);
            let mut vars = nn(n);
            for v in &mut vars { v.cost = Q::int(g.int(4)); }
            let mut rows: Vec<Row> = (0..m).map(|_| Row { kind: if g.chance(1, 5) { Kind::G } else { Kind::L }, b: Q::ZERO, a: sparse_row(g, p, n, 3, 4) }).collect();
            if !g.chance(1, 4) { rows.push(Row { kind: Kind::L, b: Q::int(g.range(1, 9) as i64), a: (0..n).map(|j| (j, Q::ONE)).collect() }); }
            Lp { max: false, fixed: Q::ZERO, vars, rows }
        }
        4 => {
            // assignment / set covering
            let n = g.range(1, 6);
            let m = g.range(1, 6);
            let mut vars = nn(n);
            for v in &mut vars { v.cost = Q::int(1 + g.upto(5) as i64); if g.bool() { v.hi = Some(Q::ONE); } }
            let kind = *g.pick(&[Kind::G, Kind::E, Kind::L]);
            let rows = (0..m).map(|_| { let a = sparse_row(g, Palette::Units, n, 1, 2).into_iter().map(|(j, v)| (j, v.abs())).collect(); Row { kind, b: Q::ONE, a } }).collect();
            Lp { max: kind == Kind::L, fixed: Q::ZERO, vars, rows }
        }
        6 => {
            // bounds that propagate in circles, plus rows whose bounds start them off
            let k = g.range(2, 3);
            let extra = g.range(1, 3);
            let big = *g.pick(&[20, 1000]);
            let mut vars: Vec<Var> = (0..k).map(|_| {
                let far = |g: &mut Gen, s: i64| if g.chance(1, 3) { None } else { Some(Q::int(s * big)) };
                Var { name: String::new(), lo: far(g, -1), hi: far(g, 1), cost: Q::ZERO, int: false }
            }).collect();
            for _ in 0..extra {
                let l = g.int(2);
                vars.push(Var { name: String::new(), lo: Some(Q::int(l)), hi: Some(Q::int(l + 1 + g.upto(2) as i64)), cost: Q::ZERO, int: false });
            }
            let sign = if g.bool() { Q::ONE } else { -Q::ONE };
            let mut rows = Vec::new();
            for i in 0..k {
                // x_i <= f x_(i+1) + d, mirrored for a negative sign
                let f = *g.pick(&[Q::ONE, Q::int(2), Q::new(1, 2), Q::int(3)]);
                let d = Q::int(-(g.upto(12) as i64) + 2);
                let mut a = vec![(i, sign), ((i + 1) % k, -(f * sign))];
                a.sort_by_key(|e| e.0);
                rows.push(Row { kind: if g.chance(1, 8) { Kind::R(Q::int(big)) } else { Kind::L }, b: d, a });
            }
            for e in 0..extra {
                let i = g.idx(k);
                let s = if g.chance(1, 5) { -sign } else { sign };
                let c = Q::int(g.nonzero(2));
                let at = g.upto(rows.len());
                rows.insert(at, Row { kind: Kind::L, b: Q::int(g.int(9)), a: vec![(i, s), (k + e, c)] });
            }
            costs(g, p, &mut vars);
            Lp { max: false, fixed: Q::ZERO, vars, rows }
        }
        _ => {
            // staircase of equalities with free and doubly bounded variables
            let n = g.range(2, 7);
            let x: Vec<Q> = (0..n).map(|_| value(g, p)).collect();
            let mut vars: Vec<Var> = x.iter().map(|&v| var(g, p, v)).collect();
            let mut rows = Vec::new();
            for i in 0..n - 1 {
                let a = vec![(i, coef(g, p)), (i + 1, coef(g, p))];
                let t = act(&a, &x);
                rows.push(Row { kind: Kind::E, b: t, a });
            }
            costs(g, p, &mut vars);
            Lp { max: false, fixed: Q::ZERO, vars, rows }
        }
    }
}

/// Known examples on which the simplex method can cycle: (costs, rows of `<= 0` constraints).
pub fn cycling(g: &mut Gen) -> (Vec<Q>, Vec<Vec<Q>>) {
    let q = |n: i64, d: i64| Q::new(n as i128, d as i128);
    match g.idx(5) {
        0 => (vec![q(-3, 4), q(150, 1), q(-1, 50), q(6, 1)], vec![
            vec![q(1, 4), q(-60, 1), q(-1, 25), q(9, 1)], vec![q(1, 2), q(-90, 1), q(-1, 50), q(3, 1)], vec![q(0, 1), q(0, 1), q(1, 1), q(0, 1)]]),
        1 => (vec![q(-3, 4), q(20, 1), q(-1, 2), q(6, 1)], vec![
            vec![q(1, 4), q(-8, 1), q(-1, 1), q(9, 1)], vec![q(1, 2), q(-12, 1), q(-1, 2), q(3, 1)]]),
        2 => (vec![q(-10, 1), q(57, 1), q(9, 1), q(24, 1)], vec![
            vec![q(1, 2), q(-11, 2), q(-5, 2), q(9, 1)], vec![q(1, 2), q(-3, 2), q(-1, 2), q(1, 1)], vec![q(1, 1), q(0, 1), q(0, 1), q(0, 1)]]),
        3 => (vec![q(-2, 1), q(-3, 1), q(1, 1), q(12, 1)], vec![
            vec![q(-2, 1), q(-9, 1), q(1, 1), q(9, 1)], vec![q(1, 3), q(1, 1), q(-1, 3), q(-2, 1)]]),
        _ => (vec![q(-23, 10), q(-43, 20), q(271, 20), q(2, 5)], vec![
            vec![q(2, 5), q(1, 5), q(-7, 5), q(-1, 5)], vec![q(-39, 5), q(-7, 5), q(39, 5), q(2, 5)]]),
    }
}

/// More rows and columns: enough pivots to cross the refactoring threshold of the LU.
pub fn larger(g: &mut Gen, p: Palette) -> Lp {
    // now and then wide, tall or both
    let (m, n) = match g.weighted(&[120, 2, 2, 1]) {
        0 => (g.range(8, 28), g.range(8, 28)),
        1 => (g.range(3, 8), g.range(60, 140)),
        2 => (g.range(60, 140), g.range(4, 8)),
        _ => (g.range(30, 48), g.range(30, 48)),
    };
    // with all kinds of bounds and rows, or only what a textbook would have
    let rich = g.chance(1, 3);
    let x: Vec<Q> = (0..n).map(|_| Q::int(g.upto(3) as i64)).collect();
    let mut vars: Vec<Var> = x.iter().map(|&v| {
        if rich && g.chance(1, 3) { return Var { cost: Q::int(g.int(5)), ..var(g, Palette::Ints, v) }; }
        let hi = if g.chance(1, 5) { Some(v + Q::int(g.upto(3) as i64)) } else { None };
        Var { name: String::new(), lo: Some(Q::ZERO), hi, cost: Q::int(g.int(5)), int: false }
    }).collect();
    let mut rows = Vec::new();
    for _ in 0..m {
        let k = g.range(2, 4);
        let mut a: Vec<(usize, Q)> = Vec::new();
        for _ in 0..k { let j = g.idx(n); if a.iter().all(|e| e.0 != j) { let c = if g.chance(1, 8) { coef(g, p) } else { coef(g, Palette::Units) }; a.push((j, c)); } }
        a.sort_by_key(|e| e.0);
        let t = act(&a, &x);
        let gap = Q::int(g.upto(3) as i64);
        rows.push(match g.weighted(&[4, 3, 3, if rich { 4 } else { 0 }]) {
            0 => Row { kind: Kind::L, b: t + gap, a },
            1 => Row { kind: Kind::G, b: t - gap, a },
            3 => Row { kind: Kind::R(gap + Q::int(g.upto(4) as i64)), b: t + gap, a },
            _ => Row { kind: Kind::E, b: t, a },
        });
    }
    if g.chance(4, 5) {
        for v in &mut vars {
            v.cost = match (v.lo.is_some(), v.hi.is_some()) { (_, true) => if v.lo.is_some() { v.cost } else { -v.cost.abs() }, (true, false) => v.cost.abs(), _ => Q::ZERO };
        }
    }
    Lp { max: false, fixed: Q::ZERO, vars, rows }
}

pub fn gen_lp(g: &mut Gen, o: &Opts) -> (Lp, &'static str) {
    let p = if o.wide && g.chance(1, 25) { Palette::Wide } else { *g.pick(o.palettes) };
    let (mut lp, class) = match if o.classes { g.weighted(&[28, 8, 2, 1]) } else { 0 } {
        0 => (random(g, o, p), "random"),
        1 => (structured(g, p), "structured"),
        2 => (larger(g, if p == Palette::Wide { Palette::Ints } else { p }), "larger"),
        _ => (random(g, &Opts { max_rows: 3 * o.max_rows, max_vars: 3 * o.max_vars, ..*o }, if p == Palette::Wide { Palette::Ints } else { p }), "medium"),
    };
    for (j, v) in lp.vars.iter_mut().enumerate() { v.name = name(j); }
    if o.allow_fixed_cost && g.chance(1, 3) { lp.fixed = value(g, p); }
    if o.allow_max && g.chance(1, 3) {
        lp.max = !lp.max;
        if g.chance(3, 4) { for v in &mut lp.vars { v.cost = -v.cost; } }
    }
    // The relaxation is what gets solved
    if g.chance(1, 10) { for v in &mut lp.vars { v.int = g.bool(); } }
    (lp, class)
}
