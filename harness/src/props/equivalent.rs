//! C22: equivalent formulations have the same optimum.
use std::convert::TryInto;
use std::fs;

use relp::data::linear_program::general_form::GeneralForm;
use relp::io::mps::parse_fixed;
use relp_num::Rational64;

use crate::engine::{guard, oracle_broken, Cx, Fail, Gen, Res};
use crate::lp::{coef, gen_lp, Kind, Lp, Opts, Palette, Row, Var, SMALL};
use crate::props::mpsdoc::{read_free, Read};
use crate::props::pipeline::{run, Backend, Outcome};
use crate::props::solve::{judge_solution, PRESOLVE};
use crate::q::{take_overflow, Num, Q, RB};
use crate::{ensure, fail};

/// A problem and how its objective values follow from those of the problem it was made of.
pub struct Formulation { pub lp: Lp, pub factor: Q, pub offset: Q, pub steps: Vec<String> }

fn small_factor(g: &mut Gen) -> Q {
    let n = g.nonzero(3);
    Q::new(n as i128, *g.pick(&[1, 1, 2, 3]))
}
fn times(r: &Row, k: Q) -> Row {
    let a = r.a.iter().map(|&(j, v)| (j, v * k)).collect();
    match r.kind {
        Kind::E => Row { kind: Kind::E, b: r.b * k, a },
        Kind::L => Row { kind: if k.is_neg() { Kind::G } else { Kind::L }, b: r.b * k, a },
        Kind::G => Row { kind: if k.is_neg() { Kind::L } else { Kind::G }, b: r.b * k, a },
        Kind::R(w) => Row { kind: Kind::R(w * k.abs()), b: if k.is_neg() { (r.b - w) * k } else { r.b * k }, a },
    }
}
fn combine(x: &Row, k: Q, y: &Row) -> Vec<(usize, Q)> {
    let mut a = x.a.clone();
    for &(j, v) in &y.a {
        match a.iter_mut().find(|e| e.0 == j) { Some(e) => e.1 = e.1 + k * v, None => a.push((j, k * v)) }
    }
    a.retain(|e| !e.1.is_zero());
    a.sort_by_key(|e| e.0);
    a
}

impl Formulation {
    pub fn new(lp: &Lp) -> Self { Formulation { lp: lp.clone(), factor: Q::ONE, offset: Q::ZERO, steps: Vec::new() } }
    fn fresh(&self, what: &str) -> String {
        (0..).map(|i| format!("{}{}", what, i)).find(|n| self.lp.vars.iter().all(|v| &v.name != n)).unwrap()
    }
    fn insert(&mut self, g: &mut Gen, r: Row) { let at = g.upto(self.lp.rows.len()); self.lp.rows.insert(at, r); }

    /// One equivalence preserving change; some do nothing when there is nothing to change.
    pub fn step(&mut self, g: &mut Gen, kind: usize) -> &'static str {
        let (n, m) = (self.lp.n(), self.lp.m());
        match kind {
            0 => {
                let p = g.permutation(m);
                self.lp.rows = p.iter().map(|&i| self.lp.rows[i].clone()).collect();
                "permute-rows"
            }
            1 => {
                let p = g.permutation(n);
                let mut place = vec![0; n];
                for (new, &old) in p.iter().enumerate() { place[old] = new; }
                self.lp.vars = p.iter().map(|&j| self.lp.vars[j].clone()).collect();
                for r in &mut self.lp.rows { for e in &mut r.a { e.0 = place[e.0]; } r.a.sort_by_key(|e| e.0); }
                "permute-variables"
            }
            2 if m > 0 => {
                let i = g.idx(m);
                let k = small_factor(g);
                self.lp.rows[i] = times(&self.lp.rows[i], k);
                "multiply-row"
            }
            3 if n > 0 => {
                let j = g.idx(n);
                let k = if g.bool() { -Q::ONE } else { small_factor(g) };
                let v = &mut self.lp.vars[j];
                v.cost = v.cost * k;
                let (lo, hi) = (v.lo.map(|x| x / k), v.hi.map(|x| x / k));
                (v.lo, v.hi) = if k.is_neg() { (hi, lo) } else { (lo, hi) };
                for r in &mut self.lp.rows { for e in &mut r.a { if e.0 == j { e.1 = e.1 * k; } } }
                "scale-or-mirror-variable"
            }
            4 if n > 0 => {
                let j = g.idx(n);
                let d = small_factor(g) * Q::int(g.range(1, 4) as i64);
                let v = &mut self.lp.vars[j];
                v.lo = v.lo.map(|x| x - d);
                v.hi = v.hi.map(|x| x - d);
                self.lp.fixed = self.lp.fixed + v.cost * d;
                for r in &mut self.lp.rows { for e in &r.a { if e.0 == j { r.b = r.b - e.1 * d; } } }
                "shift-variable"
            }
            5 if m > 0 => {
                let i = g.idx(m);
                let r = self.lp.rows[i].clone();
                let (Some(l), Some(u)) = (r.lower(), r.upper()) else { return "nothing" };
                self.lp.rows[i] = Row { kind: Kind::L, b: u, a: r.a.clone() };
                self.insert(g, Row { kind: Kind::G, b: l, a: r.a });
                if r.kind == Kind::E { "split-equality" } else { "split-range" }
            }
            6 if m > 0 => {
                let r = self.lp.rows[g.idx(m)].clone();
                let k = small_factor(g);
                self.insert(g, times(&r, k));
                "duplicate-row"
            }
            7 if m > 1 => {
                let (x, y) = (self.lp.rows[g.idx(m)].clone(), self.lp.rows[g.idx(m)].clone());
                let k = if y.kind == Kind::E { small_factor(g) } else { small_factor(g).abs() };
                let a = combine(&x, k, &y);
                let slack = if g.bool() { Q::ZERO } else { Q::int(g.upto(3) as i64) };
                let (u, l) = (x.upper().zip(y.upper()).map(|(a, b)| a + k * b), x.lower().zip(y.lower()).map(|(a, b)| a + k * b));
                let both = x.kind == Kind::E && y.kind == Kind::E && slack.is_zero();
                match (u, l) {
                    (Some(u), _) if both => self.insert(g, Row { kind: Kind::E, b: u, a }),
                    (Some(u), Some(l)) if g.bool() => self.insert(g, Row { kind: Kind::R(u - l + slack + slack), b: u + slack, a }),
                    (Some(u), _) => self.insert(g, Row { kind: Kind::L, b: u + slack, a }),
                    (None, Some(l)) => self.insert(g, Row { kind: Kind::G, b: l - slack, a }),
                    (None, None) => return "nothing",
                }
                "implied-row"
            }
            8 if n > 0 => {
                let j = g.idx(n);
                let (lo, hi) = (self.lp.vars[j].lo, self.lp.vars[j].hi);
                let which = g.idx(3);
                let mut done = false;
                if let (true, Some(l)) = (which != 1, lo) { self.lp.vars[j].lo = None; self.insert(g, Row { kind: Kind::G, b: l, a: vec![(j, Q::ONE)] }); done = true; }
                if let (true, Some(h)) = (which != 0, hi) { self.lp.vars[j].hi = None; self.insert(g, Row { kind: Kind::L, b: h, a: vec![(j, Q::ONE)] }); done = true; }
                if done { "bound-to-row" } else { "nothing" }
            }
            9 => {
                self.lp.max = !self.lp.max;
                for v in &mut self.lp.vars { v.cost = -v.cost; }
                self.lp.fixed = -self.lp.fixed;
                self.factor = -self.factor;
                self.offset = -self.offset;
                "negate-objective"
            }
            10 => {
                let k = small_factor(g).abs();
                let d = Q::int(g.int(5));
                for v in &mut self.lp.vars { v.cost = v.cost * k; }
                self.lp.fixed = self.lp.fixed * k + d;
                self.factor = self.factor * k;
                self.offset = self.offset * k + d;
                "scale-objective"
            }
            11 if n > 0 => {
                let j = g.idx(n);
                if self.lp.vars[j].lo.is_some() || self.lp.vars[j].hi.is_some() { return "nothing"; }
                let v = &mut self.lp.vars[j];
                v.lo = Some(Q::ZERO);
                let mut w = v.clone();
                w.cost = -w.cost;
                w.name = self.fresh("neg");
                self.lp.vars.push(w);
                for r in &mut self.lp.rows { if let Some(e) = r.a.iter().find(|e| e.0 == j).copied() { r.a.push((n, -e.1)); } }
                "split-free-variable"
            }
            12 if m > 0 => {
                // A slack variable of our own
                let i = g.idx(m);
                let (lower, upper) = (self.lp.rows[i].lower(), self.lp.rows[i].upper());
                let kind = self.lp.rows[i].kind;
                let hi = match kind { Kind::E => return "nothing", Kind::R(w) => Some(w), _ => None };
                let k = small_factor(g).abs();
                let name = self.fresh("slack");
                let r = &mut self.lp.rows[i];
                match (upper, lower) {
                    (Some(u), _) => { r.b = u; r.a.push((n, k)); }
                    (None, Some(l)) => { r.b = l; r.a.push((n, -k)); }
                    _ => unreachable!(),
                }
                r.kind = Kind::E;
                self.lp.vars.push(Var { name, lo: Some(Q::ZERO), hi: hi.map(|h| h / k), cost: Q::ZERO, int: false });
                "own-slack"
            }
            13 if m > 1 => {
                // Add a multiple of an equality to another row
                let (i, e) = (g.idx(m), g.idx(m));
                if i == e || self.lp.rows[e].kind != Kind::E { return "nothing"; }
                let k = small_factor(g);
                let a = combine(&self.lp.rows[i], k, &self.lp.rows[e]);
                if a.len() > 12 { return "nothing"; }
                self.lp.rows[i].b = self.lp.rows[i].b + k * self.lp.rows[e].b;
                self.lp.rows[i].a = a;
                "add-equality"
            }
            14 if n > 0 && m > 0 => {
                // Use an equality in the objective
                let e = g.idx(m);
                if self.lp.rows[e].kind != Kind::E || self.lp.rows[e].a.len() > 12 { return "nothing"; }
                let k = small_factor(g);
                let r = self.lp.rows[e].clone();
                for (j, v) in r.a { self.lp.vars[j].cost = self.lp.vars[j].cost + k * v; }
                self.lp.fixed = self.lp.fixed - k * r.b;
                "equality-in-objective"
            }
            15 => {
                // A variable that equals an expression of others
                if n == 0 { return "nothing"; }
                let name = self.fresh("def");
                let mut a: Vec<(usize, Q)> = Vec::new();
                for _ in 0..g.range(1, 3) { let j = g.idx(n); if a.iter().all(|e| e.0 != j) { a.push((j, coef(g, Palette::Ints))); } }
                a.sort_by_key(|e| e.0);
                a.push((n, -Q::ONE));
                self.insert(g, Row { kind: Kind::E, b: Q::int(g_int(n)), a });
                self.lp.vars.push(Var { name, lo: None, hi: None, cost: Q::ZERO, int: false });
                "defined-variable"
            }
            _ => "nothing",
        }
    }
}
fn g_int(n: usize) -> i64 { (n % 5) as i64 - 2 }
const STEPS: usize = 16;

pub fn transform(g: &mut Gen, lp: &Lp, count: usize, tags: &mut Vec<&'static str>) -> Formulation {
    let mut f = Formulation::new(lp);
    let mut done = 0;
    for _ in 0..4 * count {
        if done == count { break; }
        let before = (f.lp.clone(), f.factor, f.offset);
        let kind = g.idx(STEPS);
        let what = f.step(g, kind);
        let wild = |q: Q| q.n.abs() > 1 << 50 || q.d > 1 << 40;
        let too_big = take_overflow() || wild(f.factor) || wild(f.offset) || wild(f.lp.fixed) || f.lp.vars.iter().any(|v| wild(v.cost) || v.lo.map_or(false, wild) || v.hi.map_or(false, wild))
            || f.lp.rows.iter().any(|r| wild(r.b) || r.a.iter().any(|e| wild(e.1)));
        if too_big { (f.lp, f.factor, f.offset) = before; continue; }
        if what == "nothing" { continue; }
        f.steps.push(what.into());
        if !tags.contains(&what) { tags.push(what); }
        done += 1;
    }
    f
}

const CONFIGS: [(usize, Backend); 5] = [(0, Backend::Lu), (1, Backend::Lu), (0, Backend::Rows), (1, Backend::Rows), (2, Backend::Lu)];
const MIDDLE: Opts = Opts { max_rows: 14, max_vars: 14, classes: false, ..SMALL };
const MIDDLE_PRESOLVE: Opts = Opts { max_rows: 14, max_vars: 14, classes: false, ..PRESOLVE };

fn solve(lp: &Lp, (presolves, backend): (usize, Backend), what: &str) -> Result<Outcome, Fail> {
    run(lp.general(), lp.max, presolves, backend).map_err(|mut f| { f.msg = format!("{} (presolve x{}, {:?}): {}", what, presolves, backend, f.msg); f })
}

pub fn c22(cx: &mut Cx) -> Res {
    if cx.index < shipped_runs(cx.thorough) { return shipped(cx); }
    let (lp, class) = match cx.g.weighted(&[3, 3, 3, 3, 2]) {
        0 => gen_lp(&mut cx.g, &SMALL),
        1 => gen_lp(&mut cx.g, &PRESOLVE),
        2 => (gen_lp(&mut cx.g, &MIDDLE).0, "middle"),
        3 => (gen_lp(&mut cx.g, &MIDDLE_PRESOLVE).0, "middle-presolve"),
        _ => {
            let mut lp = crate::lp::larger(&mut cx.g, Palette::Ints);
            for (j, v) in lp.vars.iter_mut().enumerate() { v.name = format!("x{}", j); }
            (lp, "larger")
        }
    };
    cx.tag(class);
    cx.note(lp.render());
    let count = cx.g.range(1, 8);
    let mut tags = Vec::new();
    let f = transform(&mut cx.g, &lp, count, &mut tags);
    for t in tags { cx.tag(t); }
    let c1 = *cx.g.pick(&CONFIGS);
    let c2 = *cx.g.pick(&CONFIGS);
    cx.note(format!("{} then solved with {:?} instead of {:?}", f.steps.join(", "), c2, c1));
    cx.note(f.lp.render());
    cx.nontrivial = lp.n() >= 2 && lp.m() >= 2 && lp.nnz() >= 3 && !f.steps.is_empty();
    let first = solve(&lp, c1, "original")?;
    let second = solve(&f.lp, c2, "equivalent")?;
    cx.tag(first.name());
    compare(&f, &first, &second)
}

fn compare(f: &Formulation, first: &Outcome, second: &Outcome) -> Res {
    ensure!(first.name() == second.name(), format!("verdict:{}-and-{}", first.name(), second.name()), "original is {}, the equivalent problem {}", first.name(), second.name());
    if let (Outcome::Optimal(s), Outcome::Optimal(t)) = (first, second) {
        let expected = s.objective_value.mul(&f.factor.big()).add(&f.offset.big());
        ensure!(expected == t.objective_value, "value", "original has {}, so the equivalent should have {}, has {}", s.objective_value, expected, t.objective_value);
        judge_solution(&f.lp, t, &expected, "equivalent")?;
    }
    Ok(())
}

// ---- files of the project ------------------------------------------------------------------------

/// Published optima (the project's own tests and the README of netlib).
const FILES: &[(&str, f64)] = &[
    ("AFIRO", -464.75314286), ("SC50B", -70.0), ("SC50A", -64.575077059), ("RECIPELP", -266.616), ("SC105", -52.202061212), ("SCAGR7", -2331389.8243),
    ("ADLITTLE", 225494.96316), ("KB2", -1749.9001299), ("STOCFOR1", -41131.976219), ("SHARE2B", -415.73224074),
    ("VTP-BASE", 129831.46246), ("LOTFI", -25.264706062), ("SC205", -52.202061212),
];
fn files(thorough: bool) -> &'static [(&'static str, f64)] { if thorough { FILES } else { &FILES[..5] } }
fn shipped_runs(thorough: bool) -> u64 { files(thorough).len() as u64 * if thorough { 30 } else { 4 } }

fn shipped(cx: &mut Cx) -> Res {
    let k = cx.index as usize;
    let files = files(cx.thorough);
    let (name, published) = files[k % files.len()];
    let path = format!("{}/../repo/tests/netlib/problem_files/{}.SIF", std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()), name);
    let Ok(text) = fs::read_to_string(&path).or_else(|_| fs::read_to_string(format!("/repo/tests/netlib/problem_files/{}.SIF", name))) else { cx.tag("file-missing"); return Ok(()) };
    cx.note(format!("{} shipped with the project", name));
    cx.tag("shipped");
    let doc = match read_free(&text) {
        Read::Doc(d) => d,
        Read::Error(e) => oracle_broken(format!("{}: {}", name, e)),
        Read::Unspecified(e) => oracle_broken(format!("{}: {}", name, e)),
    };
    let lp = match doc.meaning() { Ok(lp) => lp, Err(e) => oracle_broken(format!("{}: {}", name, e)) };
    cx.nontrivial = true;
    let general: GeneralForm<RB> = guard("reading", || -> Result<GeneralForm<RB>, String> {
        let mps = parse_fixed::<Rational64>(&text).map_err(|e| e.to_string())?;
        mps.try_into().map_err(|e: relp::io::error::Inconsistency| e.to_string())
    })?.map_err(|e| Fail::new("rejected", format!("{}: {}", name, e)))?;
    let c1 = (k / files.len()) % 2;
    let first = run(general, lp.max, c1, Backend::Lu)?;
    let Outcome::Optimal(s) = &first else { fail!("shipped-verdict", "{} is reported {}", name, first.name()) };
    judge_solution(&lp, s, &s.objective_value, name)?;
    let got = approx(&s.objective_value);
    ensure!((got - published).abs() <= 1e-6 * published.abs().max(1.0), "published", "{} has optimum {}, reported {}", name, published, got);
    let mut tags = Vec::new();
    let f = transform(&mut cx.g, &lp, if cx.thorough { 12 } else { 6 }, &mut tags);
    for t in tags { cx.tag(t); }
    cx.note(f.steps.join(", "));
    let second = solve(&f.lp, (1 - c1, Backend::Lu), "equivalent")?;
    compare(&f, &first, &second)
}
fn approx(v: &RB) -> f64 {
    let t = format!("{}", v);
    let (neg, t) = match t.strip_prefix('-') { Some(r) => (true, r.to_string()), None => (false, t) };
    let mut it = t.split('/');
    let n = it.next().unwrap_or("0").to_string();
    let d = it.next().unwrap_or("1").to_string();
    // Shorten both by the same number of digits, so that they fit
    let cut = n.len().max(d.len()).saturating_sub(300);
    let short = |s: &str| if s.len() > cut { s[..s.len() - cut].parse::<f64>().unwrap_or(0.0) } else { 0.0 };
    let q = short(&n) / short(&d);
    if neg { -q } else { q }
}
