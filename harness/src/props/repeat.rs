//! C21: the same input gives the same output, here and in another process.
use std::convert::TryInto;
use std::fmt::Debug;

use relp::data::linear_program::elements::LinearProgramType;
use relp::data::linear_program::general_form::{GeneralForm, Scalable};
use relp::io::mps::{parse, parse_fixed, parse_free};

use crate::engine::{guard, hash_str, hash_u64s, Cx, Fail, Res};
use crate::ensure;
use crate::lp::{gen_lp, Lp, SMALL};
use crate::props::mpsdoc::{gen_doc, print, Names};
use crate::props::pipeline::{run, Backend, Outcome};
use crate::props::solve::{FRACTIONS, PRESOLVE};
use crate::q::RB;

type G = GeneralForm<RB>;

fn outcome(o: Outcome) -> String {
    match o { Outcome::Optimal(s) => format!("{:?}", s), o => o.name().to_string() }
}
/// Everything that can be asked about a problem, in words.
fn everything(general: &G, max: bool, deep: bool) -> Result<Vec<(&'static str, String)>, Fail> {
    let mut all = Vec::new();
    let mut presolved = general.clone();
    for k in 0..2 {
        let what = ["presolve", "second presolve"][k];
        match guard(what, || presolved.presolve())? {
            Ok(()) => all.push((what, format!("{:?}", presolved))),
            Err(LinearProgramType::FiniteOptimum(s)) => { all.push((what, format!("{:?}", s))); break; }
            Err(LinearProgramType::Infeasible) => { all.push((what, "infeasible".into())); break; }
            Err(LinearProgramType::Unbounded) => { all.push((what, "unbounded".into())); break; }
        }
    }
    let mut standard = general.clone();
    all.push(("standardize", format!("{:?}", guard("standardize", || standard.standardize())?)));
    all.push(("standard form", format!("{:?}", standard)));
    let mut scaled = general.clone();
    all.push(("scale", format!("{:?}", guard("scale", || scaled.scale())?)));
    all.push(("scaled form", format!("{:?}", scaled)));
    let configs: &[(&'static str, usize, Backend)] = &[("LU", 0, Backend::Lu), ("presolved LU", 1, Backend::Lu), ("rows", 0, Backend::Rows), ("presolved rows", 1, Backend::Rows)];
    for &(what, presolves, backend) in if deep { configs } else { &configs[..2] } {
        all.push((what, outcome(run(general.clone(), max, presolves, backend)?)));
    }
    Ok(all)
}
fn same(first: &[(&'static str, String)], again: &[(&'static str, String)]) -> Res {
    ensure!(first.len() == again.len(), "differs:length", "{} results, then {}", first.len(), again.len());
    for (a, b) in first.iter().zip(again) {
        ensure!(a == b, format!("differs:{}", a.0), "{} gives {:.1500} and then {:.1500}", a.0, a.1, b.1);
    }
    Ok(())
}
fn digest(all: &[(&'static str, String)]) -> u64 {
    hash_u64s(&all.iter().map(|(_, s)| hash_str(s)).collect::<Vec<_>>())
}

pub fn c21(cx: &mut Cx) -> Res {
    if cx.g.chance(1, 6) { return file(cx); }
    let o = match cx.g.weighted(&[2, 4, 1]) { 0 => SMALL, 1 => PRESOLVE, _ => FRACTIONS };
    let (lp, class) = gen_lp(&mut cx.g, &o);
    cx.tag(class);
    cx.note(lp.render());
    cx.nontrivial = lp.n() >= 2 && lp.m() >= 2 && lp.nnz() >= 3;
    let deep = class != "larger";
    let first = everything(&lp.general::<RB>(), lp.max, deep)?;
    if cx.g.bool() {
        // Something else in between
        let (other, _) = loop { let x = gen_lp(&mut cx.g, &o); if x.1 != "larger" { break x } };
        cx.tag("other-in-between");
        everything(&other.general::<RB>(), other.max, false)?;
    }
    // An equal problem, made from scratch
    let again = everything(&lp.clone().general::<RB>(), lp.max, deep)?;
    same(&first, &again)?;
    let third = everything(&lp.general::<RB>(), lp.max, false)?;
    same(&first[..third.len()], &third)?;
    cx.digest = Some(digest(&first));
    if let Some((what, s)) = first.iter().find(|e| e.0 == "LU") { let _ = what; cx.tag(if s == "infeasible" { "infeasible" } else if s == "unbounded" { "unbounded" } else { "optimal" }); }
    Ok(())
}

fn file(cx: &mut Cx) -> Res {
    let doc = gen_doc(&mut cx.g, Names::Common, 5, false);
    let mut lines = doc.lines();
    if cx.g.chance(1, 3) && lines.len() > 2 {
        // Something wrong: errors repeat too
        for _ in 0..cx.g.range(1, 2) {
            let i = cx.g.idx(lines.len());
            if cx.g.bool() { lines.remove(i); } else { let l = lines[i].clone(); lines.insert(i, l); }
            if lines.is_empty() { break; }
        }
    }
    let fixed = cx.g.bool();
    let text = print(&mut cx.g, &lines, fixed);
    cx.tag("file");
    cx.note(&text);
    cx.nontrivial = doc.meaning().map_or(false, |lp: Lp| lp.n() >= 2 && lp.m() >= 2);
    fn shown<T: Debug, E: Debug>(r: &Result<T, E>) -> String { match r { Ok(t) => format!("{:?}", t), Err(e) => format!("{:?}", e) } }
    let read = |text: &str| guard("parsing", || {
        let results = [parse(&text), parse_free(&text), parse_fixed(text)];
        let mut all = Vec::new();
        for (what, r) in ["default", "free", "fixed"].iter().zip(results) {
            all.push((*what, shown(&r)));
            if let Ok(m) = r {
                let g: Result<G, _> = m.try_into();
                all.push(("general form", shown(&g)));
                if let Ok(mut g) = g {
                    if fixed == (*what == "fixed") {
                        let r = g.presolve();
                        all.push(("presolve", format!("{:?} {:?}", r, g)));
                    }
                }
            }
        }
        all
    });
    let first = read(&text)?;
    let again = read(&text.clone())?;
    same(&first, &again)?;
    cx.digest = Some(digest(&first));
    Ok(())
}
