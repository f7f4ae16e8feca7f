//! C14 - C17 and C23: reading MPS files.
use std::convert::TryInto;
use std::error::Error;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

use relp::data::linear_program::elements::{ConstraintRelation, Objective, VariableType};
use relp::data::linear_program::general_form::GeneralForm;
use relp::io::error::{Import, Inconsistency};
use relp::io::import;
use relp::io::mps::number::parse::Parse as _;
use relp::io::mps::{parse, parse_fixed, parse_free, Bound, BoundType, Column, Range, Rhs, Row, MPS};
use relp_num::Rational64;

use crate::engine::{guard, Cx, Fail, Gen, Res};
use crate::props::mpsdoc::{bounds_of, gen_doc, lit, literal, print, read_free, read_layout, Doc, Line, Lit, Names, Read, FIELDS};
use crate::q::{Q, RB};
use crate::{ensure, fail};

type G = GeneralForm<RB>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Reader { Default, Free, Fixed }
impl Reader {
    pub fn run(self, text: &str) -> Result<MPS<Rational64>, Import> {
        match self {
            Reader::Default => parse(&text),
            Reader::Free => parse_free(&text),
            Reader::Fixed => parse_fixed(text),
        }
    }
}

fn walk(e: &(dyn Error + 'static)) -> Result<String, Fail> {
    let shown = guard("displaying an error", || format!("{} {:?}", e, e))?;
    let mut at: Option<&(dyn Error + 'static)> = e.source();
    let mut steps = 0;
    while let Some(s) = at {
        guard("displaying an error", || format!("{} {:?}", s, s))?;
        steps += 1;
        ensure!(steps < 50, "endless-sources", "the source chain of {:?} doesn't end", e);
        at = s.source();
    }
    Ok(shown)
}

fn read(reader: Reader, text: &str) -> Result<Result<MPS<Rational64>, String>, Fail> {
    match guard("parsing", || reader.run(text))? {
        Ok(m) => Ok(Ok(m)),
        Err(e) => Ok(Err(walk(&e)?)),
    }
}
fn convert(mps: MPS<Rational64>) -> Result<Result<G, String>, Fail> {
    match guard("converting", || -> Result<G, Inconsistency> { mps.try_into() })? {
        Ok(m) => Ok(Ok(m)),
        Err(e) => Ok(Err(walk(&e)?)),
    }
}
fn all(reader: Reader, text: &str) -> Result<Result<G, String>, Fail> {
    match read(reader, text)? { Ok(m) => convert(m), Err(e) => Ok(Err(e)) }
}

fn judge_meaning(got: &Result<G, String>, doc: &Doc, what: &str) -> Res {
    match (doc.meaning(), got) {
        (Ok(lp), Ok(g)) => {
            let expected: G = lp.general();
            if *g == expected { return Ok(()); }
            // the order of rows is of no importance, but only two of them make sense
            let mut other = lp.clone();
            other.rows = (0..doc.rows.len()).map(|i| {
                let k = doc.rows.iter().filter(|r| r.0 < doc.rows[i].0).count();
                lp.rows[k].clone()
            }).collect();
            if *g == other.general() { return Ok(()); }
            fail!("meaning", "{}: read as\n{:?}\nbut it says\n{:?}", what, g, expected)
        }
        (Ok(_), Err(e)) => fail!("rejected", "{}: a well-formed file is rejected: {}", what, e),
        (Err(why), Ok(_)) => fail!("accepted", "{}: accepted in spite of {}", what, why),
        (Err(_), Err(_)) => Ok(()),
    }
}

pub fn pick_names(g: &mut Gen) -> Names { *g.pick(&[Names::Common, Names::Spaced, Names::Long]) }
pub fn pick_layout(g: &mut Gen, names: Names) -> (bool, Reader) {
    match names {
        Names::Common => *g.pick(&[(false, Reader::Free), (false, Reader::Default), (true, Reader::Fixed), (true, Reader::Free), (true, Reader::Default)]),
        Names::Spaced => (true, Reader::Fixed),
        Names::Long => (false, *g.pick(&[Reader::Free, Reader::Default])),
    }
}

pub fn c14(cx: &mut Cx) -> Res {
    if cx.g.chance(1, 8) { return built(cx); }
    let names = pick_names(&mut cx.g);
    let tidy = cx.g.chance(3, 4);
    let max = if cx.g.chance(1, 60) { 40 } else { 5 };
    let doc = gen_doc(&mut cx.g, names, max, tidy);
    let (fixed, reader) = pick_layout(&mut cx.g, names);
    let text = print(&mut cx.g, &doc.lines(), fixed);
    cx.note(format!("{:?} reader, {} layout:\n{}", reader, if fixed { "fixed" } else { "free" }, text));
    let meaning = doc.meaning();
    cx.tag(if fixed { "fixed layout" } else { "free layout" });
    match meaning { Ok(_) => cx.tag("well-formed"), Err(why) => cx.tag(why) }
    cx.nontrivial = meaning.is_ok() && doc.rows.len() >= 2 && doc.cols.len() >= 2
        && (doc.ranges.as_ref().is_some_and(|r| !r.is_empty()) || doc.bounds.as_ref().is_some_and(|b| !b.is_empty()));
    let got = all(reader, &text)?;
    judge_meaning(&got, &doc, &format!("{:?} reader", reader))
}

/// A document that never was a file.
fn built(cx: &mut Cx) -> Res {
    let tidy = cx.g.chance(3, 4);
    let max = if cx.g.chance(1, 60) { 40 } else { 5 };
    let mut doc = gen_doc(&mut cx.g, Names::Common, max, tidy);
    if cx.g.bool() { for r in doc.ranges.iter_mut().flatten() { for e in &mut r.1 { if cx.g.chance(1, 3) { e.1 = lit(&mut cx.g); } } } }
    let twice = cx.g.chance(1, 10) && doc.ranges.iter().flatten().any(|r| !r.1.is_empty());
    if twice {
        // the same row in another group
        let groups = doc.ranges.as_mut().unwrap();
        let at = groups.iter().position(|r| !r.1.is_empty()).unwrap();
        let k = cx.g.idx(groups[at].1.len());
        let entry = (groups[at].1[k].0, lit(&mut cx.g));
        groups.push(("TWICE".into(), vec![entry]));
    }
    let semi = if cx.g.chance(1, 10) { Some((cx.g.idx(doc.cols.len()), lit(&mut cx.g).q, lit(&mut cx.g).q)) } else { None };
    cx.note(format!("{:?}, semicontinuous {:?}", doc, semi));
    let meaning = doc.meaning();
    cx.tag("built");
    cx.nontrivial = meaning.is_ok() && doc.rows.len() >= 2 && doc.cols.len() >= 2;
    let sorted = |entries: &[(usize, Lit)]| -> Vec<(usize, Rational64)> {
        let mut v: Vec<_> = entries.iter().filter(|e| e.0 > 0).map(|e| (e.0 - 1, e.1.q.r64())).collect();
        v.sort_by_key(|e| e.0);
        v
    };
    let with_value = |t: &str, v: &Option<Lit>| {
        let v = v.as_ref().map_or(Q::ZERO, |l| l.q).r64();
        match t {
            "UP" => BoundType::UpperContinuous(v),
            "LO" => BoundType::LowerContinuous(v),
            "FX" => BoundType::Fixed(v),
            "FR" => BoundType::Free,
            "MI" => BoundType::LowerMinusInfinity,
            "PL" => BoundType::UpperInfinity,
            "BV" => BoundType::Binary,
            "LI" => BoundType::LowerInteger(v),
            _ => BoundType::UpperInteger(v),
        }
    };
    let mut bounds: Vec<Bound<Rational64>> = doc.bounds.iter().flatten()
        .map(|gr| Bound { name: gr.0.clone(), values: gr.1.iter().map(|(t, j, v)| (*j, with_value(t, v))).collect() }).collect();
    if let Some((j, l, u)) = semi {
        let at = cx.g.upto(bounds.len());
        bounds.insert(at, Bound { name: "SEMI".into(), values: vec![(j, BoundType::SemiContinuous(l.r64(), u.r64()))] });
    }
    let mps = MPS::new(
        doc.name.clone(),
        if matches!(doc.sense, Some("MAX" | "MAXIMIZE")) { Objective::Maximize } else { Objective::Minimize },
        doc.cost.clone(),
        doc.cols.iter().enumerate().filter_map(|(j, c)| c.entries.iter().find(|e| e.0 == 0).map(|e| (j, e.1.q.r64()))).collect(),
        doc.rows.iter().map(|r| Row { name: r.0.clone(), constraint_type: match r.1 { 'L' => ConstraintRelation::Less, 'G' => ConstraintRelation::Greater, _ => ConstraintRelation::Equal } }).collect(),
        doc.cols.iter().map(|c| Column { name: c.name.clone(), variable_type: if c.int { VariableType::Integer } else { VariableType::Continuous }, values: sorted(&c.entries) }).collect(),
        doc.rhs.iter().flatten().map(|gr| Rhs { name: gr.0.clone(), values: sorted(&gr.1) }).collect(),
        doc.ranges.iter().flatten().map(|gr| Range { name: gr.0.clone(), values: sorted(&gr.1) }).collect(),
        bounds,
    );
    let got = convert(mps)?;
    if semi.is_some() {
        ensure!(got.is_err(), "accepted", "accepted in spite of a semicontinuous variable");
        return Ok(());
    }
    judge_meaning(&got, &doc, "without a file")
}

pub fn c15(cx: &mut Cx) -> Res {
    let names = pick_names(&mut cx.g);
    let doc = gen_doc(&mut cx.g, names, 5, true);
    let lines = doc.lines();
    let mut have: Vec<(String, Result<MPS<Rational64>, String>)> = Vec::new();
    let n = cx.g.range(2, 4);
    cx.nontrivial = doc.rows.len() >= 2 && doc.cols.len() >= 2;
    let mut layouts = 0;
    for k in 0..n {
        let (fixed, reader) = pick_layout(&mut cx.g, names);
        layouts |= if fixed { 1 } else { 2 };
        let text = print(&mut cx.g, &lines, fixed);
        cx.note(format!("{}: {:?} reader, {} layout:\n{}", k, reader, if fixed { "fixed" } else { "free" }, text));
        let got = read(reader, &text)?;
        if let Err(e) = &got { fail!("rejected", "text {} is rejected by the {:?} reader: {}", k, reader, e); }
        have.push((format!("text {} by the {:?} reader", k, reader), got));
    }
    cx.tag(match layouts { 1 => "fixed layouts", 2 => "free layouts", _ => "both layouts" });
    let (first, rest) = have.split_first().unwrap();
    for other in rest {
        ensure!(first.1 == other.1, "layout", "{} differs from {}:\n{:?}\n{:?}", first.0, other.0, first.1, other.1);
    }
    // and moving entries around within a column or group, or sections' lines of different rows, changes nothing
    let mut moved = doc.clone();
    for c in &mut moved.cols { let p = cx.g.permutation(c.entries.len()); c.entries = p.iter().map(|&i| c.entries[i].clone()).collect(); }
    for groups in [&mut moved.rhs, &mut moved.ranges].into_iter().flatten() {
        for gr in groups { let p = cx.g.permutation(gr.1.len()); gr.1 = p.iter().map(|&i| gr.1[i].clone()).collect(); }
    }
    let (fixed, reader) = pick_layout(&mut cx.g, names);
    let text = print(&mut cx.g, &moved.lines(), fixed);
    cx.note(format!("moved, {:?} reader:\n{}", reader, text));
    let a = convert(match read(reader, &text)? { Ok(m) => m, Err(e) => fail!("rejected", "the text with entries in another order is rejected: {}", e) })?;
    let b = convert(have.into_iter().next().unwrap().1.unwrap())?;
    ensure!(a == b, "order", "entries in another order give\n{:?}\ninstead of\n{:?}", a, b);
    Ok(())
}

fn random_digits(g: &mut Gen, n: usize) -> String {
    let style = g.idx(3);
    (0..n).map(|_| match style { 0 => (b'0' + g.idx(10) as u8) as char, 1 => if g.chance(1, 4) { '7' } else { '0' }, _ => *g.pick(&['9', '0', '1']) }).collect()
}

pub fn c16(cx: &mut Cx) -> Res {
    let g = &mut cx.g;
    let mut text = match g.weighted(&[6, 3, 2, 3]) {
        0 => {
            let (a, b) = (g.upto(12), g.upto(12));
            let sign = *g.pick(&["", "-", "+"]);
            let (a, b) = (random_digits(g, a), random_digits(g, b));
            if b.is_empty() && g.bool() { format!("{}{}", sign, a) } else { format!("{}{}.{}", sign, a, b) }
        }
        1 => { // near the limits of 64 bits
            let k = g.upto(3);
            let near = *g.pick(&[u64::MAX, u64::MAX / 10, u64::MAX / 100, i64::MAX as u64, u32::MAX as u64, 10_000_000_000_000_000_000, 1 << 63]);
            let v = (near as u128) + g.below(7) as u128;
            let v = v.saturating_sub(3);
            let mut s = v.to_string();
            if g.bool() { let at = g.upto(s.len()); s.insert(at, '.'); }
            let zeros = "0".repeat(g.upto(4));
            let s = match k { 0 => s, 1 => format!("{}{}", zeros, s), 2 => if s.contains('.') { format!("{}{}", s, zeros) } else { s }, _ => format!("{}{}", s, g.below(10)) };
            format!("{}{}", g.pick(&["", "-", "+"]), s)
        }
        2 => { // many zeros and decimals
            let (a, b, c) = (g.upto(25), g.upto(25), g.upto(25));
            let digits = g.range(1, 6);
            format!("{}{}{}.{}{}{}", g.pick(&["", "-"]), "0".repeat(a), random_digits(g, 2), "0".repeat(b), random_digits(g, digits), "0".repeat(c))
        }
        _ => { // not quite numbers
            let n = g.upto(6);
            (0..n).map(|_| *g.pick(&['1', '0', '.', '-', '+', '5', 'e', ' ', '_', 'x', 'é', '٣', ',', '\u{0}'])).collect()
        }
    };
    if g.chance(1, 20) { // damage
        let at = g.upto(text.chars().count());
        let c = *g.pick(&['.', '-', '+', ' ', 'a', '9', '\u{660}', '½']);
        text = text.chars().take(at).chain([c]).chain(text.chars().skip(at)).collect();
    }
    cx.note(format!("{:?}", text));
    let got = match guard("reading a number", || Rational64::parse(&text))? {
        Ok(v) => Some(v),
        Err(e) => { walk(&e)?; None }
    };
    cx.nontrivial = text.chars().filter(|c| c.is_ascii_digit()).count() >= 2;
    match literal(&text) {
        Ok(Some(q)) => {
            cx.tag("number");
            let Some(v) = got.clone() else { fail!("rejected", "{:?} is rejected", text) };
            ensure!(RB::from(v.clone()) == q.big(), "value", "{:?} is read as {}, it is {}", text, v, q);
            // equal numbers are represented in the same way
            ensure!(format!("{}", v) == format!("{}", q), "representation", "{:?} is represented as {}, it is {}", text, v, q);
        }
        Ok(None) => {
            cx.tag("large number");
            if let Some(v) = got.clone() { ensure!(big_literal(&text) == RB::from(v.clone()), "value", "{:?} is read as {}", text, v); }
        }
        Err(()) => {
            cx.tag("not a number");
            let exponent = text.contains(['e', 'E']);
            if let Some(v) = &got { if !exponent { fail!("accepted", "{:?} is read as {}", text, v); } }
        }
    }
    // in a file
    if !text.is_empty() && !text.chars().any(char::is_whitespace) {
        let file = format!("NAME T\nROWS\n N C\n E R\nCOLUMNS\n X R 1 C {}\n Y C 1 R {}\nRHS\n B R {}\nENDATA\n", text, text, text);
        let general = all(Reader::Free, &file)?;
        match (&got, general) {
            (Some(_), Ok(general)) => {
                if let Ok(Some(q)) = literal(&text) {
                    let mut doc = crate::lp::Lp { max: false, fixed: crate::q::Q::ZERO, vars: vec![], rows: vec![] };
                    for (name, cost) in [("X", q), ("Y", crate::q::Q::ONE)] {
                        doc.vars.push(crate::lp::Var { name: name.into(), lo: Some(crate::q::Q::ZERO), hi: None, cost, int: false });
                    }
                    let mut a = vec![(0, crate::q::Q::ONE)];
                    if !q.is_zero() { a.push((1, q)); }
                    doc.rows.push(crate::lp::Row { kind: crate::lp::Kind::E, b: q, a });
                    ensure!(general == doc.general::<RB>(), "in-file", "a file with the number {:?} is read as {:?}", text, general);
                }
            }
            (None, Err(_)) => {}
            (Some(v), Err(e)) => fail!("in-file", "{:?} is read as {}, but rejected in a file: {}", text, v, e),
            (None, Ok(g)) => fail!("in-file", "{:?} is rejected, but accepted in a file: {:?}", text, g),
        }
    }
    Ok(())
}

/// Value of a literal of any length.
fn big_literal(text: &str) -> RB {
    let neg = text.starts_with('-');
    let digits = text.trim_start_matches(['-', '+']);
    let ten = crate::q::Q::int(10).big();
    let mut v = crate::q::Q::ZERO.big();
    let mut scale = crate::q::Q::ONE.big();
    let mut seen = false;
    for c in digits.chars() {
        if c == '.' { seen = true; continue; }
        v = v * &ten + crate::q::Q::int(c as i64 - '0' as i64).big();
        if seen { scale = scale * &ten; }
    }
    let v = v / scale;
    if neg { -v } else { v }
}

/// Put one contradiction in a well-formed document.
fn contradict(g: &mut Gen, doc: &mut Doc) -> Option<(&'static str, Vec<Line>)> {
    let choice = g.idx(30);
    let mut lines;
    let at = |lines: &[Line], f: &dyn Fn(&Line) -> bool| lines.iter().position(|l| f(l));
    let header = |h: &str| Line::Header(h.to_string());
    let m = doc.rows.len();
    let n = doc.cols.len();
    let what = match choice {
        0 => { if m == 0 { return None; } let k = g.idx(m); doc.rows.insert(g.upto(m), doc.rows[k].clone()); doc.cost_at = 0; // names only: entries by index stay right for the text
               lines = doc.lines(); return Some(("duplicate row name", lines)); }
        1 => { if m == 0 { return None; } let k = g.idx(m); doc.rows[k].0 = doc.cost.clone(); "constraint named as the cost row" }
        2 => { let k = g.idx(n); let l = lit(g); let e = doc.cols[k].entries[g.idx(doc.cols[k].entries.len())].0; doc.cols[k].entries.push((e, l)); "duplicate entry in a column" }
        3 => { let mut c = doc.cols[g.idx(n)].clone(); if n < 2 { return None; } c.entries.truncate(1); let last = doc.cols.last().unwrap(); if last.name == c.name { return None; } doc.cols.push(c); "column listed twice" }
        4 => { if m == 0 { return None; } let (i, l) = (1 + g.idx(m), lit(g)); doc.rhs.get_or_insert_default().push(("R".into(), vec![(i, l.clone()), (i, l)])); "duplicate entry in right-hand side" }
        5 => { let l = lit(g); doc.rhs.get_or_insert_default().push(("R".into(), vec![(0, l)])); "right-hand side of the cost row" }
        6 => { let l = lit(g); doc.ranges.get_or_insert_default().push(("R".into(), vec![(0, l)])); "range of the cost row" }
        7 => { if m == 0 { return None; } let (i, l) = (1 + g.idx(m), lit(g)); let r = doc.ranges.get_or_insert_default(); r.push(("R1".into(), vec![(i, l.clone())])); r.push(("R2".into(), vec![(i, l)])); "two ranges for a row" }
        8 => { // conflicting right-hand sides
            if m == 0 { return None; }
            let i = 1 + g.idx(m);
            let (a, b) = (lit(g), lit(g));
            if a.q == b.q { return None; }
            if doc.rows[i - 1].1 != 'E' { let l = lit(g); if l.q.is_zero() { return None; } let r = doc.ranges.get_or_insert_default(); if r.iter().any(|gr| gr.1.iter().any(|e| e.0 == i)) { return None; } r.push(("R".into(), vec![(i, l)])); }
            let r = doc.rhs.get_or_insert_default();
            r.push(("A".into(), vec![(i, a)]));
            r.push(("B".into(), vec![(i, b)]));
            "conflicting right-hand sides"
        }
        9 | 10 => { // conflicting bounds
            let j = g.idx(n);
            let b = doc.bounds.get_or_insert_default();
            let mut new = Vec::new();
            for _ in 0..g.range(1, 3) {
                let t = *g.pick(&crate::props::mpsdoc::BOUND_TYPES);
                let v = if crate::props::mpsdoc::takes_value(t) { Some(lit(g)) } else { None };
                new.push((t.to_string(), j, v));
            }
            b.push(("BX".into(), new));
            if bounds_of(b, j).is_ok() { return None; }
            "conflicting bounds"
        }
        _ => "",
    };
    lines = doc.lines();
    if !what.is_empty() { return Some((what, lines)); }
    let entries: Vec<usize> = (0..lines.len()).filter(|&k| matches!(lines[k], Line::Entry(..))).collect();
    let bounds: Vec<usize> = (0..lines.len()).filter(|&k| matches!(lines[k], Line::Bound(..))).collect();
    let what = match choice {
        11 => { let k = *g.pick(&entries); if let Line::Entry(_, r, _) = &mut lines[k] { *r = "?NOROW".into(); } "unknown row" }
        12 => { if bounds.is_empty() { return None; } let k = *g.pick(&bounds); if let Line::Bound(_, _, c, _) = &mut lines[k] { *c = "?NOCOL".into(); } "unknown column" }
        13 => { if bounds.is_empty() { return None; } let k = *g.pick(&bounds); if let Line::Bound(t, ..) = &mut lines[k] { *t = g.pick(&["XX", "SC", "up", "U", "B", "FI", "N"]).to_string(); } "unknown bound type" }
        14 => { let k = at(&lines, &|l| matches!(l, Line::RowType(..)))?; if let Line::RowType(t, _) = &mut lines[k] { *t = g.pick(&["X", "n", "GE", "Q", "=", "NN"]).to_string(); } "unknown row type" }
        15 => { let k = *g.pick(&entries); if let Line::Entry(_, _, v) = &mut lines[k] { *v = g.pick(&["abc", "1,5", "--1", "1.2.3", "-", ".", "1-", "0x1", "NaN", "inf", "é1", "+-2", "१"]).to_string(); } "not a number" }
        16 => { let k = *g.pick(&entries); if let Line::Entry(_, _, v) = &mut lines[k] { *v = String::new(); } return if g.bool() { Some(("missing number", lines)) } else { None }; }
        17 => { if bounds.is_empty() { return None; } let k = *g.pick(&bounds); if let Line::Bound(_, _, _, v) = &mut lines[k] { if v.is_none() { return None; } *v = None; } "missing bound value" }
        18 => { let k = at(&lines, &|l| *l == header("ROWS"))?; lines.remove(k); "ROWS missing" }
        19 => { let k = at(&lines, &|l| *l == header("COLUMNS"))?; lines.remove(k); "COLUMNS missing" }
        20 => { lines.pop(); "ENDATA missing" }
        21 => { lines.remove(0); "NAME missing" }
        22 => { let k = at(&lines, &|l| matches!(l, Line::RowType(t, _) if t == "N"))?; lines.remove(k);
                "cost row missing" }
        23 => { let k = at(&lines, &|l| matches!(l, Line::RowType(..)))?; lines.insert(k, Line::RowType("N".into(), "COST2".into())); "two cost rows" }
        24 => { let (a, b) = (at(&lines, &|l| *l == header("RHS"))?, at(&lines, &|l| *l == header("BOUNDS"))?); lines.swap(a, b);
                // sections without any lines can be mistaken for each other only when both are empty; still out of order
                "sections out of order" }
        25 => { lines.insert(g.idx(lines.len()), header(*g.pick(&["FOO", "columns", "SOS", "OBJSENSE", "NAME", "RHSX", "EN"]))); "unknown header" }
        26 => { let l = lines[g.idx(lines.len())].clone(); lines.push(l); "lines after the end" }
        27 => { let k = at(&lines, &|l| matches!(l, Line::Marker(_)))?; lines[k] = Line::Marker("'INTXXX'".into()); "unknown marker" }
        28 => { let k = at(&lines, &|l| *l == header("ENDATA"))?; lines.insert(k, header(*g.pick(&["ROWS", "COLUMNS", "RHS", "RANGES"]))); if !matches!(lines[k], Line::Header(ref h) if h == "ROWS" || h == "COLUMNS") && !lines[..k].contains(&header("BOUNDS")) { return None; } "repeated section" }
        _ => { let k = at(&lines, &|l| matches!(l, Line::Sense(_)))?; lines[k] = Line::Sense("UPWARDS".into()); "unknown sense" }
    };
    Some((what, lines))
}

pub fn c17(cx: &mut Cx) -> Res {
    match cx.g.weighted(&[4, 5, 2, 1]) {
        0 => contradictory(cx),
        1 => mutated(cx),
        2 => anything(cx),
        _ => near(cx),
    }
}

fn contradictory(cx: &mut Cx) -> Res {
    let names = pick_names(&mut cx.g);
    let mut doc = gen_doc(&mut cx.g, names, 4, true);
    let (fixed, reader) = pick_layout(&mut cx.g, names);
    let Some((what, lines)) = contradict(&mut cx.g, &mut doc) else { cx.tag("no contradiction"); return Ok(()) };
    let text = print(&mut cx.g, &lines, fixed);
    cx.note(format!("{:?} reader, {}:\n{}", reader, what, text));
    cx.tag(what);
    // in the free layout an empty field makes the line shorter, and what is left can be something else
    if what == "missing number" && !fixed {
        if let Read::Doc(_) | Read::Unspecified(_) = read_free(&text) { all(reader, &text)?; return Ok(()); }
    }
    cx.nontrivial = true;
    let got = all(reader, &text)?;
    ensure!(got.is_err(), format!("accepted:{}", what.replace(' ', "-")), "accepted in spite of: {}\n{:?}", what, got);
    Ok(())
}

/// Compare with the independent reader, where it has an opinion.
fn judge_text(cx: &mut Cx, text: &str) -> Res {
    let got = all(Reader::Free, text)?;
    match read_free(text) {
        Read::Doc(doc) => {
            cx.tag(if doc.meaning().is_ok() { "still well-formed" } else { "contradictory" });
            judge_meaning(&got, &doc, "free reader")?;
        }
        Read::Error(why) => {
            cx.tag("malformed");
            ensure!(got.is_err(), format!("accepted:{}", why.replace(' ', "-")), "accepted in spite of: {}\n{:?}", why, got);
        }
        Read::Unspecified(_) => cx.tag("unspecified"),
    }
    let other = all(Reader::Default, text)?;
    ensure!(other.is_ok() == got.is_ok(), "readers", "parse and parse_free don't agree: {:?} {:?}", other, got);
    let fixed = all(Reader::Fixed, text)?;
    match read_layout(text, true) {
        Read::Doc(doc) => {
            cx.tag(if doc.meaning().is_ok() { "fixed: still well-formed" } else { "fixed: contradictory" });
            judge_meaning(&fixed, &doc, "fixed reader")?;
        }
        Read::Error(why) => {
            cx.tag("fixed: malformed");
            ensure!(fixed.is_err(), format!("fixed-accepted:{}", why.replace(' ', "-")), "accepted by the fixed reader in spite of: {}\n{:?}", why, fixed);
        }
        Read::Unspecified(_) => cx.tag("fixed: unspecified"),
    }
    Ok(())
}

pub const TOKENS: [&str; 40] = ["NAME", "ROWS", "COLUMNS", "RHS", "RANGES", "BOUNDS", "ENDATA", "OBJSENSE", "MAX", "MIN", " ", "\n", "\n\n", "*", "'MARKER'", "'INTORG'", "'INTEND'",
    "N", "L", "G", "E", "UP", "LO", "FR", "MI", "PL", "BV", "FX", "SC", "UI", "1", "-", ".", "99999999999999999999", "0.00000000000000000000001", "é", "\u{a0}", "\t", "\r", "    X         C                    1   R                    1"];

fn mutated(cx: &mut Cx) -> Res {
    let names = pick_names(&mut cx.g);
    let tidy = cx.g.bool();
    let doc = gen_doc(&mut cx.g, names, 3, tidy);
    let fixed = match names { Names::Common => cx.g.bool(), Names::Spaced => true, Names::Long => false };
    let text = print(&mut cx.g, &doc.lines(), fixed);
    let text = if fixed && cx.g.chance(3, 4) { mutate_fields(&mut cx.g, &text) } else { mutate(&mut cx.g, text) };
    cx.note(&text);
    cx.nontrivial = text.lines().count() >= 5;
    judge_text(cx, &text)
}
/// A few random changes to a text.
pub fn mutate(g: &mut Gen, mut text: String) -> String {
    let n = g.range(1, 4);
    for _ in 0..n {
        match g.idx(10) {
            0 => { let at = cut(&text, g.upto(text.len())); text.truncate(at); }
            1 => { let at = cut(&text, g.upto(text.len())); let c = *g.pick(&TOKENS); text.insert_str(at, c); }
            2 => { let a = cut(&text, g.upto(text.len())); let b = cut(&text, (a + g.upto(8)).min(text.len())); text.replace_range(a..b, ""); }
            3..=6 => {
                let mut lines: Vec<String> = text.lines().map(String::from).collect();
                if lines.is_empty() { continue; }
                let (a, b) = (g.idx(lines.len()), g.idx(lines.len()));
                match g.idx(5) {
                    0 => { lines.remove(a); }
                    1 => { let l = lines[a].clone(); lines.insert(b, l); }
                    2 => lines.swap(a, b),
                    3 => { let l = lines.remove(a); lines.insert(b.min(lines.len()), l); }
                    _ => { let at = cut(&lines[a], g.upto(lines[a].len())); lines[a].truncate(at); }
                }
                text = lines.join("\n");
            }
            7 | 8 => { // exchange or replace words
                let mut lines: Vec<String> = text.lines().map(String::from).collect();
                if lines.is_empty() { continue; }
                let (a, b) = (g.idx(lines.len()), g.idx(lines.len()));
                let wa: Vec<&str> = lines[a].split_whitespace().collect();
                let wb: Vec<&str> = lines[b].split_whitespace().collect();
                if wa.is_empty() || wb.is_empty() { continue; }
                let from = *g.pick(&wa);
                let to = if g.bool() { *g.pick(&wb) } else { *g.pick(&TOKENS) };
                lines[a] = lines[a].replacen(from, to, 1);
                text = lines.join("\n");
            }
            _ => { let at = cut(&text, g.upto(text.len())); if let Some(c) = char::from_u32(g.below(0x3000) as u32) { text.insert(at, c); } }
        }
    }
    text
}
/// A few random changes to the fields of a fixed layout text.
fn mutate_fields(g: &mut Gen, text: &str) -> String {
    let mut lines: Vec<String> = text.lines().map(String::from).collect();
    for _ in 0..g.range(1, 3) {
        let (a, b) = (g.idx(lines.len()), g.idx(lines.len()));
        if !lines[a].is_ascii() || !lines[b].is_ascii() { continue; }
        let take = |line: &str, k: usize| { let (lo, hi) = FIELDS[k]; line[lo.min(line.len())..hi.min(line.len())].trim().to_string() };
        let put = |line: &mut String, k: usize, text: &str| {
            let (lo, hi) = FIELDS[k];
            while line.len() < hi { line.push(' '); }
            let text = &text[..text.len().min(hi - lo)];
            let new = if matches!(k, 3 | 5) { format!("{:>w$}", text, w = hi - lo) } else { format!("{:<w$}", text, w = hi - lo) };
            line.replace_range(lo..hi, &new);
        };
        let k = g.idx(6);
        let (like, unlike) = (match k { 1 => *g.pick(&[2, 4]), 2 => *g.pick(&[1, 4]), 3 => 5, 4 => *g.pick(&[1, 2]), 5 => 3, _ => 0 }, g.idx(6));
        match g.idx(9) {
            0 => put(&mut lines[a], k, ""),
            1 | 2 => { let other = take(&lines[b], k); put(&mut lines[a], k, &other); }
            3 => { let other = take(&lines[b], like); put(&mut lines[a], k, &other); }
            4 => { let other = take(&lines[b], unlike); put(&mut lines[a], k, &other); }
            5 => { let t = *g.pick(&TOKENS); if t.is_ascii() && !t.contains(['\n', '\t', '\r']) { put(&mut lines[a], k, t.trim()); } }
            6 => { let l = lines[a].clone(); lines.insert(b, l); }
            7 => { if lines.len() > 1 { lines.remove(a); } }
            _ => { let at = g.upto(lines[a].len()); lines[a].truncate(at); }
        }
    }
    lines.join("\n")
}
fn cut(text: &str, mut at: usize) -> usize { while !text.is_char_boundary(at) { at -= 1; } at }

fn anything(cx: &mut Cx) -> Res {
    let g = &mut cx.g;
    let n = g.upto(40);
    let mut text = String::new();
    let plain = g.bool();
    if g.bool() { text.push_str("NAME T\nROWS\n"); }
    for _ in 0..n {
        if plain { text.push_str(g.pick::<&str>(&TOKENS)); if g.bool() { text.push(' '); } }
        else { text.push(char::from_u32(match g.idx(3) { 0 => g.below(128), 1 => g.below(0x800), _ => g.below(0x1_1000) } as u32).unwrap_or(' ')); }
    }
    cx.note(format!("{:?}", text));
    judge_text(cx, &text)
}

/// A valid frame around lines that are made up of tokens.
fn near(cx: &mut Cx) -> Res {
    let g = &mut cx.g;
    let mut text = String::from("NAME T\nROWS\n N C\n L R\n G S\nCOLUMNS\n X C 1 R 1\n");
    for section in ["", "RHS\n", "RANGES\n", "BOUNDS\n"] {
        text.push_str(section);
        for _ in 0..g.upto(3) {
            text.push(' ');
            for _ in 0..g.upto(6) { text.push_str(g.pick::<&str>(&["X", "R", "S", "C", "1", "-2", "B", "UP", "LO", "MI", "FR", "Y", "0", ".5", "'MARKER'", "'INTORG'"])); text.push(' '); }
            text.push('\n');
        }
    }
    text.push_str("ENDATA\n");
    cx.note(&text);
    cx.nontrivial = true;
    judge_text(cx, &text)
}

static COUNTER: AtomicU64 = AtomicU64::new(0);
/// A directory of our own, removed afterwards.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let dir = base.join(format!("relp-verif-{}-{}", std::process::id(), COUNTER.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&dir).expect("scratch directory");
        Scratch(dir)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }

pub fn c23(cx: &mut Cx) -> Res {
    let names = pick_names(&mut cx.g);
    let tidy = cx.g.bool();
    let mut doc = gen_doc(&mut cx.g, names, 4, tidy);
    let fixed = match names { Names::Common => cx.g.bool(), Names::Spaced => true, Names::Long => false };
    let lines = if cx.g.chance(1, 4) { contradict(&mut cx.g, &mut doc).map_or(vec![], |c| c.1) } else { doc.lines() };
    let text = print(&mut cx.g, &lines, fixed);
    let g = &mut cx.g;
    let mut bytes = text.clone().into_bytes();
    let valid = if g.chance(1, 8) {
        let at = g.upto(bytes.len());
        let junk: &[u8] = g.pick::<&[u8]>(&[b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf5\x80"]);
        bytes.splice(at..at, junk.iter().copied());
        std::str::from_utf8(&bytes).is_ok()
    } else { true };
    let stem = g.pick::<&str>(&["a", "problem", "two.dots", ".hidden", "spa ce", "ünï", "a.mps.gz", "x.SIF.bak"]).to_string();
    let ext = *g.pick(&["mps", "SIF", "mps", "SIF", "MPS", "sif", "txt", "", "lp", "mps2", "gz", "mp", "ümps"]);
    let file = if ext.is_empty() { stem.clone() } else { format!("{}.{}", stem, ext) };
    let kind = g.weighted(&[8, 1, 1, 1, 1]);
    cx.note(format!("file {:?}, kind {}, valid {}:\n{}", file, kind, valid, text));
    let scratch = Scratch::new();
    let mut path = scratch.0.join(&file);
    match kind {
        0 => fs::write(&path, &bytes).expect("writing"),
        1 => {} // missing
        2 => fs::create_dir(&path).expect("directory"),
        3 => { fs::write(&path, &bytes).expect("writing"); path = path.join("below"); path.set_extension(ext); }
        _ => { #[cfg(unix)] { use std::os::unix::ffi::OsStringExt;
                 let mut name = b"odd\xff.".to_vec(); name.extend(ext.bytes()); if cx.g.bool() { name.push(0xfe); }
                 path = scratch.0.join(std::ffi::OsString::from_vec(name)); fs::write(&path, &bytes).expect("writing"); } }
    }
    let extension = path.extension().map(|e| e.to_owned());
    let known = extension.as_ref().and_then(|e| e.to_str()).is_some_and(|e| e == "mps" || e == "SIF");
    let case = extension.as_ref().and_then(|e| e.to_str()).is_some_and(|e| !known && (e.eq_ignore_ascii_case("mps") || e.eq_ignore_ascii_case("sif")));
    let readable = matches!(kind, 0 | 4) && valid;
    cx.tag(match (kind, valid) { (0, true) => "file", (1, _) => "missing", (2, _) => "directory", (3, _) => "below a file", (_, false) => "not UTF-8", _ => "odd name" });
    cx.tag(if known { "known extension" } else { "unknown extension" });
    cx.nontrivial = readable && known;
    enum Got { Value(Result<G, String>), Io, Extension, Parse }
    let shown = path.clone();
    let got = guard("importing", || -> Result<Got, Fail> {
        Ok(match import::<RB>(&path) {
            Ok(t) => Got::Value(match t.try_into() { Ok(g) => Ok(g), Err(e) => Err(walk(&e)?) }),
            Err(e) => {
                walk(&e)?;
                match e { Import::IO(_) => Got::Io, Import::FileExtension(_) => Got::Extension, Import::Parse(_) | Import::LinearProgram(_) => Got::Parse }
            }
        })
    })??;
    match &got {
        Got::Value(_) | Got::Parse => {
            ensure!(readable && (known || case), "accepted", "{:?} is read", shown);
            let expected = all(Reader::Default, &text)?;
            match (&got, &expected) {
                (Got::Value(Ok(a)), Ok(b)) => ensure!(a == b, "differs", "importing gives\n{:?}\nparsing\n{:?}", a, b),
                (Got::Value(Err(_)) | Got::Parse, Err(_)) => {}
                _ => fail!("differs", "importing fails: {}, parsing gives {:?}", !matches!(got, Got::Value(Ok(_))), expected),
            }
        }
        Got::Io => ensure!(!readable, "error", "an input error for {:?}", shown),
        Got::Extension => ensure!(!known, "error", "{:?} has a known extension", shown),
    }
    Ok(())
}
