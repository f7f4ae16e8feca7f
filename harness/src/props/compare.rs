//! C24: comparing solutions.
use relp::data::linear_program::solution::Solution;

use crate::engine::{guard, Cx, Gen, Res};
use crate::ensure;
use crate::q::{FromQ, Q, RB};

fn name(g: &mut Gen, i: usize) -> String {
    // Distinct whatever the style, and easy to confuse
    match g.idx(6) {
        0 => format!("x{}", i),
        1 => format!("x{}", "x".repeat(i)),
        2 => format!("\u{e9}{}", i),
        3 => format!(" {}", i),
        4 => format!("X{}", i),
        _ => if i == 0 { String::new() } else { format!("{}", i) },
    }
}

trait Val: PartialEq + Clone + std::fmt::Display { fn of(v: i64) -> Self; }
impl Val for RB { fn of(v: i64) -> RB { <RB as FromQ>::from_q(Q::new(v as i128, 3)) } }
impl Val for i64 { fn of(v: i64) -> i64 { v } }
impl Val for String { fn of(v: i64) -> String { v.to_string() } }

pub fn c24(cx: &mut Cx) -> Res {
    match cx.g.idx(3) { 0 => judge::<RB>(cx), 1 => judge::<i64>(cx), _ => judge::<String>(cx) }
}

fn judge<V: Val>(cx: &mut Cx) -> Res {
    let n = match cx.g.idx(4) { 0 => cx.g.upto(9), 1 => cx.g.range(9, 11), 2 => cx.g.range(10, 20), _ => cx.g.range(10, 60) };
    let style = cx.g.bool();
    let spread = *cx.g.pick(&[1i64, 2, 30]);
    let names: Vec<String> = (0..n).map(|i| { if style { format!("x{}", i) } else { name(&mut cx.g, i) } }).collect();
    let a: Vec<i64> = (0..n).map(|_| cx.g.int(spread)).collect();
    // Some values changed, some names changed, another order
    let (num, den) = *cx.g.pick(&[(0, 1), (1, 10), (1, 2), (9, 10), (1, 1)]);
    let b: Vec<i64> = a.iter().map(|&v| if cx.g.chance(num, den) { cx.g.int(spread) } else { v }).collect();
    let mut other_names = names.clone();
    if n > 0 && cx.g.chance(1, 4) {
        let i = cx.g.idx(n);
        other_names[i] = match cx.g.idx(3) { 0 => format!("{} ", names[i]), 1 => "another".into(), _ => names[i].to_uppercase() + "Y" };
        if names.contains(&other_names[i]) { other_names[i] = format!("other{}", i); }
        cx.tag("other-name");
    }
    let order = cx.g.permutation(n);
    let mut first: Vec<(String, V)> = (0..n).map(|i| (names[i].clone(), V::of(a[i]))).collect();
    let mut second: Vec<(String, V)> = order.iter().map(|&i| (other_names[i].clone(), V::of(b[i]))).collect();
    // A name listed twice, on one side or on both
    let twice = n >= 2 && cx.g.chance(1, 8);
    if twice {
        cx.tag("name-twice");
        let (i, k) = (cx.g.idx(n), cx.g.idx(n));
        if i != k {
            let sides = cx.g.idx(3);
            if sides != 1 { first[i].0 = first[k].0.clone(); }
            if sides != 0 { second[i].0 = second[k].0.clone(); }
        }
    }
    if cx.g.chance(1, 6) {
        cx.tag("another-number-of-values");
        match cx.g.idx(3) {
            0 => { second.pop(); }
            1 => second.push(("extra".into(), V::of(0))),
            _ => { first.push(("extra".into(), V::of(0))); }
        }
    }
    let objective = cx.g.int(3);
    let other_objective = if cx.g.chance(1, 5) { cx.g.int(3) } else { objective };
    let names_agree = {
        let mut x: Vec<&String> = first.iter().map(|e| &e.0).collect();
        let mut y: Vec<&String> = second.iter().map(|e| &e.0).collect();
        x.sort(); y.sort();
        x.dedup(); y.dedup();
        x == y
    };
    let distinct = |s: &[(String, V)]| { let mut x: Vec<&String> = s.iter().map(|e| &e.0).collect(); x.sort(); x.windows(2).all(|w| w[0] != w[1]) };
    let judged = distinct(&first) && distinct(&second);
    let total = first.len();
    let equal = first.iter().filter(|e| second.contains(e)).count();
    let step = cx.g.upto(total);
    // Between two possible fractions, so that rounding doesn't matter
    let minimum = match cx.g.idx(5) {
        0 => -1.0, 1 => 0.0, 2 => 1.0,
        3 => (equal as f64 - 0.5) / total.max(1) as f64,
        _ => (step as f64 + 0.5) / total.max(1) as f64,
    };
    cx.note(format!("objective {} and {}, minimum {}", objective, other_objective, minimum));
    let show = |s: &[(String, V)]| s.iter().map(|(n, v)| format!("{:?}={}", n, v)).collect::<Vec<_>>().join(" ");
    cx.note(show(&first));
    cx.note(show(&second));
    cx.nontrivial = total >= 2;
    let s = Solution::new(V::of(objective), first);
    let t = Solution::new(V::of(other_objective), second);
    let agree = objective == other_objective && names_agree;
    let expected = agree && (total < 10 || match minimum {
        m if m < 0.0 => true,
        m if m == 0.0 => equal > 0,
        m if m == 1.0 => false,
        m => equal as f64 > m * total as f64,
    });
    cx.tag(if !agree { "disagree" } else if total < 10 { "few" } else if expected { "enough-equal" } else { "too-few-equal" });
    let st = guard("comparing", || s.is_probably_equal_to(&t, minimum))?;
    let ts = guard("comparing", || t.is_probably_equal_to(&s, minimum))?;
    if !agree { ensure!(!st && !ts, "comparison", "equal, in spite of another objective or other names"); }
    if judged { ensure!(st == expected, "comparison", "comparison says {}, {} of {} values are equal, agreement in objective and names: {}", st, equal, total, agree); }
    ensure!(st == ts, "symmetry", "comparison one way is {}, the other way {}", st, ts);
    for x in [&s, &t] {
        if !distinct(&x.solution_values) { continue; }
        let below_one = if minimum < 1.0 { minimum } else { 0.99 };
        ensure!(guard("comparing", || x.is_probably_equal_to(x, below_one))?, "reflexivity", "a solution isn't equal to itself at {}", below_one);
    }
    ensure!(guard("displaying", || format!("{}", s))?.contains(&format!("{}", s.objective_value)), "display", "the objective isn't displayed");
    ensure!((s == t) == (objective == other_objective && show(&s.solution_values) == show(&t.solution_values)), "equality", "== is wrong");
    Ok(())
}
