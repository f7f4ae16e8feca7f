//! C27: permutations of rows and columns.
#![cfg_attr(not(relp_verif), allow(dead_code, unused_imports))]
use crate::engine::{guard, Cx, Gen, Res};
use crate::props::hook;
#[cfg(relp_verif)]
use crate::props::hook::{FullPermutation, IdentityPermutation, Permutation, RotateToBackPermutation, SwapPermutation};
use crate::ensure;

#[cfg(not(relp_verif))]
pub fn c27(cx: &mut Cx) -> Res { cx.tag("without the hook"); Ok(()) }

/// Everything a permutation can be asked, against a table of where each index goes.
#[cfg(relp_verif)]
fn judge<P: Permutation>(g: &mut Gen, p: &P, table: &[usize], what: &str) -> Res {
    let n = table.len();
    ensure!(p.len() == n, "len", "{}: length {} of {:?}", what, p.len(), table);
    let mut back = vec![0; n];
    for (i, &t) in table.iter().enumerate() { back[t] = i; }
    for i in 0..n {
        ensure!(p.forward(i) == table[i], "forward", "{}: {} goes to {}, should go to {} in {:?}", what, i, p.forward(i), table[i], table);
        ensure!(p.backward(i) == back[i], "backward", "{}: {} goes back to {}, should go to {} in {:?}", what, i, p.backward(i), back[i], table);
        let (mut a, mut b) = (i, i);
        p.forward_ref(&mut a);
        p.backward_ref(&mut b);
        ensure!((a, b) == (table[i], back[i]), "by-reference", "{}: {} goes to {} and back to {} by reference in {:?}", what, i, a, b, table);
    }
    // some of the indices, with values that should stay with them
    let share = g.range(0, 4) as u64;
    let chosen: Vec<(usize, u64)> = (0..n).filter(|_| g.chance(share, 4)).map(|i| (i, 100 + i as u64)).collect();
    let order = g.permutation(chosen.len());
    let mixed: Vec<(usize, u64)> = order.iter().map(|&k| chosen[k]).collect();
    for (to, dir) in [(table, "forward"), (&back[..], "backward")] {
        let forward = dir == "forward";
        let mut have = chosen.clone();
        if forward { p.forward_sorted(&mut have) } else { p.backward_sorted(&mut have) }
        let mut want: Vec<_> = chosen.iter().map(|&(i, v)| (to[i], v)).collect();
        want.sort_unstable();
        ensure!(have == want, "sorted", "{}: {} of {:?} is {:?}, should be {:?} for {:?}", what, dir, chosen, have, want, table);
        let mut have = mixed.clone();
        if forward { p.forward_unsorted(&mut have) } else { p.backward_unsorted(&mut have) }
        let want: Vec<_> = mixed.iter().map(|&(i, v)| (to[i], v)).collect();
        ensure!(have == want, "unsorted", "{}: {} of {:?} is {:?}, should be {:?} for {:?}", what, dir, mixed, have, want, table);
        // values that are neither small nor copied
        let mut have: Vec<(usize, String)> = chosen.iter().map(|(i, v)| (*i, v.to_string())).collect();
        if forward { p.forward_sorted(&mut have); p.backward_sorted(&mut have); } else { p.backward_sorted(&mut have); p.forward_sorted(&mut have); }
        ensure!(have.iter().map(|(i, v)| (*i, v.parse().unwrap())).eq(chosen.iter().copied()), "round-trip", "{}: {:?} becomes {:?} after {} and undoing that, for {:?}", what, chosen, have, dir, table);
    }
    Ok(())
}

#[cfg(relp_verif)]
pub fn c27(cx: &mut Cx) -> Res {
    let n = if cx.g.chance(1, 20) { cx.g.range(10, 60) } else { cx.g.range(1, 9) };
    cx.nontrivial = n >= 3;
    match cx.g.weighted(&[1, 3, 3, 5]) {
        0 => {
            cx.tag("identity");
            let n = if cx.g.chance(1, 10) { 0 } else { n };
            cx.note(format!("identity of {}", n));
            let g = &mut cx.g;
            guard("identity", || judge(g, &IdentityPermutation::new(n), &(0..n).collect::<Vec<_>>(), "identity"))?
        }
        1 => {
            cx.tag("swap");
            let (i, j) = (cx.g.idx(n), cx.g.idx(n));
            cx.note(format!("swap {} and {} of {}", i, j, n));
            let mut table: Vec<usize> = (0..n).collect();
            table.swap(i, j);
            let g = &mut cx.g;
            guard("swap", || judge(g, &SwapPermutation::new((i, j), n), &table, "swap"))?
        }
        2 => {
            cx.tag("rotate");
            let i = cx.g.idx(n);
            cx.note(format!("move {} to the back of {}", i, n));
            let table: Vec<usize> = (0..n).map(|k| if k < i { k } else if k == i { n - 1 } else { k - 1 }).collect();
            let g = &mut cx.g;
            guard("rotate", || {
                let p = RotateToBackPermutation::new(i, n);
                ensure!(p.index == i, "index", "index {} instead of {}", p.index, i);
                ensure!(p == p.clone() && p != RotateToBackPermutation::new(i, n + 1), "equality", "comparing {:?}", p);
                judge(g, &p, &table, "rotate to back")
            })?
        }
        _ => full(cx, n),
    }
}

/// Explicit permutations through a history of changes.
#[cfg(relp_verif)]
fn full(cx: &mut Cx, n: usize) -> Res {
    cx.tag("full");
    let n = if cx.g.chance(1, 20) { 0 } else { n };
    let identity = cx.g.chance(1, 6);
    let mut table = if identity { (0..n).collect() } else { cx.g.permutation(n) };
    cx.note(format!("table {:?}", table));
    let mut p = guard("full", || if identity { FullPermutation::identity(n) } else { FullPermutation::new(table.clone()) })?;
    let steps = if n == 0 { 0 } else { cx.g.upto(6) };
    for step in 0..=steps {
        if step > 0 {
            match cx.g.idx(4) {
                0 => {
                    let (i, j) = (cx.g.idx(n), cx.g.idx(n));
                    cx.note(format!("swap {} and {}", i, j));
                    guard("swap", || p.swap(i, j))?;
                    table.swap(i, j);
                }
                1 => {
                    let (i, j) = (cx.g.idx(n), cx.g.idx(n));
                    cx.note(format!("swap what goes to {} and to {}", i, j));
                    guard("swap inverse", || p.swap_inverse(i, j))?;
                    for t in &mut table { if *t == i { *t = j } else if *t == j { *t = i } }
                }
                2 => {
                    cx.note("invert");
                    guard("invert", || p.invert())?;
                    let mut back = vec![0; n];
                    for (i, &t) in table.iter().enumerate() { back[t] = i; }
                    table = back;
                }
                _ => {
                    let i = cx.g.idx(n);
                    cx.note(format!("rotate right from {}", i));
                    guard("rotate", || p.rotate_right_from(i))?;
                    let last = table.pop().unwrap();
                    table.insert(i, last);
                }
            }
        }
        let g = &mut cx.g;
        guard("full", || -> Res {
            judge(g, &p, &table, "full")?;
            for i in 0..n { ensure!(p[i] == table[i], "index", "element {} is {}, should be {} in {:?}", i, p[i], table[i], table); }
            ensure!(p == FullPermutation::new(table.clone()), "equality", "{:?} is not equal to a new one from {:?}", p, table);
            let shown = format!("({})", table.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", "));
            ensure!(p.to_string() == shown, "shown", "{} shown as {}", shown, p);
            Ok(())
        })??;
    }
    Ok(())
}
