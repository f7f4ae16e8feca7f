//! C25: errors name the line that is wrong.
use crate::engine::{guard, Cx, Gen, Res};
use crate::props::mps::{mutate, pick_layout, pick_names, Reader, TOKENS};
use crate::props::mpsdoc::{gen_doc, print, print_numbered, Line};
use crate::{ensure, fail};

/// All lines named somewhere in an error, with their text where it is given.
///
/// Takes a debug representation apart: what is outside of string literals, and the literals.
fn named(shown: &str) -> Vec<(usize, Option<String>)> {
    let mut out = Vec::new();
    let mut outside = String::new();
    let mut chars = shown.chars();
    while let Some(c) = chars.next() {
        if c != '"' { outside.push(c); continue; }
        let mut inside = String::new();
        while let Some(c) = chars.next() {
            match c {
                '"' => break,
                '\\' => match chars.next() {
                    Some('n') => inside.push('\n'),
                    Some('r') => inside.push('\r'),
                    Some('t') => inside.push('\t'),
                    Some('0') => inside.push('\0'),
                    Some('u') => {
                        let hex: String = chars.by_ref().take_while(|&c| c != '}').filter(|&c| c != '{').collect();
                        inside.push(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32).unwrap_or('?'));
                    }
                    Some(c) => inside.push(c),
                    None => {}
                },
                c => inside.push(c),
            }
        }
        // a number and a text together
        let unnamed = outside.strip_suffix(": ").map_or(outside.as_str(), |t| t.trim_end_matches(|c: char| c.is_ascii_alphanumeric() || c == '_'));
        if let Some(before) = unnamed.strip_suffix(", ") {
            let digits = before.chars().rev().take_while(char::is_ascii_digit).count();
            if digits > 0 {
                if let Ok(n) = before[before.len() - digits..].parse() { out.push((n, Some(inside.clone()))); }
            }
        }
        // a description that mentions a line, before it quotes anything
        let quote = inside.find('"').unwrap_or(inside.len());
        let lower = inside[..quote].to_ascii_lowercase();
        if let Some(at) = lower.find("line ") {
            let digits: String = lower[at + 5..].chars().take_while(char::is_ascii_digit).collect();
            if let Ok(n) = digits.parse() {
                let quoted = if quote < inside.len() { inside[quote + 1..].rfind('"').map(|e| inside[quote + 1..quote + 1 + e].to_string()) } else { None };
                out.push((n, quoted));
            }
        }
        outside.push('"');
    }
    out
}

/// Which line an error is about, when it says so; all mentions have to be right and agree.
fn line_of(reader: Reader, text: &str) -> Result<Option<(String, Option<usize>)>, crate::engine::Fail> {
    let shown = guard("parsing", || match reader.run(text) { Ok(_) => None, Err(e) => Some(format!("{:?}", e)) })?;
    let Some(shown) = shown else { return Ok(None) };
    let mut at = None;
    for (n, quoted) in named(&shown) {
        let Some(line) = n.checked_sub(1).and_then(|k| text.lines().nth(k)) else { fail!("no-such-line", "line {} is named, there is none: {}", n, shown) };
        if let Some(quoted) = quoted { ensure!(quoted == line, "quoted", "line {} is quoted as {:?}, it is {:?}: {}", n, quoted, line, shown); }
        match at {
            None => at = Some(n),
            Some(have) => ensure!(have == n, "two-lines", "lines {} and {} are named in one error: {}", have, n, shown),
        }
    }
    Ok(Some((shown, at)))
}

pub fn c25(cx: &mut Cx) -> Res {
    if cx.g.chance(3, 5) { one_wrong(cx) } else { anything(cx) }
}

/// A well-formed file with one wrong line.
fn one_wrong(cx: &mut Cx) -> Res {
    let names = pick_names(&mut cx.g);
    let doc = gen_doc(&mut cx.g, names, 4, true);
    let (fixed, reader) = pick_layout(&mut cx.g, names);
    let mut lines = doc.lines();
    let g = &mut cx.g;
    let Some((what, culprit, must)) = spoil(g, &mut lines) else { cx.tag("nothing to spoil"); return Ok(()) };
    let (text, numbers) = print_numbered(g, &lines, fixed);
    let number = numbers[culprit];
    let shared = culprit > 0 && numbers[culprit - 1] == number || numbers.get(culprit + 1) == Some(&number);
    cx.note(format!("{:?} reader, {} on line {}:\n{}", reader, what, number, text));
    if what == "missing number" && shared { cx.tag("shared line"); return Ok(()); }
    cx.tag(what);
    cx.nontrivial = must && number > 1;
    let Some((shown, at)) = line_of(reader, &text)? else { fail!("accepted", "accepted in spite of: {}", what) };
    match at {
        Some(n) => ensure!(n == number, "wrong-line", "{} on line {}, but the error names line {}: {}", what, number, n, shown),
        None => ensure!(!must, "no-line", "{} on line {}, but the error names no line: {}", what, number, shown),
    }
    if at.is_some() { decided(cx, reader, &text, number, &shown)?; }
    Ok(())
}

/// What is wrong, on which of the lines, and whether the error is known to name it.
fn spoil(g: &mut Gen, lines: &mut Vec<Line>) -> Option<(&'static str, usize, bool)> {
    let header = |h: &str| Line::Header(h.to_string());
    let all = |lines: &[Line], f: &dyn Fn(&Line) -> bool| -> Vec<usize> { (0..lines.len()).filter(|&k| f(&lines[k])).collect() };
    let find = |lines: &[Line], h: &str| lines.iter().position(|l| *l == header(h));
    let rows = find(lines, "ROWS")?;
    let columns = find(lines, "COLUMNS")?;
    let end = (columns + 1..lines.len()).find(|&k| matches!(lines[k], Line::Header(_)))?;
    Some(match g.idx(13) {
        0 => {
            let k = *g.pick(&all(lines, &|l| matches!(l, Line::RowType(..))));
            if let Line::RowType(t, _) = &mut lines[k] { *t = g.pick(&["X", "n", "GE", "Q", "=", "NN"]).to_string(); }
            ("unknown row type", k, true)
        }
        1 => {
            let have = all(lines, &|l| matches!(l, Line::RowType(t, _) if t == "N"))[0];
            let at = g.range(rows + 1, columns);
            lines.insert(at, Line::RowType("N".into(), "COST2".into()));
            ("two cost rows", if at <= have { have + 1 } else { at }, true)
        }
        2 => {
            let k = *all(lines, &|l| matches!(l, Line::Sense(_))).first()?;
            lines[k] = Line::Sense(g.pick(&["UPWARDS", "max", "M", "MAXI", "OBJ"]).to_string());
            ("unknown sense", k, true)
        }
        3 => {
            let markers = all(lines, &|l| matches!(l, Line::Marker(_)));
            if markers.is_empty() { return None; }
            let k = *g.pick(&markers);
            lines[k] = Line::Marker(g.pick(&["'INTXXX'", "INTORG", "'int'", "'INTORG"]).to_string());
            ("unknown marker", k, true)
        }
        4 => {
            let at = g.range(columns + 1, end);
            let active = lines[columns..at].iter().rev().find_map(|l| match l { Line::Marker(m) => Some(m.clone()), _ => None });
            lines.insert(at, Line::Marker(active.unwrap_or("'INTEND'".into())));
            ("marker that changes nothing", at, true)
        }
        5 => { lines.remove(0); ("NAME missing", 0, true) }
        6 => { // the first line after the name
            lines[1] = header(*g.pick(&["FOO", "rows", "COLUMNS", "RHS", "NAME", "ENDATA", "OBJSENS", "ROWSX"]));
            ("unexpected header", 1, true)
        }
        7 => { let last = lines.len() - 1; lines.drain(columns..last); ("COLUMNS missing", columns, true) }
        8 => {
            let entries: Vec<usize> = (columns..end).filter(|&k| matches!(lines[k], Line::Entry(..))).collect();
            let k = *g.pick(&entries);
            if let Line::Entry(_, _, v) = &mut lines[k] { *v = String::new(); }
            ("missing number", k, true)
        }
        9 => { lines[0] = Line::Name(String::new()); ("name missing", 0, true) }
        10 => {
            let k = *g.pick(&all(lines, &|l| matches!(l, Line::Entry(..))));
            if let Line::Entry(_, _, v) = &mut lines[k] { *v = g.pick(&["abc", "1,5", "--1", "1.2.3", "-", ".", "1-", "0x1"]).to_string(); }
            ("not a number", k, false)
        }
        11 => {
            let k = *g.pick(&all(lines, &|l| matches!(l, Line::Entry(..))));
            if let Line::Entry(_, r, _) = &mut lines[k] { *r = "?NOROW".into(); }
            ("unknown row", k, false)
        }
        _ => {
            let bounds = all(lines, &|l| matches!(l, Line::Bound(..)));
            if bounds.is_empty() { return None; }
            let k = *g.pick(&bounds);
            if let Line::Bound(t, _, c, _) = &mut lines[k] { if g.bool() { *t = "XX".into(); } else { *c = "?NOCOL".into(); } }
            ("wrong bound", k, false)
        }
    })
}

/// What comes after the named line (and the next header) has no influence.
fn decided(cx: &mut Cx, reader: Reader, text: &str, number: usize, shown: &str) -> Res {
    if reader == Reader::Default { return Ok(()); }
    let lines: Vec<&str> = text.lines().collect();
    if lines.last().is_some_and(|l| l.ends_with('\r')) { return Ok(()); } // without a line end to belong to
    let meaningful = |l: &str| !l.trim().is_empty() && !l.trim_start().starts_with('*');
    let keep = (number..lines.len()).find(|&k| meaningful(lines[k])).map_or(lines.len(), |k| k + 1);
    let mut changed: Vec<String> = lines[..keep].iter().map(|l| l.to_string()).collect();
    let g = &mut cx.g;
    match g.idx(3) {
        0 => {}
        1 => for _ in 0..g.upto(4) { changed.push(g.pick::<&str>(&TOKENS).to_string()); },
        _ => {
            let mut rest: Vec<String> = lines[keep..].iter().map(|l| l.to_string()).collect();
            if !rest.is_empty() { let at = g.idx(rest.len()); if g.bool() { rest.remove(at); } else { rest[at] = " ? ? ?".into(); } }
            changed.extend(rest);
        }
    }
    let changed = changed.join("\n");
    let Some((other, _)) = line_of(reader, &changed)? else { fail!("later-lines", "without what comes after line {} it is accepted: {}", number, shown) };
    ensure!(other == shown, "later-lines", "what comes after line {} changes the error from\n{}\nto\n{}\nfor\n{}", number, shown, other, changed);
    Ok(())
}

/// Any text.
fn anything(cx: &mut Cx) -> Res {
    let names = pick_names(&mut cx.g);
    let doc = gen_doc(&mut cx.g, names, 4, true);
    let (fixed, reader) = pick_layout(&mut cx.g, names);
    let text = print(&mut cx.g, &doc.lines(), fixed);
    let text = mutate(&mut cx.g, text);
    cx.note(format!("{:?} reader:\n{}", reader, text));
    match line_of(reader, &text)? {
        None => cx.tag("accepted"),
        Some((_, None)) => cx.tag("no line named"),
        Some((shown, Some(n))) => {
            cx.tag("a line named");
            cx.nontrivial = n > 1;
            decided(cx, reader, &text, n, &shown)?;
        }
    }
    Ok(())
}
