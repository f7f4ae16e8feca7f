//! MPS documents as the checks see them: content, meaning, and ways to lay them out.
use std::collections::{HashMap, HashSet};

use crate::engine::Gen;
use crate::lp::{Kind, Lp, Row, Var};
use crate::q::Q;

/// A number and the text it is written as.
#[derive(Clone, Debug, PartialEq)]
pub struct Lit { pub text: String, pub q: Q }

pub type Group<T> = (String, Vec<T>);
#[derive(Clone, Debug)]
pub struct DCol { pub name: String, pub int: bool, pub entries: Vec<(usize, Lit)> }
/// Entry indices: 0 is the cost row, i + 1 is row i.
#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub name: String,
    pub sense: Option<&'static str>,
    pub cost: String,
    pub cost_at: usize,
    pub rows: Vec<(String, char)>,
    pub cols: Vec<DCol>,
    pub rhs: Option<Vec<Group<(usize, Lit)>>>,
    pub ranges: Option<Vec<Group<(usize, Lit)>>>,
    pub bounds: Option<Vec<Group<(String, usize, Option<Lit>)>>>,
    pub open_marker: bool,
}

/// What names may look like.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Names { Common, Spaced, Long }

fn name(g: &mut Gen, names: Names, taken: &mut HashSet<String>) -> String {
    const A: &[u8] = b"XYRCABCD0123456789_-.+:'$%#&()[]<>=!*/xyz";
    loop {
        let most = match names { Names::Long => if g.chance(1, 300) { 300 } else { 14 }, _ => 8 };
        let len = 1 + g.idx(most);
        let mut s = String::new();
        for k in 0..len {
            let c = if k == 0 { A[g.idx(8)] as char }
                else if names == Names::Spaced && k + 1 < len && g.chance(1, 4) { ' ' }
                else if names == Names::Long && g.chance(1, 10) { *g.pick(&['é', 'λ', '数', '🙂']) }
                else { A[g.idx(A.len())] as char };
            s.push(c);
        }
        let s = s.trim_end().to_string();
        if taken.insert(s.clone()) { return s; }
        // a shrunk sequence would repeat the same name forever
        let mut k = taken.len();
        loop {
            let s = format!("N{}", k);
            if taken.insert(s.clone()) { return s; }
            k += 1;
        }
    }
}

/// A literal of at most twelve characters.
pub fn lit(g: &mut Gen) -> Lit {
    let (digits, decimals): (u64, usize) = match g.weighted(&[12, 5, 2, 1, 1]) {
        0 => (g.below(10), 0),
        1 => (g.below(1000), g.upto(3)),
        2 => (g.below(1_000_000), g.upto(6)),
        3 => (g.below(10_000_000_000), g.upto(9)),
        _ => (0, 0),
    };
    let neg = g.chance(1, 3);
    lit_of(g, neg, digits, decimals)
}
pub fn lit_of(g: &mut Gen, neg: bool, digits: u64, decimals: usize) -> Lit {
    let d10 = 10i128.pow(decimals as u32);
    let q = Q::new(if neg { -(digits as i128) } else { digits as i128 }, d10);
    let mut s = format!("{:0width$}", digits, width = decimals + 1);
    if decimals > 0 {
        s.insert(s.len() - decimals, '.');
        if s.starts_with('0') && g.bool() { s.remove(0); }
    } else if g.chance(1, 6) { s.push('.'); }
    if s.contains('.') && g.chance(1, 6) { s.push('0'); }
    if s == "." || s.is_empty() { s = "0".into(); }
    if g.chance(1, 10) { s.insert(0, '0'); }
    if neg { s.insert(0, '-'); } else if g.chance(1, 12) { s.insert(0, '+'); }
    if s.len() > 12 { // plain then
        let plain = if decimals == 0 { digits.to_string() } else { format!("{}.{:0w$}", digits / 10u64.pow(decimals as u32), digits % 10u64.pow(decimals as u32), w = decimals) };
        s = if neg { format!("-{}", plain) } else { plain };
        if s.len() > 12 { return lit_of(g, neg, digits % 1000, 0); }
    }
    Lit { text: s, q }
}

pub const BOUND_TYPES: [&str; 9] = ["UP", "LO", "FX", "FR", "MI", "PL", "BV", "LI", "UI"];
pub fn takes_value(t: &str) -> bool { matches!(t, "UP" | "LO" | "FX" | "LI" | "UI") }

pub fn gen_doc(g: &mut Gen, names: Names, max: usize, tidy: bool) -> Doc {
    let mut taken = HashSet::new();
    let mut d = Doc { name: "TEST".into(), ..Doc::default() };
    if g.bool() { d.name = name(g, if names == Names::Long { names } else { Names::Common }, &mut HashSet::new()); }
    d.sense = *g.pick(&[None, Some("MAX"), Some("MIN"), Some("MAXIMIZE"), Some("MINIMIZE")]);
    d.cost = name(g, names, &mut taken);
    // sometimes a file of some length
    let max = if g.chance(1, 60) { if g.chance(1, 60) { 300 } else { 8 * max } } else { max };
    let m = g.upto(max);
    for _ in 0..m { let n = name(g, names, &mut taken); d.rows.push((n, *g.pick(&['L', 'G', 'E']))); }
    d.cost_at = g.upto(m);
    let n = 1 + g.idx(max);
    let mut cols = HashSet::new();
    let ints = g.bool();
    for _ in 0..n {
        let name = name(g, names, &mut cols);
        let mut rows: Vec<usize> = (0..=m).filter(|_| g.chance(4, 8.max(m as u64))).collect();
        if rows.is_empty() { rows.push(g.upto(m)); }
        if g.bool() { let p = g.permutation(rows.len()); rows = p.iter().map(|&k| rows[k]).collect(); }
        let entries = rows.into_iter().map(|i| (i, lit(g))).collect();
        d.cols.push(DCol { name, int: ints && g.chance(1, 3), entries });
    }
    d.open_marker = g.chance(1, 6);
    // blank at most once, as equal names in a row are the same group
    let mut used_groups: HashSet<String> = HashSet::new();
    let mut group = |g: &mut Gen| -> String {
        if names == Names::Spaced && g.bool() && used_groups.insert(String::new()) { String::new() } else { name(g, names, &mut used_groups) }
    };
    if g.chance(3, 4) {
        let mut groups = Vec::new();
        let mut seen: HashMap<usize, Lit> = HashMap::new();
        for _ in 0..g.weighted(&[8, 2, 1]) + 1 {
            let mut rows: Vec<usize> = (1..=m).filter(|_| g.chance(2, 3)).collect();
            if g.bool() { let p = g.permutation(rows.len()); rows = p.iter().map(|&k| rows[k]).collect(); }
            let entries: Vec<(usize, Lit)> = rows.into_iter().map(|i| {
                let mut l = lit(g);
                if let Some(have) = seen.get(&i) { if tidy || g.bool() { l = have.clone(); } }
                seen.insert(i, l.clone());
                (i, l)
            }).collect();
            if !entries.is_empty() { groups.push((group(g), entries)); }
        }
        d.rhs = Some(groups);
    }
    if g.chance(2, 5) {
        let mut groups = Vec::new();
        let mut used = HashSet::new();
        for _ in 0..g.weighted(&[5, 1]) + 1 {
            let rows: Vec<usize> = (1..=m).filter(|_| g.bool()).collect();
            let entries: Vec<(usize, Lit)> = rows.into_iter().filter(|&i| used.insert(i)).map(|i| (i, lit(g))).collect();
            if !entries.is_empty() { groups.push((group(g), entries)); }
        }
        d.ranges = Some(groups);
    }
    if g.chance(3, 5) {
        let mut groups = Vec::new();
        for _ in 0..g.weighted(&[6, 1]) + 1 {
            let mut entries = Vec::new();
            for _ in 0..g.upto(n + 2) {
                let t = *g.pick(&BOUND_TYPES);
                let j = g.idx(n);
                let v = if takes_value(t) { Some(lit(g)) } else { None };
                entries.push((t.to_string(), j, v));
            }
            if tidy { // do away with conflicts
                let mut keep = Vec::new();
                for e in entries {
                    keep.push(e);
                    let mut all: Vec<Group<_>> = groups.clone();
                    all.push((String::new(), keep.clone()));
                    if (0..n).any(|j| bounds_of(&all, j).is_err()) { keep.pop(); }
                }
                entries = keep;
            }
            if !entries.is_empty() { groups.push((group(g), entries)); }
        }
        d.bounds = Some(groups);
    }
    d
}

/// The documented combined meaning of all bounds on one variable.
pub fn bounds_of(groups: &[Group<(String, usize, Option<Lit>)>], j: usize) -> Result<(Option<Q>, Option<Q>, bool), &'static str> {
    let (mut lo, mut hi, mut default, mut free, mut int): (Option<Q>, Option<Q>, bool, bool, bool) = (None, None, true, false, false);
    for (t, jj, v) in groups.iter().flat_map(|gr| gr.1.iter()) {
        if *jj != j { continue; }
        let v = v.as_ref().map(|l| l.q).unwrap_or(Q::ZERO);
        let up = |lo: &mut Option<Q>, v: Q| *lo = Some(lo.map_or(v, |l| if v > l { v } else { l }));
        let down = |hi: &mut Option<Q>, v: Q| *hi = Some(hi.map_or(v, |h| if v < h { v } else { h }));
        match t.as_str() {
            "LO" => up(&mut lo, v),
            "LI" => { up(&mut lo, v); int = true; }
            "UP" => down(&mut hi, v),
            "UI" => { down(&mut hi, v); int = true; }
            "FX" => { up(&mut lo, v); down(&mut hi, v); }
            "FR" => free = true,
            "MI" => down(&mut hi, Q::ZERO),
            "PL" => up(&mut lo, Q::ZERO),
            "BV" => { up(&mut lo, Q::ZERO); down(&mut hi, Q::ONE); int = true; }
            _ => return Err("unknown bound type"),
        }
        if !matches!(t.as_str(), "UP" | "UI") { default = false; }
    }
    if free && (lo.is_some() || hi.is_some()) { return Err("free and bounded"); }
    if default { lo = Some(Q::ZERO); }
    if let (Some(l), Some(h)) = (lo, hi) { if l > h { return Err("crossing bounds"); } }
    Ok((lo, hi, int))
}

impl Doc {
    /// The linear program, with the rows in order of their names, or why there is none.
    pub fn meaning(&self) -> Result<Lp, &'static str> {
        let mut names = HashSet::new();
        names.insert(self.cost.as_str());
        for r in &self.rows { if !names.insert(r.0.as_str()) { return Err("duplicate row name"); } }
        let mut names = HashSet::new();
        for c in &self.cols {
            if !names.insert(c.name.as_str()) { return Err("duplicate column"); }
            let mut seen = HashSet::new();
            if !c.entries.iter().all(|e| seen.insert(e.0)) { return Err("duplicate entry"); }
        }
        let mut order: Vec<usize> = (0..self.rows.len()).collect();
        order.sort_by(|&a, &b| self.rows[a].0.cmp(&self.rows[b].0));
        let rhs: &[Group<(usize, Lit)>] = self.rhs.as_deref().unwrap_or(&[]);
        let ranges: &[Group<(usize, Lit)>] = self.ranges.as_deref().unwrap_or(&[]);
        for gr in rhs.iter().chain(ranges) {
            let mut seen = HashSet::new();
            if gr.1.iter().any(|e| e.0 == 0) { return Err("entry for the cost row"); }
            if !gr.1.iter().all(|e| seen.insert(e.0)) { return Err("duplicate entry in a group"); }
        }
        let mut rows = Vec::new();
        for &i in &order {
            let kind = self.rows[i].1;
            let values: Vec<Q> = rhs.iter().flat_map(|gr| gr.1.iter()).filter(|e| e.0 == i + 1).map(|e| e.1.q).collect();
            let range: Vec<Q> = ranges.iter().flat_map(|gr| gr.1.iter()).filter(|e| e.0 == i + 1).map(|e| e.1.q).collect();
            if range.len() > 1 { return Err("two ranges for a row"); }
            let differ = values.windows(2).any(|w| w[0] != w[1]);
            if differ && (kind == 'E' || !range.is_empty()) { return Err("conflicting right-hand sides"); }
            let b = match kind {
                'L' => values.iter().min().copied(),
                _ => values.iter().max().copied(),
            }.unwrap_or(Q::ZERO);
            let (kind, b) = match (kind, range.first()) {
                ('L', None) => (Kind::L, b),
                ('G', None) => (Kind::G, b),
                (_, None) => (Kind::E, b),
                (_, Some(r)) if r.is_zero() => (Kind::E, b),
                ('L', Some(r)) => (Kind::R(r.abs()), b),
                ('G', Some(r)) => (Kind::R(r.abs()), b + r.abs()),
                (_, Some(r)) => (Kind::R(r.abs()), if r.is_neg() { b } else { b + *r }),
            };
            let mut a = Vec::new();
            for (j, c) in self.cols.iter().enumerate() {
                for e in &c.entries { if e.0 == i + 1 && !e.1.q.is_zero() { a.push((j, e.1.q)); } }
            }
            rows.push(Row { kind, b, a });
        }
        let bounds: &[Group<(String, usize, Option<Lit>)>] = self.bounds.as_deref().unwrap_or(&[]);
        let mut vars = Vec::new();
        for (j, c) in self.cols.iter().enumerate() {
            let (lo, hi, int) = bounds_of(bounds, j)?;
            let cost = c.entries.iter().find(|e| e.0 == 0).map_or(Q::ZERO, |e| e.1.q);
            vars.push(Var { name: c.name.clone(), lo, hi, cost, int: int || c.int });
        }
        Ok(Lp { max: matches!(self.sense, Some("MAX" | "MAXIMIZE")), fixed: Q::ZERO, vars, rows })
    }

    fn row_name(&self, i: usize) -> String { if i == 0 { self.cost.clone() } else { self.rows[i - 1].0.clone() } }

    pub fn lines(&self) -> Vec<Line> {
        let mut out = vec![Line::Name(self.name.clone())];
        if let Some(s) = self.sense { out.push(Line::Header("OBJSENSE".into())); out.push(Line::Sense(s.into())); }
        out.push(Line::Header("ROWS".into()));
        for k in 0..=self.rows.len() {
            if k == self.cost_at { out.push(Line::RowType("N".into(), self.cost.clone())); }
            if let Some((n, t)) = self.rows.get(k) { out.push(Line::RowType(t.to_string(), n.clone())); }
        }
        out.push(Line::Header("COLUMNS".into()));
        let mut active = false;
        for c in &self.cols {
            if c.int != active { out.push(Line::Marker(if c.int { "'INTORG'" } else { "'INTEND'" }.into())); active = c.int; }
            for (i, v) in &c.entries { out.push(Line::Entry(c.name.clone(), self.row_name(*i), v.text.clone())); }
        }
        if active && !self.open_marker { out.push(Line::Marker("'INTEND'".into())); }
        for (header, groups) in [("RHS", &self.rhs), ("RANGES", &self.ranges)] {
            if let Some(groups) = groups {
                out.push(Line::Header(header.into()));
                for (name, entries) in groups {
                    for (i, v) in entries { out.push(Line::Entry(name.clone(), self.row_name(*i), v.text.clone())); }
                }
            }
        }
        if let Some(groups) = &self.bounds {
            out.push(Line::Header("BOUNDS".into()));
            for (name, entries) in groups {
                for (t, j, v) in entries { out.push(Line::Bound(t.clone(), name.clone(), self.cols[*j].name.clone(), v.as_ref().map(|v| v.text.clone()))); }
            }
        }
        out.push(Line::Header("ENDATA".into()));
        out
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Line {
    Name(String),
    Header(String),
    Sense(String),
    RowType(String, String),
    Marker(String),
    /// Column or group name, row name and number text.
    Entry(String, String, String),
    Bound(String, String, String, Option<String>),
}

/// Write out lines, with all that doesn't matter chosen at random.
pub fn print(g: &mut Gen, lines: &[Line], fixed: bool) -> String { print_numbered(g, lines, fixed).0 }
/// Also on which line of the text (from one) each of the lines ended up.
pub fn print_numbered(g: &mut Gen, lines: &[Line], fixed: bool) -> (String, Vec<usize>) {
    let mut numbers = Vec::with_capacity(lines.len());
    let fancy = g.chance(2, 3);
    let pairs = g.bool();
    let mut out: Vec<String> = Vec::new();
    let noise = |g: &mut Gen, out: &mut Vec<String>| {
        if !fancy { return; }
        while g.chance(1, 12) {
            let s = match g.idx(5) {
                0 => "* a comment".to_string(),
                1 => String::new(),
                2 => " ".repeat(g.upto(30)),
                3 => "    * another RHS comment".to_string(),
                _ => "*ROWS".to_string(),
            };
            out.push(s);
        }
    };
    let end = |g: &mut Gen, s: String, out: &mut Vec<String>| {
        let s = if fancy && g.chance(1, 8) { format!("{}{}", s, " ".repeat(g.range(1, 40))) } else { s };
        out.push(s);
    };
    let mut k = 0;
    while k < lines.len() {
        noise(g, &mut out);
        let line = &lines[k];
        k += 1;
        numbers.push(out.len() + 1);
        match line {
            Line::Name(n) => {
                let gap = if fixed || !fancy { 10 } else { g.range(1, 12) };
                end(g, format!("NAME{}{}", " ".repeat(gap), n), &mut out);
            }
            Line::Header(h) => end(g, h.clone(), &mut out),
            Line::Sense(s) => { let w = if fancy { g.range(1, 5) } else { 2 }; end(g, format!("{}{}", " ".repeat(w), s), &mut out); }
            Line::RowType(t, n) => { let s = fields(g, fixed, fancy, [Some(t), Some(n), None, None, None, None]); end(g, s, &mut out); }
            Line::Marker(m) => {
                let f = Some("MARKER".to_string());
                let q = Some("'MARKER'".to_string());
                let s = if fixed { fields(g, fixed, fancy, [None, f.as_ref(), q.as_ref(), None, Some(m), None]) }
                    else { fields(g, fixed, fancy, [None, f.as_ref(), q.as_ref(), Some(m), None, None]) };
                end(g, s, &mut out);
            }
            Line::Entry(c, r, v) => {
                let mut second = None;
                if pairs && g.chance(2, 3) {
                    if let Some(Line::Entry(c2, r2, v2)) = lines.get(k) {
                        if c2 == c { second = Some((r2, v2)); k += 1; numbers.push(out.len() + 1); }
                    }
                }
                let s = fields(g, fixed, fancy, [None, Some(c), Some(r), Some(v), second.map(|s| s.0), second.map(|s| s.1)]);
                end(g, s, &mut out);
            }
            Line::Bound(t, b, c, v) => { let s = fields(g, fixed, fancy, [Some(t), Some(b), Some(c), v.as_ref(), None, None]); end(g, s, &mut out); }
        }
    }
    noise(g, &mut out);
    let sep = if g.chance(1, 8) { "\r\n" } else { "\n" };
    let mut text = out.join(sep);
    if g.bool() { text.push_str(sep); }
    (text, numbers)
}

fn fields(g: &mut Gen, fixed: bool, fancy: bool, f: [Option<&String>; 6]) -> String {
    if fixed {
        let mut s = String::new();
        for (k, v) in f.iter().enumerate() {
            let Some(v) = v else { continue };
            if v.is_empty() { continue; }
            let (lo, hi) = FIELDS[k];
            let room = (hi - lo).saturating_sub(v.chars().count());
            let at = lo + match k {
                0 => if fancy { g.upto(room) } else { 0 },
                3 | 5 => if fancy { room - g.upto(room) } else { room },
                _ => 0,
            };
            while s.chars().count() < at { s.push(' '); }
            s.push_str(v);
        }
        s
    } else {
        let gap = |g: &mut Gen| -> String {
            if !fancy { return " ".into(); }
            if g.chance(1, 30) { return " \t".into(); }
            " ".repeat(g.range(1, 6))
        };
        let mut s = String::new();
        for v in f.iter().flatten() { s.push_str(&gap(g)); s.push_str(v); }
        if s.starts_with('\t') { s.insert(0, ' '); }
        s
    }
}

/// What a text is, read by the letter of the format (an independent reader).
pub enum Read { Doc(Box<Doc>), Error(&'static str), Unspecified(&'static str) }

/// Value of a decimal literal: `Ok(None)` when it is one but too large to be of concern.
pub fn literal(text: &str) -> Result<Option<Q>, ()> {
    let (neg, digits) = match text.as_bytes().first() {
        Some(b'-') => (true, &text[1..]),
        Some(b'+') => (false, &text[1..]),
        _ => (false, text),
    };
    let mut parts = digits.split('.');
    let (int, frac) = (parts.next().unwrap_or(""), parts.next().unwrap_or(""));
    if parts.next().is_some() || (int.is_empty() && frac.is_empty()) { return Err(()); }
    if !int.chars().chain(frac.chars()).all(|c| c.is_ascii_digit()) { return Err(()); }
    let frac = frac.trim_end_matches('0');
    let int = int.trim_start_matches('0');
    if frac.len() > 19 || int.len() + frac.len() > 30 { return Ok(None); }
    let mut n: i128 = 0;
    for c in int.chars().chain(frac.chars()) { n = n * 10 + (c as u8 - b'0') as i128; }
    if n > u64::MAX as i128 { return Ok(None); }
    Ok(Some(Q::new(if neg { -n } else { n }, 10i128.pow(frac.len() as u32))))
}

/// Where the six fields of the fixed layout are.
pub const FIELDS: [(usize, usize); 6] = [(1, 3), (4, 12), (14, 22), (24, 36), (39, 47), (49, 61)];
#[derive(Copy, Clone, PartialEq)]
enum Content { Row, Column, Group, Bound }

/// The words of a line, as if they were written in the free layout.
fn fields_of(line: &str, fixed: bool, kind: Content) -> Result<Vec<&str>, (bool, &'static str)> {
    if !fixed { return Ok(line.split_whitespace().collect()); }
    let error = |why: &'static str| (true, why);
    let open = |why: &'static str| (false, why);
    if !line.bytes().all(|b| (b' '..0x7f).contains(&b)) { return Err(open("character")); }
    let mut f = [""; 6];
    let mut last = 0;
    for (k, &(lo, hi)) in FIELDS.iter().enumerate() {
        if !line[last.min(line.len())..lo.min(line.len())].trim().is_empty() { return Err(open("between the fields")); }
        let text = &line[lo.min(line.len())..hi.min(line.len())];
        f[k] = if matches!(k, 1 | 2 | 4) { text.trim_end() } else { text.trim() };
        if f[k].starts_with(' ') { return Err(open("name starts with a space")); }
        last = hi;
    }
    if line.len() > last && !line[last..].trim().is_empty() { return Err(open("after the fields")); }
    let none = |k: &[usize]| if k.iter().any(|&k| !f[k].is_empty()) { Err(open("more fields")) } else { Ok(()) };
    match kind {
        Content::Row => { if f[1].is_empty() { return Err(error("row name missing")); } none(&[2, 3, 4, 5])?; Ok(vec![f[0], f[1]]) }
        Content::Column if f[2] == "'MARKER'" => { none(&[0, 3, 5])?; Ok(vec![f[1], f[2], f[4]]) }
        Content::Column | Content::Group => {
            if f[3].is_empty() { return Err(error("value missing")); }
            if f[4].is_empty() != f[5].is_empty() { return Err(error("half a pair")); }
            none(&[0])?;
            if kind == Content::Column && f[1].is_empty() { return Err(open("column without a name")); }
            let mut w = vec![f[1], f[2], f[3]];
            if !f[4].is_empty() { w.extend([f[4], f[5]]); }
            Ok(w)
        }
        Content::Bound => {
            none(&[4, 5])?;
            let mut w = vec![f[0], f[1], f[2]];
            if !f[3].is_empty() { w.push(f[3]); }
            Ok(w)
        }
    }
}

/// Read text strictly; whatever the format doesn't settle is `Unspecified`.
pub fn read_free(text: &str) -> Read { read_layout(text, false) }
pub fn read_layout(text: &str, fixed: bool) -> Read {
    match read(text, fixed) { Ok(d) => Read::Doc(Box::new(d)), Err((true, why)) => Read::Error(why), Err((false, why)) => Read::Unspecified(why) }
}
fn read(text: &str, fixed: bool) -> Result<Doc, (bool, &'static str)> {
    let error = |why: &'static str| (true, why);
    let open = |why: &'static str| (false, why);
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty() && !l.trim_start().starts_with('*')).collect();
    let mut d = Doc::default();
    let mut at = 0;
    let first = lines.first().ok_or(error("empty"))?;
    let Some(rest) = first.strip_prefix("NAME") else { return Err(error("no NAME")) };
    let mut words = rest.split_whitespace();
    d.name = words.next().ok_or(open("no name"))?.to_string();
    if !rest.starts_with([' ', '\t']) || words.next().is_some() { return Err(open("name line")); }
    at += 1;
    let header = |at: usize| -> Result<&str, (bool, &'static str)> {
        let l = lines.get(at).ok_or(error("ends early"))?;
        if l.starts_with(' ') { return Err(error("data outside of a section")); }
        Ok(l.trim_end())
    };
    if header(at)? == "OBJSENSE" {
        let l = lines.get(at + 1).ok_or(error("ends early"))?;
        if !l.starts_with(' ') { return Err(open("sense")); }
        d.sense = match l.trim() { "MAX" => Some("MAX"), "MIN" => Some("MIN"), "MAXIMIZE" => Some("MAX"), "MINIMIZE" => Some("MIN"), _ => return Err(error("sense")) };
        at += 2;
    }
    if header(at)? != "ROWS" { return Err(error("no ROWS")); }
    at += 1;
    let mut have_cost = false;
    let mut index: HashMap<String, usize> = HashMap::new();
    while lines.get(at).ok_or(error("ends early"))?.starts_with(' ') {
        let w = fields_of(lines[at], fixed, Content::Row)?;
        at += 1;
        if w.len() < 2 { return Err(error("row line")); }
        if w.len() > 2 { return Err(open("row line")); }
        match w[0] {
            "N" => { if have_cost { return Err(error("two cost rows")); } have_cost = true; d.cost = w[1].to_string(); index_insert(&mut index, w[1], 0)?; }
            "L" | "G" | "E" => { d.rows.push((w[1].to_string(), w[0].chars().next().unwrap())); let k = d.rows.len(); index_insert(&mut index, w[1], k)?; }
            _ => return Err(error("row type")),
        }
    }
    if header(at)? != "COLUMNS" { return Err(error("no COLUMNS")); }
    if !have_cost { return Err(error("no cost row")); }
    at += 1;
    let mut int = false;
    while lines.get(at).ok_or(error("ends early"))?.starts_with(' ') {
        let w = fields_of(lines[at], fixed, Content::Column)?;
        at += 1;
        if w.len() < 3 || w.len() == 4 || w.len() > 5 { if w.get(1) == Some(&"'MARKER'") && w.len() > 3 { return Err(open("marker line")); } return Err(error("column line")); }
        if w[1] == "'MARKER'" {
            let to = match w[2] { "'INTORG'" => true, "'INTEND'" => false, _ => return Err(error("marker")) };
            if w.len() > 3 { return Err(open("marker line")); }
            if to == int { return Err(open("idle marker")); }
            int = to;
            // whatever follows is a new column
            if d.cols.last().is_some_and(|c| !c.name.is_empty()) { d.cols.push(DCol { name: String::new(), int, entries: vec![] }); }
            continue;
        }
        let fresh = d.cols.last().is_none_or(|c| c.name != w[0]);
        if fresh {
            if d.cols.last().is_some_and(|c| c.name.is_empty()) { d.cols.pop(); }
            d.cols.push(DCol { name: w[0].to_string(), int, entries: vec![] });
        }
        for p in w[1..].chunks(2) {
            let v = number(p[1])?;
            let i = *index.get(p[0]).ok_or(error("unknown row"))?;
            d.cols.last_mut().unwrap().entries.push((i, v));
        }
    }
    if d.cols.last().is_some_and(|c| c.name.is_empty()) { d.cols.pop(); }
    let mut columns = HashMap::new();
    for (j, c) in d.cols.iter().enumerate() { if columns.insert(c.name.clone(), j).is_some() { return Err(error("duplicate column")); } }
    let mut h = header(at)?;
    for section in ["RHS", "RANGES"] {
        if h != section { continue; }
        at += 1;
        let mut groups: Vec<Group<(usize, Lit)>> = Vec::new();
        while lines.get(at).ok_or(error("ends early"))?.starts_with(' ') {
            let w = fields_of(lines[at], fixed, Content::Group)?;
            at += 1;
            if w.len() != 3 && w.len() != 5 { return Err(error("group line")); }
            if groups.last().is_none_or(|gr| gr.0 != w[0]) { groups.push((w[0].to_string(), vec![])); }
            for p in w[1..].chunks(2) {
                let v = number(p[1])?;
                let i = *index.get(p[0]).ok_or(error("unknown row"))?;
                groups.last_mut().unwrap().1.push((i, v));
            }
        }
        if section == "RHS" { d.rhs = Some(groups); } else { d.ranges = Some(groups); }
        h = header(at)?;
    }
    if h == "BOUNDS" {
        at += 1;
        let mut groups: Vec<Group<(String, usize, Option<Lit>)>> = Vec::new();
        while lines.get(at).ok_or(error("ends early"))?.starts_with(' ') {
            let w = fields_of(lines[at], fixed, Content::Bound)?;
            at += 1;
            if w.len() < 3 { return Err(error("bound line")); }
            let j = *columns.get(w[2]).ok_or(error("unknown column"))?;
            if !BOUND_TYPES.contains(&w[0]) { return Err(error("bound type")); }
            let v = if takes_value(w[0]) { Some(number(w.get(3).ok_or(error("no bound value"))?)?) } else { None };
            if w.len() > 4 || (v.is_none() && w.len() > 3) { return Err(open("bound line")); }
            if groups.last().is_none_or(|gr| gr.0 != w[1]) { groups.push((w[1].to_string(), vec![])); }
            groups.last_mut().unwrap().1.push((w[0].to_string(), j, v));
        }
        d.bounds = Some(groups);
        h = header(at)?;
    }
    if h != "ENDATA" { return Err(error("header")); }
    if at + 1 != lines.len() { return Err(error("lines after the end")); }
    return Ok(d);

    fn number(text: &str) -> Result<Lit, (bool, &'static str)> {
        match literal(text) {
            Err(()) => Err(if text.contains(['e', 'E']) { (false, "exponent") } else { (true, "not a number") }),
            Ok(None) => Err((false, "large number")),
            Ok(Some(q)) => Ok(Lit { text: text.to_string(), q }),
        }
    }
    fn index_insert(index: &mut HashMap<String, usize>, name: &str, at: usize) -> Result<(), (bool, &'static str)> {
        if index.insert(name.to_string(), at).is_some() { Err((true, "duplicate row")) } else { Ok(()) }
    }
}
