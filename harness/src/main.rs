//! Property checks for relp: `harness check ID` generates cases, judges them and reports.
mod engine;
mod q;
mod refsolve;
mod lp;
mod props;

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use engine::{hash_str, hash_u64s, run_case, shrink, CaseResult, Cx, Fail, Gen};
use props::Prop;

const WORKERS: usize = 8;

unsafe extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}
fn limit_memory(bytes: u64) {
    let l = [bytes, bytes];
    unsafe { setrlimit(9 /* RLIMIT_AS */, &l); setrlimit(4 /* RLIMIT_CORE */, &[0, 0]); }
}

fn hex(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect();
    String::from_utf8_lossy(&b).into_owned()
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// Generated text can hold anything.
fn printable(text: &str) -> String {
    text.chars().map(|c| if c.is_control() && c != '\n' && c != '\t' { c.escape_default().to_string() } else { c.to_string() }).collect()
}
fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string(); }
    let mut e = n;
    while !s.is_char_boundary(e) { e -= 1; }
    format!("{}...", &s[..e])
}

struct Env { seed: u64, thorough: bool, dir: PathBuf, scale: f64 }
impl Env {
    fn load() -> Env {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let dir = std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| std::env::current_dir().unwrap());
        let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        Env { seed, thorough, dir, scale }
    }
}

fn case_gen(seed: u64, prop: &str, index: u64) -> Gen {
    Gen::random(hash_u64s(&[seed, hash_str(prop), index]))
}
fn make_cx(g: Gen, thorough: bool, index: u64) -> Cx { let mut cx = Cx::new(g, thorough); cx.index = index; cx }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let env = Env::load();
    engine::install_panic_hook();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&env, &args[2]),
        Some("worker") => worker(&args[2..]),
        Some("eval") => eval(&args[2..]),
        Some("one") => one(&env, &args[2], args[3].parse().unwrap()),
        Some("replay") => replay(&args[2]),
        Some("list") => { for p in props::all() { println!("{} {} {}", p.id, p.quick, p.thorough); } 0 }
        _ => { eprintln!("usage: harness check|replay|one|list"); 2 }
    };
    std::process::exit(code);
}

fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); std::process::exit(2) })
}

// ---- worker -----------------------------------------------------------------------------------

/// worker ID SEED TIER START STRIDE COUNT OUT INFLIGHT WALL_S REVERSE
fn worker(a: &[String]) -> i32 {
    limit_memory(3 << 30);
    let prop = find(&a[0]);
    let (seed, thorough): (u64, bool) = (a[1].parse().unwrap(), a[2] == "thorough");
    let (start, stride, count): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let mut out = std::io::BufWriter::new(fs::OpenOptions::new().append(true).create(true).open(&a[6]).unwrap());
    let mut inflight = fs::File::create(&a[7]).unwrap();
    let wall = Duration::from_secs_f64(a[8].parse().unwrap());
    let reverse = a[9] == "1";
    let t0 = Instant::now();
    let (mut evals, mut nontrivial) = (0u64, 0u64);
    let mut slowest = (0u64, 0u64);
    let mut tags: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut per_sig: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = 0;
    let mut indices: Vec<u64> = (start..count).step_by(stride as usize).collect();
    if reverse { indices.reverse(); }
    let mut stopped = false;
    for index in indices {
        if t0.elapsed() > wall { stopped = true; break; }
        inflight.seek(SeekFrom::Start(0)).unwrap();
        inflight.write_all(&(index + 1).to_le_bytes()).unwrap();
        let mut cx = make_cx(case_gen(seed, prop.id, index), thorough, index);
        let began = Instant::now();
        let r = run_case(prop.case, &mut cx);
        slowest = slowest.max((began.elapsed().as_millis() as u64, index));
        evals += 1;
        for (t, n) in &cx.tags { *tags.entry(t).or_insert(0) += n; }
        if let Some(d) = cx.digest { writeln!(out, "D {} {}", index, d).unwrap(); }
        if cx.nontrivial {
            nontrivial += 1;
            let h = if cx.desc.is_empty() { hash_u64s(&cx.g.recorded) } else { hash_str(&cx.desc) };
            if seen.insert(h) { writeln!(out, "H {}", h).unwrap(); }
            if samples < 2 && start < 3 { samples += 1; writeln!(out, "S {}", hex(&clip(&cx.desc, 1500))).unwrap(); }
        }
        match r {
            CaseResult::Ok => {}
            CaseResult::Fail(f) => {
                let n = per_sig.entry(f.sig.clone()).or_insert(0);
                *n += 1;
                if *n <= 3 {
                    let ch: Vec<String> = cx.g.recorded.iter().map(|v| v.to_string()).collect();
                    writeln!(out, "F {} {} {} {} {}", index, hex(&f.sig), hex(&f.msg), hex(&cx.desc), if ch.is_empty() { "-".into() } else { ch.join(",") }).unwrap();
                    out.flush().unwrap();
                } else { writeln!(out, "G {}", hex(&f.sig)).unwrap(); }
            }
            CaseResult::Broken(m) => { writeln!(out, "B {} {}", index, hex(&m)).unwrap(); out.flush().unwrap(); }
        }
        if evals % 64 == 0 { out.flush().unwrap(); }
    }
    inflight.seek(SeekFrom::Start(0)).unwrap();
    inflight.write_all(&0u64.to_le_bytes()).unwrap();
    let _ = nontrivial;
    writeln!(out, "E {}", evals).unwrap();
    for (t, n) in tags { writeln!(out, "T {} {}", n, t).unwrap(); }
    writeln!(out, "M {} {}", slowest.0, slowest.1).unwrap();
    if stopped { writeln!(out, "W").unwrap(); }
    out.flush().unwrap();
    0
}

// ---- single case in its own process ------------------------------------------------------------

/// eval ID TIER CHOICES_FILE|- SEED INDEX MIRROR OUT
fn eval(a: &[String]) -> i32 {
    limit_memory(3 << 30);
    let prop = find(&a[0]);
    let index: u64 = a[4].parse().unwrap();
    let mut g = if a[2] == "-" { case_gen(a[3].parse().unwrap(), prop.id, index) } else { Gen::replay(read_choices(&a[2])) };
    if a[5] != "-" { g.mirror = Some(fs::File::create(&a[5]).unwrap()); }
    let mut cx = make_cx(g, a[1] == "thorough", index);
    if a[5] != "-" { cx.desc_mirror = Some(fs::File::create(format!("{}.d", a[5])).unwrap()); }
    match run_case(prop.case, &mut cx) {
        CaseResult::Ok => 0,
        CaseResult::Fail(f) => {
            fs::write(&a[6], format!("{}\n{}\n{}\n", hex(&f.sig), hex(&f.msg), hex(&cx.desc))).unwrap();
            1
        }
        CaseResult::Broken(m) => { eprintln!("oracle broken: {}", m); 3 }
    }
}
/// Processor time used by a child that was not waited for yet.
fn cpu_seconds(pid: u32) -> f64 {
    let Ok(t) = fs::read_to_string(format!("/proc/{}/stat", pid)) else { return f64::MAX };
    let fields: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let ticks = |i: usize| fields.get(i).and_then(|v| v.parse::<f64>().ok()).unwrap_or(f64::MAX);
    (ticks(11) + ticks(12)) / 100.0
}
fn read_choices(p: &str) -> Vec<u64> {
    fs::read_to_string(p).unwrap_or_default().split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()
}

enum Alone { Ok, Fail(Fail, String, Vec<u64>), Broken }

/// Run one case in a fresh process with a time limit.
fn alone(scratch: &Path, id: &str, thorough: bool, source: Result<&[u64], u64>, index: u64, limit: Duration) -> Alone {
    let (cf, mf, of) = (scratch.join("c"), scratch.join("m"), scratch.join("o"));
    let _ = fs::remove_file(&of);
    let _ = fs::remove_file(&mf);
    let (carg, seed) = match source {
        Ok(ch) => {
            fs::write(&cf, ch.iter().map(|v| v.to_string()).collect::<Vec<_>>().join("\n")).unwrap();
            (cf.to_str().unwrap().to_string(), 0)
        }
        Err(seed) => ("-".to_string(), seed),
    };
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["eval", id, if thorough { "thorough" } else { "quick" }, &carg, &seed.to_string(), &index.to_string(), mf.to_str().unwrap(), of.to_str().unwrap()])
        .stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() { break Some(s); }
        // What counts is the time it computed; it may have to share the machine
        if t0.elapsed() > limit && (cpu_seconds(child.id()) > limit.as_secs_f64() || t0.elapsed() > 4 * limit) { let _ = child.kill(); let _ = child.wait(); break None; }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 1 } else { 20 }));
    };
    let choices = || read_choices(mf.to_str().unwrap());
    let desc = || fs::read_to_string(scratch.join("m.d")).unwrap_or_default();
    match status {
        None => Alone::Fail(Fail::new("hang", format!("no answer within {} s", limit.as_secs())), desc(), choices()),
        Some(s) if s.code() == Some(0) => Alone::Ok,
        Some(s) if s.code() == Some(1) => {
            let t = fs::read_to_string(&of).unwrap_or_default();
            let l: Vec<String> = t.lines().map(unhex).collect();
            if l.len() < 3 { return Alone::Broken; }
            Alone::Fail(Fail::new(l[0].clone(), l[1].clone()), l[2].clone(), choices())
        }
        Some(s) if s.code() == Some(3) => Alone::Broken,
        Some(s) => Alone::Fail(
            Fail::new("abort", format!("the process died: signal {:?}, exit code {:?}", s.signal(), s.code())), desc(), choices()),
    }
}

fn one(env: &Env, id: &str, index: u64) -> i32 {
    let prop = find(id);
    let mut cx = make_cx(case_gen(env.seed, prop.id, index), env.thorough, index);
    let t0 = Instant::now();
    let r = run_case(prop.case, &mut cx);
    println!("{}", cx.desc);
    println!("tags {:?} nontrivial {} time {:?}", cx.tags, cx.nontrivial, t0.elapsed());
    report_case(r)
}
fn report_case(r: CaseResult) -> i32 {
    match r {
        CaseResult::Ok => { println!("ok"); 0 }
        CaseResult::Fail(f) => { println!("FAIL [{}] {}", f.sig, f.msg); 1 }
        CaseResult::Broken(m) => { println!("oracle broken: {}", m); 3 }
    }
}
fn replay(path: &str) -> i32 {
    let t = fs::read_to_string(path).unwrap();
    let field = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k))).unwrap_or("").to_string();
    let prop = find(&field("property"));
    let ch: Vec<u64> = field("choices").split(',').filter_map(|s| s.trim().parse().ok()).collect();
    let mut cx = make_cx(Gen::replay(ch), field("tier") == "thorough", field("index").parse().unwrap_or(u64::MAX));
    let r = run_case(prop.case, &mut cx);
    println!("{}", cx.desc);
    report_case(r)
}

// ---- supervisor --------------------------------------------------------------------------------

struct Running { child: Child, start: u64, out: PathBuf, inflight: PathBuf, last: u64, since: Instant }

#[derive(Clone)]
struct Found { index: u64, fail: Fail, desc: String, choices: Vec<u64> }

#[derive(Default)]
struct Stats {
    evals: u64, hashes: HashSet<u64>, samples: Vec<String>, tags: BTreeMap<String, u64>, found: Vec<Found>,
    broken: Vec<(u64, String)>, stopped: bool, digests: BTreeMap<u64, u64>, repeats: u64, slowest: (u64, u64),
}

fn spawn(id: &str, env: &Env, start: u64, count: u64, scratch: &Path, tag: &str, wall: f64, reverse: bool) -> Running {
    let out = scratch.join(format!("out-{}", tag));
    let inflight = scratch.join(format!("in-{}", tag));
    let child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, &env.seed.to_string(), if env.thorough { "thorough" } else { "quick" },
            &start.to_string(), &WORKERS.to_string(), &count.to_string(), out.to_str().unwrap(), inflight.to_str().unwrap(),
            &wall.to_string(), if reverse { "1" } else { "0" }])
        .stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    Running { child, start, out, inflight, last: 0, since: Instant::now() }
}
fn read_inflight(p: &Path) -> u64 {
    let mut b = [0u8; 8];
    match fs::File::open(p).and_then(|mut f| f.read_exact(&mut b)) { Ok(()) => u64::from_le_bytes(b), Err(_) => 0 }
}

fn collect(p: &Path, st: &mut Stats) {
    let t = fs::read_to_string(p).unwrap_or_default();
    for l in t.lines() {
        let mut w = l.split(' ');
        match w.next() {
            Some("E") => st.evals += w.next().unwrap().parse::<u64>().unwrap(),
            Some("H") => { if let Some(Ok(h)) = w.next().map(|x| x.parse()) { st.hashes.insert(h); } }
            Some("S") => st.samples.push(unhex(w.next().unwrap_or(""))),
            Some("T") => { let n: u64 = w.next().unwrap().parse().unwrap(); *st.tags.entry(w.collect::<Vec<_>>().join(" ")).or_insert(0) += n; }
            Some("D") => { if let (Some(Ok(i)), Some(Ok(d))) = (w.next().map(|x| x.parse()), w.next().map(|x| x.parse())) { st.digests.insert(i, d); } }
            Some("F") => {
                let v: Vec<&str> = w.collect();
                if v.len() == 5 {
                    st.found.push(Found {
                        index: v[0].parse().unwrap(), fail: Fail::new(unhex(v[1]), unhex(v[2])), desc: unhex(v[3]),
                        choices: v[4].split(',').filter_map(|s| s.parse().ok()).collect(),
                    });
                }
            }
            Some("G") => st.repeats += 1,
            Some("M") => { if let (Some(Ok(t)), Some(Ok(i))) = (w.next().map(|x| x.parse()), w.next().map(|x| x.parse())) { st.slowest = st.slowest.max((t, i)); } }
            Some("B") => { let i = w.next().unwrap_or("0").parse().unwrap_or(0); st.broken.push((i, unhex(w.next().unwrap_or("")))); }
            Some("W") => st.stopped = true,
            _ => {}
        }
    }
}

fn pass(id: &str, env: &Env, count: u64, scratch: &Path, name: &str, wall: f64, reverse: bool) -> Stats {
    let mut st = Stats::default();
    let case_limit = Duration::from_secs(if env.thorough { 120 } else { 40 });
    let t0 = Instant::now();
    let mut running: Vec<Running> = (0..WORKERS as u64).filter(|s| *s < count)
        .map(|s| spawn(id, env, s, count, scratch, &format!("{}-{}", name, s), wall, reverse)).collect();
    let mut restarts = 0;
    while let Some(mut r) = running.pop() {
        // poll all of them in turn
        running.insert(0, { r.since = r.since; r });
        std::thread::sleep(Duration::from_millis(10));
        let mut i = 0;
        while i < running.len() {
            let r = &mut running[i];
            let now = read_inflight(&r.inflight);
            if now != r.last { r.last = now; r.since = Instant::now(); }
            let status = r.child.try_wait().unwrap();
            let hung = status.is_none() && r.last != 0 && r.since.elapsed() > case_limit;
            if hung { let _ = r.child.kill(); let _ = r.child.wait(); }
            let finished_well = status.map(|s| s.code() == Some(0)).unwrap_or(false);
            if finished_well {
                let r = running.remove(i);
                collect(&r.out, &mut st);
                continue;
            }
            if hung || status.is_some() {
                let r = running.remove(i);
                collect(&r.out, &mut st);
                let at = r.last.max(read_inflight(&r.inflight));
                if at == 0 { st.broken.push((0, format!("worker ended early: {:?}", status))); continue; }
                let index = at - 1;
                if t0.elapsed().as_secs_f64() > wall {
                    *st.tags.entry("slow case at the end of the time, not examined".into()).or_insert(0) += 1;
                    st.stopped = true;
                    continue;
                }
                // what did this case do, on its own?
                let limit = Duration::from_secs(if env.thorough { 300 } else { 90 });
                match alone(scratch, id, env.thorough, Err(env.seed), index, limit) {
                    Alone::Ok => st.tags.entry("slow or interrupted case, fine alone".into()).and_modify(|n| *n += 1).or_insert(1).to_owned(),
                    Alone::Fail(fail, desc, choices) => { st.found.push(Found { index, fail, desc, choices }); 0 }
                    Alone::Broken => { st.broken.push((index, "reference failed".into())); 0 }
                };
                if st.found.last().map_or(false, |f| f.fail.sig == "hang") {
                    // One is enough, others would take the time of the minimisation
                    for mut r in running.drain(..) {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        collect(&r.out, &mut st);
                    }
                    st.stopped = true;
                    break;
                }
                restarts += 1;
                let left = wall - t0.elapsed().as_secs_f64();
                if restarts <= 6 && left > 1.0 && !reverse {
                    let next = index + WORKERS as u64;
                    if next < count {
                        let tag = format!("{}-{}-{}", name, r.start, restarts);
                        running.push(spawn(id, env, next, count, scratch, &tag, left, reverse));
                    }
                } else { st.stopped = true; }
                continue;
            }
            i += 1;
        }
    }
    st
}

/// Entries of known_findings.txt that suppress: `finding: property=ID sig=SIG contains=TEXT`.
struct Known { sig: String, contains: String, line: String }
fn known(env: &Env, id: &str) -> Vec<Known> {
    let t = fs::read_to_string(env.dir.join("known_findings.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let rest = l.strip_prefix("finding: property=")?;
        let (pid, rest) = rest.split_once(' ')?;
        if pid != id { return None; }
        let rest = rest.strip_prefix("sig=")?;
        let (sig, rest) = rest.split_once(' ')?;
        let contains = rest.strip_prefix("contains=")?;
        let (contains, what) = contains.split_once(" -- ")?;
        Some(Known { sig: sig.into(), contains: contains.into(), line: what.into() })
    }).collect()
}

fn check(env: &Env, id: &str) -> i32 {
    let t0 = Instant::now();
    let prop = find(id);
    let scratch = std::env::temp_dir().join(format!("vp-{}-{}", id, std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let count = ((if env.thorough { prop.thorough } else { prop.quick }) as f64 * env.scale) as u64;
    let wall = if env.thorough { 5400.0 } else { 240.0 };
    let mut st = pass(id, env, count, &scratch, "a", wall, false);
    let mut compared = 0;
    if prop.twice && st.found.is_empty() {
        let again = pass(id, env, count, &scratch, "b", wall, true);
        st.evals += again.evals;
        for (i, d) in &st.digests {
            if let Some(e) = again.digests.get(i) {
                compared += 1;
                if d != e {
                    let (choices, desc) = match gen_choices(&prop, env, *i) { Some(x) => x, None => (vec![], String::new()) };
                    st.found.push(Found { index: *i, fail: Fail::new("differs-between-processes", "the same case gave different results in two processes"), desc, choices });
                }
            }
        }
        st.found.extend(again.found);
        st.broken.extend(again.broken);
    }
    // One representative per failure class: the shortest sequence found.
    let mut by_sig: BTreeMap<String, Vec<Found>> = BTreeMap::new();
    for f in st.found.drain(..) { by_sig.entry(f.fail.sig.clone()).or_default().push(f); }
    for v in by_sig.values_mut() { v.sort_by_key(|f| (f.choices.len(), f.index)); }
    let knowns = known(env, id);
    let mut violations = 0;
    let mut known_lines: Vec<String> = Vec::new();
    let nr_sigs = by_sig.len().max(1) as u32;
    let shrink_total = Duration::from_secs(if env.thorough { 240 } else { 60 });
    for (sig, v) in by_sig {
        let mut unlisted: Vec<Found> = Vec::new();
        for f in v {
            match knowns.iter().find(|k| k.sig == sig && (f.desc.contains(&k.contains) || f.fail.msg.contains(&k.contains))) {
                Some(k) => { if !known_lines.contains(&k.line) { known_lines.push(k.line.clone()); } }
                None => unlisted.push(f),
            }
        }
        let Some(f) = unlisted.into_iter().next() else { continue };
        let small = minimise(env, &prop, &scratch, f, shrink_total / nr_sigs);
        let dir = env.dir.join("evidence").join("replay");
        fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}-{}.txt", id, sig.replace(|c: char| !c.is_ascii_alphanumeric(), "_")));
        let text = format!(
            "property: {}\ntier: {}\nindex: {}\nsig: {}\nchoices: {}\nmessage: {}\nrerun: harness replay THIS_FILE\n\n{}\n",
            id, if env.thorough { "thorough" } else { "quick" }, small.index, small.fail.sig,
            small.choices.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","), small.fail.msg.replace('\n', " | "), small.desc);
        fs::write(&path, text).unwrap();
        violations += 1;
        println!("[{}] {}", small.fail.sig, printable(&clip(&small.fail.msg, 600)));
        println!("{}", printable(&clip(&small.desc, 2500)));
        println!("VIOLATION property={} replay={}", id, path.display());
    }
    for l in &known_lines { println!("KNOWN-FINDING: property={} {}", id, l); }
    let mut cov = vec![
        format!("\"evaluations\": {}", st.evals),
        format!("\"distinct_nontrivial\": {}", st.hashes.len()),
        format!("\"rule\": {}", jstr(prop.rule)),
        format!("\"samples\": [{}]", st.samples.iter().take(5).map(|s| jstr(s)).collect::<Vec<_>>().join(", ")),
        format!("\"tags\": {{{}}}", st.tags.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ")),
    ];
    cov.push(format!("\"slowest_case\": {{\"index\": {}, \"seconds\": {:.3}}}", st.slowest.1, st.slowest.0 as f64 / 1000.0));
    if !props::hook::AVAILABLE { cov.push("\"without_hook\": true".into()); }
    if prop.twice { cov.push(format!("\"compared_between_processes\": {}", compared)); }
    if st.stopped { cov.push("\"stopped_by_wall_clock\": true".into()); }
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  {}\n }},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(id), if env.thorough { "thorough" } else { "quick" }, env.seed, cov.join(",\n  "), t0.elapsed().as_secs_f64(), violations);
    fs::create_dir_all(env.dir.join("evidence")).unwrap();
    fs::write(env.dir.join("evidence").join(format!("{}.json", id)), ev).unwrap();
    let _ = fs::remove_dir_all(&scratch);
    println!("{}: {} cases, {} distinct non-trivial, {} violation classes, {:.1} s", id, st.evals, st.hashes.len(), violations, t0.elapsed().as_secs_f64());
    if violations > 0 { return 1; }
    if !st.broken.is_empty() {
        for (i, b) in st.broken.iter().take(5) { eprintln!("check could not decide case {}: {}", i, b); }
        return 2;
    }
    0
}

fn gen_choices(prop: &Prop, env: &Env, index: u64) -> Option<(Vec<u64>, String)> {
    let mut cx = make_cx(case_gen(env.seed, prop.id, index), env.thorough, index);
    let _ = run_case(prop.case, &mut cx);
    Some((cx.g.recorded.clone(), cx.desc.clone()))
}

fn minimise(env: &Env, prop: &Prop, scratch: &Path, f: Found, time: Duration) -> Found {
    let sig = f.fail.sig.clone();
    if sig == "differs-between-processes" { return f; }
    let end = Instant::now() + time;
    let mut best = f.clone();
    let (index, thorough) = (f.index, env.thorough);
    {
        let best = &mut best;
        // A candidate may itself hang or abort, so each runs in its own process.
        let limit = Duration::from_secs(10);
        let mut evalf = |c: &[u64]| -> Option<Vec<u64>> {
            match alone(scratch, prop.id, thorough, Ok(c), index, limit) {
                Alone::Fail(fail, desc, ch) if fail.sig == sig => {
                    if ch == best.choices || engine::better(&ch, &best.choices) {
                        *best = Found { index, fail, desc, choices: ch.clone() };
                    }
                    Some(ch)
                }
                _ => None,
            }
        };
        let mut budget = || Instant::now() < end;
        shrink(f.choices.clone(), &mut evalf, &mut budget);
    }
    best
}
