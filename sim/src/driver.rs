//! Batch execution, minimisation, replay, evidence.
use crate::bank::*;
use crate::gen::Gen;
use crate::prng::hash_seed;
use crate::types::*;
use crate::world::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub fn prop_num(p: &str) -> u64 {
    p.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64))
}
fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    hash_seed(&[seed, prop_num(prop), run, cfg!(feature = "production") as u64])
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    arg(a, k).map(|x| x.parse().expect("number")).unwrap_or(d)
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&a),
        Some("check") => check(&a),
        Some("replay") => replay_cmd(&a[2]),
        Some("one") => one(&a),
        Some("survey") => survey(&a),
        Some("trace") => trace(&a),
        Some("owner-key") => {
            println!("{}", solana_program::pubkey::Pubkey::new_from_array(crate::gen::OWNER_KEY));
            0
        }
        _ => {
            eprintln!("usage: tbcsim check|worker|replay|one|survey");
            2
        }
    }
}

// ---------------------------------------------------------------------------------- replay

pub struct Start {
    pub names: Names,
    pub accts: Vec<Acct>,
    pub tp: Aid,
    pub tbc: Aid,
    pub production: Option<Con>,
}
impl Start {
    pub fn of(w: &World) -> Start {
        Start { names: w.names.clone(), accts: w.st.accts.clone(), tp: w.tp, tbc: w.tbc, production: w.production.clone() }
    }
    pub fn world(&self, prop: &str) -> World {
        World::new(Genesis { names: self.names.clone(), accts: self.accts.clone(), tp: self.tp, tbc: self.tbc, production: self.production.clone() }, prop)
    }
}

/// Applies the events until the first violation; returns it and how many events were used.
fn play(s: &Start, evs: &[Event], prop: &str) -> (Option<Violation>, usize, u64) {
    let mut w = s.world(prop);
    for (i, e) in evs.iter().enumerate() {
        w.apply(e);
        if let Some(v) = w.viol.first() {
            return (Some(v.clone()), i + 1, w.digest);
        }
    }
    (None, evs.len(), w.digest)
}

fn header(prop: &str, seed: u64, run: u64, msg: &str) -> String {
    format!(
        "tbcsim-replay 1\nproperty {}\nbuild {}\nseed {} run {}\nviolation {}\n",
        prop,
        if cfg!(feature = "production") { "production" } else { "default" },
        seed,
        run,
        msg.replace('\n', " ")
    )
}

fn replay_text(s: &Start, evs: &[Event], prop: &str, seed: u64, run: u64, v: &Violation) -> String {
    let mut o = header(prop, seed, run, &v.msg);
    // accounts nothing refers to are left out, except what the ledger needs
    for (i, k) in s.names.keys.iter().enumerate() {
        let _ = writeln!(o, "{}", acct_text(&s.names.names[i], k, &s.accts[i]));
    }
    o.push_str("events\n");
    for e in evs {
        let _ = writeln!(o, "{}", event_text(e, &s.names));
    }
    o
}

fn parse_replay(text: &str) -> (String, String, Start, Vec<Event>) {
    let mut names = Names::default();
    let mut accts = vec![];
    let mut lines = text.lines();
    let mut prop = String::new();
    let mut msg = String::new();
    for l in lines.by_ref() {
        if let Some(p) = l.strip_prefix("property ") {
            prop = p.trim().to_string();
        } else if let Some(m) = l.strip_prefix("violation ") {
            msg = m.to_string();
        } else if l.starts_with("acct ") {
            let (n, k, a) = acct_parse(l);
            names.add(&n, k);
            accts.push(a);
        } else if l == "events" {
            break;
        }
    }
    let rest: Vec<String> = lines.map(|s| s.to_string()).collect();
    let evs = parse_events(&rest, &names);
    let tp = names.by_name("token-program").unwrap();
    let tbc = names.by_name("program").unwrap();
    let production = if cfg!(feature = "production") {
        Some(Con { fees: crate::gen::PRODUCTION_FEES, types: vec![PRICE, CP], owner: names.by_name("owner").unwrap() })
    } else {
        None
    };
    (prop, msg, Start { names, accts, tp, tbc, production }, evs)
}

fn replay_cmd(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    if text.starts_with("tbcsim-batch 1") {
        return replay_batch(path, &text);
    }
    let (prop, msg, s, evs) = parse_replay(&text);
    let (v, n, _) = play(&s, &evs, &prop);
    match v {
        Some(v) => {
            println!("after event {} of {}: {}", n, evs.len(), v.msg);
            println!("VIOLATION property={} replay={}", prop, path);
            if v.msg.replace('\n', " ") != msg {
                println!("note: the recorded message was: {}", msg);
            }
            1
        }
        None => {
            println!("no violation: {} events replayed", evs.len());
            0
        }
    }
}

// ---------------------------------------------------------------------------------- minimise

fn minimise(s: &Start, evs: Vec<Event>, prop: &str, budget: Duration) -> Vec<Event> {
    let t0 = Instant::now();
    let fails = |e: &[Event]| -> Option<usize> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| play(s, e, prop))) {
            Ok((v, n, _)) => v.map(|_| n),
            Err(_) => None,
        }
    };
    let mut cur = evs;
    match fails(&cur) {
        Some(n) => cur.truncate(n),
        None => return cur,
    }
    // drop events
    let mut size = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut progress = false;
        while i < cur.len() && t0.elapsed() < budget {
            let j = (i + size).min(cur.len());
            let mut c = cur[..i].to_vec();
            c.extend_from_slice(&cur[j..]);
            match fails(&c) {
                Some(n) => {
                    c.truncate(n);
                    cur = c;
                    progress = true;
                }
                None => i = j,
            }
        }
        if t0.elapsed() >= budget || (size == 1 && !progress) {
            break;
        }
        if !progress || size > 1 {
            size = (size / 2).max(1);
        }
    }
    // simplify what is left
    let mut again = true;
    while again && t0.elapsed() < budget {
        again = false;
        for i in 0..cur.len() {
            for cand in simpler(&cur[i]) {
                if t0.elapsed() >= budget {
                    break;
                }
                let mut c = cur.clone();
                c[i] = cand;
                if let Some(n) = fails(&c) {
                    c.truncate(n);
                    cur = c;
                    again = true;
                    break;
                }
            }
            if i + 1 >= cur.len() {
                break;
            }
        }
    }
    cur
}

fn smaller(x: u64) -> Vec<u64> {
    let mut v = vec![];
    if x == 0 {
        return v;
    }
    for c in [0, 1, 10, x / 1000, x / 10, x / 2, x - 1] {
        if c < x && !v.contains(&c) {
            v.push(c);
        }
    }
    v
}

fn simpler(e: &Event) -> Vec<Event> {
    let mut out = vec![];
    if let Event::Exec { slot, tx, fault, note } = e {
        if !note.is_empty() {
            out.push(Event::Exec { slot: *slot, tx: tx.clone(), fault: *fault, note: String::new() });
        }
        if *fault != Fault::None {
            out.push(Event::Exec { slot: *slot, tx: tx.clone(), fault: Fault::None, note: note.clone() });
        }
        if tx.ixs.len() > 1 {
            for i in 0..tx.ixs.len() {
                let mut t = tx.clone();
                t.ixs.remove(i);
                out.push(Event::Exec { slot: *slot, tx: t, fault: *fault, note: note.clone() });
            }
        }
        for (i, ix) in tx.ixs.iter().enumerate() {
            let mut push = |op: Op| {
                let mut t = tx.clone();
                t.ixs[i].op = op;
                out.push(Event::Exec { slot: *slot, tx: t, fault: *fault, note: note.clone() });
            };
            match ix.op {
                Op::Swap { amt, min } => {
                    if min != 0 {
                        push(Op::Swap { amt, min: 0 });
                    }
                    for x in smaller(amt) {
                        push(Op::Swap { amt: x, min });
                    }
                }
                Op::SwapHost { amt, min } => {
                    if min != 0 {
                        push(Op::SwapHost { amt, min: 0 });
                    }
                    for x in smaller(amt) {
                        push(Op::SwapHost { amt: x, min });
                    }
                }
                Op::DepAll { pt, ma, mb } => {
                    if ma != u64::MAX || mb != u64::MAX {
                        push(Op::DepAll { pt, ma: u64::MAX, mb: u64::MAX });
                    }
                    for x in smaller(pt) {
                        push(Op::DepAll { pt: x, ma, mb });
                    }
                }
                Op::WdAll { pt, ma, mb } => {
                    if ma != 0 || mb != 0 {
                        push(Op::WdAll { pt, ma: 0, mb: 0 });
                    }
                    for x in smaller(pt) {
                        push(Op::WdAll { pt: x, ma, mb });
                    }
                }
                Op::DepOne { amt, min } => {
                    for x in smaller(amt) {
                        push(Op::DepOne { amt: x, min });
                    }
                }
                Op::WdOne { amt, max } => {
                    for x in smaller(amt) {
                        push(Op::WdOne { amt: x, max });
                    }
                }
                Op::Transfer(n) => {
                    for x in smaller(n) {
                        push(Op::Transfer(x));
                    }
                }
                Op::Burn(n) => {
                    for x in smaller(n) {
                        push(Op::Burn(x));
                    }
                }
                _ => {}
            }
        }
    }
    out
}

// ---------------------------------------------------------------------------------- runs

fn one(a: &[String]) -> i32 {
    let prop = arg(a, "--prop").unwrap();
    let (seed, run) = (num(a, "--seed", 1), num(a, "--run", 0));
    let mut g = Gen::new(&prop, run_seed(seed, &prop, run));
    let s = Start::of(&g.w);
    g.run();
    for e in &g.trace {
        println!("{}", event_text(e, &s.names));
    }
    for v in &g.w.viol {
        println!("! {} {}", v.prop, v.msg);
    }
    println!("digest {:016x}", g.w.digest);
    0
}

/// Development aid: one run under the profile of `--prop`, judged by `--only`, minimised, with the
/// pools' states after every event.
fn trace(a: &[String]) -> i32 {
    let prop = arg(a, "--prop").unwrap();
    let only = arg(a, "--only").unwrap_or(prop.clone());
    let (seed, run) = (num(a, "--seed", 1), num(a, "--run", 0));
    let mut g = Gen::new(&prop, run_seed(seed, &prop, run));
    g.w.prop = only.clone();
    let s = Start::of(&g.w);
    g.run();
    let evs = minimise(&s, g.trace.clone(), &only, Duration::from_secs(20));
    let mut w = s.world(&only);
    for e in &evs {
        w.apply(e);
        println!("{}", event_text(e, &s.names));
        let pools = w.st.pools.clone();
        for (i, c) in pools.iter().enumerate() {
            println!(
                "    ok={} {} {} A={} B={} S={} out={} p={:?} fees={:?}",
                w.last_ok,
                s.names.names[c.swap as usize],
                kind_name(c.kind),
                w.bal(c.va),
                w.bal(c.vb),
                w.supply(c.pm),
                w.st.bout[i],
                c.p,
                c.fees
            );
        }
        if let Some(crate::judge::Verdict::Op(o)) = &w.last_verdict {
            println!("    {:?}", o.alts);
        }
        for v in &w.viol {
            println!("! {} {}", v.prop, v.msg);
        }
    }
    0
}

/// Development aid: all oracles over one profile, violations counted by property and shape.
fn survey(a: &[String]) -> i32 {
    let n = num(a, "--count", 1000);
    let seed = num(a, "--seed", 1);
    let show = num(a, "--show", 3);
    let prop = arg(a, "--prop").unwrap_or("C20".into());
    let only = arg(a, "--only");
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut stats = Stats::default();
    let t0 = Instant::now();
    for run in 0..n {
        let mut g = Gen::new(&prop, run_seed(seed, &prop, run));
        g.w.prop = only.clone().unwrap_or("ALL".into());
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.run())).is_err() {
            println!("run {}: HARNESS panic", run);
            *seen.entry("CXX harness panic".into()).or_insert(0) += 1;
            continue;
        }
        for v in &g.w.viol {
            let words: Vec<&str> = v.msg.split_whitespace().take(7).collect();
            let k = format!("{} {}", v.prop, words.join(" "));
            let c = seen.entry(k).or_insert(0);
            *c += 1;
            if *c <= show {
                println!("run {}: {} {}", run, v.prop, v.msg);
            }
        }
        merge(&mut stats, &g.w.stats);
    }
    println!("---- {} runs in {:.1}s", n, t0.elapsed().as_secs_f64());
    for (k, v) in &seen {
        println!("{:6} {}", v, k);
    }
    if arg(a, "--stats").is_some() {
        for (k, v) in &stats.n {
            println!("{:8} {}", v, k);
        }
        println!("judged {} nontrivial {} states {} distinct {}", stats.judged, stats.nontrivial, stats.states.len(), stats.distinct.len());
    }
    0
}

fn merge(t: &mut Stats, s: &Stats) {
    for (k, v) in &s.n {
        *t.n.entry(k.clone()).or_default() += v;
    }
    t.states.extend(s.states.iter());
    t.distinct.extend(s.distinct.iter());
    t.judged += s.judged;
    t.nontrivial += s.nontrivial;
    t.slots += s.slots;
}

fn worker(a: &[String]) -> i32 {
    let prop = arg(a, "--prop").unwrap();
    let seed = num(a, "--seed", 1);
    let (from, step, count) = (num(a, "--from", 0), num(a, "--step", 1), num(a, "--count", 100));
    let dir = arg(a, "--dir").unwrap_or("/verif/replays".into());
    let digests = arg(a, "--digests").is_some();
    let desc = arg(a, "--desc").is_some();
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut stats = Stats::default();
    let mut runs: Vec<u64> = (from..count).step_by(step as usize).collect();
    if desc {
        runs.reverse();
    }
    let mut code = 0;
    let mut txs = 0u64;
    for run in runs {
        let _ = writeln!(out, "B {}", run);
        let _ = out.flush();
        let mut g = Gen::new(&prop, run_seed(seed, &prop, run));
        let start = Start::of(&g.w);
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.run())).is_err() {
            let _ = writeln!(out, "P {}", run);
            continue;
        }
        merge(&mut stats, &g.w.stats);
        txs += g.trace.iter().filter(|e| matches!(e, Event::Exec { .. })).count() as u64;
        if digests {
            let _ = writeln!(out, "D {} {:016x}", run, g.w.digest);
        }
        if run < 2 {
            // a sample for the evidence file
            let t: Vec<String> = g.trace.iter().take(12).map(|e| event_text(e, &start.names).replace('\n', " ;")).collect();
            let _ = writeln!(out, "X {} {}", run, t.join(" | "));
        }
        if let Some(v) = g.w.viol.first().cloned() {
            let evs = minimise(&start, g.trace.clone(), &prop, Duration::from_secs(40));
            let (v2, n, _) = play(&start, &evs, &prop);
            let (v, evs) = match v2 {
                Some(v2) => (v2, evs[..n].to_vec()),
                None => (v, g.trace.clone()),
            };
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-seed{}-run{}{}.replay", dir, prop, seed, run, if cfg!(feature = "production") { "-production" } else { "" });
            std::fs::write(&path, replay_text(&start, &evs, &prop, seed, run, &v)).expect("write replay");
            let _ = writeln!(out, "V {} {} {}", run, path, v.msg.replace('\n', " "));
            code = 1;
            break;
        }
    }
    stats.n.insert("transactions".into(), txs);
    stats.n.insert("judged".into(), stats.judged);
    stats.n.insert("nontrivial".into(), stats.nontrivial);
    stats.n.insert("slots".into(), stats.slots);
    for (k, v) in &stats.n {
        let _ = writeln!(out, "S {} {}", v, k);
    }
    let hexes = |s: &HashSet<u64>| {
        let mut o = String::with_capacity(s.len() * 17);
        for x in s {
            let _ = write!(o, " {:x}", x);
        }
        o
    };
    let _ = writeln!(out, "T{}", hexes(&stats.states));
    let _ = writeln!(out, "U{}", hexes(&stats.distinct));
    let _ = writeln!(out, "E");
    let _ = out.flush();
    code
}

/// A replay file that names a batch rather than listing events: used where what went wrong is a
/// difference between processes, or the process itself not surviving.
fn replay_batch(path: &str, text: &str) -> i32 {
    let mut prop = String::new();
    let mut cmds: Vec<Vec<String>> = vec![];
    let mut run = 0u64;
    let mut kind = String::new();
    for l in text.lines() {
        if let Some(p) = l.strip_prefix("property ") {
            prop = p.trim().into();
        } else if let Some(p) = l.strip_prefix("kind ") {
            kind = p.trim().into();
        } else if let Some(p) = l.strip_prefix("run ") {
            run = p.trim().parse().unwrap();
        } else if let Some(p) = l.strip_prefix("process ") {
            cmds.push(p.split_whitespace().map(|s| s.to_string()).collect());
        }
    }
    let exe = std::env::current_exe().unwrap();
    let mut digs: Vec<Option<String>> = vec![];
    let mut died = false;
    for (i, c) in cmds.iter().enumerate() {
        let r = spawn(&exe.to_string_lossy(), c, i as u64, Duration::from_secs(120));
        died |= !r.ended;
        digs.push(r.digests.get(&run).cloned());
    }
    let bad = if kind == "died" { died } else { digs.windows(2).any(|w| w[0] != w[1]) };
    if bad {
        println!("VIOLATION property={} replay={}", prop, path);
        1
    } else {
        println!("no violation");
        0
    }
}

#[derive(Default)]
struct Out {
    ended: bool,
    /// runs in which the simulator itself (not the program) panicked
    harness: Vec<u64>,
    last: Option<u64>,
    digests: BTreeMap<u64, String>,
    viol: Option<(u64, String, String)>,
    n: BTreeMap<String, u64>,
    states: Vec<u64>,
    distinct: Vec<u64>,
    samples: Vec<String>,
}

fn spawn(exe: &str, args: &[String], salt: u64, silence: Duration) -> Out {
    let mut child = Command::new(exe)
        .args(args)
        .env("TBCSIM_SALT", "x".repeat(1 + (salt as usize * 137) % 900))
        .env("TZ", ["UTC", "Asia/Tokyo", "America/New_York"][salt as usize % 3])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker");
    let so = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    let h = std::thread::spawn(move || {
        for l in BufReader::new(so).lines().map_while(Result::ok) {
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    let mut o = Out::default();
    loop {
        match rx.recv_timeout(silence) {
            Ok(l) => {
                let (k, r) = l.split_at(1);
                let r = r.trim();
                match k {
                    "P" => o.harness.push(r.parse().unwrap_or(0)),
                    "B" => o.last = r.parse().ok(),
                    "D" => {
                        let mut t = r.split(' ');
                        o.digests.insert(t.next().unwrap().parse().unwrap(), t.next().unwrap().into());
                    }
                    "V" => {
                        let mut t = r.splitn(3, ' ');
                        o.viol = Some((t.next().unwrap().parse().unwrap(), t.next().unwrap().into(), t.next().unwrap_or("").into()));
                    }
                    "S" => {
                        let mut t = r.splitn(2, ' ');
                        let v: u64 = t.next().unwrap().parse().unwrap();
                        *o.n.entry(t.next().unwrap().into()).or_default() += v;
                    }
                    "T" => o.states.extend(r.split_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap())),
                    "U" => o.distinct.extend(r.split_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap())),
                    "X" => o.samples.push(r.into()),
                    "E" => o.ended = true,
                    _ => {}
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                let _ = child.kill();
                break;
            }
            Err(_) => break,
        }
    }
    let _ = child.kill();
    let _ = child.wait();
    let _ = h.join();
    o
}

/// How many runs each check makes, fixed so that one VERIF_SEED is one set of executions.
pub fn budget(prop: &str, tier: &str) -> u64 {
    let q = match prop {
        "C01" => 13_000,
        "C02" => 29_000,
        "C03" => 39_000,
        "C04" => 50_000,
        "C05" => 56_000,
        "C06" => 60_000,
        "C07" => 39_000,
        "C08" => 196_000,
        "C09" => 57_000,
        "C10" => 10_000,
        "C11" => 43_000,
        "C12" => 40_000,
        "C13" => 39_000,
        "C14" => 55_000,
        "C15" => 70_000,
        "C16" => 49_000,
        "C17" => 135_000,
        "C18" => 49_000,
        "C19" => 18_000,
        "C20" => 68_000,
        "C21" => 22_000,
        "C24" => 55_000,
        "C25" => 90_000,
        "C26" => 75_000,
        _ => 10_000,
    };
    if tier == "thorough" {
        q * 20
    } else {
        q
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn check(a: &[String]) -> i32 {
    let prop = arg(a, "--prop").expect("--prop");
    let tier = arg(a, "--tier").unwrap_or("quick".into());
    let seed = num(a, "--seed", 1);
    let dir = arg(a, "--dir").unwrap_or("/verif/replays".into());
    let evidence = arg(a, "--evidence");
    let level = arg(a, "--level").unwrap_or("exploration".into());
    let prod = arg(a, "--prod");
    let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64;
    let workers = num(a, "--workers", cpus.clamp(1, 16));
    let count = num(a, "--count", budget(&prop, &tier));
    let silence = Duration::from_secs(150);
    println!("property {} tier {} VERIF_SEED {} runs {}", prop, tier, seed, count);
    let exe = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let t0 = Instant::now();
    let mut jobs: Vec<(String, Vec<String>)> = vec![];
    let wargs = |from: u64, n: u64, extra: &[&str]| -> Vec<String> {
        let mut v: Vec<String> = vec!["worker", "--prop", &prop, "--seed", &seed.to_string(), "--from", &from.to_string(), "--step", &workers.to_string(), "--count", &n.to_string(), "--dir", &dir]
            .into_iter()
            .map(String::from)
            .collect();
        v.extend(extra.iter().map(|s| s.to_string()));
        v
    };
    for k in 0..workers {
        let ex: &[&str] = if prop == "C10" { &["--digests", "1"] } else { &[] };
        jobs.push((exe.clone(), wargs(k, count, ex)));
    }
    if prop == "C10" {
        // the same runs again, in other processes, in the opposite order
        for k in 0..workers {
            jobs.push((exe.clone(), wargs(k, count, &["--digests", "1", "--desc", "1"])));
        }
    }
    if let Some(p) = &prod {
        for k in 0..workers {
            jobs.push((p.clone(), wargs(k, count / 2, &[])));
        }
    }
    let n_jobs = jobs.len();
    // at most `workers` at a time
    let outs: Vec<Out> = {
        let (tx, rx) = mpsc::channel();
        let queue = std::sync::Arc::new(std::sync::Mutex::new((0..n_jobs).collect::<std::collections::VecDeque<usize>>()));
        let jobs = std::sync::Arc::new(jobs.clone());
        let mut hs = vec![];
        for _ in 0..workers {
            let (q, j, tx) = (queue.clone(), jobs.clone(), tx.clone());
            hs.push(std::thread::spawn(move || loop {
                let i = match q.lock().unwrap().pop_front() {
                    Some(i) => i,
                    None => break,
                };
                let o = spawn(&j[i].0, &j[i].1, i as u64, silence);
                let _ = tx.send((i, o));
            }));
        }
        drop(tx);
        let mut v: Vec<(usize, Out)> = rx.iter().collect();
        for h in hs {
            let _ = h.join();
        }
        v.sort_by_key(|x| x.0);
        v.into_iter().map(|x| x.1).collect()
    };
    let wall = t0.elapsed().as_secs_f64();
    let mut viol: Vec<(u64, String, String)> = vec![];
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    for (i, o) in outs.iter().enumerate() {
        if let Some(v) = &o.viol {
            viol.push(v.clone());
        } else if !o.ended && viol.iter().any(|v| v.1.ends_with("-died.replay")) {
            // one such report is enough
        } else if !o.ended {
            // the process under simulation died or hung: the same single run again, alone
            let run = match o.last {
                Some(r) => r,
                None => {
                    eprintln!("worker did not start");
                    return 2;
                }
            };
            let (bin, mut c) = jobs[i].clone();
            for (k, v) in [("--from", run.to_string()), ("--count", (run + 1).to_string()), ("--step", "1".into())] {
                let p = c.iter().position(|x| x == k).unwrap();
                c[p + 1] = v;
            }
            let r = spawn(&bin, &c, 0, silence);
            if r.ended {
                // only with what came before it in the same process?
                c = jobs[i].1.clone();
                let r = spawn(&bin, &c, 0, silence);
                if r.ended || r.viol.is_some() {
                    eprintln!("worker died in run {} but the runs complete when repeated: harness error", run);
                    return 2;
                }
            }
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-seed{}-run{}-died.replay", dir, prop, seed, run);
            let t = format!("tbcsim-batch 1\nproperty {}\nkind died\nrun {}\nprocess {}\n", prop, run, c.join(" "));
            if std::fs::write(&path, t).is_err() {
                return 2;
            }
            viol.push((run, path, "the program did not return (endless loop or process abort)".into()));
        }
        for (k, v) in &o.n {
            *n.entry(k.clone()).or_default() += v;
        }
        states.extend(&o.states);
        distinct.extend(&o.distinct);
        samples.extend(o.samples.iter().cloned());
    }
    if prop == "C10" && viol.is_empty() {
        let w = workers as usize;
        'f: for k in 0..w {
            for (run, d) in &outs[k].digests {
                if let Some(e) = outs[w + k].digests.get(run) {
                    if e != d {
                        let _ = std::fs::create_dir_all(&dir);
                        let path = format!("{}/{}-seed{}-run{}-batch.replay", dir, prop, seed, run);
                        let t = format!("tbcsim-batch 1\nproperty {}\nkind differ\nrun {}\nprocess {}\nprocess {}\n", prop, run, jobs[k].1.join(" "), jobs[w + k].1.join(" "));
                        if std::fs::write(&path, t).is_err() {
                            return 2;
                        }
                        viol.push((*run, path, "two processes executing the same transactions from the same ledger ended in different states".into()));
                        break 'f;
                    }
                }
            }
        }
    }
    viol.sort();
    let broken: Vec<u64> = outs.iter().flat_map(|o| o.harness.iter().copied()).collect();
    let runs: u64 = count * if prop == "C10" { 2 } else { 1 } + if prod.is_some() { count / 2 } else { 0 };
    let g = |k: &str| *n.get(k).unwrap_or(&0);
    let cat = |pre: &str| -> String {
        let v: Vec<String> = n.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| format!("{}: {}", js(&k[pre.len()..]), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    if let Some(path) = evidence {
        samples.sort();
        samples.truncate(3);
        let sl: Vec<String> = samples.iter().map(|s| js(&s.chars().take(1800).collect::<String>())).collect();
        let sec = (g("slots") as f64) * 0.4;
        let t = format!(
            "{{\n \"property\": {p},\n \"tier\": {t},\n \"seed\": {seed},\n \"level\": {lv},\n \"coverage\": {{\n  \"evaluations\": {ev},\n  \"distinct_nontrivial\": {dn},\n  \"rule\": {rule},\n  \"samples\": [{samples}],\n  \"runs\": {runs},\n  \"seeds\": {runs},\n  \"runs_per_hour\": {rph},\n  \"transactions_simulated\": {tx},\n  \"oracle_decisions\": {jd},\n  \"oracle_decisions_nontrivial\": {nt},\n  \"simulated_slots\": {slots},\n  \"simulated_seconds\": {sec:.0},\n  \"faults_fired\": {faults},\n  \"network\": {net},\n  \"operations\": {ops},\n  \"refusals_decided\": {refuse},\n  \"model_branches_hit\": {branch},\n  \"states_reached\": {states},\n  \"states_measure\": \"distinct (operation, pool kind, log2 of both reserves, of the supply and of the curve parameters, fee mask) tuples after successful transactions\",\n  \"other\": {other},\n  \"real_components\": [\"token-bonding-curve program (the public instruction entry point; the processor API for what has no instruction)\", \"anchor-lang dispatch and account validation\", \"spl-token 3.3.0 processor\", \"spl-math\"],\n  \"stubbed_components\": [\"Solana runtime (native execution, account rules, cross-program calls, atomic commit, sysvars)\", \"network, leaders, forks, node storage\", \"clients\"]\n }},\n \"assumptions\": [\"native x86-64 execution stands for BPF execution\", \"the runtime stub enforces the documented account and privilege rules\"],\n \"wall_s\": {wall:.2},\n \"violations\": {vn}\n}}\n",
            p = js(&prop),
            t = js(&tier),
            seed = seed,
            lv = js(&level),
            ev = g("transactions"),
            dn = distinct.len(),
            rule = js("Seeded simulated runs: a generated ledger with 1-7 pools and several users; clients, attackers, network, forks, crashes and call failures drive transactions through the real program. A case is one executed transaction. It is non-trivial when this property's oracle had a decision to make on it (a must-fail, a must-succeed, an amount range, a probe, an invariant with something at stake), and distinct by operation, outcome, pool kind, magnitude of reserves, supply, parameters and amount, fee mask, and reason for refusal."),
            samples = sl.join(", "),
            runs = runs,
            rph = (runs as f64 / wall * 3600.0) as u64,
            tx = g("transactions"),
            jd = g("judged"),
            nt = g("nontrivial"),
            slots = g("slots"),
            sec = sec,
            faults = cat("fault:"),
            net = cat("net:"),
            ops = cat("op:"),
            refuse = cat("refuse:"),
            branch = cat("branch:"),
            states = states.len(),
            other = {
                let v: Vec<String> = n
                    .iter()
                    .filter(|(k, _)| ["known:", "named:", "probe:", "state:", "epilogue", "checkpoint", "note:", "client:", "verdict:", "tx:"].iter().any(|p| k.starts_with(p)))
                    .map(|(k, v)| format!("{}: {}", js(k), v))
                    .collect();
                format!("{{{}}}", v.join(", "))
            },
            wall = wall,
            vn = viol.len()
        );
        if let Err(e) = std::fs::write(&path, t) {
            eprintln!("cannot write {}: {}", path, e);
            return 2;
        }
    }
    println!(
        "{} runs, {} transactions, {} oracle decisions ({} non-trivial), {} states, {:.1}s",
        runs,
        g("transactions"),
        g("judged"),
        g("nontrivial"),
        states.len(),
        wall
    );
    for (p, id, text) in known_findings() {
        if p == prop {
            println!("KNOWN-FINDING: property={} {} (finding {}, met {} times)", p, text, id, g(&format!("known:{}:{}", p, id)));
        }
    }
    if let Some((run, path, msg)) = viol.first() {
        println!("run {}: {}", run, msg);
        println!("VIOLATION property={} replay={}", prop, path);
        return 1;
    }
    if !broken.is_empty() {
        eprintln!("the simulator itself panicked in runs {:?}", &broken[..broken.len().min(8)]);
        return 2;
    }
    println!("held: {}", prop);
    0
}
