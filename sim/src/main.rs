//! Deterministic simulation with fault injection for whasm. See /verif/DESIGN.md.

#![allow(suspicious_runtime_symbol_definitions)]

mod bridge;
mod case;
mod cli;
mod known;
mod meter;
mod props;
mod render;
mod runner;
mod sched;
mod source;
mod split;
mod sys;

pub use world::{enc, gen, model};

use std::time::Instant;

fn env(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d) }

fn workers() -> usize { env("VERIF_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(16)) as usize }

/// Fixed addresses: nothing may depend on them, but a replay should not either.
fn fix_addresses() {
    unsafe {
        let now = sys::personality(0xFFFF_FFFF);
        if now < 0 || now & 0x004_0000 != 0 || std::env::var_os("WHASM_SIM_FIXED").is_some() { return; }
        if sys::personality(now as u64 | 0x004_0000) < 0 { return; }
        use std::os::unix::process::CommandExt;
        let mut a = std::env::args_os();
        a.next();
        let _ = std::process::Command::new("/proc/self/exe").args(a).env("WHASM_SIM_FIXED", "1").exec();
    }
}

fn main() {
    fix_addresses();
    props::quiet_panics();
    cli::prepare();
    let a: Vec<String> = std::env::args().collect();
    let code = runner::on_thread(|| match a.get(1).map(|s| &s[..]) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2], &a[3]),
        Some("selfcheck") => selfcheck(&a[2..]),
        Some("show") => { print!("{}", runner::case_of(env("VERIF_SEED", 1), &a[2], a[3].parse().unwrap()).text()); 0 }
        _ => { eprintln!("usage: sim check <property> | replay <property> <file> | selfcheck <property>... | show <property> <run>"); 2 }
    });
    cli::clean();
    std::process::exit(code);
}

fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) }

fn check(prop: &str) -> i32 {
    let seed = env("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let p = runner::plan(prop, tier);
    let t0 = Instant::now();
    println!("property {} tier {} seed {} runs {} workers {}", prop, tier, seed, p.runs, workers());
    let wall = env("VERIF_WALL", if tier == "quick" { 500 } else { 7200 });
    let t = runner::explore(prop, seed, p.runs, p.batch, workers(), wall);
    let spent = t0.elapsed().as_secs_f64();
    println!("runs {} evaluations {} distinct {} reach {} digest {:016x} in {:.1} s", t.runs, t.evals, t.sigs.len(), t.reach.len(), t.digest, spent);
    let mut code = 0;
    if let Some((b, run, m)) = &t.fail {
        println!("run {} of seed {} fails: {}", run, seed, m);
        let s = runner::settle(prop, seed, p.batch, *b, *run, m);
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let file = format!("{}/{}-seed{}-run{}.replay", dir, prop, seed, run);
        let mut text = format!("# replay: bash check.sh {} replay <this file>\nproperty {}\nseed {}\nrun {}\nrun-seed {}\nmessage {}\nhow {}\nfound-as {}\n", prop, prop, seed, run, runner::run_seed(seed, prop, *run), s.message, s.how, m);
        for c in &s.cases { text += &c.text(); }
        if let Err(e) = std::fs::write(&file, text) { println!("cannot write {}: {}", file, e); }
        println!("minimised: {} ({}, {} case(s), size {})", s.message, s.how, s.cases.len(), s.cases.iter().map(|c| c.size()).sum::<usize>());
        println!("VIOLATION property={} replay={}", prop, file);
        code = 1;
    }
    let known = known::demonstrate(prop);
    evidence(prop, tier, seed, &t, spent, t0.elapsed().as_secs_f64(), &known);
    code
}

fn evidence(prop: &str, tier: &str, seed: u64, t: &runner::Total, spent: f64, wall: f64, known: &[String]) {
    use runner::json;
    let group = |prefix: &str| -> String {
        let v: Vec<String> = t.counts.iter().filter(|(k, _)| k.starts_with(prefix)).map(|(k, v)| format!("{}: {}", json(&k[prefix.len()..]), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let rest: Vec<String> = t.counts.iter().filter(|(k, _)| !k.contains(':') && *k != "simulated microseconds").map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    let samples: Vec<String> = (0..3).map(|i| json(&runner::describe(&runner::case_of(seed, prop, i * 7 + 1)))).collect();
    let (rule, measure) = known::rule(prop);
    let real = if ["C10", "C11", "C17", "C21", "C22", "C25"].contains(&prop) { "real: whole command line program and library, as built from /repo; stub: the operating system's open/status/seek/read/write/entropy results" } else { "real: whole decoder and validator, as built from /repo; stub: byte source, allocator accounting, thread scheduling, clock, entropy" };
    let faults: u64 = t.counts.iter().filter(|(k, _)| k.starts_with("fault:")).map(|(_, v)| v).sum();
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs\": {},\n  \"runs_per_hour\": {},\n  \"simulated_seconds\": {},\n  \"faults_injected\": {},\n  \"faults_by_kind\": {},\n  \"distinct_behaviours\": {},\n  \"behaviour_measure\": {},\n  \"oracle_verdicts\": {},\n  \"skipped\": {},\n  \"deliveries\": {},\n  \"work\": {},\n  \"maxima\": {},\n  \"other_counts\": {{{}}},\n  \"components\": {},\n  \"stopped_by_wall_clock\": {},\n  \"known_findings_shown\": {},\n  \"digest\": \"{:016x}\"\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json(prop), json(tier), seed, json(if prop == "C03" || prop == "C16" { "fault_enumeration" } else { "exploration" }), t.evals, t.sigs.len(), json(rule), samples.join(", "), t.runs,
        (t.runs as f64 / spent.max(0.001) * 3600.0) as u64, t.counts.get("simulated microseconds").copied().unwrap_or(0) as f64 / 1e6, faults, group("fault:"), t.reach.len(), json(measure),
        group("model:"), group("skipped: "), group("delivery:"), group("work:"), group("max:"), rest.join(", "), json(real), t.capped,
        format!("[{}]", known.iter().map(|k| json(k)).collect::<Vec<_>>().join(", ")), t.digest,
        known::ASSUMPTIONS.iter().map(|a| json(a)).collect::<Vec<_>>().join(", "), wall, t.fail.is_some() as u8
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, prop), s) { println!("cannot write evidence: {}", e); }
}

fn replay(prop: &str, file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) { Ok(t) => t, Err(e) => { println!("cannot read {}: {}", file, e); return 2; } };
    let cases = case::Case::parse(&text);
    if cases.is_empty() { println!("no case in {}", file); return 2; }
    match runner::exec(prop, &cases, runner::HANG_CPU_S) {
        Some(m) => { println!("{}", m); println!("VIOLATION property={} replay={}", prop, file); 1 }
        None => { println!("the property held on this replay"); 0 }
    }
}

/// Same seeds twice and with another number of workers: the digests of everything observed agree.
fn selfcheck(props: &[String]) -> i32 {
    std::env::set_var("VERIF_STRICT", "1");
    let mut bad = 0;
    for p in props {
        let before = bad;
        let plan = runner::plan(p, "quick");
        let runs = (plan.runs / 8).max(plan.batch);
        let mut all = vec![];
        let first = env("VERIF_SEED", 1);
        for seed in first..first + env("SELFCHECK_SEEDS", 3) {
            let d: Vec<(u64, usize, u64, Option<String>)> = [8, 8, 3, 1].iter().map(|w| { let t = runner::explore(p, seed, runs, plan.batch, *w, 3600); (t.digest, t.sigs.len(), t.evals, t.fail.map(|f| f.2)) }).collect();
            if d.iter().any(|x| *x != d[0]) { bad += 1; println!("{} seed {}: {:x?}", p, seed, d); }
            all.push(d[0].0);
        }
        println!("{}: {} runs each, digests {:x?}{}", p, runs, all, if bad > before { " DIFFER" } else { " agree" });
    }
    (bad > 0) as i32
}
