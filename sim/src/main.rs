mod alloc;
mod disk;
mod dump;
mod entropy;
mod gen;
mod model;
mod named;
mod props;
mod real;
mod refm;
mod rng;
mod scen;
mod tables;
mod tags;
mod work;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

use rng::{mix, Rng};
use scen::Scenario;

use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;

pub fn run_seed(prop: &str, seed: u64, i: u64) -> u64 {
    let mut h = mix(seed ^ 0x5EED);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(i))
}
pub fn scenario(prop: &str, seed: u64, i: u64) -> Scenario {
    let mut r = Rng::new(run_seed(prop, seed, i));
    let mut s = props::generate(prop, &mut r);
    s.aux = vec![r.u64()];
    s
}

/// Runs need room: deep structures are walked recursively.
fn with_stack<F: FnOnce() -> i32 + Send + 'static>(f: F) -> i32 {
    std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap().join().unwrap_or(70)
}

fn fault_counts(obs: &[scen::Obs], s: &Scenario, m: &mut BTreeMap<String, u64>) {
    for (o, t) in obs.iter().zip(&s.steps) {
        for (_, f) in &o.trace.fired {
            *m.entry(disk::fault_name(f).to_string()).or_default() += 1;
        }
        if o.trace.soft > 0 {
            if t.plan.chunk > 0 {
                *m.entry("short_reads_throughout".into()).or_default() += 1;
            }
            if t.plan.intr > 0 {
                *m.entry("interruptions_throughout".into()).or_default() += 1;
            }
        }
        if o.res == scen::Res::Done {
            match t.op {
                scen::Op::Patch(..) => *m.entry("bytes_damaged_or_restored".into()).or_default() += 1,
                scen::Op::SetLen(..) => *m.entry("file_cut_or_extended".into()).or_default() += 1,
                _ => {}
            }
        }
    }
}

/// What makes one execution different from another: who did what, what happened, and how it ended.
fn signature(s: &Scenario, obs: &[scen::Obs]) -> u64 {
    let mut h = rng::Hash::new();
    for (t, o) in s.steps.iter().zip(obs) {
        h.add(t.client as u64);
        h.str(match &t.op {
            scen::Op::Take(t) | scen::Op::Exists(t) | scen::Op::Position(t) => t.label(),
            scen::Op::ReadAt(_, k) | scen::Op::ReadNext(k) => k.name(),
            scen::Op::Open(_) => "open",
            scen::Op::Seek(_) => "seek",
            scen::Op::Patch(..) => "patch",
            scen::Op::SetLen(..) => "cut",
        });
        for (i, f) in &o.trace.fired {
            h.add(*i as u64);
            h.str(disk::fault_name(f));
        }
        h.add(o.trace.calls);
        h.str(o.res.class());
    }
    for (c, k) in &s.slices {
        h.add((*c as u64) << 32 | *k as u64);
    }
    h.0
}

/// Everything observed, for comparing executions.
fn outcome_hash(obs: &[scen::Obs]) -> u64 {
    let mut h = rng::Hash::new();
    for o in obs {
        h.str(&scen::brief(&o.res));
        h.add(o.trace.calls);
        h.add(o.trace.bytes);
        h.add(o.pos);
        for (i, f) in &o.trace.fired {
            h.add(*i as u64);
            h.str(disk::fault_name(f));
        }
    }
    h.0
}

fn worker(prop: &str, seed: u64, from: u64, to: u64, progress: &str) -> i32 {
    let file = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(progress);
    let Ok(file) = file else { return 71 };
    let mut faults = BTreeMap::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut reach: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut signatures: BTreeSet<u64> = BTreeSet::new();
    let mut edges = 0u64;
    let (mut runs, mut steps, mut calls, mut bytes, mut nontrivial, mut threaded) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut all = rng::Hash::new();
    let mut ratio = 0u64;
    let mut samples: Vec<String> = vec![];
    let out = std::io::stdout();
    for i in from..to {
        let _ = file.write_at(&i.to_be_bytes(), 0);
        let s = scenario(prop, seed, i);
        let obs = scen::run(&s);
        let v = props::judge(&s, &obs);
        runs += 1;
        steps += s.steps.len() as u64;
        threaded += s.threads as u64;
        nontrivial += v.nontrivial as u64;
        fault_counts(&obs, &s, &mut faults);
        all.add(outcome_hash(&obs));
        for (o, t) in obs.iter().zip(&s.steps) {
            calls += o.trace.calls;
            edges += o.work;
            bytes += o.trace.bytes;
            let what = match &t.op {
                scen::Op::Take(_) => "take",
                scen::Op::Exists(_) => "exists",
                scen::Op::Position(_) => "position",
                scen::Op::ReadAt(..) | scen::Op::ReadNext(_) => "read",
                scen::Op::Open(_) => "open",
                _ => continue,
            };
            *classes.entry(format!("{what}:{}", o.res.class())).or_default() += 1;
            if o.trace.bytes > 0 && o.peak > 4096 {
                ratio = ratio.max(o.peak / o.trace.bytes);
            }
        }
        for x in v.reach {
            *reach.entry(x).or_default() += 1;
        }
        if v.nontrivial {
            signatures.insert(signature(&s, &obs));
            if samples.len() < 2 {
                let text: Vec<String> = s
                    .steps
                    .iter()
                    .zip(&obs)
                    .take(6)
                    .map(|(t, o)| {
                        let fired: Vec<String> = o.trace.fired.iter().map(|(i, f)| format!("{} at call {i}", disk::fault_name(f))).collect();
                        format!(
                            "client {} {} [{}] -> {}",
                            t.client,
                            scen::op_text(&t.op).chars().take(60).collect::<String>(),
                            fired.join(", "),
                            o.res.class()
                        )
                    })
                    .collect();
                samples.push(format!("run {i}: {}", text.join("; ")));
            }
        }
        if let Some(x) = v.violation {
            println!("FAIL {i} {} {}", x.class, x.text.replace('\n', " "));
            let _ = out.lock().flush();
            break;
        }
    }
    println!("COUNT runs {runs}\nCOUNT steps {steps}\nCOUNT calls {calls}\nCOUNT bytes {bytes}\nCOUNT nontrivial {nontrivial}\nCOUNT threaded {threaded}\nCOUNT edges {edges}");
    println!("MAX ratio {ratio}");
    println!("HASH {:016x}", all.0);
    for (k, n) in faults {
        println!("FAULT {k} {n}");
    }
    for (k, n) in classes {
        println!("CLASS {k} {n}");
    }
    for (k, n) in reach {
        println!("REACH {n} {k}");
    }
    for s in samples {
        println!("SAMPLE {s}");
    }
    let mut text = String::new();
    for x in signatures {
        text += &format!("S {x:016x}\n");
    }
    print!("{text}");
    println!("END");
    0
}

fn read_stdin() -> String {
    let mut s = String::new();
    let _ = std::io::stdin().read_to_string(&mut s);
    s
}

fn main() {
    scen::hook_panics();
    let args: Vec<String> = std::env::args().collect();
    let w: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match w.get(1).copied() {
        // sim worker PROP SEED FROM TO PROGRESS
        Some("worker") if w.len() == 7 => {
            let (p, seed, a, b, f) =
                (w[2].to_string(), w[3].parse().unwrap(), w[4].parse().unwrap(), w[5].parse().unwrap(), w[6].to_string());
            with_stack(move || worker(&p, seed, a, b, &f))
        }
        // sim show PROP SEED I
        Some("show") if w.len() == 5 => {
            let (p, seed, i) = (w[2].to_string(), w[3].parse().unwrap(), w[4].parse().unwrap());
            with_stack(move || {
                print!("{}", scenario(&p, seed, i).text());
                0
            })
        }
        // sim judge [SEED FROM TO] < scenario: run after the warming up
        Some("judge") => {
            let warm: Vec<u64> = w[2..].iter().filter_map(|x| x.parse().ok()).collect();
            let text = read_stdin();
            with_stack(move || {
                let Some(s) = Scenario::parse(&text) else { return 72 };
                if let [seed, from, to] = warm[..] {
                    for i in from..to {
                        let s = scenario(&s.prop, seed, i);
                        let obs = scen::run(&s);
                        props::judge(&s, &obs);
                    }
                }
                let obs = scen::run(&s);
                let v = props::judge(&s, &obs);
                match v.violation {
                    Some(v) => println!("V {} {}", v.class, v.text.replace('\n', " ")),
                    None => println!("OK"),
                }
                println!("HASH {:016x}", outcome_hash(&obs));
                for (t, o) in s.steps.iter().zip(&obs) {
                    println!("  client {} {} -> {}", t.client, scen::op_text(&t.op), o.res.show().replace('\n', " "));
                }
                0
            })
        }
        // sim hashes PROP SEED FROM TO: each execution
        Some("hashes") if w.len() == 6 => {
            let (p, seed, a, b) = (w[2].to_string(), w[3].parse().unwrap(), w[4].parse().unwrap(), w[5].parse::<u64>().unwrap());
            with_stack(move || {
                for i in a..b {
                    let s = scenario(&p, seed, i);
                    let obs = scen::run(&s);
                    let v = props::judge(&s, &obs);
                    println!("{i} {:016x} {:016x} {}", outcome_hash(&obs), signature(&s, &obs), v.nontrivial);
                }
                0
            })
        }
        // sim probe < scenario: what memory it takes
        Some("probe") => {
            let text = read_stdin();
            with_stack(move || {
                let Some(s) = Scenario::parse(&text) else { return 72 };
                disk::RUNAWAY.store(100_000_000, std::sync::atomic::Ordering::Relaxed);
                let Some(o) = scen::run(&s).pop() else { return 72 };
                let bound = props::ALLOWANCE + props::FACTOR * o.trace.bytes;
                println!("PROBE peak={} bytes={} bound={bound} {}", o.peak, o.trace.bytes, o.res.class());
                0
            })
        }
        // sim real: the index of the tables of real fonts
        Some("real") => {
            real::index();
            0
        }
        // sim entropy: whether the seam holds
        Some("entropy") => {
            entropy::set(7);
            let one = || {
                std::thread::spawn(|| {
                    use std::hash::{BuildHasher, Hasher};
                    std::collections::hash_map::RandomState::new().build_hasher().finish()
                })
                .join()
                .unwrap()
            };
            println!("{:016x} {:016x}", one(), one());
            0
        }
        // sim isolated < scenario: the last result
        Some("isolated") => {
            let text = read_stdin();
            with_stack(move || {
                let Some(s) = Scenario::parse(&text) else { return 72 };
                match scen::run(&s).last() {
                    Some(o) => println!("{}", scen::brief(&o.res)),
                    None => return 72,
                }
                0
            })
        }
        _ => {
            eprintln!("usage: sim worker|show|judge|isolated ...");
            64
        }
    };
    std::process::exit(code);
}
