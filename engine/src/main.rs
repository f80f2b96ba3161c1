//! symx: bounded symbolic execution of an LLVM IR module with Z3 deciding every branch and assertion.
mod alg;
mod exec;
mod ll;
mod term;
mod z3;
use alg::Outcome;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Write as _;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Job { h: usize, prefix: Vec<u128>, choose_from: u32 }
struct Queue { q: VecDeque<Job>, busy: usize, waiting: usize }

#[derive(Default)]
struct HRes {
    stats: PathStats,
    secs: f64,
    incomplete: BTreeMap<String, u64>,
    findings: Vec<Finding>,
    fcount: BTreeMap<String, u64>,
    samples: Vec<String>,
    witnesses: Vec<Finding>,
    ndone: u64,
    notes_seen: BTreeSet<u64>,
    pcs: BTreeSet<u64>,
    unknowns: u64,
    dropped: u64,
    splits: HashMap<(u32, u32), u64>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn hash(s: &str) -> u64 { use std::hash::*; let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); h.finish() }

fn main() {
    let mut args = std::env::args().skip(1);
    let ll_path = args.next().expect("module");
    let (mut jobs, mut time, mut out, mut names, mut concrete, mut verbose) = (8usize, 600f64, None, vec![], None, false);
    let mut cfg = Cfg { max_steps: 30_000_000, max_depth: 1500, tier: 0, trace: false };
    let mut maxf = 40usize;
    let mut strong = 20_000u32;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--jobs" => jobs = args.next().unwrap().parse().unwrap(),
            "--time" => time = args.next().unwrap().parse().unwrap(),
            "--out" => out = args.next(),
            "--steps" => cfg.max_steps = args.next().unwrap().parse().unwrap(),
            "--depth" => cfg.max_depth = args.next().unwrap().parse().unwrap(),
            "--maxf" => maxf = args.next().unwrap().parse().unwrap(),
            "--solver-ms" => strong = args.next().unwrap().parse().unwrap(),
            "--concrete" => concrete = Some(args.next().unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.parse::<i128>().unwrap()).collect::<Vec<_>>()),
            "--tier" => cfg.tier = args.next().unwrap().parse().unwrap(),
            "--trace" => cfg.trace = true,
            "-v" => verbose = true,
            _ => names.push(a),
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll_path).expect("read module");
    let m = Arc::new(ll::parse(&text));
    drop(text);
    let nat = Arc::new(natives(&m));
    let t_parse = t0.elapsed().as_secs_f64();
    let mut hs: Vec<(String, u32)> = vec![];
    for n in &names {
        if let Some(p) = n.strip_suffix('*') {
            let mut v: Vec<(String, u32)> = m.funcs.iter().enumerate().filter(|(_, f)| f.defined && f.name.starts_with(p)).map(|(i, f)| (f.name.clone(), i as u32)).collect();
            v.sort();
            hs.extend(v);
        } else if let Some(i) = m.fidx.get(n.as_str()) { hs.push((n.clone(), *i as u32)) } else { eprintln!("no such harness: {}", n); std::process::exit(2) }
    }
    if let Some(c) = concrete {
        for (n, f) in &hs {
            let mut ex = Exec::new(m.clone(), nat.clone(), cfg.clone());
            ex.concrete = Some(c.clone());
            ex.start(*f, vec![], 0);
            let o = ex.run();
            for s in ex.st.notes.iter() { println!("NOTE {}", s) }
            println!("{} {:?} steps={}", n, o, ex.steps());
        }
        return;
    }
    let deadline = t0 + Duration::from_secs_f64(time);
    let queue = Mutex::new(Queue { q: hs.iter().enumerate().map(|(i, _)| Job { h: i, prefix: vec![], choose_from: 0 }).collect(), busy: 0, waiting: 0 });
    let cv = Condvar::new();
    let results: Vec<Mutex<HRes>> = hs.iter().map(|_| Mutex::new(HRes::default())).collect();
    let covered = Mutex::new(BTreeSet::<String>::new());
    let sstats = Mutex::new(z3::Stats::default());
    let total_donated = Mutex::new(0u64);
    std::thread::scope(|sc| {
        for _ in 0..jobs {
            std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(sc, || {
                let mut ex = Exec::new(m.clone(), nat.clone(), cfg.clone());
                ex.solver.set_strong_timeout(strong);
                ex.deadline = Some(deadline);
                loop {
                    let job = {
                        let mut g = queue.lock().unwrap();
                        loop {
                            if let Some(j) = g.q.pop_front() { g.busy += 1; break Some(j) }
                            if g.busy == 0 { cv.notify_all(); break None }
                            g.waiting += 1;
                            g = cv.wait(g).unwrap();
                            g.waiting -= 1;
                        }
                    };
                    let job = match job { Some(j) => j, None => break };
                    let tj = Instant::now();
                    if Instant::now() > deadline {
                        let mut r = results[job.h].lock().unwrap();
                        r.dropped += 1;
                    } else {
                        ex.trim();
                        ex.stats = Default::default();
                        ex.start(hs[job.h].1, job.prefix.clone(), job.choose_from);
                        loop {
                            let o = ex.run();
                            ex.stats.paths += 1;
                            ex.stats.steps += ex.steps();
                            let over = Instant::now() > deadline;
                            record(&mut ex, o, &results[job.h], maxf, verbose, &hs[job.h].0);
                            if over { let n = ex.stack.len() as u64; ex.stack.clear(); results[job.h].lock().unwrap().dropped += n; break }
                            // hand work to idle workers
                            if ex.stack.len() > 1 {
                                let mut g = queue.lock().unwrap();
                                while g.waiting > g.q.len() && ex.stack.len() > 1 {
                                    let s = ex.stack.remove(0);
                                    let (p, cf) = Exec::prefix_of(&s);
                                    g.q.push_back(Job { h: job.h, prefix: p, choose_from: cf });
                                    *total_donated.lock().unwrap() += 1;
                                    cv.notify_one();
                                }
                            }
                            match ex.stack.pop() { Some(s) => ex.set_state(s), None => break }
                        }
                        let mut r = results[job.h].lock().unwrap();
                        let s = &ex.stats;
                        r.stats.paths += s.paths; r.stats.done += s.done; r.stats.assumed += s.assumed; r.stats.infeasible += s.infeasible;
                        r.stats.asserts += s.asserts; r.stats.asserts_sym += s.asserts_sym; r.stats.decisions += s.decisions; r.stats.steps += s.steps;
                        r.unknowns += std::mem::take(&mut ex.unknowns);
                        for (k, v) in std::mem::take(&mut ex.splits) { *r.splits.entry(k).or_default() += v }
                        r.secs += tj.elapsed().as_secs_f64();
                    }
                    let mut g = queue.lock().unwrap();
                    g.busy -= 1;
                    if g.busy == 0 && g.q.is_empty() { cv.notify_all() }
                }
                covered.lock().unwrap().extend(ex.covered_names());
                sstats.lock().unwrap().merge(&ex.solver.stats);
            }).unwrap();
        }
    });
    let s = sstats.into_inner().unwrap();
    let mut o = String::new();
    let _ = write!(o, "{{\"solver\":{},\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"lia\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"parse_s\":{:.2},\"wall_s\":{:.2},\"module_functions\":{},\"donated\":{},\n\"harnesses\":{{", js(&z3::version()), s.queries, s.cached, s.sat, s.unsat, s.unknown, s.lia, s.time, s.max, t_parse, t0.elapsed().as_secs_f64(), m.funcs.len(), total_donated.into_inner().unwrap());
    for (i, (n, _)) in hs.iter().enumerate() {
        let r = results[i].lock().unwrap();
        if i > 0 { o.push(',') }
        let _ = write!(o, "\n{}:{{\"paths\":{},\"done\":{},\"assumed\":{},\"infeasible\":{},\"asserts\":{},\"asserts_symbolic\":{},\"decisions\":{},\"instructions\":{},\"unknown_branches\":{},\"dropped_states\":{},\"distinct_paths\":{},\"cpu_s\":{:.2}", js(n), r.stats.paths, r.stats.done, r.stats.assumed, r.stats.infeasible, r.stats.asserts, r.stats.asserts_sym, r.stats.decisions, r.stats.steps, r.unknowns, r.dropped, r.pcs.len(), r.secs);
        let _ = write!(o, ",\"incomplete\":{{{}}}", r.incomplete.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"finding_counts\":{{{}}}", r.fcount.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"findings\":[{}]", r.findings.iter().map(|f| format!("{{\"kind\":{},\"label\":{},\"inputs\":[{}],\"notes\":[{}]}}", js(&f.kind), js(&f.label), f.inputs.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","), f.notes.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"witnesses\":[{}]", r.witnesses.iter().map(|f| format!("[{}]", f.inputs.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"samples\":[{}]}}", r.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        if verbose {
            let mut v: Vec<_> = r.splits.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            eprintln!("{}: paths {} done {} assumed {} asserts {} ({} sym) cpu {:.1}s dropped {} incomplete {:?} findings {:?}", n, r.stats.paths, r.stats.done, r.stats.assumed, r.stats.asserts, r.stats.asserts_sym, r.secs, r.dropped, r.incomplete, r.fcount);
            for (k, c) in v.iter().take(8) { eprintln!("   split {} x {}:{} {:?}", c, m.funcs[k.0 as usize].dem, k.1, m.funcs[k.0 as usize].code[k.1 as usize]) }
        }
    }
    let cov: Vec<String> = covered.into_inner().unwrap().into_iter().filter(|n| n.contains("calcu_rs")).map(|n| js(&n)).collect();
    let _ = write!(o, "}},\n\"functions\":[{}]}}\n", cov.join(","));
    if verbose { eprintln!("queries {} cached {} sat {} unsat {} unknown {} lia {} solver {:.1}s max {:.2}s wall {:.1}s parse {:.1}s", s.queries, s.cached, s.sat, s.unsat, s.unknown, s.lia, s.time, s.max, t0.elapsed().as_secs_f64(), t_parse) }
    match out { Some(p) => std::fs::write(p, o).unwrap(), None => if !verbose { print!("{}", o) } }
}

fn record(ex: &mut Exec, o: Outcome, r: &Mutex<HRes>, maxf: usize, verbose: bool, name: &str) {
    let (kind, label) = match o {
        Outcome::Done => {
            ex.stats.done += 1;
            let key = format!("{:?}{}", ex.st.notes, ex.pc_string());
            let mut r = r.lock().unwrap();
            r.pcs.insert(hash(&key));
            r.ndone += 1;
            if r.ndone <= 2 || (r.ndone.is_power_of_two() && r.witnesses.len() < 12) {
                if let Some(f) = ex.finding("witness", String::new()) { r.witnesses.push(f) }
            }
            let nh = hash(&ex.st.notes.join("|"));
            if r.samples.len() < 4 && r.notes_seen.insert(nh) {
                let inp = ex.describe_inputs();
                let s = format!("{}: {}; inputs [{}]; path condition: {}", name, ex.st.notes.join("; "), inp.join(", "), ex.pc_string());
                r.samples.push(s);
            }
            return
        }
        Outcome::Infeasible => { ex.stats.infeasible += 1; return }
        Outcome::Assume => { ex.stats.assumed += 1; return }
        Outcome::Incomplete(s) => { *r.lock().unwrap().incomplete.entry(s).or_default() += 1; return }
        Outcome::Violation(s) => ("assert", s),
        Outcome::Panic(s) => ("panic", s),
        Outcome::Limit(s) => ("limit", s),
    };
    let key = format!("{}: {}", kind, label);
    let n = { let mut g = r.lock().unwrap(); let e = g.fcount.entry(key).or_default(); *e += 1; *e };
    if n as usize <= maxf {
        match ex.finding(kind, label) {
            Some(f) => { if verbose { eprintln!("FINDING {} {}: {} inputs {:?} notes {:?}", name, f.kind, f.label, f.inputs, f.notes) } r.lock().unwrap().findings.push(f) }
            None => { *r.lock().unwrap().incomplete.entry("finding without model".into()).or_default() += 1 }
        }
    }
}
