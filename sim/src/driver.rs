//! Runs seeded simulations in forked children, on all cores; minimises and stores failures; writes the evidence.

use crate::choice::*;
use crate::json::{self, J};
use crate::shared::*;
use crate::sim;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering as O};
use std::time::Instant;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// other builds of the crate that are simulated, too, in a fraction of the runs
    pub variants: &'static [(&'static str, u64)],
}

#[derive(Clone, Debug, Default)]
pub struct Outcome { pub status: u32, pub class: String, pub msg: String, pub desc: String, pub stage: String, pub hash: u64, pub steps: u64 }

/// the run being executed (u64::MAX when replaying): a few scenarios are too expensive to be more than one of many
pub static RUN_INDEX: AtomicU64 = AtomicU64::new(u64::MAX);

/// which build of the crate this is
pub const VARIANT: &str = if cfg!(feature = "err") { "err" } else if cfg!(feature = "none") { "none" } else { "out" };
pub const TOLERANCE: f64 = if cfg!(feature = "err") { 0.25 } else { 0.10 };
/// the simulator for another build of the crate
fn other(variant: &str) -> std::path::PathBuf { std::env::current_exe().expect("own path").parent().unwrap().parent().unwrap().join(format!("bigosim-{variant}")) }

const CPU_LIMIT_S: u64 = 30;
const WALL_LIMIT_S: u32 = 240;

pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 { mix(mix(seed ^ 0xB160) ^ hash_str(prop) ^ if VARIANT == "out" { 0 } else { hash_str(VARIANT) }).wrapping_add(mix(index ^ 0x5EED)) }

static mut LAST_PANIC: String = String::new();
#[allow(static_mut_refs)]
pub fn last_panic() -> String { unsafe { LAST_PANIC.clone() } }
#[allow(static_mut_refs)]
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _o = crate::gate::out();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe { LAST_PANIC = format!("{m} [{loc}]"); }
        if std::env::var("BIGOSIM_PANICS").is_ok() {
            let t = format!("panic: {m} [{loc}]\n");
            unsafe { crate::interpose::raw_write(2, t.as_ptr(), t.len()); }
        }
    }));
}
pub fn payload_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "(not a text)".into())
}

/// executes one run in a forked child
pub fn execute(prop: &Prop, sh: *mut Shared, seed: u64, replay: Option<&[Vec<u32>; 3]>, trace: Option<&str>) -> Outcome {
    unsafe {
        (*sh).reset();
        let pid = libc::fork();
        if pid < 0 { return Outcome { status: ST_HARNESS, class: "fork failed".into(), ..Default::default() }; }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = |r, v: u64| { let l = libc::rlimit { rlim_cur: v, rlim_max: v + 600 }; libc::setrlimit(r, &l); };
            lim(libc::RLIMIT_CPU, CPU_LIMIT_S);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 }; libc::setrlimit(libc::RLIMIT_CORE, &l);
            let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 200 << 40 }; libc::setrlimit(libc::RLIMIT_AS, &l);
            libc::alarm(WALL_LIMIT_S);
            if let Some(t) = trace { std::env::set_var("BIGOSIM_TRACE", t); }
            let s = &mut *sh;
            let tape = |p: *mut u32, i: usize, s: &mut Shared| Tape { ptr: p, cap: CAPS[i], len: &mut s.lens[i] };
            let (p0, p1, p2) = (s.tape0.as_mut_ptr(), s.tape1.as_mut_ptr(), s.tape2.as_mut_ptr());
            let tapes = [tape(p0, 0, s), tape(p1, 1, s), tape(p2, 2, s)];
            let ch = Choices { rng: Rng(seed), replay: replay.cloned(), pos: [0; 3], tapes };
            sim::start(ch, sh, trace.is_some());
            let run = prop.run;
            match std::panic::catch_unwind(run) {
                Ok(()) => sim::finish(),
                Err(_) => sim::violate("unexpected-panic", &format!("panic outside of the places where one is due: {}", last_panic())),
            }
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let s = &*sh;
        let mut o = Outcome { status: s.status, class: get(&s.class), msg: get(&s.msg), desc: get(&s.desc), stage: get(&s.stage), hash: s.hash, steps: s.steps };
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            o.status = ST_VIOLATION;
            match sig {
                libc::SIGXCPU | libc::SIGALRM => { o.class = "hang".into(); o.msg = "the run got stuck between two points the simulator controls".into(); }
                libc::SIGKILL => { o.status = ST_HARNESS; o.class = "killed".into(); }
                _ => { o.class = format!("crash-signal-{sig}"); o.msg = format!("the process died with signal {sig}"); }
            }
        } else if o.status == ST_NONE || (libc::WIFEXITED(st) && libc::WEXITSTATUS(st) != 0) {
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 3 { o.status = ST_HARNESS; o.class = "harness".into(); }
            else { o.status = ST_VIOLATION; o.class = "process-exit".into(); o.msg = format!("the process ended by itself: {st}"); }
        }
        if o.class == "harness" { o.status = ST_HARNESS; }
        if !o.stage.is_empty() && (o.class.starts_with("crash") || o.class == "hang" || o.class == "deadlock" || o.class == "no-progress" || o.class == "unexpected-panic") { o.msg = format!("{} (during: {})", o.msg, o.stage); }
        o
    }
}

const MAXC: usize = 400;
#[repr(C)]
struct Agg {
    sim_ns: u128, runs: u64, steps: u64, switches: u64, rerun: u64, rerun_bad: u64, known: u64, longest: u64,
    nc: usize, c: [Counter; MAXC],
    v_index: u64, v_status: u32,
    nsamples: usize, samples: [[u8; 1100]; 4],
    known_line: [u8; 512],
}
#[repr(C)]
struct Ctl { stop_at: AtomicU64, timed_out: AtomicU64 }

fn add_counter(a: &mut Agg, c: &Counter) {
    for i in 0..a.nc { let x = &mut a.c[i]; if x.name == c.name && x.len == c.len && x.kind == c.kind { x.count += c.count; return; } }
    if a.nc < MAXC { a.c[a.nc] = *c; a.nc += 1; }
}

pub struct Known { pub prop: String, pub class: String, pub text: String, pub what: String }
pub fn known_findings(dir: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) else { return vec![] };
    let field = |l: &str, k: &str| -> String {
        let Some(i) = l.find(&format!("{k}=\"")) else { return String::new() };
        let r = &l[i + k.len() + 2..];
        r[..r.find('"').unwrap_or(r.len())].to_string()
    };
    t.lines().filter(|l| l.starts_with("finding:")).map(|l| {
        let prop = l.split_whitespace().find_map(|w| w.strip_prefix("property=")).unwrap_or("").to_string();
        Known { prop, class: field(l, "class"), text: field(l, "match"), what: field(l, "what") }
    }).collect()
}
fn is_known(k: &[Known], id: &str, o: &Outcome) -> Option<usize> {
    k.iter().position(|k| k.prop == id && !k.class.is_empty() && k.class == o.class && !k.text.is_empty() && (o.msg.contains(&k.text) || o.desc.contains(&k.text)))
}

fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 { return vec![0]; }
        let v: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if v.is_empty() { vec![0] } else { v }
    }
}
fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpu, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

pub struct Search { pub outcome: Option<(u64, Outcome, [Vec<u32>; 3])>, pub harness: Option<Outcome>, pub evidence: Vec<(&'static str, J)>, pub known: Vec<String>, pub hashes: Vec<u64>, pub took_s: f64 }

pub fn search(prop: &Prop, seed: u64, runs: u64, wall_cap: f64, known: &[Known]) -> Search {
    let cpus = cpus();
    let w = std::env::var("BIGOSIM_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(cpus.len().clamp(1, 16));
    let t0 = Instant::now();
    unsafe {
        let ctl = map_shared(std::mem::size_of::<Ctl>()) as *mut Ctl;
        (*ctl).stop_at.store(u64::MAX, O::SeqCst);
        let hashes = map_shared((runs as usize + 1) * 8) as *mut u64;
        let mut aggs = vec![]; let mut shs = vec![]; let mut pids = vec![];
        for k in 0..w {
            let agg = map_shared(std::mem::size_of::<Agg>()) as *mut Agg;
            let sh = Shared::new();
            (*agg).v_index = u64::MAX;
            aggs.push(agg); shs.push(sh);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                pin(cpus[k % cpus.len()]);
                let sh2 = Shared::new();
                let a = &mut *agg;
                let mut i = k as u64;
                while i < runs {
                    if i > (*ctl).stop_at.load(O::SeqCst) { break; }
                    if t0.elapsed().as_secs_f64() > wall_cap { (*ctl).timed_out.store(1, O::SeqCst); break; }
                    RUN_INDEX.store(i, O::SeqCst);
                    let mut o = execute(prop, sh, run_seed(seed, prop.id, i), None, None);
                    if o.status == ST_HARNESS && o.class == "killed" { o = execute(prop, sh, run_seed(seed, prop.id, i), None, None); }
                    let s = &mut *sh;
                    a.runs += 1; a.steps += s.steps; a.switches += s.switches; a.sim_ns += s.sim_ns as u128; a.longest = a.longest.max(s.steps);
                    *hashes.add(i as usize) = if s.nontrivial != 0 { s.hash | 1 } else { 0 };
                    for c in 0..s.ncounters { let c = s.counters[c]; add_counter(a, &c); }
                    if a.nsamples < 4 && (i / w as u64) % 7 == 0 {
                        put(&mut a.samples[a.nsamples], &format!("run {i}: {} | steps={} preemptions={} simulated={}ns event-hash={:016x} outcome={}", o.desc, s.steps, s.switches, s.sim_ns, s.hash, if o.status == ST_OK { "held".into() } else { o.class.clone() }));
                        a.nsamples += 1;
                    }
                    if o.status == ST_VIOLATION {
                        if let Some(kf) = is_known(known, prop.id, &o) { a.known += 1; put(&mut a.known_line, &known[kf].what); i += w as u64; continue; }
                    }
                    if o.status != ST_OK {
                        a.v_index = i; a.v_status = o.status;
                        (*ctl).stop_at.fetch_min(i, O::SeqCst);
                        break;
                    }
                    if (i / w as u64) % 64 == 5 {
                        let o2 = execute(prop, sh2, run_seed(seed, prop.id, i), None, None);
                        a.rerun += 1;
                        if o2.hash != o.hash || o2.status != o.status { a.rerun_bad += 1; }
                    }
                    i += w as u64;
                }
                libc::_exit(0);
            }
            pids.push(pid);
        }
        for p in pids { let mut st = 0; while libc::waitpid(p, &mut st, 0) < 0 {} }
        let wall = t0.elapsed().as_secs_f64();
        let best = (0..w).filter(|&k| (*aggs[k]).v_index != u64::MAX).min_by_key(|&k| (*aggs[k]).v_index);
        let mut faults = BTreeMap::new(); let mut probes = BTreeMap::new();
        let (mut n, mut steps, mut switches, mut ns, mut rerun, mut bad, mut kn) = (0, 0, 0, 0u128, 0, 0, 0);
        let mut samples = vec![]; let mut klines: Vec<String> = vec![];
        for (k, a) in aggs.iter().enumerate() {
            let a = &**a;
            n += a.runs; steps += a.steps; switches += a.switches; ns += a.sim_ns; rerun += a.rerun; bad += a.rerun_bad; kn += a.known;
            if a.known > 0 { let l = get(&a.known_line); if !klines.contains(&l) { klines.push(l); } }
            for c in &a.c[..a.nc] {
                let name = String::from_utf8_lossy(std::slice::from_raw_parts(c.name, c.len)).into_owned();
                *if c.kind == KIND_FAULT { faults.entry(name).or_insert(0u64) } else { probes.entry(name).or_insert(0u64) } += c.count;
            }
            if k < 3 { for x in &a.samples[..a.nsamples.min(2)] { samples.push(json::s(get(x))); } }
        }
        let hv: Vec<u64> = (0..runs as usize).map(|i| *hashes.add(i)).collect();
        let distinct = hv.iter().filter(|h| **h != 0).collect::<HashSet<_>>().len() as u64;
        let map = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), json::n(*v))).collect());
        let evidence = vec![
            ("evaluations", json::n(n)),
            ("distinct_nontrivial", json::n(distinct)),
            ("rule", json::s(prop.rule)),
            ("samples", J::Arr(samples)),
            ("runs_planned", json::n(runs)),
            ("stopped_by_wall_clock_cap", J::Bool((*ctl).timed_out.load(O::SeqCst) != 0)),
            ("simulated_runs_per_hour_one_seed_each", json::n((n as f64 / wall.max(1e-3) * 3600.0) as u64)),
            ("worker_processes", json::n(w as u64)),
            ("scheduler_steps", json::n(steps)),
            ("longest_run_in_steps", json::n(aggs.iter().map(|a| (**a).longest).max().unwrap_or(0))),
            ("preemptions", json::n(switches)),
            ("simulated_time_s", J::Num(ns as f64 / 1e9)),
            ("faults_injected", map(&faults)),
            ("coverage_probes", map(&probes)),
            ("determinism_reruns", json::n(rerun)),
            ("determinism_mismatches", json::n(bad)),
            ("known_findings_hit", json::n(kn)),
            ("interleaving_measure", json::s("distinct 64-bit hashes over the complete event log of a run (every atomic operation with its result, every thread switch, blocking, wake-up, clock reading, fault and user call)")),
            ("components_real", J::Arr(prop.real.iter().map(|x| json::s(*x)).collect())),
            ("components_stubbed", J::Arr(prop.stub.iter().map(|x| json::s(*x)).collect())),
        ];
        if bad > 0 { eprintln!("warning: {bad} of {rerun} re-executed runs differed from their first execution"); }
        let mut out = Search { outcome: None, harness: None, evidence, known: klines, hashes: hv, took_s: 0.0 };
        if let Some(k) = best {
            let i = (*aggs[k]).v_index;
            let streams = (*shs[k]).streams();
            let sh = shs[k];
            // executed once more, from its seed: a violation counts only if it is repeatable
            RUN_INDEX.store(i, O::SeqCst);
            let t1 = Instant::now();
            let o = execute(prop, sh, run_seed(seed, prop.id, i), None, None);
            RUN_INDEX.store(u64::MAX, O::SeqCst);
            out.took_s = t1.elapsed().as_secs_f64();
            let _ = streams;
            let streams = (*sh).streams();
            if o.status == ST_VIOLATION { out.outcome = Some((i, o, streams)); }
            else { out.harness = Some(Outcome { msg: format!("run {i} failed once and then didn't: {}", get(&(*shs[k]).msg)), ..o }); }
        }
        out
    }
}

/// reduces the choices of a failing run, keeping the class of its violation
pub fn minimise(prop: &Prop, sh: *mut Shared, first: &Outcome, streams: [Vec<u32>; 3], limit_s: f64, took_s: f64) -> ([Vec<u32>; 3], Outcome, u64) {
    let t0 = Instant::now();
    // too expensive to be executed again and again
    if took_s > if first.class == "hang" { 45.0 } else { 3.0 } { return (streams, first.clone(), 0); }
    let slow = first.class == "hang";
    let mut best = streams; let mut bo = first.clone();
    let mut tries = 0u64;
    let mut attempt = |c: &[Vec<u32>; 3], bo: &mut Outcome| -> Option<[Vec<u32>; 3]> {
        if tries > if slow { 3 } else { 3000 } || t0.elapsed().as_secs_f64() > limit_s { return None; }
        tries += 1;
        let o = execute(prop, sh, 1, Some(c), None);
        if o.status == ST_VIOLATION && o.class == first.class {
            *bo = o;
            let mut used = unsafe { (*sh).streams() };
            for s in used.iter_mut() { while s.last() == Some(&0) { s.pop(); } }
            Some(used)
        } else { None }
    };
    let size = |c: &[Vec<u32>; 3]| (c[0].len() + c[1].len() + c[2].len(), c.iter().flatten().map(|x| *x as u64).sum::<u64>(), c.iter().flatten().filter(|x| **x != 0).count());
    for _round in 0..6 {
        let before = size(&best);
        for st in [2usize, 1, 0] {
            // nothing at all, then shorter
            let mut cut = 0;
            while cut < best[st].len() {
                let mut c = best.clone(); c[st].truncate(cut);
                if let Some(u) = attempt(&c, &mut bo) { best = u; break; }
                cut = if cut == 0 { (best[st].len() / 8).max(1) } else { cut + (best[st].len() - cut).div_ceil(2) };
            }
            let mut chunk = (best[st].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best[st].len() {
                    let e = (i + chunk).min(best[st].len());
                    if best[st][i..e].iter().any(|x| *x != 0) {
                        let mut c = best.clone(); for x in &mut c[st][i..e] { *x = 0; }
                        if let Some(u) = attempt(&c, &mut bo) { if size(&u) < size(&best) { best = u; } }
                    }
                    if st != 1 || chunk <= 32 {
                        let e = (i + chunk).min(best[st].len());
                        if i < e {
                            let mut c = best.clone(); c[st].drain(i..e);
                            if let Some(u) = attempt(&c, &mut bo) { if size(&u) < size(&best) { best = u; continue; } }
                        }
                    }
                    i += chunk;
                }
                if chunk == 1 { break; }
                chunk = (chunk / 2).max(1);
            }
            if st == 0 {
                for i in 0..best[st].len() {
                    for f in [1, 2] {
                        let Some(&x) = best[st].get(i) else { continue };
                        if x < 2 { continue; }
                        let mut c = best.clone(); c[st][i] = if f == 1 { x / 2 } else { x - 1 };
                        if let Some(u) = attempt(&c, &mut bo) { if size(&u) < size(&best) { best = u; } }
                    }
                }
            }
        }
        if size(&best) >= before { break; }
    }
    // the reduced choices, executed once more, as they'll be replayed
    let o = execute(prop, sh, 1, Some(&best), None);
    if o.status == ST_VIOLATION && o.class == first.class { (best, o, tries) } else { (best, bo, tries) }
}

fn trace_of(prop: &Prop, sh: *mut Shared, streams: &[Vec<u32>; 3]) -> Vec<J> {
    let path = format!("{}/bigosim-trace-{}-{}", std::env::temp_dir().display(), std::process::id(), prop.id);
    let _ = std::fs::remove_file(&path);
    execute(prop, sh, 1, Some(streams), Some(&path));
    let t = std::fs::read_to_string(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    t.lines().take(4000).map(json::s).collect()
}

pub fn check(props: &[Prop], id: &str, dir: &str) -> i32 {
    let Some(prop) = props.iter().find(|p| p.id == id) else { eprintln!("unknown property {id}"); return 2 };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let runs = std::env::var("BIGOSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { prop.thorough } else { prop.quick });
    let t0 = Instant::now();
    let known = known_findings(dir);
    let file = std::env::var("BIGOSIM_EVIDENCE").unwrap_or(format!("{dir}/evidence/{id}.json"));
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let mut others: Vec<(&'static str, J)> = vec![];
    if VARIANT == "out" {
        for (v, share) in prop.variants {
            let part = format!("{dir}/evidence/.{id}-{v}-{}.json", std::process::id());
            let st = std::process::Command::new(other(v)).args(["check", id]).env("BIGOSIM_RUNS", (runs / share).max(1).to_string()).env("BIGOSIM_EVIDENCE", &part).status();
            let text = std::fs::read_to_string(&part).unwrap_or_default();
            let _ = std::fs::remove_file(&part);
            let code = st.ok().and_then(|s| s.code()).unwrap_or(2);
            if code != 0 {
                if !text.is_empty() { std::fs::write(&file, text).expect("writing the evidence"); }
                return code;
            }
            let j = J::parse(&text).unwrap_or(J::Null);
            others.push((match *v { "err" => "built_with_report_stderr_and_tolerance_25_percent", _ => "built_with_no_report" }, j.get("coverage").cloned().unwrap_or(J::Null)));
        }
    }
    let r = search(prop, seed, runs, if thorough { 3600.0 } else { 200.0 }, &known);
    let mut code = 0;
    let mut violations = 0;
    let mut ev = r.evidence;
    ev.extend(others);
    for k in &r.known { println!("KNOWN-FINDING: property={id} {k}"); }
    if let Some(h) = &r.harness { eprintln!("HARNESS-ERROR property={id} {} {}", h.class, h.msg); code = 3; }
    if let Some((index, o, streams)) = r.outcome {
        violations = 1;
        let sh = Shared::new();
        let (min, mo, tries) = minimise(prop, sh, &o, streams.clone(), 60.0, r.took_s);
        let trace = if r.took_s > 100.0 { vec![json::s("(left out: a run of this takes minutes)")] } else { trace_of(prop, sh, &min) };
        let _ = std::fs::create_dir_all(format!("{dir}/evidence/replay"));
        let path = format!("{dir}/evidence/replay/{id}-{seed}-{index}{}.json", if VARIANT == "out" { String::new() } else { format!("-{VARIANT}") });
        let arr = |v: &Vec<u32>| J::Arr(v.iter().map(|x| json::n(*x as u64)).collect());
        let j = json::obj(vec![
            ("property", json::s(id)), ("variant", json::s(VARIANT)), ("seed", json::n(seed)), ("tier", json::s(tier.clone())), ("run_index", json::n(index)), ("run_seed", json::s(run_seed(seed, id, index).to_string())),
            ("class", json::s(mo.class.clone())), ("violation", json::s(mo.msg.clone())), ("scenario", json::s(mo.desc.clone())), ("event_hash", json::s(format!("{:016x}", mo.hash))),
            ("original_violation", json::s(o.msg.clone())), ("original_scenario", json::s(o.desc.clone())),
            ("original_choices", json::n((streams[0].len() + streams[1].len() + streams[2].len()) as u64)), ("minimisation_runs", json::n(tries)),
            ("workload", arr(&min[0])), ("schedule", arr(&min[1])), ("faults", arr(&min[2])), ("trace", J::Arr(trace)),
        ]);
        std::fs::write(&path, j.text()).expect("writing the replay file");
        println!("{} [{}]: {}", id, mo.class, mo.msg);
        println!("  scenario: {}", mo.desc);
        println!("  seed {seed}, run {index}; replay with: {dir}/check.sh replay {path}");
        println!("VIOLATION property={id} replay={path}");
        ev.push(("violation", json::s(format!("[{}] {}", mo.class, mo.msg))));
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let top = json::obj(vec![
        ("property", json::s(id)), ("tier", json::s(if thorough { "thorough" } else { "quick" })), ("seed", json::n(seed)), ("level", json::s("exploration")),
        ("coverage", json::obj(ev)),
        ("assumptions", J::Arr(prop.assumptions.iter().map(|x| json::s(*x)).collect())),
        ("wall_s", J::Num((wall * 1000.0).round() / 1000.0)), ("violations", json::n(violations)),
    ]);
    std::fs::write(&file, top.text()).expect("writing the evidence");
    if code == 0 { println!("{id}{}: held on {} runs ({} distinct non-trivial), {:.1}s", if VARIANT == "out" { String::new() } else { format!(" ({VARIANT})") }, top.get("coverage").unwrap().get("evaluations").unwrap().u64(), top.get("coverage").unwrap().get("distinct_nontrivial").unwrap().u64(), wall); }
    let _ = std::io::stdout().flush();
    code
}

pub fn replay(props: &[Prop], file: &str) -> i32 {
    let Some(j) = std::fs::read_to_string(file).ok().and_then(|t| J::parse(&t)) else { eprintln!("cannot read {file}"); return 2 };
    let g = |k: &str| j.get(k).cloned().unwrap_or(J::Null);
    let id = g("property").str().to_string();
    let variant = g("variant").str().to_string();
    if !variant.is_empty() && variant != VARIANT {
        return std::process::Command::new(other(&variant)).args(["replay", file]).status().ok().and_then(|s| s.code()).unwrap_or(2);
    }
    let Some(prop) = props.iter().find(|p| p.id == id) else { eprintln!("unknown property {id}"); return 2 };
    let streams = [g("workload").u32s(), g("schedule").u32s(), g("faults").u32s()];
    pin(cpus()[0]);
    let sh = Shared::new();
    for t in trace_of(prop, sh, &streams) { println!("{}", t.str()); }
    let o = execute(prop, sh, 1, Some(&streams), None);
    println!("scenario: {}", o.desc);
    if o.status == ST_VIOLATION {
        println!("[{}] {}", o.class, o.msg);
        println!("{}", if o.class == g("class").str() && format!("{:016x}", o.hash) == g("event_hash").str() { "reproduced exactly (same violation, same event hash)" } else { "a violation, but not the recorded execution (has the code changed since?)" });
        println!("VIOLATION property={id} replay={file}");
        1
    } else { println!("no violation (status {}, {})", o.status, o.class); 0 }
}

/// executes the same seeds under different worker counts and compares every event hash
pub fn selftest(props: &[Prop], only: Option<&str>, runs: u64) -> i32 {
    let mut bad = 0;
    for p in props.iter().filter(|p| only.map_or(true, |o| o == p.id)) {
        std::env::set_var("BIGOSIM_WORKERS", "8");
        let a = search(p, 7, runs, 600.0, &[]);
        std::env::set_var("BIGOSIM_WORKERS", "3");
        let b = search(p, 7, runs, 600.0, &[]);
        let lim = a.outcome.as_ref().map_or(runs, |x| x.0).min(b.outcome.as_ref().map_or(runs, |x| x.0)) as usize;
        let d = (0..lim).filter(|&i| a.hashes[i] != b.hashes[i]).count();
        println!("{}: {} runs compared, {} differ{}", p.id, lim, d, if let Some((i, o, _)) = &a.outcome { format!(" (violation at {i}: {} {})", o.class, o.msg) } else { String::new() });
        if d > 0 { bad = 1; }
    }
    bad
}

/// one run, by index, with its trace
pub fn show(props: &[Prop], id: &str, seed: u64, index: u64) -> i32 {
    let Some(prop) = props.iter().find(|p| p.id == id) else { return 2 };
    pin(cpus()[0]);
    let sh = Shared::new();
    let path = format!("{}/bigosim-show-{}", std::env::temp_dir().display(), std::process::id());
    RUN_INDEX.store(index, O::SeqCst);
    let o = execute(prop, sh, run_seed(seed, id, index), None, Some(&path));
    print!("{}", std::fs::read_to_string(&path).unwrap_or_default());
    let _ = std::fs::remove_file(&path);
    println!("\n{o:?}");
    0
}
