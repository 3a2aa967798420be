mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Shared {
    dom: std::sync::Arc<Mutex<std::collections::HashSet<u128>>>,
    q: Mutex<(VecDeque<Vec<u32>>, usize)>, // queue, active workers
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    timeout: AtomicBool,
    paths: AtomicU64,
    res: Mutex<Results>,
}

#[derive(Default)]
struct Results {
    ends: BTreeMap<String, u64>,
    viol: Vec<(String, String, Vec<u8>, String)>, // kind, msg, tape, extra
    vcount: BTreeMap<String, u64>,
    bad: BTreeMap<String, (u64, Vec<u8>)>,
    samples: Vec<(Vec<u8>, u64, u64)>,
    reach: BTreeMap<u32, u64>,
    funcs: Vec<bool>,
    cnt: Counters,
    z: z3::Stats,
    nodes: u64,
    maxvars: usize,
    sites: BTreeMap<String, u64>,
    final_checks: u64,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut threads = 8usize;
    let mut max_steps = 3_000_000u64;
    let mut max_depth = 600usize;
    let mut tier = 0u32;
    let mut limit = 600u64;
    let mut prof = false;
    let mut nsamples = 400usize;
    let mut maxviol = 12u64;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--threads" => threads = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--max-depth" => max_depth = v().parse().unwrap(),
            "--tier" => tier = v().parse().unwrap(),
            "--time" => limit = v().parse().unwrap(),
            "--samples" => nsamples = v().parse().unwrap(),
            "--max-viol" => maxviol = v().parse().unwrap(),
            "--prof" => prof = true,
            _ => panic!("unknown option {a}"),
        }
    }
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&ll).expect("read ll");
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::parse(&src)));
    drop(src);
    let e = *m.fmap.get(&entry).unwrap_or_else(|| panic!("no entry {entry}"));
    let cfg: &'static Cfg = Box::leak(Box::new(Cfg { max_steps, max_depth, tier }));
    let load_s = t0.elapsed().as_secs_f64();
    let sh = Shared {
        dom: Default::default(),
        q: Mutex::new((VecDeque::from([vec![]]), 0)),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        timeout: AtomicBool::new(false),
        paths: AtomicU64::new(0),
        res: Mutex::new(Results::default()),
    };
    let deadline = t0 + Duration::from_secs(limit);
    let fatal: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for ti in 0..threads {
            let sh = &sh;
            let fatal = &fatal;
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(ti, m, e, cfg, sh, deadline, nsamples, prof, maxviol)));
                    if let Err(e) = r {
                        let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        *fatal.lock().unwrap() = Some(msg);
                        sh.stop.store(true, SeqCst);
                        sh.cv.notify_all();
                    }
                })
                .unwrap();
        }
    });
    let r = sh.res.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let mut o = String::new();
    let fatal = fatal.into_inner().unwrap();
    let _ = writeln!(o, "{{");
    let _ = writeln!(o, " \"entry\": {},", jstr(&entry));
    let _ = writeln!(o, " \"fatal\": {},", fatal.as_ref().map_or("null".into(), |f| jstr(f)));
    let _ = writeln!(o, " \"timeout\": {},", sh.timeout.load(SeqCst));
    let _ = writeln!(o, " \"stopped\": {},", sh.stop.load(SeqCst));
    let _ = writeln!(o, " \"paths\": {},", r.ends.iter().filter(|(k, _)| *k != "infeasible").map(|x| x.1).sum::<u64>());
    let _ = writeln!(o, " \"ends\": {{{}}},", r.ends.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(
        o,
        " \"steps\": {}, \"branches\": {}, \"sym_branches\": {}, \"forks\": {}, \"model_sat\": {}, \"dom_queries\": {}, \"dom_cached\": {}, \"bounds\": {}, \"finite\": {}, \"hash_forks\": {}, \"max_call_depth\": {}, \"expr_nodes\": {}, \"max_vars\": {}, \"final_checks\": {},",
        r.cnt.steps, r.cnt.branches, r.cnt.sym_branches, r.cnt.forks, r.cnt.model_sat, r.cnt.dom_queries, r.cnt.dom_cached, r.cnt.bounds, r.cnt.finite, r.cnt.hash_forks, r.cnt.max_depth, r.nodes, r.maxvars, r.final_checks
    );
    let _ = writeln!(
        o,
        " \"solver\": {{\"calls\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"seconds\": {:.3}, \"max_ms\": {:.3}}},",
        r.z.calls,
        r.z.sat,
        r.z.unsat,
        r.z.unknown,
        r.z.micros as f64 / 1e6,
        r.z.max_micros as f64 / 1e3
    );
    let _ = writeln!(o, " \"reach\": {{{}}},", r.reach.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, " \"bad\": [{}],", r.bad.iter().map(|(k, v)| format!("{{\"what\": {}, \"count\": {}, \"tape\": \"{}\"}}", jstr(k), v.0, hex(&v.1))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(
        o,
        " \"violations\": [{}],",
        r.viol.iter().map(|(k, m, t, x)| format!("{{\"kind\": {}, \"msg\": {}, \"tape\": \"{}\", \"where\": {}}}", jstr(k), jstr(m), hex(t), jstr(x))).collect::<Vec<_>>().join(",\n  ")
    );
    let _ = writeln!(o, " \"violation_counts\": {{{}}},", r.vcount.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, " \"samples\": [{}],", r.samples.iter().map(|(t, d, rc)| format!("[\"{}\", \"{:016x}\", {rc}]", hex(t), d)).collect::<Vec<_>>().join(", "));
    let fs: Vec<String> = r.funcs.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| jstr(&m.funcs[i].name)).collect();
    let _ = writeln!(o, " \"functions\": [{}],", fs.join(", "));
    let _ = writeln!(o, " \"load_s\": {load_s:.2}, \"wall_s\": {wall:.2}");
    let _ = writeln!(o, "}}");
    if out.is_empty() {
        // short form on stdout
        for l in o.lines() {
            if l.starts_with(" \"functions\"") || l.starts_with(" \"samples\"") {
                println!("{}...", &l[..l.len().min(200)]);
            } else {
                println!("{l}");
            }
        }
    } else {
        std::fs::write(&out, &o).unwrap();
    }
    if prof {
        let mut v: Vec<_> = r.sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("{n:10} {k}");
        }
    }
}

fn worker(ti: usize, m: &'static ir::Module, entry: usize, cfg: &'static Cfg, sh: &Shared, deadline: Instant, nsamples: usize, prof: bool, maxviol: u64) {
    let mut ex = Exec::new(m, cfg, sh.dom.clone());
    ex.trace_forks = prof;
    let mut samples: Vec<(Vec<u8>, u64, u64)> = vec![];
    let mut stride = 1u64;
    let mut n = 0u64;
    let mut local = Results::default();
    let _ = ti;
    let dump = std::env::var_os("SYMEX_DUMP").is_some();
    'outer: loop {
        let job = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if sh.stop.load(SeqCst) {
                    break None;
                }
                if let Some(j) = g.0.pop_front() {
                    g.1 += 1;
                    break Some(j);
                }
                if g.1 == 0 {
                    sh.cv.notify_all();
                    break None;
                }
                sh.idle.fetch_add(1, SeqCst);
                g = sh.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                sh.idle.fetch_sub(1, SeqCst);
            }
        };
        let Some(job) = job else { break 'outer };
        let st = ex.start(entry, job);
        ex.work.push(st);
        while let Some(mut st) = ex.work.pop() {
            if sh.stop.load(SeqCst) {
                break;
            }
            let end = ex.run(&mut st);
            n += 1;
            local.maxvars = local.maxvars.max(st.doms.len());
            let key = match &end {
                Stop::Done => "done",
                Stop::Infeasible => "infeasible",
                Stop::Fail(_) => "fail",
                Stop::Panic(_) => "panic",
                Stop::Mem(_) => "memory",
                Stop::Steps => "steps",
                Stop::Depth => "depth",
                Stop::Unsupported(_) => "unsupported",
                Stop::Unknown(_) => "unknown",
            };
            *local.ends.entry(key.to_string()).or_insert(0) += 1;
            if dump {
                println!("DEC {key} {:?}", Exec::decisions(&st));
            }
            if !matches!(end, Stop::Infeasible) {
                sh.paths.fetch_add(1, SeqCst);
                if !ex.model_ok(&st) {
                    panic!("path model violates its constraints");
                }
                for i in 0..64 {
                    if st.reach >> i & 1 == 1 {
                        *local.reach.entry(i).or_insert(0) += 1;
                    }
                }
            }
            match &end {
                Stop::Done => {
                    if n % stride == 0 {
                        // full path condition through the solver; its model is the sample
                        let (r, md) = ex.solve_path(&st);
                        local.final_checks += 1;
                        match r {
                            z3::Sat::Sat => {}
                            z3::Sat::Unsat => panic!("solver rejects an explored path"),
                            z3::Sat::Unknown => {}
                        }
                        st.model = md;
                        if !ex.model_ok(&st) {
                            panic!("solver model violates path constraints");
                        }
                        let d = ex.observe(&st);
                        let md = st.model.clone();
                        samples.push((ex.tape(&st, &md), d, st.reach));
                        if samples.len() > nsamples {
                            let mut k = 0;
                            samples.retain(|_| {
                                k += 1;
                                k % 2 == 0
                            });
                            stride *= 2;
                        }
                    }
                }
                Stop::Infeasible => {}
                Stop::Fail(_) | Stop::Panic(_) | Stop::Mem(_) | Stop::Steps | Stop::Depth => {
                    let (kind, msg) = match &end {
                        Stop::Fail(s) => ("fail", s.clone()),
                        Stop::Panic(s) => ("panic", s.clone()),
                        Stop::Mem(s) => ("memory", s.clone()),
                        Stop::Steps => ("steps", "step limit".into()),
                        _ => ("depth", "call depth limit".into()),
                    };
                    let md = st.model.clone();
                    let tape = ex.tape(&st, &md);
                    let bt = ex.backtrace(&st);
                    let note = String::from_utf8_lossy(&st.note).into_owned();
                    let mut g = sh.res.lock().unwrap();
                    let c = g.vcount.entry(format!("{kind}: {msg}")).or_insert(0);
                    *c += 1;
                    if *c <= 4 {
                        g.viol.push((kind.into(), msg.clone(), tape, format!("{note}{bt}")));
                    }
                    let total: u64 = g.vcount.iter().filter(|(k, _)| !k.starts_with("fail: KF")).map(|x| *x.1).sum();
                    if total >= maxviol {
                        sh.stop.store(true, SeqCst);
                    }
                }
                Stop::Unsupported(s) | Stop::Unknown(s) => {
                    let md = st.model.clone();
                    let tape = ex.tape(&st, &md);
                    let bt = ex.backtrace(&st);
                    let mut g = sh.res.lock().unwrap();
                    let c = g.bad.entry(format!("{s} @ {bt}")).or_insert((0, tape));
                    c.0 += 1;
                    if g.bad.len() > 50 {
                        sh.stop.store(true, SeqCst);
                    }
                }
            }
            if Instant::now() > deadline {
                sh.timeout.store(true, SeqCst);
                sh.stop.store(true, SeqCst);
            }
            if ex.work.len() > 1 && sh.idle.load(SeqCst) > 0 {
                let mut g = sh.q.lock().unwrap();
                while g.0.len() < 8 && ex.work.len() > 1 {
                    let s = ex.work.remove(0);
                    g.0.push_back(Exec::decisions(&s));
                }
                drop(g);
                sh.cv.notify_all();
            }
            // keep the expression arena bounded
            if ex.ar.n.len() > 8_000_000 {
                local.nodes += ex.ar.n.len() as u64;
                let mut g = sh.q.lock().unwrap();
                for s in ex.work.drain(..) {
                    g.0.push_back(Exec::decisions(&s));
                }
                drop(g);
                sh.cv.notify_all();
                ex.reset();
            }
        }
        ex.work.clear();
        let mut g = sh.q.lock().unwrap();
        g.1 -= 1;
        if g.1 == 0 && g.0.is_empty() {
            sh.cv.notify_all();
        }
    }
    let mut g = sh.res.lock().unwrap();
    for (k, v) in local.ends {
        *g.ends.entry(k).or_insert(0) += v;
    }
    for (k, v) in local.reach {
        *g.reach.entry(k).or_insert(0) += v;
    }
    g.maxvars = g.maxvars.max(local.maxvars);
    g.final_checks += local.final_checks;
    g.samples.extend(samples);
    if g.funcs.is_empty() {
        g.funcs = ex.seen.clone();
    } else {
        for (i, b) in ex.seen.iter().enumerate() {
            if *b {
                g.funcs[i] = true;
            }
        }
    }
    let c = &ex.cnt;
    let t = &mut g.cnt;
    t.steps += c.steps;
    t.branches += c.branches;
    t.sym_branches += c.sym_branches;
    t.forks += c.forks;
    t.model_sat += c.model_sat;
    t.dom_queries += c.dom_queries;
    t.dom_cached += c.dom_cached;
    t.bounds += c.bounds;
    t.finite += c.finite;
    t.hash_forks += c.hash_forks;
    t.max_depth = t.max_depth.max(c.max_depth);
    let z = &ex.z3.stats;
    g.z.calls += z.calls;
    g.z.sat += z.sat;
    g.z.unsat += z.unsat;
    g.z.unknown += z.unknown;
    g.z.micros += z.micros;
    g.z.max_micros = g.z.max_micros.max(z.max_micros);
    g.nodes += local.nodes + ex.ar.n.len() as u64;
    for ((f, pc), v) in &ex.fork_sites {
        let ins = &m.body(*f).code[*pc as usize];
        let mut d = format!("{ins:?}");
        d.truncate(100);
        *g.sites.entry(format!("{}@{pc} {d}", m.funcs[*f].name)).or_insert(0) += v;
    }
}
