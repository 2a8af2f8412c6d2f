//! symex: path-exploring symbolic execution of LLVM IR with Z3.
//! usage: symex OUT.json [--jobs N] [--time S] [--max-instr N] [--samples N]
//!              [--prefix P] --entry NAME ... FILE.ll ...
mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use expr::*;
use ir::*;
use std::io::Write;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn usleep(n: u32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn getpid() -> i32;
}

#[repr(C)]
struct Shared {
    active: AtomicU32,
    stop: AtomicU32,
    nproc: AtomicU32,
    fails: AtomicU32,
    deadline: AtomicU64,
    pids: [AtomicU32; 4096],
    done: [AtomicU32; 4096],
    used: [AtomicU64; 256],
    running: [AtomicU32; 256],
}
static mut SH: *mut Shared = std::ptr::null_mut();
fn sh() -> &'static Shared {
    unsafe { &*SH }
}
fn now_ms() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_millis() as u64
}
pub fn stop_requested() -> bool {
    if sh().stop.load(SeqCst) != 0 {
        return true;
    }
    if now_ms() > sh().deadline.load(SeqCst) {
        sh().stop.store(2, SeqCst);
        return true;
    }
    false
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Counts {
    done: u64,
    infeasible: u64,
    panic: u64,
    hang: u64,
    overflow: u64,
    maxsteps: u64,
}

fn main() {
    let mut args = std::env::args().skip(1);
    let out = args.next().unwrap_or_else(|| die("usage".into()));
    let (mut jobs, mut time, mut maxi, mut nsamp) = (8u32, 600u64, 60_000_000u64, 6usize);
    let mut entries = vec![];
    let mut files = vec![];
    let mut rlimit = 400_000_000u32;
    // after the first failure, the rest of the exploration gets this long
    let mut grace = 20u64;
    while let Some(a) = args.next() {
        let mut val = || args.next().unwrap();
        match a.as_str() {
            "--jobs" => jobs = val().parse().unwrap(),
            "--time" => time = val().parse().unwrap(),
            "--max-instr" => maxi = val().parse().unwrap(),
            "--samples" => nsamp = val().parse().unwrap(),
            "--grace" => grace = val().parse().unwrap(),
            "--rlimit" => rlimit = val().parse().unwrap(),
            "--entry" => entries.push(val()),
            _ => files.push(a),
        }
    }
    let t0 = std::time::Instant::now();
    std::panic::set_hook(Box::new(|_| ()));
    unsafe {
        SH = mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            3,
            0x21,
            -1,
            0,
        ) as *mut Shared;
        if SH as isize == -1 {
            die("mmap".into());
        }
        signal(17, 1); // SIGCHLD ignored: children are reaped automatically
    }
    sh().deadline.store(now_ms() + time * 1000, SeqCst);
    let mut prog = Prog::new();
    for f in &files {
        prog.load_module(f);
    }
    let tl = t0.elapsed().as_millis();
    let mut ex = Exec::new(prog, rlimit);
    ex.max_instr = maxi;
    for (i, e) in entries.iter().enumerate() {
        let name: &'static [u8] = Box::leak(e.clone().into_bytes().into_boxed_slice());
        let id = ex.prog.lookup_fn(usize::MAX, name);
        let f = ex.prog.decode(id);
        ex.work.push(State::new(i as u32, f));
    }
    let dir = format!("{}.d", out);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    sh().active.store(1, SeqCst);
    sh().nproc.store(1, SeqCst);
    sh().pids[0].store(unsafe { getpid() } as u32, SeqCst);
    let mut me = 0usize;
    let mut cnt = Counts {
        done: 0,
        infeasible: 0,
        panic: 0,
        hang: 0,
        overflow: 0,
        maxsteps: 0,
    };
    let mut errors: FxMap<String, u64> = Default::default();
    let mut samples: Vec<String> = vec![];
    let mut per_entry: Vec<u64> = vec![0; entries.len()];
    let mut left = 0usize;
    let mut seen = 0u64;
    loop {
        // depth first within an entry; an entry that has used more time than
        // another that is still open waits
        if let Some(l) = ex.work.last() {
            let used = |s: &State| {
                let e = s.entry as usize & 255;
                sh().used[e].load(SeqCst) + 5000 * sh().running[e].load(SeqCst) as u64
            };
            let cur = used(l);
            let best = (0..ex.work.len()).rev().min_by_key(|i| used(&ex.work[*i])).unwrap();
            if used(&ex.work[best]) + 3000 < cur {
                let s = ex.work.remove(best);
                ex.work.push(s);
            }
        }
        let mut st = match ex.work.pop() {
            Some(s) => s,
            None => break,
        };
        // hand half of the work to a new process
        while ex.work.len() >= 2
            && sh().active.load(SeqCst) < jobs
            && (sh().nproc.load(SeqCst) as usize) < 4000
        {
            let a = sh().active.load(SeqCst);
            if a >= jobs
                || sh()
                    .active
                    .compare_exchange(a, a + 1, SeqCst, SeqCst)
                    .is_err()
            {
                continue;
            }
            let slot = sh().nproc.fetch_add(1, SeqCst) as usize;
            let half = (ex.work.len() + 1) / 2;
            let pid = unsafe { fork() };
            if pid < 0 {
                die("fork failed".into());
            }
            if pid == 0 {
                me = slot;
                sh().pids[slot].store(unsafe { getpid() } as u32, SeqCst);
                ex.work.truncate(half);
                // reset the counters of this process
                cnt = Counts {
                    done: 0,
                    infeasible: 0,
                    panic: 0,
                    hang: 0,
                    overflow: 0,
                    maxsteps: 0,
                };
                errors.clear();
                samples.clear();
                seen = 0;
                per_entry.iter_mut().for_each(|x| *x = 0);
                ex.failures.clear();
                ex.reach.clear();
                ex.called.clear();
                ex.asserts = 0;
                ex.assert_queries = 0;
                ex.tt_decisions = 0;
                ex.forks = 0;
                ex.instrs = 0;
                ex.solver.queries = 0;
                ex.solver.cache_hits = 0;
                ex.solver.nanos = 0;
                ex.solver.max_nanos = 0;
                st = ex.work.pop().unwrap();
            } else {
                ex.work.drain(..half);
                if ex.work.is_empty() {
                    break;
                }
            }
        }
        if stop_requested() {
            left += ex.work.len() + 1;
            break;
        }
        let nf = ex.failures.len();
        sh().running[st.entry as usize & 255].fetch_add(1, SeqCst);
        let t1 = now_ms();
        // what the engine cannot represent ends the path, not the process
        let end = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.run(&mut st)))
            .unwrap_or_else(|p| {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                End::Error(format!("engine: {}", m))
            });
        sh().used[st.entry as usize & 255].fetch_add(now_ms() - t1, SeqCst);
        sh().running[st.entry as usize & 255].fetch_sub(1, SeqCst);
        let yielded = matches!(end, End::Yield);
        cnt.maxsteps = cnt.maxsteps.max(st.steps);
        per_entry[st.entry as usize] += !yielded as u64;
        match &end {
            End::Done => {
                cnt.done += 1;
                seen += 1;
                if seen.is_power_of_two() && samples.len() < nsamp {
                    samples.push(sample(&mut ex, &st, &entries[st.entry as usize]));
                }
            }
            End::Yield => (),
            End::Infeasible => cnt.infeasible += 1,
            End::Panic(m) => {
                cnt.panic += 1;
                push_fail(&mut ex, &st, "panic", m);
            }
            End::Hang => {
                cnt.hang += 1;
                push_fail(&mut ex, &st, "hang", "instruction budget");
            }
            End::Overflow => {
                cnt.overflow += 1;
                push_fail(&mut ex, &st, "overflow", "stack depth");
            }
            End::Error(e) => {
                let k = format!(
                    "[{}] {} @ {}",
                    entries[st.entry as usize],
                    e,
                    st.where_am_i()
                );
                if errors.len() < 40 {
                    *errors.entry(k).or_insert(0) += 1;
                } else {
                    *errors.entry("more errors".into()).or_insert(0) += 1;
                }
            }
        }
        if ex.failures.len() > nf {
            sh().deadline.fetch_min(now_ms() + grace * 1000, SeqCst);
            let n = sh()
                .fails
                .fetch_add((ex.failures.len() - nf) as u32, SeqCst);
            if n >= 24 {
                sh().stop.store(1, SeqCst);
            }
            // a process that is ended later must not take this with it
            write_part(&dir, me, &ex, &cnt, &errors, &samples, &per_entry, ex.work.len(), &entries);
        }
        if yielded {
            ex.work.push(st);
        }
    }
    write_part(&dir, me, &ex, &cnt, &errors, &samples, &per_entry, left, &entries);
    sh().done[me].store(1, SeqCst);
    sh().active.fetch_sub(1, SeqCst);
    if me != 0 {
        unsafe { _exit(0) }
    }
    // root: wait for everybody
    let mut crashed = 0;
    loop {
        let n = sh().nproc.load(SeqCst) as usize;
        let mut live = 0;
        crashed = 0;
        for i in 0..n {
            if sh().done[i].load(SeqCst) == 0 {
                let p = sh().pids[i].load(SeqCst);
                if p != 0 && unsafe { kill(p as i32, 0) } != 0 {
                    if sh().done[i].load(SeqCst) == 0 {
                        crashed += 1;
                    }
                } else {
                    live += 1;
                }
            }
        }
        if live == 0 {
            break;
        }
        let wait = if sh().fails.load(SeqCst) > 0 { 5_000 } else { 60_000 };
        if now_ms() > sh().deadline.load(SeqCst) + wait {
            for i in 1..n {
                let p = sh().pids[i].load(SeqCst);
                if p != 0 && sh().done[i].load(SeqCst) == 0 {
                    unsafe { kill(p as i32, 9) };
                }
            }
            crashed += live;
            break;
        }
        unsafe { usleep(3000) };
    }
    let n = sh().nproc.load(SeqCst) as usize;
    let mut o = format!(
        "{{\"procs\":{},\"crashed\":{},\"stop\":{},\"load_ms\":{},\"wall_ms\":{},\"parts\":[",
        n,
        crashed,
        sh().stop.load(SeqCst),
        tl,
        t0.elapsed().as_millis()
    );
    let mut first = true;
    for i in 0..n {
        if let Ok(s) = std::fs::read_to_string(format!("{}/{}.json", dir, i)) {
            if !first {
                o.push(',');
            }
            first = false;
            o.push_str(&s);
        }
    }
    o.push_str("]}");
    std::fs::write(&out, o).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
}

#[allow(clippy::too_many_arguments)]
fn write_part(
    dir: &str,
    me: usize,
    ex: &Exec,
    cnt: &Counts,
    errors: &FxMap<String, u64>,
    samples: &[String],
    per_entry: &[u64],
    left: usize,
    entries: &[String],
) {
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"done\":{},\"infeasible\":{},\"panic\":{},\"hang\":{},\"overflow\":{},\"left\":{},\"maxsteps\":{},\"forks\":{},\"instrs\":{},\"asserts\":{},\"assert_queries\":{},\"tt\":{},\"queries\":{},\"cache_hits\":{},\"solver_ns\":{},\"solver_max_ns\":{},\"nodes\":{}",
        cnt.done, cnt.infeasible, cnt.panic, cnt.hang, cnt.overflow, left, cnt.maxsteps, ex.forks, ex.instrs, ex.asserts, ex.assert_queries, ex.tt_decisions, ex.solver.queries, ex.solver.cache_hits, ex.solver.nanos, ex.solver.max_nanos, ar().nodes.len()
    ));
    o.push_str(",\"paths\":{");
    o.push_str(
        &entries
            .iter()
            .enumerate()
            .map(|(i, e)| format!("{}:{}", js(e), per_entry[i]))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("},\"errors\":{");
    o.push_str(
        &errors
            .iter()
            .map(|(k, v)| format!("{}:{}", js(k), v))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("},\"reach\":{");
    o.push_str(
        &ex.reach
            .iter()
            .map(|((e, k), v)| format!("{}:{}", js(&format!("{}/{}", entries[*e as usize], k)), v))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("},\"failures\":[");
    o.push_str(
        &ex.failures
            .iter()
            .map(|f| {
                format!(
                    "{{\"entry\":{},\"kind\":{},\"id\":{},\"inputs\":[{}],\"where\":{}}}",
                    js(&entries[f.entry as usize]),
                    js(&f.kind),
                    js(&f.id),
                    f.inputs
                        .iter()
                        .map(|(t, w, v)| format!("[{},{},\"{}\"]", js(t), w, v))
                        .collect::<Vec<_>>()
                        .join(","),
                    js(&f.detail)
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"samples\":[");
    o.push_str(&samples.join(","));
    o.push_str("],\"called\":{");
    o.push_str(
        &ex.called
            .iter()
            .map(|(k, v)| {
                let sl = &ex.prog.funcs[*k as usize];
                format!(
                    "{}:[{},{}]",
                    js(&sl.name),
                    v,
                    sl.code.map_or(0, |c| c.ninstr)
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("}}");
    let tmp = format!("{}/{}.tmp", dir, me);
    std::fs::File::create(&tmp)
        .unwrap()
        .write_all(o.as_bytes())
        .unwrap();
    std::fs::rename(&tmp, format!("{}/{}.json", dir, me)).unwrap();
}

fn push_fail(ex: &mut Exec, st: &State, kind: &str, id: &str) {
    let k = (st.entry, format!("{}:{}", kind, id));
    let n = ex.fail_keys.entry(k).or_insert(0);
    *n += 1;
    if *n > 3 {
        return;
    }
    let inputs = inputs_of(st);
    ex.failures.push(Failure {
        entry: st.entry,
        kind: kind.into(),
        id: id.into(),
        inputs,
        detail: st.where_am_i(),
    });
}
fn inputs_of(st: &State) -> Vec<(String, u32, u128)> {
    st.inputs
        .iter()
        .map(|i| match i {
            Input::Var(v) => ("v".to_string(), st.widths[*v] as u32, st.model[*v]),
            Input::Choice(c) => ("c".to_string(), 64, *c as u128),
        })
        .collect()
}
fn sample(ex: &mut Exec, st: &State, entry: &str) -> String {
    let inp = inputs_of(st)
        .iter()
        .map(|(t, w, v)| format!("[{},{},\"{}\"]", js(t), w, v))
        .collect::<Vec<_>>()
        .join(",");
    let mut obs = vec![];
    for o in &st.obs {
        let v: Vec<String> = o
            .iter()
            .map(|x| format!("\"{}\"", ex.eval_val(st, x)))
            .collect();
        obs.push(format!("[{}]", v.join(",")));
    }
    format!(
        "{{\"entry\":{},\"inputs\":[{}],\"obs\":[{}],\"steps\":{}}}",
        js(entry),
        inp,
        obs.join(","),
        st.steps
    )
}
