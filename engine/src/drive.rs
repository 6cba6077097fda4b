//! Command line, worker processes, native replay and result files.
use crate::exec::*;
use crate::expr::*;
use std::io::Write;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, opt: i32) -> i32;
    fn getpid() -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

#[repr(C)]
struct Shared {
    active: AtomicI32,
    stop: AtomicI32,
    viols: AtomicI32,
    repro: AtomicI32,
    paths: AtomicU64,
    splits: AtomicU64,
    crashed: AtomicI32,
}

#[derive(Clone, Default)]
struct Opt {
    ll: Vec<String>,
    out: String,
    replay: Vec<String>,
    time: f64,
    procs: i32,
    rlimit: u32,
    jobs: Vec<(String, u64)>,
    real_utf8: bool,
    trace: bool,
    prof: bool,
    dump: bool,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o
}

pub fn inputs_text(v: &Violation) -> String {
    let mut ev = Eval::new(&v.model);
    let mut o = String::new();
    for i in &v.inputs {
        match i {
            Inp::Scalar(e) => o += &format!("s {}\n", ev.ev(*e)),
            Inp::Choice(k) => o += &format!("c {k}\n"),
            Inp::Bytes(a, n) => {
                let n = ev.ev(*n) as u64;
                o += &format!("b {n}");
                if let Some(m) = v.model.arrs.get(a) {
                    let mut k: Vec<_> = m.iter().filter(|x| *x.0 < n).collect();
                    k.sort();
                    for (i, b) in k {
                        o += &format!(" {i}:{b}");
                    }
                }
                o += "\n";
            }
        }
    }
    o
}

fn run_replay(bin: &str, job: &str, param: u64, file: &str) -> (i32, String) {
    use std::os::unix::process::ExitStatusExt;
    let mut c = std::process::Command::new("timeout");
    c.args(["60", bin, job, &param.to_string(), file]);
    match c.output() {
        Ok(o) => {
            let code = o.status.code().unwrap_or_else(|| 128 + o.status.signal().unwrap_or(0));
            let e = String::from_utf8_lossy(&o.stderr);
            (code, e.chars().take(1200).collect())
        }
        Err(e) => (-1, e.to_string()),
    }
}

pub fn main() -> i32 {
    let mut o = Opt { time: 600.0, procs: 8, rlimit: 60_000_000, out: "/tmp/symex-out".into(), ..Default::default() };
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--ll" => o.ll = a.next().unwrap().split(',').map(|s| s.to_string()).collect(),
            "--out" => o.out = a.next().unwrap(),
            "--replay" => o.replay = a.next().unwrap().split(',').map(|s| s.to_string()).collect(),
            "--time" => o.time = a.next().unwrap().parse().unwrap(),
            "--procs" => o.procs = a.next().unwrap().parse().unwrap(),
            "--rlimit" => o.rlimit = a.next().unwrap().parse().unwrap(),
            "--real-utf8" => o.real_utf8 = true,
            "--trace" => o.trace = true,
            "--prof" => o.prof = true,
            "--dump" => o.dump = true,
            "--jobs-file" => {
                let t = std::fs::read_to_string(a.next().unwrap()).unwrap();
                for l in t.lines() {
                    let mut p = l.split_whitespace();
                    if let (Some(n), Some(k)) = (p.next(), p.next()) {
                        o.jobs.push((n.to_string(), k.parse().unwrap()));
                    }
                }
            }
            j => {
                let mut p = j.split(':');
                let n = p.next().unwrap().to_string();
                let k = p.next().map(|x| x.parse().unwrap()).unwrap_or(0);
                o.jobs.push((n, k));
            }
        }
    }
    std::fs::create_dir_all(&o.out).unwrap();
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    let t0 = Instant::now();
    init();
    let base = Exec::new(&o.ll, o.rlimit);
    let deadline = t0 + Duration::from_secs_f64(o.time);
    let mut base = Some(base);
    if o.procs <= 1 {
        // in-process, for debugging
        let ex = base.as_mut().unwrap();
        for (j, p) in o.jobs.clone() {
            sh.active.fetch_add(1, SeqCst);
            job(ex, &o, sh, &j, p, deadline, false);
        }
    } else {
        let mut started = 0;
        for (j, p) in o.jobs.clone() {
            loop {
                reap(sh);
                if sh.stop.load(SeqCst) != 0 || Instant::now() > deadline {
                    break;
                }
                if sh.active.load(SeqCst) < o.procs {
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            if sh.stop.load(SeqCst) != 0 || Instant::now() > deadline {
                break;
            }
            started += 1;
            sh.active.fetch_add(1, SeqCst);
            let pid = unsafe { fork() };
            if pid == 0 {
                job(base.as_mut().unwrap(), &o, sh, &j, p, deadline, true);
                unsafe { _exit(0) }
            }
        }
        unsafe {
            let mut st = 0;
            loop {
                let r = waitpid(-1, &mut st, 0);
                if r < 0 {
                    break;
                }
                if st != 0 {
                eprintln!("a worker ended with status {st:#x}");
                    sh.crashed.fetch_add(1, SeqCst);
                }
            }
        }
        if started < o.jobs.len() && sh.stop.load(SeqCst) == 0 {
            eprintln!("time limit before all jobs were started");
        }
        let f = format!("{}/summary.json", o.out);
        std::fs::write(
            f,
            format!(
                "{{\"jobs\":{},\"started\":{},\"crashed\":{},\"violations\":{},\"reproduced\":{},\"splits\":{},\"wall\":{:.2}}}\n",
                o.jobs.len(),
                started,
                sh.crashed.load(SeqCst),
                sh.viols.load(SeqCst),
                sh.repro.load(SeqCst),
                sh.splits.load(SeqCst),
                t0.elapsed().as_secs_f64()
            ),
        )
        .unwrap();
    }
    0
}

fn reap(sh: &Shared) {
    unsafe {
        let mut st = 0;
        loop {
            let r = waitpid(-1, &mut st, 1);
            if r <= 0 {
                break;
            }
            if st != 0 {
                eprintln!("a worker ended with status {st:#x}");
                sh.crashed.fetch_add(1, SeqCst);
                sh.active.fetch_sub(1, SeqCst);
            }
        }
    }
}

fn job(ex: &mut Exec, o: &Opt, sh: &'static Shared, j: &str, p: u64, deadline: Instant, par: bool) {
    ex.param = p;
    ex.deadline = deadline;
    ex.real_utf8 = o.real_utf8;
    ex.trace = o.trace;
    if o.prof {
        ex.prof = Some(Default::default());
    }
    if o.dump {
        ex.z3.dump = Some(format!("{}/q-{}-{}", o.out, j, p));
    }
    let t0 = Instant::now();
    if let Err(e) = ex.start(j) {
        eprintln!("{e}");
        std::fs::write(
            format!("{}/part-{}-{}-{}.json", o.out, j, p, unsafe { getpid() }),
            format!("{{\"job\":\"{}\",\"error\":\"{}\"}}", esc(j), esc(&e)),
        )
        .unwrap();
        sh.active.fetch_sub(1, SeqCst);
        return;
    }
    if par {
        let procs = o.procs;
        let mut last = Instant::now();
        ex.on_fork = Some(Box::new(move |ex: &mut Exec| -> bool {
            if sh.active.load(SeqCst) >= procs || last.elapsed() < Duration::from_millis(4) {
                return false;
            }
            let a = sh.active.load(SeqCst);
            if a >= procs || sh.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() {
                return false;
            }
            last = Instant::now();
            sh.splits.fetch_add(1, SeqCst);
            let pid = unsafe { fork() };
            if pid == 0 {
                ex.st = Stats::default();
                ex.viol.clear();
                ex.z3.st = Default::default();
                if let Some(d) = &ex.z3.dump {
                    ex.z3.dump = Some(format!("{d}.{}", unsafe { getpid() }));
                }
                true
            } else {
                ex.work.swap_remove(0);
                false
            }
        }));
        ex.check_stop = Some(Box::new(move || sh.stop.load(SeqCst) != 0));
    }
    let (o2, j2) = (o.clone(), j.to_string());
    let mut nv = 0;
    ex.on_violation = Some(Box::new(move |v: &Violation| -> bool {
        let k = sh.viols.fetch_add(1, SeqCst);
        nv += 1;
        let f = format!("{}/viol-{}-{}-{}-{}.txt", o2.out, j2, p, unsafe { getpid() }, k);
        let mut repro = vec![];
        let mut hit = o2.replay.is_empty();
        if k < 64 {
            let txt = inputs_text(v);
            std::fs::write(&f, format!("# job {} {}\n# {}\n{}", j2, p, v.msg.replace('\n', " "), txt)).unwrap();
            for b in &o2.replay {
                let (c, e) = run_replay(b, &j2, p, &f);
                if c == 1 || c == 101 || c >= 128 {
                    hit = true;
                }
                repro.push((b.clone(), c, e));
            }
            let mut s = format!(
                "{{\"job\":\"{}\",\"param\":{},\"msg\":\"{}\",\"file\":\"{}\",\"reproduced\":{},\"stack\":[{}],\"replays\":[",
                esc(&j2),
                p,
                esc(&v.msg),
                esc(&f),
                hit,
                v.stack.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(",")
            );
            for (n, (b, c, e)) in repro.iter().enumerate() {
                if n > 0 {
                    s += ",";
                }
                s += &format!("{{\"bin\":\"{}\",\"code\":{},\"stderr\":\"{}\"}}", esc(b), c, esc(e));
            }
            s += "]}\n";
            std::fs::write(format!("{f}.json"), s).unwrap();
        }
        if hit {
            sh.repro.fetch_add(1, SeqCst);
            sh.stop.store(1, SeqCst);
            return true;
        }
        if k >= 24 {
            sh.stop.store(2, SeqCst);
            return true;
        }
        false
    }));
    ex.run();
    sh.active.fetch_sub(1, SeqCst);
    let st = &ex.st;
    let z = &ex.z3.st;
    let mut s = format!(
        "{{\"job\":\"{}\",\"param\":{},\"paths\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"killed\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"wall_s\":{:.3},\"nodes\":{},\"covers\":{{{}}},\"unsup\":{{{}}},\"fns\":[{}],\"sample\":[{}]}}\n",
        esc(j), p, st.paths, st.forks, st.steps, st.asserts, st.killed, z.queries, z.sat, z.unsat, z.unknown,
        z.secs, z.max_secs, t0.elapsed().as_secs_f64(), cx().nodes.len(),
        st.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","),
        st.unsup.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","),
        st.fns.iter().map(|k| format!("\"{}\"", esc(k))).collect::<Vec<_>>().join(","),
        st.sample.iter().map(|k| format!("\"{}\"", esc(k))).collect::<Vec<_>>().join(","),
    );
    if let Some(p) = &ex.prof {
        let mut v: Vec<_> = p.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("{n:8} {k}");
        }
    }
    if !par {
        eprintln!("{s}");
        for v in &ex.viol {
            eprintln!("VIOL {}\n  {}\n{}", v.msg, v.stack.join("\n  "), inputs_text(v));
        }
    }
    let f = format!("{}/part-{}-{}-{}.json", o.out, j, p, unsafe { getpid() });
    let mut h = std::fs::File::create(f).unwrap();
    h.write_all(std::mem::take(&mut s).as_bytes()).unwrap();
    if par {
        unsafe {
            let mut st = 0;
            while waitpid(-1, &mut st, 0) >= 0 {
                if st != 0 {
                eprintln!("a worker ended with status {st:#x}");
                    sh.crashed.fetch_add(1, SeqCst);
                }
            }
        }
    }
}
