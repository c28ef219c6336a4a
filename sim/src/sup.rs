//! The supervisor: seeded search over runs in forked processes, minimisation, replay, evidence.

use crate::props::{Prop, PROPS};
use crate::rng::{hash_bytes, mix};
use crate::run::{execute, install_hook, Outcome};
use crate::world::{self, EV_NAMES, NEV};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

const WORKERS: usize = 8;
const TAPE: usize = 1 << 18;
const TEXT: usize = 1 << 14;
const BITS: usize = 1 << 25;
const DIGESTS: usize = 64;

#[repr(C)]
struct Slot {
    status: AtomicU64,
    digest: AtomicU64,
    text_len: AtomicU64,
    text: [u8; TEXT],
    tape_len: AtomicU64,
    tape: [u64; TAPE],
}

/// Shared by all processes of a check.
#[repr(C)]
struct Shared {
    next: AtomicU64,
    viol: AtomicU64,
    /// Whether a run that failed did anything but not come to an end.
    ended: [AtomicU64; WORKERS],
    broken: AtomicU64,
    runs: AtomicU64,
    perturbed: AtomicU64,
    ticks: AtomicU64,
    now: AtomicU64,
    decisions: AtomicU64,
    /// CPU time of the slowest run, in microseconds, and its number.
    slowest: [AtomicU64; 2],
    counts: [AtomicU64; NEV],
    digests: [AtomicU64; DIGESTS],
    slots: [Slot; WORKERS + 1],
    bitmap: [AtomicU64; BITS / 64],
}

fn map_shared() -> &'static mut Shared {
    let size = std::mem::size_of::<Shared>();
    unsafe {
        let fd = match std::env::var("BSN1SIM_SHM") {
            Ok(v) => v.parse().expect("fd"),
            Err(_) => {
                let fd = libc::memfd_create(c"bsn1sim".as_ptr(), 0);
                assert!(fd >= 0 && libc::ftruncate(fd, size as i64) == 0, "memfd");
                std::env::set_var("BSN1SIM_SHM", fd.to_string());
                fd
            }
        };
        let p = libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            fd,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        &mut *(p as *mut Shared)
    }
}

const HELD: u64 = 1;
const VIOLATED: u64 = 2;
const BROKEN: u64 = 3;

#[derive(Clone, Debug, PartialEq)]
struct End {
    status: u64,
    class: String,
    msg: String,
    digest: u64,
    tape: Vec<u64>,
}

#[derive(Clone, Copy)]
enum Src<'a> {
    Seed(u64),
    Tape(&'a [u64]),
}

struct Limits {
    cpu: i64,
    wall: u32,
}
const FULL: Limits = Limits { cpu: 40, wall: 150 };
const TRY: Limits = Limits { cpu: 4, wall: 12 };

fn put_text(slot: &mut Slot, s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(TEXT);
    slot.text[..n].copy_from_slice(&b[..n]);
    slot.text_len.store(n as u64, SeqCst);
}

/// The forked process: one run, from its seed or tape.
fn child(sh: &mut Shared, slot: usize, p: &Prop, src: Src, lim: &Limits, count: bool, trace: Option<&str>) -> ! {
    unsafe {
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: lim.cpu, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
        libc::alarm(lim.wall);
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
        // What the standard library prints when it gives up is of no use here.
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if null >= 0 {
            libc::dup2(null, 2);
        }
    }
    match src {
        Src::Seed(s) => world::begin_seed(s, trace),
        Src::Tape(t) => world::begin_tape(t.to_vec(), trace),
    }
    let sl = &mut sh.slots[slot];
    world::mirror(sl.tape.as_mut_ptr(), TAPE, &sl.tape_len, &sl.digest);
    install_hook();
    let (o, w) = execute(p.scenario);
    let sl = &mut sh.slots[slot];
    sl.digest.store(w.digest, SeqCst);
    let status = match o {
        Outcome::Held => HELD,
        Outcome::Violated(v) => {
            put_text(sl, &format!("{}\n{}", v.class, v.msg));
            VIOLATED
        }
        Outcome::Broken(m) => {
            put_text(sl, &m);
            BROKEN
        }
    };
    if count {
        sh.runs.fetch_add(1, SeqCst);
        sh.ticks.fetch_add(w.ticks, SeqCst);
        sh.now.fetch_add(w.now, SeqCst);
        sh.decisions.fetch_add(w.tape.len() as u64, SeqCst);
        for i in 0..NEV {
            if w.counts[i] > 0 {
                sh.counts[i].fetch_add(w.counts[i], SeqCst);
            }
        }
        if w.perturbed {
            sh.perturbed.fetch_add(1, SeqCst);
            let b = (w.sig % BITS as u64) as usize;
            sh.bitmap[b / 64].fetch_or(1 << (b % 64), SeqCst);
        }
    }
    sh.slots[slot].status.store(status, SeqCst);
    unsafe { libc::_exit(0) }
}

fn one(sh: &mut Shared, slot: usize, p: &Prop, src: Src, lim: &Limits, count: bool, trace: Option<&str>) -> End {
    let sl = &mut sh.slots[slot];
    sl.status.store(0, SeqCst);
    sl.digest.store(0, SeqCst);
    sl.text_len.store(0, SeqCst);
    sl.tape_len.store(0, SeqCst);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        child(sh, slot, p, src, lim, count, trace);
    }
    let mut st = 0;
    let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
    while unsafe { libc::wait4(pid, &mut st, 0, &mut ru) } < 0 {}
    let us = |t: libc::timeval| (t.tv_sec * 1_000_000 + t.tv_usec) as u64;
    let cpu = us(ru.ru_utime) + us(ru.ru_stime);
    if let (true, Src::Seed(s)) = (count && cpu > sh.slowest[0].load(SeqCst), src) {
        sh.slowest[0].store(cpu, SeqCst);
        sh.slowest[1].store(s, SeqCst);
    }
    let sl = &sh.slots[slot];
    let status = sl.status.load(SeqCst);
    let text = String::from_utf8_lossy(&sl.text[..sl.text_len.load(SeqCst) as usize]).into_owned();
    let n = (sl.tape_len.load(SeqCst) as usize).min(TAPE);
    let tape = sl.tape[..n].to_vec();
    let mut digest = sl.digest.load(SeqCst);
    if status == 0 {
        // It never came back.
        let (class, msg) = if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            match sig {
                libc::SIGPROF | libc::SIGALRM => {
                    // How far it got depends on the machine.
                    digest = 0;
                    ("hang".to_string(), "the run does not come to an end".to_string())
                }
                libc::SIGKILL => return End {
                    status: BROKEN,
                    class: String::new(),
                    msg: "run killed from outside".into(),
                    digest,
                    tape,
                },
                _ => (format!("crash-{sig}"), format!("the process died of signal {sig}")),
            }
        } else {
            let code = libc::WEXITSTATUS(st);
            if code == crate::sched::DEADLOCK {
                let msg = "operations wait for each other (or for themselves) forever".to_string();
                return End { status: VIOLATED, class: "deadlock".into(), msg, digest, tape };
            }
            (format!("exit-{code}"), format!("the process ended with status {code}"))
        };
        return End { status: VIOLATED, class, msg, digest, tape };
    }
    let (class, msg) = if status == VIOLATED {
        let (a, b) = text.split_once('\n').unwrap_or((&text, ""));
        (a.to_string(), b.to_string())
    } else {
        (String::new(), text)
    };
    End { status, class, msg, digest, tape }
}

fn run_seed(seed: u64, p: &Prop, i: u64) -> u64 {
    mix(mix(seed, hash_bytes(p.id.as_bytes())), i)
}

/// Runs number `from..to`. Returns the lowest violating number.
fn search(sh: &mut Shared, p: &Prop, seed: u64, from: u64, to: u64, cap: f64) -> Result<Option<u64>, String> {
    sh.next.store(from, SeqCst);
    sh.viol.store(u64::MAX, SeqCst);
    sh.broken.store(0, SeqCst);
    let start = Instant::now();
    let mut pids = vec![];
    for w in 0..WORKERS {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid != 0 {
            pids.push(pid);
            continue;
        }
        loop {
            let i = sh.next.fetch_add(1, SeqCst);
            if i >= to
                || i > sh.viol.load(SeqCst)
                || sh.broken.load(SeqCst) != 0
                || start.elapsed().as_secs_f64() > cap
            {
                break;
            }
            let e = one(sh, w, p, Src::Seed(run_seed(seed, p, i)), &FULL, true, None);
            let k = (i & ((1 << 40) - 1)) as usize;
            if k < DIGESTS {
                sh.digests[k].store(e.digest, SeqCst);
            }
            match e.status {
                VIOLATED => {
                    if e.class != "hang" {
                        sh.ended[w].store(i + 1, SeqCst);
                    }
                    sh.viol.fetch_min(i, SeqCst);
                }
                BROKEN => {
                    sh.broken.store(w as u64 + 1, SeqCst);
                    break;
                }
                _ => {}
            }
        }
        unsafe { libc::_exit(0) }
    }
    for pid in pids {
        let mut st = 0;
        while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
        if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
            return Err("a worker died".into());
        }
    }
    let v = sh.viol.load(SeqCst);
    if v != u64::MAX {
        return Ok(Some(v));
    }
    let b = sh.broken.load(SeqCst);
    if b != 0 {
        let sl = &sh.slots[b as usize - 1];
        let t = String::from_utf8_lossy(&sl.text[..sl.text_len.load(SeqCst) as usize]).into_owned();
        return Err(format!("simulator error: {t}"));
    }
    Ok(None)
}

/// Makes the tape smaller while the same class of violation remains.
fn shrink(sh: &mut Shared, p: &Prop, first: &End, budget: f64) -> (End, u64) {
    let start = Instant::now();
    let mut best = first.clone();
    let mut tries = 0;
    let attempt = |sh: &mut Shared, best: &mut End, cand: Vec<u64>, tries: &mut u64| -> bool {
        if start.elapsed().as_secs_f64() > budget || cand == best.tape {
            return false;
        }
        *tries += 1;
        let e = one(sh, WORKERS, p, Src::Tape(&cand), &TRY, false, None);
        if e.status == VIOLATED && e.class == best.class && (e.tape.len(), weight(&e.tape)) < (best.tape.len(), weight(&best.tape)) {
            *best = e;
            return true;
        }
        false
    };
    loop {
        let before = best.tape.clone();
        // Cut the end off.
        let mut n = best.tape.len() / 2;
        while n > 0 {
            if best.tape.len() > n {
                let mut c = best.tape.clone();
                c.truncate(best.tape.len() - n);
                if attempt(sh, &mut best, c, &mut tries) {
                    continue;
                }
            }
            n /= 2;
        }
        // Delete spans.
        let mut n = (best.tape.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at + n <= best.tape.len() {
                let mut c = best.tape.clone();
                c.drain(at..at + n);
                if !attempt(sh, &mut best, c, &mut tries) {
                    at += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // Zero spans, then lower single values.
        let mut n = (best.tape.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at + n <= best.tape.len() {
                let mut c = best.tape.clone();
                c[at..at + n].fill(0);
                attempt(sh, &mut best, c, &mut tries);
                at += n;
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        for at in 0..best.tape.len() {
            let (mut lo, mut hi) = match best.tape.get(at) {
                Some(v) => (0, *v),
                None => break,
            };
            while lo + 1 < hi {
                let mid = (lo + hi) / 2;
                let mut c = best.tape.clone();
                if at >= c.len() {
                    break;
                }
                c[at] = mid;
                if attempt(sh, &mut best, c, &mut tries) {
                    hi = mid;
                } else {
                    lo = mid;
                }
            }
            if let Some(v) = best.tape.get(at).copied() {
                if v > 0 {
                    let mut c = best.tape.clone();
                    c[at] = v - 1;
                    attempt(sh, &mut best, c, &mut tries);
                }
            }
        }
        if best.tape == before || start.elapsed().as_secs_f64() > budget {
            break;
        }
    }
    (best, tries)
}

fn weight(t: &[u64]) -> u128 {
    t.iter().map(|v| *v as u128).sum()
}

pub fn build_name() -> &'static str {
    if cfg!(bsn1_universal_buffer) {
        "universal"
    } else if cfg!(debug_assertions) {
        "checked"
    } else {
        "release"
    }
}

fn env(name: &str, default: &str) -> String {
    std::env::var(name).unwrap_or_else(|_| default.into())
}

fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

/// Reports a violation found at run `i`: reproduce, minimise, write the replay file. None if it
/// does not happen again: what is not a function of the seed is nothing to report.
fn report(sh: &mut Shared, p: &Prop, seed: u64, i: u64) -> Result<Option<String>, String> {
    let rs = run_seed(seed, p, i);
    let mut found = None;
    for _ in 0..4 {
        let e = one(sh, WORKERS, p, Src::Seed(rs), &FULL, false, None);
        if e.status != VIOLATED {
            continue;
        }
        let t = one(sh, WORKERS, p, Src::Tape(&e.tape), &FULL, false, None);
        if t.status == VIOLATED {
            found = Some((e, t));
            break;
        }
    }
    let Some((first, t)) = found else { return Ok(None) };
    let (mut best, tries) = shrink(sh, p, &t, 40.0);
    let again = one(sh, WORKERS, p, Src::Tape(&best.tape), &FULL, false, None);
    if again.status != VIOLATED || again.class != best.class {
        // Slow, but not without end.
        best = t;
    }
    let dir = env("VERIF_DIR", "/verif") + "/replays";
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let file = format!("{dir}/{}-{}-{}-{}.replay", p.id, build_name(), seed, i);
    let tmp = format!("{file}.trace");
    let e1 = one(sh, WORKERS, p, Src::Tape(&best.tape), &FULL, false, Some(&tmp));
    let e2 = one(sh, WORKERS, p, Src::Tape(&best.tape), &FULL, false, None);
    let same = e1.class == best.class && e1.msg == e2.msg && e1.digest == e2.digest && e1.tape == e2.tape;
    let trace = std::fs::read_to_string(&tmp).unwrap_or_default();
    let _ = std::fs::remove_file(&tmp);
    let mut s = String::new();
    let _ = writeln!(s, "bsn1sim-replay 1");
    let _ = writeln!(s, "property {}", p.id);
    let _ = writeln!(s, "build {}", build_name());
    let _ = writeln!(s, "seed {seed}");
    let _ = writeln!(s, "run {i}");
    let _ = writeln!(s, "class {}", e1.class);
    let _ = writeln!(s, "message {}", e1.msg.replace('\n', " "));
    let _ = writeln!(s, "digest {:016x}", e1.digest);
    let tape: Vec<String> = e1.tape.iter().map(|v| v.to_string()).collect();
    let _ = writeln!(s, "tape {}", tape.join(" "));
    let _ = writeln!(
        s,
        "# {} decisions, minimised from {} in {} tries; replayed identically: {}",
        e1.tape.len(),
        first.tape.len(),
        tries,
        same
    );
    let _ = writeln!(s, "# simulated history (time, task, event, arguments):");
    for l in trace.lines() {
        let _ = writeln!(s, "#   {l}");
    }
    std::fs::write(&file, s).map_err(|e| e.to_string())?;
    println!("{}: {} ({})", p.id, e1.msg, e1.class);
    println!("seed {seed} run {i} build {}: {} decisions", build_name(), e1.tape.len());
    Ok(Some(file))
}

pub fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let mut f: BTreeMap<&str, &str> = BTreeMap::new();
    for l in text.lines() {
        if !l.starts_with('#') {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            f.insert(k, v);
        }
    }
    let get = |k: &str| f.get(k).copied().unwrap_or("");
    if get("build") != build_name() {
        eprintln!("this replay needs the build '{}', this is '{}'", get("build"), build_name());
        return 2;
    }
    let p = prop(get("property"));
    let tape: Vec<u64> = get("tape").split_whitespace().map(|v| v.parse().expect("tape")).collect();
    let sh = map_shared();
    let tmp = format!("{}/bsn1sim-trace-{}", std::env::temp_dir().display(), std::process::id());
    let e = one(sh, WORKERS, p, Src::Tape(&tape), &FULL, false, Some(&tmp));
    print!("{}", std::fs::read_to_string(&tmp).unwrap_or_default());
    let _ = std::fs::remove_file(&tmp);
    let same = e.class == get("class")
        && e.msg.replace('\n', " ") == get("message")
        && format!("{:016x}", e.digest) == get("digest");
    println!("outcome: {}", if e.status == VIOLATED { &e.msg } else { "the property held" });
    println!("identical to the recorded execution: {same}");
    if e.status == VIOLATED {
        println!("VIOLATION property={} replay={}", p.id, file);
        1
    } else if e.status == HELD {
        0
    } else {
        eprintln!("{}", e.msg);
        2
    }
}

/// One seed of one property, for looking at.
pub fn single(id: &str, seed: u64, i: u64) -> i32 {
    let p = prop(id);
    let sh = map_shared();
    let tmp = format!("{}/bsn1sim-trace-{}", std::env::temp_dir().display(), std::process::id());
    let e = one(sh, WORKERS, p, Src::Seed(run_seed(seed, p, i)), &FULL, false, Some(&tmp));
    print!("{}", std::fs::read_to_string(&tmp).unwrap_or_default());
    let _ = std::fs::remove_file(&tmp);
    println!("status {} {} {} digest {:016x} decisions {}", e.status, e.class, e.msg, e.digest, e.tape.len());
    0
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o + "\""
}

pub fn check(id: &str) -> i32 {
    let start = Instant::now();
    let p = prop(id);
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let tier = env("VERIF_TIER", "quick");
    let thorough = tier == "thorough";
    let part = std::env::var("BSN1SIM_PART").is_ok();
    let sh = map_shared();
    let (mut runs, mut cap) = if thorough { (p.runs * 40, 320.0) } else { (p.runs, 45.0) };
    // Further builds explore other seeds.
    let mut from = 0;
    if part {
        runs = (runs as f64 * p.share) as u64;
        cap *= 0.6;
        from = if cfg!(bsn1_universal_buffer) { 1 << 40 } else { 2 << 40 };
    }
    if let Ok(v) = std::env::var("BSN1SIM_RUNS") {
        runs = v.parse().expect("BSN1SIM_RUNS");
    }
    let mut code = 0;
    let mut line = String::new();
    let mut next = from;
    let mut lost = vec![];
    let searched = loop {
        let left = cap - start.elapsed().as_secs_f64();
        let found = match search(sh, p, seed, next, from + runs, left) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("{e}");
                return 2;
            }
        };
        let searched = start.elapsed().as_secs_f64();
        let Some(i) = found else { break searched };
        match report(sh, p, seed, i) {
            Ok(Some(f)) => {
                line = f;
                code = 1;
                break searched;
            }
            Ok(None) => {
                let hung = sh.ended.iter().all(|e| e.load(SeqCst) != i + 1);
                let class = if hung { "hang" } else { "other" };
                eprintln!("run {i} of seed {seed} failed once ({class}) and not again");
                lost.push(class);
                next = i + 1;
            }
            Err(e) => {
                eprintln!("{e}");
                return 2;
            }
        }
    };
    let mut replays = 0;
    let mut identical = 0;
    if code == 0 {
        // Every run must be a function of its seed.
        for i in 0..(DIGESTS as u64).min(runs).min(24) {
            let e = one(sh, WORKERS, p, Src::Seed(run_seed(seed, p, from + i)), &FULL, false, None);
            let t = one(sh, WORKERS, p, Src::Tape(&e.tape), &FULL, false, None);
            replays += 2;
            let d = sh.digests[i as usize].load(SeqCst);
            identical += (e.digest == d) as u64 + (t.digest == d) as u64;
        }
        // A machine that stood still for a while looks like a run without end.
        if lost.iter().any(|c| *c != "hang") || lost.len() > 3 {
            return 2;
        }
    }
    if part {
        if code == 1 {
            println!("VIOLATION property={id} replay={line}");
        }
        return code;
    }
    // The other builds of the code under test.
    let mut builds = vec![build_name().to_string()];
    if code == 0 && std::env::var("BSN1SIM_ALONE").is_err() {
        for bin in env("BSN1SIM_ALSO", "").split(':').filter(|s| !s.is_empty()) {
            if !p.also {
                break;
            }
            let st = std::process::Command::new(bin)
                .args(["check", id])
                .env("BSN1SIM_PART", "1")
                .status();
            match st.map(|s| s.code()) {
                Ok(Some(0)) => builds.push(bin.rsplit('/').nth(2).unwrap_or(bin).to_string()),
                Ok(Some(1)) => {
                    code = 1;
                    break;
                }
                e => {
                    eprintln!("{bin}: {e:?}");
                    return 2;
                }
            }
        }
    }
    if !line.is_empty() {
        println!("VIOLATION property={id} replay={line}");
    }
    let wall = start.elapsed().as_secs_f64();
    write_evidence(sh, p, seed, &tier, code, wall, searched, replays, identical, lost.len(), &builds);
    code
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    sh: &mut Shared,
    p: &Prop,
    seed: u64,
    tier: &str,
    code: i32,
    wall: f64,
    searched: f64,
    replays: u64,
    identical: u64,
    lost: usize,
    builds: &[String],
) {
    let n = |a: &AtomicU64| a.load(SeqCst);
    let distinct: u64 = sh.bitmap.iter().map(|w| n(w).count_ones() as u64).sum();
    let mut faults = String::new();
    let mut events = String::new();
    for (i, name) in EV_NAMES.iter().enumerate() {
        let c = n(&sh.counts[i]);
        if c > 0 {
            let (to, name) = match name.strip_prefix("fault: ") {
                Some(f) => (&mut faults, f),
                None => (&mut events, *name),
            };
            if !to.is_empty() {
                to.push_str(", ");
            }
            let _ = write!(to, "{}: {}", json(name), c);
        }
    }
    let mut samples = vec![];
    for i in 0..4 {
        let tmp = format!("{}/bsn1sim-sample-{}", std::env::temp_dir().display(), std::process::id());
        let e = one(sh, WORKERS, p, Src::Seed(run_seed(seed, p, i)), &FULL, false, Some(&tmp));
        let t = std::fs::read_to_string(&tmp).unwrap_or_default();
        let _ = std::fs::remove_file(&tmp);
        let head: Vec<&str> = t.lines().take(12).map(|l| l.trim()).collect();
        let mut head = head.join("; ");
        if head.len() > 900 {
            let mut n = 900;
            while !head.is_char_boundary(n) {
                n -= 1;
            }
            head.truncate(n);
        }
        samples.push(format!(
            "{{\"run\": {i}, \"decisions\": {}, \"digest\": \"{:016x}\", \"history\": {}}}",
            e.tape.len(),
            e.digest,
            json(&head)
        ));
    }
    let runs = n(&sh.runs);
    let assumptions: Vec<String> = p.assumptions.iter().map(|a| json(a)).collect();
    let s = format!(
        r#"{{
 "property": {},
 "tier": {},
 "seed": {seed},
 "level": "exploration",
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {distinct},
  "rule": {},
  "samples": [
   {}
  ],
  "runs_with_faults_or_switches": {},
  "runs_per_hour": {},
  "decisions_drawn": {},
  "events": {},
  "simulated_seconds": {:.3},
  "faults_injected": {{{}}},
  "other_events": {{{}}},
  "replays_checked": {replays},
  "replays_identical": {identical},
  "failures_not_reproduced": {lost},
  "slowest_run_cpu_ms": {},
  "builds": [{}],
  "real_code": {},
  "stubs": {}
 }},
 "assumptions": [{}],
 "violations": {},
 "wall_s": {:.3}
}}
"#,
        json(p.id),
        json(tier),
        json("one evaluation is one simulated run from its own seed, in its own process; runs count as distinct if their sequences of (event kind, task, size class of both arguments) differ (hashed into a bitmap of 2^25 bits, collisions lower the count), and as nontrivial if at least one fault, split transfer, arrival, edit or task switch happened"),
        samples.join(",\n   "),
        n(&sh.perturbed),
        (runs as f64 / searched.max(wall).max(0.001) * 3600.0) as u64,
        n(&sh.decisions),
        n(&sh.ticks),
        n(&sh.now) as f64 / 1e6,
        faults,
        events,
        n(&sh.slowest[0]) / 1000,
        builds.iter().map(|b| json(b)).collect::<Vec<_>>().join(", "),
        json("bsn1, bsn1_serde and the derive macros of /repo's working tree, unmodified"),
        json(p.stubs),
        assumptions.join(", "),
        (code == 1) as u32,
        wall,
    );
    let dir = env("VERIF_DIR", "/verif") + "/evidence";
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", p.id), s) {
        eprintln!("evidence: {e}");
        std::process::exit(2);
    }
}
