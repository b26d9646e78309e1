//! Exhaustive-enumeration engine shared by all checks.
//!
//! A check is a list of *families*.  A family is a finite, totally ordered set
//! of cases `0..total`; running a case executes the real library code and
//! compares it with an oracle.  Every case of every family is run (there is no
//! sampling); a run that is cut short by the time cap says so in its evidence.
//!
//! The process is its own supervisor: the parent starts a child that does the
//! work; if the child dies of a signal while executing case X (stack overflow,
//! allocation failure), the parent re-runs just X, and only a crash that
//! reproduces there is reported as a violation.

use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// A property violation (or a known finding) found by one case.
#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable description of the exact failing input; known findings match on it.
    pub sig: String,
    /// What was expected and what happened.
    pub what: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, what: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        what: what.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::engine::fail($sig, format!($($arg)*));
        }
    };
}

#[derive(Default)]
pub struct Ctx {
    /// Distinct states visited (inputs, or canonical model states).
    pub states: u64,
    /// Calls of the code under test.
    pub transitions: u64,
    /// Enumerated cases (an input prefix with all its completions, or one history) that ran on
    /// the real code to the end and matched the oracle.
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub thorough: bool,
    /// Non-fatal failures (one case may find several); the engine decides
    /// whether they are known.
    pub fails: Vec<Fail>,
    slot: usize,
    seen: std::collections::HashSet<u64>,
}

impl Ctx {
    pub fn hit(&mut self, k: &str) {
        match self.outcomes.get_mut(k) {
            Some(v) => *v += 1,
            None => {
                self.outcomes.insert(k.to_string(), 1);
            }
        }
    }
    pub fn case(&mut self) {
        self.states += 1;
    }
    /// a state that may be met again within the case: counted once
    pub fn state(&mut self, k: impl std::hash::Hash) {
        use std::hash::{BuildHasher, BuildHasherDefault, DefaultHasher};
        let h = BuildHasherDefault::<DefaultHasher>::default().hash_one(k);
        if self.seen.insert(h) {
            self.states += 1;
        }
    }
    pub fn call(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    /// Heartbeat for long cases, so the hang watchdog measures single operations.
    pub fn tick(&self) {
        heartbeat(self.slot);
    }
}

pub struct Family {
    pub name: String,
    pub total: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Res + Sync + Send>,
}

pub fn family(
    name: impl Into<String>,
    total: u64,
    run: impl Fn(u64, &mut Ctx) -> Res + Sync + Send + 'static,
) -> Family {
    Family {
        name: name.into(),
        total,
        run: Box::new(run),
    }
}

/// Mixed-radix decoding of a case index.
pub struct Dec(pub u64);
impl Dec {
    pub fn take(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
}

pub const MAX_SLOTS: usize = 64;
static HB: [AtomicU64; MAX_SLOTS] = [const { AtomicU64::new(0) }; MAX_SLOTS];
static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

fn now_ms() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
fn heartbeat(slot: usize) {
    HB[slot].store(now_ms(), Relaxed);
}

thread_local! {
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

/// Run library code that may panic; a panic becomes `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.take())
            .unwrap_or_else(|| "panic".into())),
    }
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|v| v == "thorough").unwrap_or(false)
}

fn verif_dir() -> std::path::PathBuf {
    std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

/// Scratch directory private to this process; removed by `run_check` at exit.
pub fn scratch_dir() -> std::path::PathBuf {
    let d = verif_dir().join("out").join(format!("scratch-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn say(fd: i32, s: &str) {
    use std::os::fd::FromRawFd;
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
    let _ = f.write_all(s.as_bytes());
    let _ = f.write_all(b"\n");
}

struct Known {
    sigs: BTreeSet<String>,
}

fn load_known(prop: &str) -> Known {
    let mut sigs = BTreeSet::new();
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")) {
        let p = format!("known: property={} sig=", prop);
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&p) {
                sigs.insert(r.split(" :: ").next().unwrap().trim().to_string());
            }
        }
    }
    Known { sigs }
}

pub struct Opts {
    pub assumptions: Vec<String>,
    pub rule: String,
    /// seconds without a heartbeat before a case counts as hanging
    pub hang_s: u64,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            assumptions: vec![],
            rule: String::new(),
            hang_s: 60,
        }
    }
}

fn slot_file(prop: &str) -> std::path::PathBuf {
    verif_dir().join("out").join(format!("{}.cur", prop))
}

pub fn run_check(prop: &str, opts: Opts, families: Vec<Family>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let _ = std::fs::create_dir_all(verif_dir().join("out"));
    let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
    let mode = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match mode {
        "--child" => child(prop, &opts, &families, None),
        "--one" => {
            let f = args[2].clone();
            let i: u64 = args[3].parse().unwrap();
            child(prop, &opts, &families, Some((f, i)))
        }
        "--replay" => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| {
                t.lines()
                    .find_map(|l| l.strip_prefix(k))
                    .unwrap_or("")
                    .trim()
                    .to_string()
            };
            supervise(prop, &["--one", &get("family:"), &get("index:")])
        }
        _ => supervise(prop, &["--child"]),
    };
    std::process::exit(code)
}

fn supervise(prop: &str, args: &[&str]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let st = match std::process::Command::new(&exe).args(args).status() {
        Ok(s) => s,
        Err(e) => {
            println!("engine error: cannot start worker: {e}");
            return 2;
        }
    };
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    if args[0] == "--one" {
        println!("worker died of signal {sig} on this case");
        return 100 + sig;
    }
    // Find out which case killed it.
    let cur = std::fs::read(slot_file(prop)).unwrap_or_default();
    for s in cur.chunks(128) {
        let t = String::from_utf8_lossy(s);
        let t = t.trim_end_matches('\0');
        let mut it = t.split('\u{1}');
        let (Some(f), Some(i)) = (it.next(), it.next()) else {
            continue;
        };
        if f.is_empty() {
            continue;
        }
        let st2 = std::process::Command::new(&exe).args(["--one", f, i]).status();
        if let Ok(st2) = st2 {
            if st2.code() == Some(1) {
                return 1;
            }
            if let Some(sg) = st2.signal() {
                let p = write_replay(
                    prop,
                    f,
                    i.parse().unwrap_or(0),
                    &Fail {
                        sig: format!("{f}:{i}:signal{sg}"),
                        what: format!("process died of signal {sg} while executing the library"),
                    },
                );
                println!("VIOLATION property={} replay={}", prop, p);
                return 1;
            }
        }
    }
    println!("engine error: worker died of signal {sig}; no single case reproduces it");
    2
}

fn write_replay(prop: &str, fam: &str, idx: u64, f: &Fail) -> String {
    let d = verif_dir().join("out").join(prop);
    let _ = std::fs::create_dir_all(&d);
    let name: String = fam.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
    let p = d.join(format!("replay-{}-{}.txt", name, idx));
    let tier = if thorough() { "thorough" } else { "quick" };
    let _ = std::fs::write(
        &p,
        format!(
            "property: {prop}\nfamily: {fam}\nindex: {idx}\ntier: {tier}\nsignature: {}\nwhat: {}\n\
             # replay: VERIF_TIER={tier} target/release/{} --replay <this file>\n",
            f.sig,
            f.what,
            prop.to_lowercase()
        ),
    );
    p.display().to_string()
}

fn child(prop: &str, opts: &Opts, families: &[Family], one: Option<(String, u64)>) -> i32 {
    let out_fd = unsafe { dup(1) };
    // The library prints a lot; keep it away from the verdict channel.
    if std::env::var("MC_NOISY").is_err() {
        if let Ok(n) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
            use std::os::fd::AsRawFd;
            unsafe {
                dup2(n.as_raw_fd(), 1);
                dup2(n.as_raw_fd(), 2);
            }
        }
    }
    let lim: [u64; 2] = [20 << 30, 20 << 30];
    unsafe {
        setrlimit(9, &lim); // RLIMIT_AS
        setrlimit(4, &[0u64, 0u64]); // no core files
    }
    let noisy = std::env::var("MC_NOISY").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        if noisy {
            eprintln!("{info}");
        }
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let l = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| p.set(Some(format!("panicked at {l}: {m}"))));
    }));

    // crash slots
    let slots_ptr: usize = if one.is_none() {
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(slot_file(prop))
            .ok();
        match f {
            Some(f) => {
                use std::os::fd::AsRawFd;
                let _ = f.set_len((MAX_SLOTS * 128) as u64);
                let p = unsafe { mmap(std::ptr::null_mut(), MAX_SLOTS * 128, 3, 1, f.as_raw_fd(), 0) };
                if p as isize == -1 { 0 } else { p as usize }
            }
            None => 0,
        }
    } else {
        0
    };

    let tier_thorough = thorough();
    let tier = if tier_thorough { "thorough" } else { "quick" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cap_s: u64 = std::env::var("MC_CAP_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier_thorough { 3 * 3600 } else { 780 });
    let only_family = std::env::var("MC_FAMILY").ok();
    let known = load_known(prop);
    let t0 = Instant::now();
    now_ms();
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(MAX_SLOTS - 1);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let cur: Vec<Mutex<(String, u64)>> = (0..MAX_SLOTS).map(|_| Mutex::new((String::new(), 0))).collect();
    let viol: Mutex<Vec<(usize, u64, Fail)>> = Mutex::new(vec![]);
    let seen_known: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
    let total_ctx: Mutex<Ctx> = Mutex::new(Ctx::default());
    let fam_stats: Mutex<Vec<(String, u64, u64, u64, f64)>> = Mutex::new(vec![]);
    let keep_going = std::env::var("MC_KEEP_GOING").is_ok();

    std::thread::scope(|sc| {
        // hang watchdog
        let (viol_r, cur_r, done_r) = (&viol, &cur, &done);
        let wd = sc.spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(100));
                if done_r.load(Relaxed) {
                    return;
                }
                let n = now_ms();
                for s in 0..MAX_SLOTS {
                    let h = HB[s].load(Relaxed);
                    if h != 0 && n > h && n - h > opts.hang_s * 1000 {
                        let (f, i) = cur_r[s].lock().unwrap().clone();
                        let fl = Fail {
                            sig: format!("{f}:{i}:hang"),
                            what: format!(
                                "library call did not return within {} s (cases here normally take milliseconds)",
                                opts.hang_s
                            ),
                        };
                        let _ = viol_r;
                        let p = write_replay(prop, &f, i, &fl);
                        say(out_fd, &format!("{}: {}", fl.sig, fl.what));
                        say(out_fd, &format!("VIOLATION property={} replay={}", prop, p));
                        write_evidence(prop, tier, seed, opts, &Ctx::default(), &[], t0, false, 1, 0);
                        std::process::exit(1);
                    }
                }
            }
        });

        for (fi, fam) in families.iter().enumerate() {
            if let Some((f, _)) = &one {
                if f != &fam.name {
                    continue;
                }
            }
            if let Some(f) = &only_family {
                if !fam.name.contains(f.as_str()) {
                    continue;
                }
            }
            if stop.load(Relaxed) {
                break;
            }
            let ft0 = Instant::now();
            let (lo, hi) = match &one {
                Some((_, i)) => (*i, *i + 1),
                None => (0, fam.total),
            };
            let next = AtomicU64::new(lo);
            let chunk = ((hi - lo) / (nthreads as u64 * 64)).clamp(1, 4096);
            let ran = AtomicU64::new(0);
            let fs = Mutex::new((0u64, 0u64));
            std::thread::scope(|s2| {
                let mut hs = vec![];
                for slot in 0..nthreads {
                    let (next, stop, capped, cur, viol, seen_known, known, total_ctx, fam, ran, fs) = (
                        &next, &stop, &capped, &cur, &viol, &seen_known, &known, &total_ctx, fam, &ran, &fs,
                    );
                    hs.push(
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(s2, move || {
                                let mut ctx = Ctx {
                                    slot,
                                    thorough: tier_thorough,
                                    ..Default::default()
                                };
                                'outer: loop {
                                    let b = next.fetch_add(chunk, Relaxed);
                                    if b >= hi {
                                        break;
                                    }
                                    for i in b..(b + chunk).min(hi) {
                                        if stop.load(Relaxed) {
                                            break 'outer;
                                        }
                                        if t0.elapsed().as_secs() > cap_s {
                                            capped.store(true, Relaxed);
                                            break 'outer;
                                        }
                                        *cur[slot].lock().unwrap() = (fam.name.clone(), i);
                                        if slots_ptr != 0 {
                                            let mut buf = [0u8; 128];
                                            let t = format!("{}\u{1}{}\u{1}", fam.name, i);
                                            let n = t.len().min(128);
                                            buf[..n].copy_from_slice(&t.as_bytes()[..n]);
                                            unsafe {
                                                std::ptr::copy_nonoverlapping(
                                                    buf.as_ptr(),
                                                    (slots_ptr + slot * 128) as *mut u8,
                                                    128,
                                                );
                                            }
                                        }
                                        heartbeat(slot);
                                        let before = ctx.states;
                                        ctx.seen.clear();
                                        let r = match catch_unwind(AssertUnwindSafe(|| (fam.run)(i, &mut ctx))) {
                                            Ok(r) => r,
                                            Err(_) => {
                                                let m = LAST_PANIC
                                                    .with(|p| p.take())
                                                    .unwrap_or_else(|| "panic".into());
                                                Err(Fail {
                                                    sig: format!("{}:{}:panic", fam.name, i),
                                                    what: m,
                                                })
                                            }
                                        };
                                        ran.fetch_add(1, Relaxed);
                                        if r.is_ok() && ctx.fails.is_empty() && ctx.states > before {
                                            ctx.traces += 1;
                                        }
                                        let mut fails = std::mem::take(&mut ctx.fails);
                                        if let Err(f) = r {
                                            fails.push(f);
                                        }
                                        for f in fails {
                                            if known.sigs.contains(&f.sig) {
                                                seen_known.lock().unwrap().insert(f.sig, f.what);
                                            } else {
                                                let mut v = viol.lock().unwrap();
                                                if v.len() < 5000 {
                                                    v.push((fi, i, f));
                                                }
                                                if !keep_going {
                                                    stop.store(true, Relaxed);
                                                }
                                            }
                                        }
                                    }
                                }
                                HB[slot].store(0, Relaxed);
                                if slots_ptr != 0 {
                                    unsafe {
                                        std::ptr::write_bytes((slots_ptr + slot * 128) as *mut u8, 0, 128);
                                    }
                                }
                                let mut t = total_ctx.lock().unwrap();
                                {
                                    let mut g = fs.lock().unwrap();
                                    g.0 += ctx.states;
                                    g.1 += ctx.transitions;
                                }
                                t.states += ctx.states;
                                t.transitions += ctx.transitions;
                                t.traces += ctx.traces;
                                for (k, v) in ctx.outcomes {
                                    *t.outcomes.entry(format!("{}/{}", fam.name, k)).or_insert(0) += v;
                                }
                                if slot == 0 {
                                    for s in ctx.samples {
                                        if t.samples.len() < 24 {
                                            t.samples.push(format!("{}: {}", fam.name, s));
                                        }
                                    }
                                }
                            })
                            .unwrap(),
                    );
                }
                for h in hs {
                    let _ = h.join();
                }
            });
            let g = fs.lock().unwrap();
            fam_stats.lock().unwrap().push((
                fam.name.clone(),
                ran.load(Relaxed),
                g.0,
                g.1,
                ft0.elapsed().as_secs_f64(),
            ));
        }
        done.store(true, Relaxed);
        let _ = wd.join();
    });

    let ctx = total_ctx.into_inner().unwrap();
    let stats = fam_stats.into_inner().unwrap();
    let sk = seen_known.into_inner().unwrap();
    let mut v = viol.into_inner().unwrap();
    v.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
    let is_capped = capped.load(Relaxed);
    if one.is_none() {
        write_evidence(
            prop, tier, seed, opts, &ctx, &stats, t0, !is_capped && v.is_empty(), v.len() as i64, sk.len(),
        );
    }
    for (s, w) in &sk {
        say(out_fd, &format!("KNOWN-FINDING: property={} {} :: {}", prop, s, w));
    }
    for (n, cases, st, tr, w) in &stats {
        say(out_fd, &format!("  {n}: {cases} cases, {st} states, {tr} transitions, {w:.1}s"));
    }
    if !v.is_empty() {
        let limit = if keep_going { 5000 } else { 5 };
        for (fi, i, f) in v.iter().take(limit) {
            let p = write_replay(prop, &families[*fi].name, *i, f);
            say(out_fd, &format!("  {} [{}]: {}", f.sig, i, f.what));
            if !keep_going || std::ptr::eq(f, &v[0].2) {
                say(out_fd, &format!("VIOLATION property={} replay={}", prop, p));
            }
        }
        return 1;
    }
    if one.is_none() && ctx.states == 0 {
        say(out_fd, "engine error: nothing was explored");
        return 2;
    }
    say(
        out_fd,
        &format!(
            "{} held: {} states, {} transitions, {} traces compared{}, {:.1}s",
            prop,
            ctx.states,
            ctx.transitions,
            ctx.traces,
            if is_capped { " (CAPPED by time)" } else { "" },
            t0.elapsed().as_secs_f64()
        ),
    );
    0
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: &str,
    tier: &str,
    seed: i64,
    opts: &Opts,
    ctx: &Ctx,
    stats: &[(String, u64, u64, u64, f64)],
    t0: Instant,
    exhaustive: bool,
    violations: i64,
    known: usize,
) {
    let samples: Vec<String> = ctx.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let outs: Vec<String> = ctx.outcomes.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
    let fams: Vec<String> = stats
        .iter()
        .map(|(n, c, s, t, w)| {
            format!(
                "{{\"family\": \"{}\", \"cases\": {}, \"states\": {}, \"transitions\": {}, \"wall_s\": {:.3}}}",
                esc(n), c, s, t, w
            )
        })
        .collect();
    let asm: Vec<String> = opts.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let j = format!(
        "{{\n \"property\": \"{prop}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \
         \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \
         \"exhaustive\": {},\n  \"rule\": \"{}\",\n  \"distinct_outcomes\": {},\n  \"outcomes\": {{{}}},\n  \
         \"families\": [{}],\n  \"known_findings_seen\": {},\n  \"samples\": [{}]\n }},\n \
         \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        ctx.states,
        ctx.transitions,
        ctx.traces,
        exhaustive,
        esc(&opts.rule),
        ctx.outcomes.len(),
        outs.join(", "),
        fams.join(", "),
        known,
        samples.join(", "),
        asm.join(", "),
        t0.elapsed().as_secs_f64(),
        violations
    );
    let p = verif_dir().join("evidence").join(format!("{prop}.json"));
    let tmp = verif_dir().join("evidence").join(format!(".{prop}.json.tmp"));
    if std::fs::write(&tmp, j).is_ok() {
        let _ = std::fs::rename(&tmp, &p);
    }
}
