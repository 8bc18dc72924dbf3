//! Check engine: runs the facets of one property in several worker processes, each with its own
//! scratch TMPDIR, with proptest as generator and shrinker; turns failures into replay files and
//! writes the evidence file.

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type Outcome = Result<(), String>;

/// What a case reports about itself: class labels and whether it counts as non-trivial.
#[derive(Default)]
pub struct Obs {
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
}

impl Obs {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.classes.push(c);
        }
    }
    pub fn nt(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
}

pub trait Case: Serialize + DeserializeOwned + Debug + Clone + 'static {}
impl<T: Serialize + DeserializeOwned + Debug + Clone + 'static> Case for T {}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
}

pub struct Failure {
    pub case: Value,
    pub message: String,
}

type RunFn = Box<dyn Fn(&mut dyn FnMut(&[u8]), [u8; 32], u32, &mut Stats) -> Option<Failure>>;
type ReplayFn = Box<dyn Fn(&Value) -> Result<Outcome, String>>;

pub struct Facet {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    run: RunFn,
    replay: ReplayFn,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("panic at {}: {}", loc, msg);
        if std::env::var_os("PBT_DEBUG").is_some() {
            eprintln!("{}", full);
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(full));
    }));
}

/// Run `f`, turning a panic into an error message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG
            .with(|m| m.borrow_mut().take())
            .unwrap_or_else(|| "panic (message lost)".into())),
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &b in data {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub fn facet<T: Case>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strat: fn() -> BoxedStrategy<T>,
    eval: fn(&T, &mut Obs) -> Outcome,
) -> Facet {
    let run = move |publish: &mut dyn FnMut(&[u8]), seed: [u8; 32], cases: u32, stats: &mut Stats| {
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: if std::env::var_os("PBT_NOSHRINK").is_some() { 0 } else { 6000 },
            max_shrink_time: 40_000,
            max_local_rejects: 1 << 20,
            max_global_rejects: 1 << 20,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
        let mut runner = TestRunner::new_with_rng(config, rng);
        let shared = RefCell::new((stats, publish, false));
        let res = runner.run(&strat(), |case: T| {
            let mut s = shared.borrow_mut();
            let (stats, publish, failed) = &mut *s;
            let enc = serde_json::to_vec(&case).expect("case serialises");
            publish(&enc);
            CASE_NO.fetch_add(1, Ordering::SeqCst);
            let mut obs = Obs::default();
            let r = match guarded(|| eval(&case, &mut obs)) {
                Ok(r) => r,
                Err(p) => Err(p),
            };
            if !*failed {
                stats.evaluations += 1;
                for c in &obs.classes {
                    *stats.classes.entry((*c).to_string()).or_insert(0) += 1;
                }
                if obs.nontrivial {
                    stats.nontrivial += 1;
                    stats.distinct.insert(fnv(&enc));
                    if stats.samples.len() < 3 && (stats.samples.is_empty() || enc.len() < 1500) {
                        stats.samples.push(if enc.len() <= 1500 {
                            serde_json::from_slice(&enc).unwrap_or(Value::Null)
                        } else {
                            Value::String(String::from_utf8_lossy(&enc[..1500]).into_owned() + "...")
                        });
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    *failed = true;
                    Err(TestCaseError::fail(m))
                }
            }
        });
        match res {
            Ok(()) => None,
            Err(TestError::Fail(reason, case)) => Some(Failure {
                case: serde_json::to_value(&case).unwrap(),
                message: reason.message().to_string(),
            }),
            Err(TestError::Abort(reason)) => {
                eprintln!("generator aborted in facet {}: {}", name, reason.message());
                std::process::exit(2);
            }
        }
    };
    let replay = move |v: &Value| {
        let case: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        CASE_NO.fetch_add(1, Ordering::SeqCst);
        let mut obs = Obs::default();
        Ok(match guarded(|| eval(&case, &mut obs)) {
            Ok(r) => r,
            Err(p) => Err(p),
        })
    };
    Facet { name, rule, quick, thorough, run: Box::new(run), replay: Box::new(replay) }
}

/// Strategy helper: box anything.
pub fn bx<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}

// ---------------------------------------------------------------------------------------------
// Worker

const SLOT_CAP: usize = 4 << 20;

struct Slot {
    ptr: *mut u8,
}

impl Slot {
    fn create(path: &Path) -> Slot {
        use std::os::unix::io::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(SLOT_CAP as u64).unwrap();
        let ptr = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOT_CAP, libc::PROT_READ | libc::PROT_WRITE,
                       libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(ptr != libc::MAP_FAILED);
        Slot { ptr: ptr as *mut u8 }
    }
    fn put(&self, facet: &str, case: &[u8]) {
        let total = facet.len() + 1 + case.len();
        if total + 8 > SLOT_CAP {
            unsafe { (self.ptr as *mut u64).write_volatile(0) };
            return;
        }
        unsafe {
            (self.ptr as *mut u64).write_volatile(0);
            let p = self.ptr.add(8);
            std::ptr::copy_nonoverlapping(facet.as_ptr(), p, facet.len());
            *p.add(facet.len()) = b'\n';
            std::ptr::copy_nonoverlapping(case.as_ptr(), p.add(facet.len() + 1), case.len());
            (self.ptr as *mut u64).write_volatile(total as u64);
        }
    }
    fn read(path: &Path) -> Option<(String, Value)> {
        let data = fs::read(path).ok()?;
        let len = u64::from_le_bytes(data.get(..8)?.try_into().ok()?) as usize;
        let body = data.get(8..8 + len)?;
        let nl = body.iter().position(|&b| b == b'\n')?;
        let facet = String::from_utf8_lossy(&body[..nl]).into_owned();
        Some((facet, serde_json::from_slice(&body[nl + 1..]).ok()?))
    }
}

const HANG_EXIT: i32 = 77;
const HANG_CPU_SECS: u64 = 25;

/// Called by cases which legitimately take long, as they get on.
pub fn progress() {
    CASE_NO.fetch_add(1, Ordering::SeqCst);
}

fn start_watchdog() {
    unsafe {
        let me = libc::pthread_self();
        let mut clk: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(me, &mut clk) != 0 {
            return;
        }
        std::thread::spawn(move || {
            let now = || {
                let mut ts: libc::timespec = std::mem::zeroed();
                libc::clock_gettime(clk, &mut ts);
                ts.tv_sec as u64
            };
            let mut last_case = CASE_NO.load(Ordering::SeqCst);
            let mut since = now();
            loop {
                std::thread::sleep(Duration::from_millis(250));
                let c = CASE_NO.load(Ordering::SeqCst);
                if c != last_case {
                    last_case = c;
                    since = now();
                } else if c > 0 && now() - since > HANG_CPU_SECS && IN_CASES.load(Ordering::SeqCst) == 1 {
                    libc::_exit(HANG_EXIT);
                }
            }
        });
    }
}

static IN_CASES: AtomicU64 = AtomicU64::new(0);

fn set_limits() {
    unsafe {
        let lim = |res, v: u64| {
            let mut cur: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(res, &mut cur);
            cur.rlim_cur = v.min(cur.rlim_max);
            libc::setrlimit(res, &cur);
        };
        lim(libc::RLIMIT_AS, 3 << 30);
        lim(libc::RLIMIT_FSIZE, 256 << 20);
        lim(libc::RLIMIT_CORE, 0);
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
}

fn derive_seed(seed: u64, id: &str, facet: &str, shard: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut x = fnv(format!("{}|{}|{}|{}|{}", seed, id, facet, shard, i).as_bytes());
        // splitmix finaliser
        x ^= x >> 30;
        x = x.wrapping_mul(0xbf58476d1ce4e5b9);
        x ^= x >> 27;
        x = x.wrapping_mul(0x94d049bb133111eb);
        x ^= x >> 31;
        out[i as usize * 8..i as usize * 8 + 8].copy_from_slice(&x.to_le_bytes());
    }
    out
}

pub fn facet_filter() -> Option<String> {
    std::env::var("PBT_FACET").ok()
}

fn scale() -> f64 {
    std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

pub fn worker(id: &str, facets: Vec<Facet>, tier: &str, seed: u64, shard: u32, nshards: u32, dir: &Path) {
    install_panic_hook();
    set_limits();
    let slot = Slot::create(&dir.join("slot"));
    start_watchdog();
    let mut report = serde_json::Map::new();
    let mut failure = Value::Null;
    for f in &facets {
        if let Some(only) = facet_filter() {
            if only != f.name {
                continue;
            }
        }
        let n = if tier == "thorough" { f.thorough } else { f.quick };
        let n = (n as f64 * scale()) as u32;
        let cases = n / nshards + if shard < n % nshards { 1 } else { 0 };
        let mut stats = Stats::default();
        let t0 = Instant::now();
        let fail = if cases == 0 {
            None
        } else {
            let mut publish = |c: &[u8]| slot.put(f.name, c);
            IN_CASES.store(1, Ordering::SeqCst);
            let r = (f.run)(&mut publish, derive_seed(seed, id, f.name, shard), cases, &mut stats);
            IN_CASES.store(0, Ordering::SeqCst);
            r
        };
        let distinct: Vec<String> = stats.distinct.iter().map(|h| format!("{:x}", h)).collect();
        report.insert(f.name.to_string(), json!({
            "evaluations": stats.evaluations, "nontrivial": stats.nontrivial,
            "distinct": distinct.join(" "), "classes": stats.classes, "samples": stats.samples,
            "secs": t0.elapsed().as_secs_f64(),
        }));
        if let Some(fl) = fail {
            failure = json!({"facet": f.name, "case": fl.case, "message": fl.message});
            break;
        }
    }
    let out = json!({"report": report, "failure": failure});
    fs::write(dir.join("out.json"), serde_json::to_vec(&out).unwrap()).unwrap();
}

// ---------------------------------------------------------------------------------------------
// Parent

fn replay_path(verif: &Path, id: &str, facet: &str, case: &Value) -> PathBuf {
    let h = fnv(case.to_string().as_bytes());
    verif.join("replays").join(format!("{}-{}-{:016x}.json", id, facet, h))
}

/// A RAM-backed directory when there is one with room, /tmp otherwise.
fn default_scratch() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let probe = shm.join(format!("pbt-probe-{}", std::process::id()));
    let usable = fs::create_dir(&probe).and_then(|_| fs::remove_dir(&probe)).is_ok();
    let room = unsafe {
        let mut v: libc::statvfs = std::mem::zeroed();
        libc::statvfs(b"/dev/shm\0".as_ptr() as *const libc::c_char, &mut v) == 0
            && v.f_bavail as u64 * v.f_frsize as u64 > 2 << 30
    };
    if usable && room { shm.to_path_buf() } else { PathBuf::from("/tmp") }
}

fn scratch_root() -> PathBuf {
    let base = std::env::var_os("PBT_SCRATCH_BASE").map(PathBuf::from).unwrap_or_else(default_scratch);
    let p = base.join(format!("pbt-scratch-{}", std::process::id()));
    let _ = fs::remove_dir_all(&p);
    fs::create_dir_all(&p).unwrap();
    p
}

/// The TMPDIR of a worker is nested so that a path escaping a few levels stays inside the scratch
/// directory.
fn worker_tmp(dir: &Path) -> PathBuf {
    let t = dir.join("n1/n2/n3/n4/n5/tmp");
    fs::create_dir_all(&t).unwrap();
    t
}

fn spawn_self(args: &[String], dir: &Path) -> Child {
    let exe = std::env::current_exe().unwrap();
    let log = fs::File::create(dir.join("log")).unwrap();
    Command::new(exe)
        .args(args)
        .env("TMPDIR", worker_tmp(dir))
        .env("PBT_WORKDIR", dir)
        .stdin(Stdio::null())
        .stdout(Stdio::from(log.try_clone().unwrap()))
        .stderr(Stdio::from(log))
        .spawn()
        .expect("spawn worker")
}

enum ReplayVerdict {
    Holds,
    Violated(String),
    Broken(String),
}

/// Replay one case in a fresh process.
fn replay_in_child(root: &Path, file: &Path) -> ReplayVerdict {
    use std::os::unix::process::ExitStatusExt;
    let dir = root.join("replay");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let mut ch = spawn_self(&["replay-inner".into(), file.to_string_lossy().into_owned()], &dir);
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break st;
        }
        if t0.elapsed() > Duration::from_secs(400) {
            let _ = ch.kill();
            let _ = ch.wait();
            return ReplayVerdict::Broken("replay did not finish (wall clock)".into());
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let log = fs::read_to_string(dir.join("log")).unwrap_or_default();
    match (st.code(), st.signal()) {
        (Some(0), _) => ReplayVerdict::Holds,
        (Some(1), _) => ReplayVerdict::Violated(log.trim().to_string()),
        (Some(HANG_EXIT), _) => ReplayVerdict::Violated(format!(
            "no progress: the case used more than {} s of CPU time without finishing", HANG_CPU_SECS)),
        (_, Some(libc::SIGABRT)) | (_, Some(libc::SIGSEGV)) | (_, Some(libc::SIGBUS)) =>
            ReplayVerdict::Violated(format!("process died by signal {:?}: {}", st.signal(), tail(&log))),
        other => ReplayVerdict::Broken(format!("replay ended abnormally {:?}: {}", other, tail(&log))),
    }
}

fn tail(s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    v[v.len().saturating_sub(600)..].iter().collect::<String>().trim().to_string()
}

pub fn replay_inner(facets: impl Fn(&str) -> Option<Vec<Facet>>, file: &str) -> i32 {
    install_panic_hook();
    set_limits();
    start_watchdog();
    IN_CASES.store(1, Ordering::SeqCst);
    let v: Value = match fs::read(file).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            println!("cannot read {}: {}", file, e);
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("").to_string();
    let fname = v["facet"].as_str().unwrap_or("").to_string();
    let fs_ = match facets(&id) {
        Some(f) => f,
        None => {
            println!("unknown property {}", id);
            return 2;
        }
    };
    let f = match fs_.iter().find(|f| f.name == fname) {
        Some(f) => f,
        None => {
            println!("unknown facet {} of {}", fname, id);
            return 2;
        }
    };
    let repeat = v["repeat"].as_u64().unwrap_or(1);
    for _ in 0..repeat {
        match (f.replay)(&v["case"]) {
            Err(e) => {
                println!("case does not decode: {}", e);
                return 2;
            }
            Ok(Ok(())) => {}
            Ok(Err(m)) => {
                println!("{}", m);
                return 1;
            }
        }
    }
    0
}

/// `pbt replay FILE`: replays a file and prints the verdict.
pub fn replay_cmd(file: &str) -> i32 {
    let root = scratch_root();
    let v = replay_in_child(&root, Path::new(file));
    let _ = fs::remove_dir_all(&root);
    match v {
        ReplayVerdict::Holds => {
            println!("HOLDS {}", file);
            0
        }
        ReplayVerdict::Violated(m) => {
            println!("VIOLATED {}: {}", file, m);
            1
        }
        ReplayVerdict::Broken(m) => {
            println!("BROKEN {}: {}", file, m);
            2
        }
    }
}

pub fn run(id: &str, facets: Vec<Facet>, tier: &str, seed: u64, verif: &Path) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let root = scratch_root();
    let nshards: u32 = std::env::var("PBT_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let cap = Duration::from_secs(if tier == "thorough" { 3 * 3600 } else { 800 });
    let _ = fs::create_dir_all(verif.join("replays"));
    let _ = fs::create_dir_all(verif.join("evidence"));

    let mut violations: Vec<(String, PathBuf, String)> = Vec::new();
    let mut broken: Option<String> = None;

    // 1. regression inputs (minimal reproductions of repaired defects), each in a fresh process
    let mut regressions = 0u64;
    let reg_dir = verif.join("regressions").join(id);
    if facet_filter().is_none() {
        let mut files: Vec<PathBuf> = fs::read_dir(&reg_dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        files.retain(|p| p.extension().map_or(false, |e| e == "json"));
        files.sort();
        for f in &files {
            regressions += 1;
            match replay_in_child(&root, f) {
                ReplayVerdict::Holds => {}
                ReplayVerdict::Violated(m) => violations.push(("regression".into(), f.clone(), m)),
                ReplayVerdict::Broken(m) => broken = Some(format!("{}: {}", f.display(), m)),
            }
        }
    }

    // 2. generated cases
    let mut kids: Vec<(u32, Child, PathBuf, bool)> = Vec::new();
    for s in 0..nshards {
        let dir = root.join(format!("w{}", s));
        fs::create_dir_all(&dir).unwrap();
        let args: Vec<String> = vec!["worker".into(), id.into(), tier.into(), seed.to_string(), s.to_string(),
                                     nshards.to_string(), dir.to_string_lossy().into_owned()];
        let ch = spawn_self(&args, &dir);
        kids.push((s, ch, dir, false));
    }
    let mut outs: Vec<Value> = Vec::new();
    let mut suspects: Vec<(String, String, Value)> = Vec::new();
    let mut first_fail: Option<Instant> = None;
    loop {
        let mut alive = false;
        for (s, ch, dir, done) in kids.iter_mut() {
            if *done {
                continue;
            }
            match ch.try_wait().unwrap() {
                None => alive = true,
                Some(st) => {
                    *done = true;
                    let log = fs::read_to_string(dir.join("log")).unwrap_or_default();
                    if st.code() == Some(0) {
                        let v: Value = fs::read(dir.join("out.json")).ok()
                            .and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
                        if v.is_null() {
                            broken = Some(format!("worker {} wrote no report", s));
                        } else {
                            if !v["failure"].is_null() {
                                first_fail.get_or_insert(Instant::now());
                                let fl = &v["failure"];
                                suspects.push((fl["facet"].as_str().unwrap().into(),
                                               fl["message"].as_str().unwrap().into(), fl["case"].clone()));
                            }
                            outs.push(v);
                        }
                    } else {
                        let crash = st.code() == Some(HANG_EXIT)
                            || matches!(st.signal(), Some(libc::SIGABRT) | Some(libc::SIGSEGV) | Some(libc::SIGBUS));
                        match Slot::read(&dir.join("slot")) {
                            Some((facet, case)) if crash => {
                                first_fail.get_or_insert(Instant::now());
                                suspects.push((facet, format!("worker ended with {:?}: {}", st, tail(&log)), case));
                            }
                            _ => broken = Some(format!("worker {} ended with {:?}: {}", s, st, tail(&log))),
                        }
                    }
                }
            }
        }
        if !alive {
            break;
        }
        let give_up = t0.elapsed() > cap || first_fail.map_or(false, |t| t.elapsed() > Duration::from_secs(10));
        if give_up {
            for (s, ch, _, done) in kids.iter_mut() {
                if !*done {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    *done = true;
                    if first_fail.is_none() {
                        broken = Some(format!("worker {} did not finish within {:?}", s, cap));
                    }
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }

    // 3. confirm every suspect in a fresh process before reporting it
    let mut seen = HashSet::new();
    for (facet, msg, case) in suspects {
        if !seen.insert(facet.clone()) {
            continue;
        }
        let path = replay_path(verif, id, &facet, &case);
        let doc = json!({"property": id, "facet": facet, "case": case, "message": msg, "seed": seed, "repeat": 20});
        let _ = fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap());
        match replay_in_child(&root, &path) {
            ReplayVerdict::Violated(m) => violations.push((facet, path, m)),
            // a failure that does not reproduce alone is still reported: the code under test draws
            // its own random numbers (boundaries, file names, simulated network)
            ReplayVerdict::Holds if msg.starts_with("worker ended with") =>
                broken = Some(format!("{} (not reproduced on replay)", msg)),
            ReplayVerdict::Holds => violations.push((facet, path, format!("{} (not reproduced on replay)", msg))),
            ReplayVerdict::Broken(m) => broken = Some(m),
        }
    }

    // 4. evidence
    let mut evaluations = regressions;
    let mut distinct_total = 0u64;
    let mut per_facet = serde_json::Map::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut rules = Vec::new();
    for f in &facets {
        let mut ev = 0;
        let mut nt = 0;
        let mut secs = 0f64;
        let mut set: HashSet<String> = HashSet::new();
        let mut classes: BTreeMap<String, u64> = BTreeMap::new();
        let mut took = 0;
        for o in &outs {
            let r = &o["report"][f.name];
            if r.is_null() {
                continue;
            }
            ev += r["evaluations"].as_u64().unwrap_or(0);
            nt += r["nontrivial"].as_u64().unwrap_or(0);
            secs = secs.max(r["secs"].as_f64().unwrap_or(0.0));
            for h in r["distinct"].as_str().unwrap_or("").split(' ').filter(|s| !s.is_empty()) {
                set.insert(h.to_string());
            }
            if let Some(m) = r["classes"].as_object() {
                for (k, v) in m {
                    *classes.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
                }
            }
            if took < 2 {
                for s in r["samples"].as_array().into_iter().flatten().take(1) {
                    samples.push(json!({"facet": f.name, "case": s}));
                    took += 1;
                }
            }
        }
        evaluations += ev;
        distinct_total += set.len() as u64;
        rules.push(format!("[{}] {}", f.name, f.rule));
        per_facet.insert(f.name.to_string(), json!({"evaluations": ev, "nontrivial": nt, "distinct_nontrivial": set.len(),
            "classes": classes, "max_worker_s": secs}));
    }
    let evidence = json!({
        "property": id, "tier": if tier == "thorough" { "thorough" } else { "quick" }, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct_total,
            "rule": rules.join(" | "), "samples": samples, "facets": per_facet,
            "regression_inputs": regressions, "workers": nshards,
        },
        "assumptions": crate::props::assumptions(id),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    if facet_filter().is_none() && std::env::var_os("PBT_NO_EVIDENCE").is_none() {
        fs::write(verif.join("evidence").join(format!("{}.json", id)), serde_json::to_vec_pretty(&evidence).unwrap()).unwrap();
    }
    let _ = fs::remove_dir_all(&root);
    println!("{} tier={} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s",
             id, tier, seed, evaluations, distinct_total, t0.elapsed().as_secs_f64());
    if std::env::var_os("PBT_VERBOSE").is_some() {
        println!("{}", serde_json::to_string_pretty(&evidence["coverage"]["facets"]).unwrap());
    }
    if !violations.is_empty() {
        for (facet, path, m) in &violations {
            println!("  [{}] {}", facet, m.chars().take(1500).collect::<String>());
            println!("VIOLATION property={} replay={}", id, path.display());
        }
        return 1;
    }
    if let Some(b) = broken {
        println!("CHECK-ERROR property={} {}", id, b);
        return 2;
    }
    0
}
