//! Fixed-work, seeded, multi-threaded property driver on top of proptest's
//! strategies and shrinking.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a single case observed.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// comparisons made against the oracle
    pub compared: u64,
    /// comparisons skipped because the bound says nothing (ill-conditioned)
    pub skipped: u64,
    /// largest error/tolerance ratio seen
    pub ratio: f64,
    pub ratio_by: BTreeMap<&'static str, f64>,
    cur: &'static str,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn lab_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// name the group of comparisons that follow (for the headroom statistics)
    pub fn group(&mut self, g: &'static str) {
        self.cur = g;
    }
    /// |got - want| <= tol, NaN fails. Returns Err with context otherwise.
    pub fn close(&mut self, what: &dyn Fn() -> String, got: f64, want: f64, tol: f64) -> Res {
        self.compared += 1;
        if got == want {
            return Ok(());
        }
        let d = (got - want).abs();
        if d <= tol {
            let r = d / tol;
            if r > self.ratio {
                self.ratio = r;
            }
            let e = self.ratio_by.entry(self.cur).or_insert(0.0);
            if r > *e {
                *e = r;
            }
            Ok(())
        } else {
            Err(format!(
                "{}: got {:?}, expected {:?} (difference {:e}, tolerance {:e})",
                what(),
                got,
                want,
                d,
                tol
            ))
        }
    }
    /// err <= tol for a nonnegative error measure
    pub fn small(&mut self, what: &dyn Fn() -> String, err: f64, tol: f64) -> Res {
        self.close(what, err, 0.0, tol)
    }
}

pub type Res = Result<(), String>;

pub fn ensure(c: bool, msg: impl FnOnce() -> String) -> Res {
    if c {
        Ok(())
    } else {
        Err(msg())
    }
}

pub trait Prop: 'static {
    type Case: Clone + Send + Debug + Serialize + DeserializeOwned + 'static;
    const ID: &'static str;
    /// how cases are made, and what makes one non-trivial
    const RULE: &'static str;
    const ASSUME: &'static [&'static str] = &[];
    /// number of cases per tier (over all threads)
    fn cases(tier: Tier) -> u64;
    fn strategy() -> BoxedStrategy<Self::Case>;
    fn check(c: &Self::Case, o: &mut Obs) -> Res;
    fn max_shrink() -> u32 {
        20_000
    }
    fn threads() -> u64 {
        8
    }
    /// a case that takes longer than this is reported as hanging
    fn hang_secs() -> u64 {
        60
    }
    /// a smaller failing case made from a failing one, tried before shrinking
    fn reduce(_c: &Self::Case) -> Option<Self::Case> {
        None
    }
    /// per-run set-up (e.g. building helper binaries)
    fn setup() -> Result<(), String> {
        Ok(())
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        if std::thread::current().name() == Some("main") {
            eprintln!("panic in harness: {msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} (at {loc})"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn run_one<P: Prop>(c: &P::Case, o: &mut Obs) -> Res {
    match catch_unwind(AssertUnwindSafe(|| P::check(c, o))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", last_panic())),
    }
}

/// Marks an environment problem (tool could not run): never a violation.
pub const INFRA: &str = "INFRASTRUCTURE: ";

fn seed_bytes(id: &str, seed: u64, thread: u64) -> [u8; 32] {
    // splitmix64 stream over (seed, thread, id)
    let mut s = seed ^ 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(thread + 1);
    for b in id.bytes() {
        s = s.wrapping_mul(0x100_0000_01b3) ^ b as u64;
    }
    let mut out = [0u8; 32];
    for ch in out.chunks_mut(8) {
        s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        ch.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

fn hash_case<C: Serialize>(c: &C) -> u64 {
    let b = bincode::serialize(c).unwrap_or_default();
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for ch in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..ch.len()].copy_from_slice(ch);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 29;
    }
    h
}

/// Progress of the worker threads, kept in a file which outlives a crash:
/// per thread the index of the current case and a heartbeat.
pub struct Progress(Option<std::fs::File>);
impl Progress {
    fn open() -> Self {
        Progress(std::env::var("CAMCHECK_CHILD").ok().and_then(|p| {
            std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).ok()
        }))
    }
    fn set(&self, thread: u64, index: u64, beat: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&index.to_le_bytes());
            b[8..].copy_from_slice(&beat.to_le_bytes());
            let _ = f.write_at(&b, thread * 16);
        }
    }
}
const DONE: u64 = u64::MAX;
fn read_progress(path: &std::path::Path) -> Vec<(u64, u64)> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks_exact(16)
        .map(|c| {
            (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap()))
        })
        .collect()
}

/// The driver runs in a child process, so that a crash (stack overflow, abort)
/// or a hang of the code under test is found, and its case identified.
fn supervise<P: Prop>(tier: Tier, seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("own path");
    let prog = std::env::temp_dir().join(format!("camcheck-{}-{}", P::ID, std::process::id()));
    let _ = std::fs::remove_file(&prog);
    let mut child = match Command::new(&exe).env("CAMCHECK_CHILD", &prog).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start the check: {e}");
            return 2;
        }
    };
    let mut seen: Vec<((u64, u64), Instant)> = vec![];
    let why: String = loop {
        std::thread::sleep(std::time::Duration::from_millis(50));
        match child.try_wait() {
            Ok(Some(st)) => match st.code() {
                Some(c) => {
                    let _ = std::fs::remove_file(&prog);
                    return c;
                }
                None => break format!("the process was ended by signal {}", st.signal().unwrap_or(0)),
            },
            Ok(None) => {}
            Err(e) => {
                eprintln!("cannot wait for the check: {e}");
                return 2;
            }
        }
        let now = read_progress(&prog);
        let mut hung = None;
        for (t, v) in now.iter().enumerate() {
            if seen.len() <= t {
                seen.push((*v, Instant::now()));
            } else if seen[t].0 != *v {
                seen[t] = (*v, Instant::now());
            } else if v.0 != DONE && seen[t].1.elapsed().as_secs() >= P::hang_secs() {
                hung = Some(t);
            }
        }
        if hung.is_some() {
            let _ = child.kill();
            let _ = child.wait();
            break "no progress".to_string();
        }
    };
    let last = read_progress(&prog);
    let _ = std::fs::remove_file(&prog);
    // which of the cases in flight does it?
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    for (t, (index, _)) in last.iter().enumerate() {
        if *index == DONE {
            continue;
        }
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(P::ID, seed, t as u64));
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let strat = P::strategy();
        let mut case = None;
        for _ in 0..=*index {
            case = strat.new_tree(&mut runner).ok().map(|t| t.current());
        }
        let Some(case) = case else { continue };
        let path = dir.join(format!("{}-{:016x}.json", P::ID, hash_case(&case)));
        let body = serde_json::json!({"property": P::ID, "case": case, "message": why});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        let Ok(mut c) = Command::new(&exe).arg("--replay").arg(&path).stdout(Stdio::null()).spawn() else {
            continue;
        };
        let t0 = Instant::now();
        let bad = loop {
            match c.try_wait() {
                Ok(Some(st)) if st.code() == Some(1) => break Some("the check fails".to_string()),
                Ok(Some(st)) => break st.signal().map(|s| format!("crash (signal {s})")),
                Ok(None) if t0.elapsed().as_secs() > P::hang_secs() => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break Some(format!("no result within {} s", P::hang_secs()));
                }
                Ok(None) => std::thread::sleep(std::time::Duration::from_millis(20)),
                Err(_) => break None,
            }
        };
        if let Some(b) = bad {
            println!("{}: {b}", P::ID);
            println!("case: {}", truncate_json(&serde_json::to_value(&case).unwrap(), 4000));
            println!("VIOLATION property={} replay={}", P::ID, path.display());
            write_evidence::<P>(tier, seed, 1, serde_json::json!({
                "evaluations": last.iter().map(|x| if x.0 == DONE { 0 } else { x.0 + 1 }).sum::<u64>(),
                "distinct_nontrivial": 1,
                "rule": P::RULE,
                "samples": [truncate_json(&serde_json::to_value(&case).unwrap(), 1500)],
                "note": b,
            }), 0.0).ok();
            return 1;
        }
        let _ = std::fs::remove_file(&path);
    }
    eprintln!("{}: check could not run: {why}, not reproduced by any case in flight", P::ID);
    2
}

fn write_evidence<P: Prop>(tier: Tier, seed: u64, violations: u64, cov: serde_json::Value, wall: f64) -> Result<(), String> {
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": P::ASSUME,
        "wall_s": wall,
        "violations": violations,
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(
        evdir.join(format!("{}.json", P::ID)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .map_err(|e| format!("cannot write evidence: {e}"))
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: Vec<u64>,
    labels: BTreeMap<&'static str, u64>,
    compared: u64,
    skipped: u64,
    ratio: f64,
    ratio_by: BTreeMap<&'static str, f64>,
    samples: Vec<serde_json::Value>,
}

pub struct Outcome {
    pub violation: Option<String>,
    pub infra: Option<String>,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn truncate_json(v: &serde_json::Value, max: usize) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= max {
        v.clone()
    } else {
        serde_json::Value::String(format!(
            "{}... ({} bytes)",
            s.chars().take(max).collect::<String>(),
            s.len()
        ))
    }
}

pub fn drive<P: Prop>(tier: Tier, seed: u64) -> Outcome {
    let t0 = Instant::now();
    if let Err(e) = P::setup() {
        return Outcome { violation: None, infra: Some(e) };
    }
    let scale: f64 = std::env::var("CAMCHECK_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((P::cases(tier) as f64 * scale) as u64).max(P::threads());
    let nthreads = P::threads();
    let stop = AtomicBool::new(false);
    let fail: Mutex<Option<(u64, P::Case, String)>> = Mutex::new(None);
    let infra: Mutex<Option<String>> = Mutex::new(None);
    let stats: Mutex<Vec<Stats>> = Mutex::new(vec![]);
    let prog = Progress::open();
    let prog_r = &prog;
    let (stop_r, fail_r, infra_r, stats_r) = (&stop, &fail, &infra, &stats);
    std::thread::scope(|sc| {
        for t in 0..nthreads {
            let n = total / nthreads + if t < total % nthreads { 1 } else { 0 };
            std::thread::Builder::new()
                .name(format!("w{t}"))
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(P::ID, seed, t));
                    let cfg = Config { failure_persistence: None, ..Config::default() };
                    let mut runner = TestRunner::new_with_rng(cfg, rng);
                    let strat = P::strategy();
                    let mut st = Stats::default();
                    for i in 0..n {
                        if stop_r.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut tree = match strat.new_tree(&mut runner) {
                            Ok(t) => t,
                            Err(e) => {
                                *infra_r.lock().unwrap() = Some(format!("generator: {e}"));
                                break;
                            }
                        };
                        let case = tree.current();
                        let mut o = Obs::default();
                        prog_r.set(t, i, 0);
                        let r = run_one::<P>(&case, &mut o);
                        st.evals += 1;
                        st.compared += o.compared;
                        st.skipped += o.skipped;
                        st.ratio = st.ratio.max(o.ratio);
                        for (k, v) in &o.ratio_by {
                            let e = st.ratio_by.entry(k).or_insert(0.0);
                            *e = e.max(*v);
                        }
                        for l in &o.labels {
                            *st.labels.entry(l).or_insert(0) += 1;
                        }
                        if o.nontrivial {
                            st.nontrivial.push(hash_case(&case));
                            if st.samples.len() < 2 && i >= 3 {
                                if let Ok(v) = serde_json::to_value(&case) {
                                    st.samples.push(truncate_json(&v, 1500));
                                }
                            }
                        }
                        if let Err(msg) = r {
                            if msg.starts_with(INFRA) {
                                *infra_r.lock().unwrap() = Some(msg);
                                stop_r.store(true, Ordering::Relaxed);
                                break;
                            }
                            if stop_r.swap(true, Ordering::Relaxed) {
                                break;
                            }
                            // shrink
                            let ts = Instant::now();
                            let mut best = (case, msg);
                            let mut iters = 0;
                            if let Some(c) = P::reduce(&best.0) {
                                if let Err(m) = run_one::<P>(&c, &mut Obs::default()) {
                                    if !m.starts_with(INFRA) {
                                        best = (c, m);
                                    }
                                }
                            } else if tree.simplify() {
                                while iters < P::max_shrink() && ts.elapsed().as_secs() < 60 {
                                    iters += 1;
                                    prog_r.set(t, i, iters as u64);
                                    let c = tree.current();
                                    let mut o = Obs::default();
                                    match run_one::<P>(&c, &mut o) {
                                        Err(m) if !m.starts_with(INFRA) => {
                                            best = (c, m);
                                            if !tree.simplify() {
                                                break;
                                            }
                                        }
                                        _ => {
                                            if !tree.complicate() {
                                                break;
                                            }
                                        }
                                    }
                                }
                            }
                            *fail_r.lock().unwrap() = Some((t, best.0, best.1));
                            break;
                        }
                    }
                    prog_r.set(t, DONE, 0);
                    stats_r.lock().unwrap().push(st);
                })
                .expect("spawn");
        }
    });
    let mut all = Stats::default();
    for s in stats.into_inner().unwrap() {
        all.evals += s.evals;
        all.compared += s.compared;
        all.skipped += s.skipped;
        all.ratio = all.ratio.max(s.ratio);
        all.nontrivial.extend(s.nontrivial);
        for (k, v) in s.labels {
            *all.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in s.ratio_by {
            let e = all.ratio_by.entry(k).or_insert(0.0);
            *e = e.max(v);
        }
        all.samples.extend(s.samples);
    }
    all.nontrivial.sort_unstable();
    all.nontrivial.dedup();
    all.samples.truncate(4);
    let violation = fail.into_inner().unwrap();
    let infra = infra.into_inner().unwrap();
    let mut viol_msg = None;
    if let Some((_t, case, msg)) = &violation {
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.json", P::ID, hash_case(case)));
        let body = serde_json::json!({"property": P::ID, "case": case, "message": msg});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("{}: {}", P::ID, msg);
        println!("minimal case: {}", truncate_json(&serde_json::to_value(case).unwrap(), 4000));
        println!("VIOLATION property={} replay={}", P::ID, path.display());
        viol_msg = Some(msg.clone());
    }
    let labels: BTreeMap<_, _> = all.labels.iter().collect();
    let cov = serde_json::json!({
        "evaluations": all.evals,
        "distinct_nontrivial": all.nontrivial.len(),
        "rule": P::RULE,
        "samples": all.samples,
        "comparisons_with_oracle": all.compared,
        "comparisons_skipped_ill_conditioned": all.skipped,
        "largest_error_over_tolerance": all.ratio,
        "largest_error_over_tolerance_by_group": all.ratio_by,
        "case_labels": labels,
        "harvested_literals": crate::gen::pool().floats.len(),
        "threads": nthreads,
    });
    if let Err(e) =
        write_evidence::<P>(tier, seed, viol_msg.is_some() as u64, cov, t0.elapsed().as_secs_f64())
    {
        return Outcome { violation: viol_msg, infra: Some(e) };
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} comparisons ({} skipped), max error/tolerance {:.3} {:?}, {:.1}s",
        P::ID,
        all.evals,
        all.nontrivial.len(),
        all.compared,
        all.skipped,
        all.ratio,
        all.ratio_by,
        t0.elapsed().as_secs_f64()
    );
    if std::env::var("CAMCHECK_VERBOSE").is_ok() {
        println!("labels: {labels:?}");
    }
    Outcome { violation: viol_msg, infra }
}

pub fn replay<P: Prop>(path: &str) -> Result<Option<String>, String> {
    P::setup()?;
    let s = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let v: serde_json::Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
    let c: P::Case =
        serde_json::from_value(v.get("case").cloned().unwrap_or(v)).map_err(|e| e.to_string())?;
    let mut o = Obs::default();
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run_one::<P>(&c, &mut o)).unwrap();
    Ok(h.join().unwrap().err())
}

/// Entry point of every check binary: `cNN` or `cNN --replay FILE`.
pub fn main_for<P: Prop>() -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "--replay" {
        match replay::<P>(&args[2]) {
            Ok(None) => {
                println!("{}: the case holds", P::ID);
                std::process::exit(0)
            }
            Ok(Some(m)) if m.starts_with(INFRA) => {
                eprintln!("{m}");
                std::process::exit(2)
            }
            Ok(Some(m)) => {
                println!("{}: {m}", P::ID);
                println!("VIOLATION property={} replay={}", P::ID, args[2]);
                std::process::exit(1)
            }
            Err(e) => {
                eprintln!("cannot replay: {e}");
                std::process::exit(2)
            }
        }
    }
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if std::env::var("CAMCHECK_CHILD").is_err() {
        std::process::exit(supervise::<P>(tier, seed))
    }
    let r = drive::<P>(tier, seed);
    if r.violation.is_some() {
        std::process::exit(1)
    }
    if let Some(e) = r.infra {
        eprintln!("{}: check could not run: {e}", P::ID);
        std::process::exit(2)
    }
    std::process::exit(0)
}
