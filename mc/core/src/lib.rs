//! Shared machinery of the bounded exhaustive explorers: supervision, parallel
//! enumeration, known findings, evidence, grammar enumeration and node oracles.
pub mod explore;
pub mod grammar;
pub mod node;

use serde_json::{json, Map, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use grammar::Grammar;
pub use node::NodeWorker;

pub fn verif_root() -> PathBuf {
  std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn repo_root() -> PathBuf {
  PathBuf::from("/repo")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

const SLOTS: usize = 64;
const SLOT: usize = 16384;

struct Shared {
  ptr: *mut u8,
}
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

static INFLIGHT: std::sync::OnceLock<Shared> = std::sync::OnceLock::new();
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static STARTED: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];

thread_local! {
  static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
  static DEPTH: Cell<usize> = const { Cell::new(0) };
  static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn map_inflight(path: &str) -> Shared {
  use std::os::fd::AsRawFd;
  let f = std::fs::OpenOptions::new()
    .read(true)
    .write(true)
    .create(true)
    .truncate(false)
    .open(path)
    .expect("inflight file");
  f.set_len((SLOTS * SLOT) as u64).unwrap();
  let ptr = unsafe {
    libc::mmap(
      std::ptr::null_mut(),
      SLOTS * SLOT,
      libc::PROT_READ | libc::PROT_WRITE,
      libc::MAP_SHARED,
      f.as_raw_fd(),
      0,
    )
  };
  assert!(ptr != libc::MAP_FAILED);
  Shared { ptr: ptr as *mut u8 }
}

fn my_slot() -> usize {
  MY_SLOT.with(|s| {
    if s.get() == usize::MAX {
      s.set(NEXT_SLOT.fetch_add(1, Ordering::SeqCst) % SLOTS);
    }
    s.get()
  })
}

fn slot_write(slot: usize, text: &str) {
  if let Some(sh) = INFLIGHT.get() {
    let bytes = text.as_bytes();
    let n = bytes.len().min(SLOT - 4);
    unsafe {
      let p = sh.ptr.add(slot * SLOT);
      std::ptr::copy_nonoverlapping(bytes.as_ptr(), p.add(4), n);
      std::ptr::copy_nonoverlapping((n as u32).to_le_bytes().as_ptr(), p, 4);
    }
  }
}

fn slot_clear(slot: usize) {
  if let Some(sh) = INFLIGHT.get() {
    unsafe { std::ptr::write_bytes(sh.ptr.add(slot * SLOT), 0, 4) };
  }
}

fn now_ms() -> u64 {
  static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
  T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Run `f` on `input`; a panic of the code under test becomes `Err(message)`.
/// While it runs, the input is recorded so that an abort or a hang is
/// attributed to it.
pub fn guard<R>(input: &str, f: impl FnOnce() -> R) -> Result<R, String> {
  let slot = my_slot();
  let depth = DEPTH.with(|d| {
    d.set(d.get() + 1);
    d.get()
  });
  if depth == 1 {
    slot_write(slot, input);
    STARTED[slot].store(now_ms(), Ordering::SeqCst);
  }
  let r = catch_unwind(AssertUnwindSafe(f));
  DEPTH.with(|d| d.set(d.get() - 1));
  if depth == 1 {
    STARTED[slot].store(0, Ordering::SeqCst);
    slot_clear(slot);
  }
  r.map_err(|p| {
    let loc = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
    let msg = if let Some(s) = p.downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
      s.clone()
    } else {
      "<non-string panic>".into()
    };
    format!("panic: {msg} @ {loc}")
  })
}

#[derive(Clone, Debug)]
pub struct Violation {
  pub key: String,
  pub detail: String,
}

pub struct Check {
  pub id: String,
  pub tier: Tier,
  pub seed: u64,
  level: String,
  start: Instant,
  states: AtomicU64,
  transitions: AtomicU64,
  traces: AtomicU64,
  evaluations: AtomicU64,
  samples: Mutex<Vec<Value>>,
  outcomes: Mutex<HashSet<u64>>,
  notes: Mutex<Map<String, Value>>,
  counters: Mutex<BTreeMap<String, u64>>,
  assumptions: Mutex<Vec<String>>,
  violations: Mutex<HashMap<String, Violation>>,
  exhaustive: AtomicBool,
  replay: Option<String>,
}

impl Check {
  pub fn quick(&self) -> bool {
    self.tier == Tier::Quick
  }
  /// Pick a bound by tier.
  pub fn pick<T>(&self, quick: T, thorough: T) -> T {
    if self.quick() {
      quick
    } else {
      thorough
    }
  }
  /// Only this input is to be checked (MC_REPLAY).
  pub fn replay(&self) -> Option<&str> {
    self.replay.as_deref()
  }
  pub fn states(&self, n: u64) {
    self.states.fetch_add(n, Ordering::Relaxed);
  }
  pub fn transitions(&self, n: u64) {
    self.transitions.fetch_add(n, Ordering::Relaxed);
  }
  pub fn traces(&self, n: u64) {
    self.traces.fetch_add(n, Ordering::Relaxed);
  }
  pub fn evals(&self, n: u64) {
    self.evaluations.fetch_add(n, Ordering::Relaxed);
  }
  pub fn count(&self, name: &str, n: u64) {
    *self.counters.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
  }
  pub fn note(&self, name: &str, v: Value) {
    self.notes.lock().unwrap().insert(name.to_string(), v);
  }
  pub fn assume(&self, s: &str) {
    self.assumptions.lock().unwrap().push(s.to_string());
  }
  pub fn not_exhaustive(&self) {
    self.exhaustive.store(false, Ordering::Relaxed);
  }
  pub fn sample(&self, v: Value) {
    let mut s = self.samples.lock().unwrap();
    if s.len() < 24 {
      s.push(v);
    }
  }
  /// Record an observed outcome (hashed); the evidence reports how many distinct ones occurred.
  pub fn outcome(&self, v: &str) {
    let h = fnv(v.as_bytes());
    let mut o = self.outcomes.lock().unwrap();
    if o.len() < 4_000_000 {
      o.insert(h);
    }
  }
  pub fn outcomes_bulk(&self, hs: impl IntoIterator<Item = u64>) {
    let mut o = self.outcomes.lock().unwrap();
    for h in hs {
      if o.len() < 4_000_000 {
        o.insert(h);
      }
    }
  }
  pub fn violation(&self, key: impl Into<String>, detail: impl Into<String>) {
    let key = key.into();
    let detail = detail.into();
    let mut v = self.violations.lock().unwrap();
    if v.len() < 200_000 {
      v.entry(key.clone()).or_insert(Violation { key, detail });
    }
  }

  /// Run `f` over 0..n in parallel with a per-thread context.
  pub fn par<C>(&self, n: u64, init: impl Fn() -> C + Sync, f: impl Fn(&mut C, u64) + Sync) {
    let next = AtomicU64::new(0);
    let threads = std::env::var("MC_THREADS")
      .ok()
      .and_then(|v| v.parse().ok())
      .unwrap_or_else(|| std::thread::available_parallelism().map(|v| v.get()).unwrap_or(8))
      .min(8);
    let chunk = (n / (threads as u64 * 64)).clamp(1, 256);
    let (next, init, f) = (&next, &init, &f);
    std::thread::scope(|s| {
      let mut hs = vec![];
      for t in 0..threads {
        hs.push(
          std::thread::Builder::new()
            .name(format!("mc{t}"))
            .stack_size(256 << 20)
            .spawn_scoped(s, move || {
              let mut ctx = init();
              loop {
                let lo = next.fetch_add(chunk, Ordering::Relaxed);
                if lo >= n {
                  break;
                }
                for i in lo..(lo + chunk).min(n) {
                  f(&mut ctx, i);
                }
              }
            })
            .unwrap(),
        );
      }
      for h in hs {
        if h.join().is_err() {
          eprintln!("check engine thread panicked");
          std::process::exit(3);
        }
      }
    });
  }

  /// Like `par`, handing out whole batches of indices (for batched oracles).
  pub fn par_batches<C>(
    &self,
    n: u64,
    batch: u64,
    init: impl Fn() -> C + Sync,
    f: impl Fn(&mut C, std::ops::Range<u64>) + Sync,
  ) {
    let nb = n.div_ceil(batch);
    let next = AtomicU64::new(0);
    let (next, init, f) = (&next, &init, &f);
    std::thread::scope(|s| {
      let mut hs = vec![];
      for t in 0..8 {
        hs.push(
          std::thread::Builder::new()
            .name(format!("mc{t}"))
            .stack_size(256 << 20)
            .spawn_scoped(s, move || {
              let mut ctx = init();
              loop {
                let b = next.fetch_add(1, Ordering::Relaxed);
                if b >= nb {
                  break;
                }
                f(&mut ctx, b * batch..((b + 1) * batch).min(n));
              }
            })
            .unwrap(),
        );
      }
      for h in hs {
        if h.join().is_err() {
          eprintln!("check engine thread panicked");
          std::process::exit(3);
        }
      }
    });
  }
}

pub fn fnv(b: &[u8]) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325;
  for &x in b {
    h ^= x as u64;
    h = h.wrapping_mul(0x100000001b3);
  }
  h
}

struct Known {
  key: String,
  line: String,
}

fn load_known(id: &str) -> Vec<Known> {
  let path = verif_root().join("known-findings.txt");
  let text = std::fs::read_to_string(path).unwrap_or_default();
  let mut out = vec![];
  for line in text.lines() {
    let Some(rest) = line.strip_prefix("KNOWN-FINDING: property=") else { continue };
    let Some((pid, rest)) = rest.split_once(' ') else { continue };
    if pid != id {
      continue;
    }
    let Some(pos) = rest.find("key=") else { continue };
    let mut de = serde_json::Deserializer::from_str(&rest[pos + 4..]).into_iter::<String>();
    if let Some(Ok(key)) = de.next() {
      out.push(Known { key, line: line.to_string() });
    }
  }
  out
}

fn inflight_path(pid: u32) -> String {
  format!("/dev/shm/mc-inflight-{pid}")
}

fn report(id: &str, viols: Vec<Violation>) -> (usize, usize) {
  let known = load_known(id);
  let kmap: HashMap<&str, &Known> = known.iter().map(|k| (k.key.as_str(), k)).collect();
  let mut seen_known: HashSet<String> = HashSet::new();
  let mut fresh = vec![];
  for v in viols {
    if kmap.contains_key(v.key.as_str()) {
      seen_known.insert(v.key);
    } else {
      fresh.push(v);
    }
  }
  for k in &known {
    if seen_known.contains(&k.key) {
      println!("{}", k.line);
    }
  }
  fresh.sort_by(|a, b| (a.key.len(), &a.key).cmp(&(b.key.len(), &b.key)));
  let dir = verif_root().join("replays").join(id);
  if !fresh.is_empty() {
    let _ = std::fs::create_dir_all(&dir);
    let limit: usize = std::env::var("MC_SHOW").ok().and_then(|v| v.parse().ok()).unwrap_or(5);
    for (i, v) in fresh.iter().enumerate().take(limit) {
      let p = dir.join(format!("{i}.json"));
      let _ = std::fs::write(
        &p,
        serde_json::to_string_pretty(&json!({"property": id, "key": v.key, "detail": v.detail})).unwrap(),
      );
      println!("VIOLATION property={} replay={}", id, p.display());
      println!("  input: {:?}", v.key);
      println!("  {}", v.detail.chars().take(1500).collect::<String>().replace('\n', "\n  "));
    }
    println!("{} violation(s) in total", fresh.len());
    if let Ok(p) = std::env::var("MC_DUMP") {
      let mut s = String::new();
      for v in &fresh {
        s.push_str(&serde_json::to_string(&json!({"key": v.key, "detail": v.detail})).unwrap());
        s.push('\n');
      }
      let _ = std::fs::write(p, s);
    }
  }
  (fresh.len(), seen_known.len())
}

/// Entry point of every check binary.
pub fn main(id: &str, level: &str, f: impl FnOnce(&Check)) {
  if std::env::var("MC_CHILD").is_err() {
    supervise(id);
  }
  let tier = match std::env::var("VERIF_TIER").as_deref() {
    Ok("thorough") => Tier::Thorough,
    _ => Tier::Quick,
  };
  let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
  let path = std::env::var("MC_CHILD").unwrap();
  let _ = INFLIGHT.set(map_inflight(&path));
  std::panic::set_hook(Box::new(|info| {
    let bt = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let in_guard = DEPTH.with(|d| d.get()) > 0;
    if !in_guard {
      eprintln!("engine panic: {info}");
    }
    LAST_PANIC.with(|l| *l.borrow_mut() = Some(bt));
  }));
  now_ms();
  let replay = std::env::var("MC_REPLAY").ok().map(|p| {
    if let Ok(t) = std::fs::read_to_string(&p) {
      if let Ok(v) = serde_json::from_str::<Value>(&t) {
        if let Some(k) = v["key"].as_str() {
          return k.to_string();
        }
      }
    }
    p
  });
  let ck = Check {
    id: id.to_string(),
    tier,
    seed,
    level: level.to_string(),
    start: Instant::now(),
    states: AtomicU64::new(0),
    transitions: AtomicU64::new(0),
    traces: AtomicU64::new(0),
    evaluations: AtomicU64::new(0),
    samples: Mutex::new(vec![]),
    outcomes: Mutex::new(HashSet::new()),
    notes: Mutex::new(Map::new()),
    counters: Mutex::new(BTreeMap::new()),
    assumptions: Mutex::new(vec![]),
    violations: Mutex::new(HashMap::new()),
    exhaustive: AtomicBool::new(true),
    replay,
  };
  let ck = Arc::new(ck);
  {
    // Watchdog: a single guarded call that runs longer than this is a hang of the code under test.
    let hang_s: u64 = std::env::var("MC_HANG_S").ok().and_then(|v| v.parse().ok()).unwrap_or(60);
    let ck = ck.clone();
    std::thread::spawn(move || loop {
      std::thread::sleep(Duration::from_millis(1000));
      let now = now_ms();
      for (i, s) in STARTED.iter().enumerate() {
        let t = s.load(Ordering::SeqCst);
        if t != 0 && now.saturating_sub(t) > hang_s * 1000 {
          let input = read_slot(INFLIGHT.get().unwrap().ptr, i);
          ck.violation(input, format!("does not return within {hang_s}s (hang)"));
          finish(&ck);
        }
      }
      if rss_mb() > 20_000 {
        for i in 0..SLOTS {
          if STARTED[i].load(Ordering::SeqCst) != 0 {
            let input = read_slot(INFLIGHT.get().unwrap().ptr, i);
            ck.violation(input, "memory grows without bound (in flight when the limit was hit)");
          }
        }
        finish(&ck);
      }
    });
  }
  std::thread::scope(|s| {
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, {
      let ck = &ck;
      let f = SendWrap(f);
      move || {
        let f = f;
        (f.0)(ck)
      }
    });
    if h.unwrap().join().is_err() {
      eprintln!("check engine panicked");
      std::process::exit(3);
    }
  });
  finish(&ck);
}

struct SendWrap<T>(T);
unsafe impl<T> Send for SendWrap<T> {}

fn rss_mb() -> u64 {
  std::fs::read_to_string("/proc/self/statm")
    .ok()
    .and_then(|s| s.split(' ').nth(1).and_then(|v| v.parse::<u64>().ok()))
    .map(|p| p * 4096 / (1 << 20))
    .unwrap_or(0)
}

fn read_slot(ptr: *const u8, i: usize) -> String {
  unsafe {
    let p = ptr.add(i * SLOT);
    let mut n = [0u8; 4];
    std::ptr::copy_nonoverlapping(p, n.as_mut_ptr(), 4);
    let n = (u32::from_le_bytes(n) as usize).min(SLOT - 4);
    let mut v = vec![0u8; n];
    std::ptr::copy_nonoverlapping(p.add(4), v.as_mut_ptr(), n);
    String::from_utf8_lossy(&v).into_owned()
  }
}

fn finish(ck: &Check) -> ! {
  static DONE: AtomicBool = AtomicBool::new(false);
  if DONE.swap(true, Ordering::SeqCst) {
    std::thread::sleep(Duration::from_secs(3600));
  }
  let viols: Vec<Violation> = ck.violations.lock().unwrap().values().cloned().collect();
  let (fresh, known) = report(&ck.id, viols);
  write_evidence(ck, fresh, known);
  use std::io::Write;
  let _ = std::io::stdout().flush();
  std::process::exit(if fresh > 0 { 1 } else { 0 });
}

fn write_evidence(ck: &Check, fresh: usize, known: usize) {
  let mut cov = Map::new();
  let states = ck.states.load(Ordering::Relaxed);
  cov.insert("states".into(), json!(states));
  cov.insert("transitions".into(), json!(ck.transitions.load(Ordering::Relaxed)));
  cov.insert("traces_validated_against_impl".into(), json!(ck.traces.load(Ordering::Relaxed)));
  let ev = ck.evaluations.load(Ordering::Relaxed);
  if ev > 0 {
    cov.insert("evaluations".into(), json!(ev));
  }
  cov.insert("distinct_outcomes".into(), json!(ck.outcomes.lock().unwrap().len()));
  cov.insert("exhaustive".into(), json!(ck.exhaustive.load(Ordering::Relaxed)));
  cov.insert("samples".into(), json!(*ck.samples.lock().unwrap()));
  cov.insert("known_findings_seen".into(), json!(known));
  for (k, v) in ck.counters.lock().unwrap().iter() {
    cov.insert(k.clone(), json!(v));
  }
  for (k, v) in ck.notes.lock().unwrap().iter() {
    cov.insert(k.clone(), v.clone());
  }
  let ev = json!({
    "property": ck.id,
    "tier": if ck.quick() {"quick"} else {"thorough"},
    "seed": ck.seed,
    "level": ck.level,
    "coverage": cov,
    "assumptions": *ck.assumptions.lock().unwrap(),
    "wall_s": ck.start.elapsed().as_secs_f64(),
    "violations": fresh,
  });
  if ck.replay.is_none() {
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(
      dir.join(format!("{}.json", ck.id)),
      serde_json::to_string_pretty(&ev).unwrap() + "\n",
    );
  }
  println!(
    "{}: states={} transitions={} traces={} outcomes={} violations={} known={} wall={:.1}s",
    ck.id,
    cov["states"],
    cov["transitions"],
    cov["traces_validated_against_impl"],
    cov["distinct_outcomes"],
    fresh,
    known,
    ck.start.elapsed().as_secs_f64()
  );
}

fn supervise(id: &str) -> ! {
  use std::os::unix::process::ExitStatusExt;
  let path = inflight_path(std::process::id());
  let status = std::process::Command::new(std::env::current_exe().unwrap())
    .args(std::env::args().skip(1))
    .env("MC_CHILD", &path)
    .status()
    .expect("spawn child");
  let code = if let Some(sig) = status.signal() {
    // SIGABRT (stack overflow, abort) and SIGSEGV come from the code under test.
    if sig == libc::SIGABRT || sig == libc::SIGSEGV || sig == libc::SIGILL || sig == libc::SIGBUS {
      let sh = map_inflight(&path);
      let mut v = vec![];
      for i in 0..SLOTS {
        let s = read_slot(sh.ptr, i);
        if !s.is_empty() {
          v.push(Violation { key: s, detail: format!("process died by signal {sig} with this input in flight") });
        }
      }
      if v.is_empty() {
        eprintln!("child died by signal {sig} with nothing in flight");
        3
      } else {
        // The crash is one event: report it once, listing every candidate input.
        let all: Vec<String> = v.iter().map(|x| x.key.clone()).collect();
        let detail = format!("process died by signal {sig}; inputs in flight: {all:?}");
        let first = Violation { key: v[0].key.clone(), detail };
        report(id, vec![first]);
        1
      }
    } else {
      eprintln!("child died by signal {sig}");
      3
    }
  } else {
    status.code().unwrap_or(3)
  };
  let _ = std::fs::remove_file(&path);
  std::process::exit(code);
}
