//! Exploration engine: runs every case of a finite space on the real code, turns failures,
//! panics, crashes and hangs into replayable violations, and writes the evidence file.
//!
//! A check is a list of groups.  A group is a name, a size `n` and a function that decides
//! case `i` for every `i` in `0..n`.  Case `i` is always the same case, so `--replay group:i`
//! runs exactly the failing one again.

use std::any::Any;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{exit, Command};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
  fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
  fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

const RLIMIT_AS: i32 = 9;
const RLIMIT_CORE: i32 = 4;
/// A case that does not finish within this time is reported as a hang.
const HANG_SECS: u64 = 150;
const PROGRESS_LEN: usize = 4096;
/// A run that takes longer (code that starts threads in every call, a slow machine) goes on with
/// `LEFT_SECS` per group, and reports that it is not exhaustive.
const BUDGET_SECS: [f64; 2] = [200.0, 600.0];
const LEFT_SECS: f64 = 5.0;
/// Exit code of a child that hangs while its workers are rayon pools of their own.
const AGAIN: i32 = 77;

thread_local! {
  static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

/// Result of one case: `Err` carries what the real code did against what it should have done.
pub type Case = Result<(), String>;

/// Counters of one worker, merged at the end.
pub struct Local<'a> {
  pub states: u64,
  pub transitions: u64,
  pub traces: u64,
  pub outcomes: HashSet<u64>,
  pub sample: Option<String>,
  pub want_sample: bool,
  slot: &'a Slot,
}

impl<'a> Local<'a> {
  /// Counts `n` calls of the real code.
  pub fn step(&mut self, n: u64) { self.transitions += n; }
  /// Counts one distinct state (input, configuration) of the explored space.
  pub fn state(&mut self) { self.states += 1; }
  /// Counts one complete execution compared with the reference model.
  pub fn trace(&mut self) { self.traces += 1; }
  /// Records an observed outcome (to show that executions really differ).
  pub fn outcome<H: Hash>(&mut self, h: H) {
    if self.outcomes.len() < 2_000_000 { self.outcomes.insert(hash(&h)); }
  }
  /// Tells the watchdog that a long case is still making progress.
  pub fn tick(&self) { self.slot.beat.fetch_add(1, Ordering::Relaxed); }
  pub fn sample(&mut self, f: impl FnOnce() -> String) {
    if self.want_sample && self.sample.is_none() { self.sample = Some(f()); }
  }
}

struct Slot { beat: AtomicU64, case: AtomicU64, busy: AtomicBool }

pub fn hash<H: Hash + ?Sized>(h: &H) -> u64 {
  let mut s = std::collections::hash_map::DefaultHasher::new();
  h.hash(&mut s);
  s.finish()
}

struct Totals {
  states: u64, transitions: u64, traces: u64,
  outcomes: HashSet<u64>, samples: Vec<String>, groups: Vec<(String, u64)>,
  known: Vec<String>, notes: Vec<String>, cut: Vec<String>,
}

pub struct Run {
  pub id: &'static str,
  pub thorough: bool,
  tier: String,
  seed: i64,
  start: Instant,
  replay: Option<(String, u64)>,
  totals: Mutex<Totals>,
  known: Vec<(String, String)>,
  assumptions: Vec<String>,
  violated: AtomicBool,
  incomplete: AtomicBool,
  progress: *mut u8,
  threads: usize,
}

unsafe impl Sync for Run {}
unsafe impl Send for Run {}

fn verif_dir() -> String { std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()) }

fn esc(s: &str) -> String {
  let mut o = String::new();
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o
}

fn panic_text(p: &(dyn Any + Send)) -> String {
  if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
  else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
  else { "panic".into() }
}

/// Runs `f` on the code under test; a panic becomes `Err(text)`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  match catch_unwind(AssertUnwindSafe(f)) {
    Ok(r) => Ok(r),
    Err(p) => Err(LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_else(|| panic_text(&*p))),
  }
}

/// A directory of this run, removed when the run ends.
pub fn scratch() -> String {
  let d = std::env::var("MC_SCRATCH").expect("scratch directory");
  fs::create_dir_all(&d).expect("scratch directory");
  d
}

/// Entry point of every check binary.
pub fn run(id: &'static str, assumptions: &[&str], body: impl FnOnce(&Run)) {
  let args: Vec<String> = std::env::args().collect();
  let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
  let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let mut replay = None;
  let mut i = 1;
  while i < args.len() {
    if args[i] == "--replay" && i + 1 < args.len() {
      let s = &args[i + 1];
      let k = s.rfind(':').expect("--replay group:index");
      replay = Some((s[..k].to_string(), s[k + 1..].parse().expect("index")));
      i += 1;
    }
    i += 1;
  }
  let dir = verif_dir();
  fs::create_dir_all(format!("{}/evidence", dir)).ok();
  fs::create_dir_all(format!("{}/replays", dir)).ok();

  if std::env::var_os("MC_CHILD").is_none() { parent(id, &tier, seed, &dir); }

  let progress = unsafe {
    let path = std::env::var("MC_CHILD").unwrap();
    match fs::OpenOptions::new().read(true).write(true).open(path) {
      Ok(f) => {
        use std::os::fd::AsRawFd;
        let p = mmap(std::ptr::null_mut(), PROGRESS_LEN, 3, 1, f.as_raw_fd(), 0);
        if p as isize == -1 { std::ptr::null_mut() } else { p }
      }
      Err(_) => std::ptr::null_mut(),
    }
  };
  unsafe {
    let lim: u64 = 16 << 30;
    setrlimit(RLIMIT_AS, &[lim, lim]);
    setrlimit(RLIMIT_CORE, &[0, 0]);
  }
  std::panic::set_hook(Box::new(|info| {
    let msg = format!("{}", info).replace('\n', " ");
    LAST_PANIC.with(|l| *l.borrow_mut() = Some(msg));
  }));
  let known = fs::read_to_string(format!("{}/known_findings.txt", dir)).unwrap_or_default()
    .lines().filter_map(|l| {
      let l = l.trim();
      let rest = l.strip_prefix("known: property=")?;
      let (pid, rest) = rest.split_once(' ')?;
      if pid != id { return None }
      let (key, what) = rest.split_once(" :: ")?;
      Some((key.trim().to_string(), what.trim().to_string()))
    }).collect();
  let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(2).clamp(2, 16);
  let r = Run {
    id, thorough: tier == "thorough", tier, seed, start: Instant::now(), replay,
    totals: Mutex::new(Totals { states: 0, transitions: 0, traces: 0, outcomes: HashSet::new(),
      samples: vec![], groups: vec![], known: vec![], notes: vec![], cut: vec![] }),
    known, assumptions: assumptions.iter().map(|s| s.to_string()).collect(),
    violated: AtomicBool::new(false), incomplete: AtomicBool::new(false), progress, threads,
  };
  body(&r);
  r.finish();
}

fn parent(id: &str, tier: &str, seed: i64, dir: &str) -> ! {
  let prog = format!("{}/replays/.progress-{}-{}", dir, id, std::process::id());
  fs::write(&prog, vec![0u8; PROGRESS_LEN]).ok();
  let t0 = Instant::now();
  let scratch = format!("{}/scratch/{}-{}", dir, id, std::process::id());
  let child = |pool: &str| {
    let st = Command::new(std::env::current_exe().expect("exe"))
      .args(std::env::args().skip(1)).env("MC_CHILD", &prog).env("MC_SCRATCH", &scratch).env("MC_POOL", pool).status();
    fs::remove_dir_all(&scratch).ok();
    st
  };
  let mut st = child("own");
  if matches!(&st, Ok(s) if s.code() == Some(AGAIN)) { st = child("global"); }
  let data = fs::read(&prog).unwrap_or_default();
  let at: String = data.iter().take_while(|b| **b != 0).map(|b| *b as char).collect();
  fs::remove_file(&prog).ok();
  let st = match st { Ok(s) => s, Err(e) => { eprintln!("ERROR cannot start: {}", e); exit(2) } };
  if let Some(c) = st.code() { exit(c) }
  let sig = st.signal().unwrap_or(0);
  // 6 ABRT, 11 SEGV, 7 BUS, 4 ILL, 8 FPE, 5 TRAP: the code under test crashed the process
  if [4, 5, 6, 7, 8, 11].contains(&sig) {
    let path = format!("{}/replays/{}-crash.txt", dir, id);
    fs::write(&path, format!("property {}\nthe process died with signal {} while running group {}\n", id, sig, at)).ok();
    let ev = format!("{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[\"crash with signal {} in {}\"]}},\"wall_s\":{:.3},\"violations\":1}}\n",
      id, tier, seed, sig, esc(&at), t0.elapsed().as_secs_f64());
    fs::write(format!("{}/evidence/{}.json", dir, id), ev).ok();
    println!("VIOLATION property={} replay={}", id, path);
    exit(1)
  }
  eprintln!("ERROR check process ended with signal {}", sig);
  exit(2)
}

impl Run {
  pub fn note(&self, s: String) { self.totals.lock().unwrap().notes.push(s); }

  pub fn elapsed(&self) -> f64 { self.start.elapsed().as_secs_f64() }
  /// The run did not explore its whole space.
  pub fn capped(&self, s: String) { self.note(s); self.incomplete.store(true, Ordering::SeqCst); }

  fn mark(&self, s: &str) {
    if self.progress.is_null() { return }
    let b = s.as_bytes();
    let n = b.len().min(PROGRESS_LEN - 1);
    unsafe {
      for i in 0..n { self.progress.add(i).write_volatile(b[i]); }
      self.progress.add(n).write_volatile(0);
    }
  }

  /// Explores all `n` cases of a group in parallel.
  pub fn group(&self, name: &str, n: u64, f: impl Fn(u64, &mut Local) -> Case + Sync) {
    self.group_on(name, n, self.threads, f)
  }

  /// Explores all `n` cases of a group one after another on one thread.
  pub fn serial(&self, name: &str, n: u64, f: impl Fn(u64, &mut Local) -> Case + Sync) {
    self.group_on(name, n, 1, f)
  }

  pub fn group_on(&self, name: &str, n: u64, threads: usize, f: impl Fn(u64, &mut Local) -> Case + Sync) {
    // a group called `x-law` judges what the cases of group `x` collected
    let feeds_replay = matches!(&self.replay, Some((g, _)) if g.strip_suffix("-law") == Some(name));
    if let Some((g, _)) = &self.replay { if g != name && !feeds_replay { return } }
    if let Some(of) = name.strip_suffix("-law") { if self.totals.lock().unwrap().cut.iter().any(|c| c == of) { return } }
    let until = (BUDGET_SECS[self.thorough as usize] - self.elapsed()).max(LEFT_SECS);
    let (cut, ran) = (AtomicBool::new(false), AtomicU64::new(0));
    let own = std::env::var("MC_POOL").map_or(true, |v| v != "global");
    self.mark(name);
    let next = AtomicU64::new(0);
    let threads = threads.min(n.max(1) as usize);
    let chunk = (n / (threads as u64 * 64)).clamp(1, 4096);
    let slots: Vec<Slot> = (0..threads).map(|_| Slot { beat: AtomicU64::new(0), case: AtomicU64::new(0), busy: AtomicBool::new(true) }).collect();
    let done = AtomicUsize::new(0);
    let tg = Instant::now();
    std::thread::scope(|s| {
      for w in 0..threads {
        let slot = &slots[w];
        let (next, done, f, cut, ran) = (&next, &done, &f, &cut, &ran);
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
          // parallel iterators of the code under test run on this thread
          if own { std::mem::forget(rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build()); }
          let mut loc = Local { states: 0, transitions: 0, traces: 0, outcomes: HashSet::new(), sample: None, want_sample: false, slot };
          let mut samples = Vec::new();
          let mut mine = 0;
          'outer: loop {
            let a = next.fetch_add(chunk, Ordering::Relaxed);
            if a >= n { break }
            for i in a..(a + chunk).min(n) {
              if self.violated.load(Ordering::Relaxed) { break 'outer }
              if let Some((_, k)) = &self.replay { if *k != i && !feeds_replay { continue } }
              if self.replay.is_none() && tg.elapsed().as_secs_f64() > until { cut.store(true, Ordering::Relaxed); break 'outer }
              mine += 1;
              slot.case.store(i, Ordering::Relaxed);
              slot.beat.fetch_add(1, Ordering::Relaxed);
              loc.want_sample = self.replay.is_some() || i == 0 || i == n / 2 || i == n - 1;
              let res = match guard(|| f(i, &mut loc)) {
                Ok(r) => r,
                Err(p) => Err(format!("unexpected panic: {}", p)),
              };
              if let Some(s) = loc.sample.take() { samples.push(format!("{}:{} {}", name, i, s)); }
              if let Err(m) = res { self.report(name, i, &m); if self.violated.load(Ordering::Relaxed) { break 'outer } }
            }
          }
          let mut t = self.totals.lock().unwrap();
          t.states += loc.states; t.transitions += loc.transitions; t.traces += loc.traces;
          t.outcomes.extend(loc.outcomes);
          if t.samples.len() < 40 { t.samples.extend(samples); }
          ran.fetch_add(mine, Ordering::Relaxed);
          slot.busy.store(false, Ordering::Relaxed);
          done.fetch_add(1, Ordering::Release);
        }).expect("thread");
      }
      // watchdog
      let mut last: Vec<(u64, Instant)> = slots.iter().map(|s| (s.beat.load(Ordering::Relaxed), Instant::now())).collect();
      let mut nap = 1;
      while done.load(Ordering::Acquire) < threads {
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
        for (s, l) in slots.iter().zip(last.iter_mut()) {
          let b = s.beat.load(Ordering::Relaxed);
          if b != l.0 || !s.busy.load(Ordering::Relaxed) { *l = (b, Instant::now()); }
          else if l.1.elapsed() > Duration::from_secs(HANG_SECS) {
            if own { exit(AGAIN) }
            self.report(name, s.case.load(Ordering::Relaxed), &format!("no answer after {} s: the call hangs", HANG_SECS));
            self.finish();
          }
        }
      }
    });
    if cut.load(Ordering::Relaxed) {
      self.capped(format!("{}: stopped after {:.0} s, {} of {} cases", name, until, ran.load(Ordering::Relaxed), n));
      self.totals.lock().unwrap().cut.push(name.to_string());
    }
    self.totals.lock().unwrap().groups.push((name.to_string(), ran.load(Ordering::Relaxed)));
    if std::env::var_os("MC_TIMES").is_some() { eprintln!("{} {} n={} {:.2}s", self.id, name, n, tg.elapsed().as_secs_f64()); }
    if self.violated.load(Ordering::Relaxed) { self.finish(); }
  }

  fn report(&self, group: &str, i: u64, msg: &str) {
    let key = format!("{}:{}", group, i);
    if let Some((_, what)) = self.known.iter().find(|(k, _)| *k == key) {
      let mut t = self.totals.lock().unwrap();
      if !t.known.contains(&key) {
        t.known.push(key.clone());
        println!("KNOWN-FINDING: property={} {}", self.id, what);
      }
      return
    }
    if self.violated.swap(true, Ordering::SeqCst) { return }
    let path = format!("{}/replays/{}.txt", verif_dir(), self.id);
    let text = format!("property {}\ncase {}\nreplay: cd {} && VERIF_TIER={} ./check.sh {} --replay {}\n\n{}\n", self.id, key, verif_dir(), self.tier, self.id, key, msg);
    fs::write(&path, &text).ok();
    println!("case {} of {}: {}", key, self.id, msg);
    println!("VIOLATION property={} replay={}", self.id, path);
    std::io::stdout().flush().ok();
  }

  fn finish(&self) -> ! {
    let t = self.totals.lock().unwrap();
    let v = self.violated.load(Ordering::SeqCst);
    let mut samples: Vec<String> = t.samples.clone();
    samples.sort();
    samples.truncate(24);
    let groups = t.groups.iter().map(|(g, n)| format!("\"{}\":{}", esc(g), n)).collect::<Vec<_>>().join(",");
    let list = |v: &Vec<String>| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
    let ev = format!(
      "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},\"exhaustive\":{},\"cases_per_group\":{{{}}},\"notes\":[{}],\"known_findings_seen\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
      self.id, if self.tier == "thorough" { "thorough" } else { "quick" }, self.seed, t.states, t.transitions, t.traces, t.outcomes.len(), !v && self.replay.is_none() && !self.incomplete.load(Ordering::SeqCst),
      groups, list(&t.notes), list(&t.known), list(&samples), list(&self.assumptions), self.start.elapsed().as_secs_f64(), v as u8);
    fs::write(format!("{}/evidence/{}.json", verif_dir(), self.id), ev).ok();
    if !v {
      println!("{} held: states={} transitions={} traces={} outcomes={} in {:.1}s", self.id, t.states, t.transitions, t.traces, t.outcomes.len(), self.start.elapsed().as_secs_f64());
    }
    std::io::stdout().flush().ok();
    exit(if v { 1 } else { 0 })
  }
}

/// Mixed-radix decoding of a case index.
pub struct Pick(pub u64);
impl Pick {
  pub fn of(&mut self, n: usize) -> usize {
    let n = n as u64;
    let d = self.0 % n;
    self.0 /= n;
    d as usize
  }
  pub fn from<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.of(v.len()); &v[i] }
  pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.of(hi - lo + 1) }
}

#[macro_export]
macro_rules! ensure {
  ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)) } };
}
