//! All schedules of one scenario, at the level of single memory accesses.
use crate::exec::*;
use mc::engine::*;
use scen::apart::{apart, parts, title};
use scen::{model, world, Setup, World, QUERIES};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
  fn fork() -> i32;
  fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
  fn _exit(code: i32) -> !;
  fn alarm(s: u32) -> u32;
  fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub static CAPPED: AtomicU64 = AtomicU64::new(0);
pub static DIVERGED: AtomicU64 = AtomicU64::new(0);
pub static WORDS: AtomicU64 = AtomicU64::new(0);
pub static POINTS: AtomicU64 = AtomicU64::new(0);
pub static FORCED: AtomicU64 = AtomicU64::new(0);

/// What the threads ask: query and input.
pub type Calls = Vec<Vec<(usize, usize)>>;
/// Threads that share one network, or without one, that share nothing.
pub struct Scenario<'a> { pub setup: Option<&'a Setup>, pub single: bool, pub prelude: Vec<(usize, usize)>, pub threads: Calls }

impl Scenario<'_> {
  fn call(&self, q: usize, k: usize) -> String { if self.setup.is_some() { format!("{}({})", QUERIES[q], k) } else { title(q, k) } }
  fn name(&self) -> String {
    let t = |v: &Vec<(usize, usize)>| v.iter().map(|(q, k)| self.call(*q, *k)).collect::<Vec<_>>().join("; ");
    format!("{} {}{} {}", if self.single { "Cf32" } else { "Cf64" }, self.setup.map_or("apart", |s| &s.name), if self.prelude.is_empty() { String::new() } else { format!(" after {}", t(&self.prelude)) }, self.threads.iter().map(t).collect::<Vec<_>>().join(" || "))
  }
  fn world(&self) -> Box<dyn World> { self.setup.map_or_else(|| apart(self.single), |s| world(s, self.single)) }
}

unsafe fn put(s: *mut Shm, k: usize, r: Result<Vec<f64>, String>) {
  let n = &mut (*s).out_len[k];
  let o = &mut (*s).out[k];
  let mut push = |v: u64| { if *n >= OUT { _exit(9) } o[*n] = v; *n += 1; };
  match r {
    Ok(v) => { push(0); push(v.len() as u64); for x in v { push(x.to_bits()); } }
    Err(e) => { push(1); push(e.len() as u64); for b in e.bytes() { push(b as u64); } }
  }
}
unsafe fn take(s: *const Shm, k: usize) -> Vec<Result<Vec<f64>, String>> {
  let o = &(&(*s).out[k])[..(*s).out_len[k]];
  let mut at = 0;
  let mut out = Vec::new();
  while at < o.len() {
    let n = o[at + 1] as usize;
    let v = &o[at + 2..at + 2 + n];
    out.push(if o[at] == 0 { Ok(v.iter().map(|x| f64::from_bits(*x)).collect()) } else { Err(v.iter().map(|b| *b as u8 as char).collect()) });
    at += 2 + n;
  }
  out
}

fn ask(w: &dyn World, q: usize, k: usize) -> Result<Vec<f64>, String> { guard(|| w.ask(q, k)).unwrap_or_else(|e| Err(format!("panicked: {}", e))) }

/// The calls one after another, each thread's in its own place.
unsafe fn alone(sc: &Scenario, s: *mut Shm) -> ! {
  begin(s, 0);
  let w = sc.world();
  for (q, k) in &sc.prelude { let _ = ask(&*w, *q, *k); }
  for (i, t) in sc.threads.iter().enumerate() { for (q, k) in t { put(s, i, ask(&*w, *q, *k)); } }
  _exit(0)
}
/// One program in a process that does nothing else.
unsafe fn only(sc: &Scenario, q: usize, k: usize, s: *mut Shm) -> ! {
  begin(s, 0);
  put(s, 0, ask(&*sc.world(), q, k));
  _exit(0)
}
/// What each program answers when nothing else runs.
static ALONE: Mutex<BTreeMap<(bool, usize, usize), Result<Vec<f64>, String>>> = Mutex::new(BTreeMap::new());

/// The answers to compare with.
unsafe fn expected(sc: &Scenario, s: *mut Shm) -> Result<Vec<Vec<Vec<f64>>>, String> {
  let eps = if sc.single { f32::EPSILON as f64 } else { f64::EPSILON };
  let mut want: Vec<Vec<Vec<f64>>> = Vec::new();
  let Some(setup) = sc.setup else {
    for t in &sc.threads {
      let mut w = Vec::new();
      for (q, k) in t {
        let mut v = Vec::new();
        for (q, k) in parts(*q, *k) {
          let known = ALONE.lock().unwrap().get(&(sc.single, q, k)).cloned();
          let r = known.unwrap_or_else(|| {
            let r = run_child(|| only(sc, q, k, s)).and_then(|_| take(s, 0).into_iter().collect::<Result<Vec<_>, _>>()).map(|v| v.concat());
            ALONE.lock().unwrap().insert((sc.single, q, k), r.clone());
            r
          });
          v.extend(r.map_err(|e| format!("{} alone: {}", title(q, k), e))?);
        }
        w.push(v);
      }
      want.push(w);
    }
    return Ok(want)
  };
  run_child(|| alone(sc, s)).map_err(|e| format!("one after another: {}", e))?;
  for i in 0..sc.threads.len() {
    let mut w = Vec::new();
    for (j, r) in take(s, i).into_iter().enumerate() { w.push(r.map_err(|e| format!("{} alone: {}", QUERIES[sc.threads[i][j].0], e))?); }
    if w.len() != sc.threads[i].len() { return Err("one after another: an answer is missing".into()) }
    for (j, (q, k)) in sc.threads[i].iter().enumerate() { if *q == 0 {
      let y = model(setup, *k);
      if w[j].len() != y.len() + 4 || !w[j][4..].iter().zip(&y).all(|(a, b)| (a - b).abs() <= 1e5 * eps * (1.0 + b.abs())) { return Err(format!("a prediction alone is {:?}, the model says {:?}", w[j], y)) }
    } }
    want.push(w);
  }
  Ok(want)
}
/// The calls at the same time, under the schedule in `s`.
unsafe fn together(sc: &Scenario, s: *mut Shm) -> ! {
  begin(s, sc.threads.len());
  let w: &'static dyn World = Box::leak(sc.world());
  for (q, k) in &sc.prelude { let _ = ask(w, *q, *k); }
  struct P(*mut Shm);
  unsafe impl Send for P {}
  let mut hands = Vec::new();
  for (i, t) in sc.threads.iter().enumerate() {
    let (t, p) = (t.clone(), P(s));
    hands.push(std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
      let p = p;
      thread(i, move || { let p = p; for (q, k) in &t { let r = ask(w, *q, *k); put(p.0, i, r); } })
    }).expect("thread"));
  }
  if !conduct() { _exit(7) }
  for h in hands { let _ = h.join(); }
  // afterwards everything is as it was
  for t in &sc.threads { for (q, k) in t { put(s, MAX, ask(w, *q, *k)); } }
  _exit(0)
}

fn same(a: &[f64], b: &[f64], eps: f64) -> bool {
  a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 64.0 * eps * (1.0 + y.abs()) || x.to_bits() == y.to_bits())
}

unsafe fn run_child(f: impl FnOnce()) -> Result<(), String> {
  let pid = fork();
  if pid < 0 { _exit(8) }
  if pid == 0 { prctl(1, 9, 0, 0, 0); alarm(30); f(); _exit(9) }
  let mut st = 0;
  while waitpid(pid, &mut st, 0) < 0 {}
  if st & 127 != 0 { return Err(if st & 127 == 14 { "the calls do not return".into() } else { format!("the process dies with signal {}", st & 127) }) }
  match st >> 8 { 0 => Ok(()), 7 => Err("the threads wait for each other forever".into()), e => { eprintln!("execution failed with {}", e); _exit(8) } }
}

/// The switches of a schedule: at which choice, to which alternative.
fn text(log: &[(u8, u8)]) -> String {
  let v: Vec<String> = log.iter().enumerate().filter(|(i, x)| x.1 != 0 || *i == 0).map(|(i, x)| format!("{}->{}", i, x.1)).collect();
  format!("schedule [{}]", v.join(" "))
}

/// All schedules of one scenario; runs in a process of its own that executes no library code.
unsafe fn explore(sc: &Scenario, want: Option<Vec<Vec<Vec<f64>>>>, budget: usize, limit: Duration, s: *mut Shm) -> Result<u64, String> {
  let mut lost = 0;
  let m = &mut *s;
  let eps = if sc.single { f32::EPSILON as f64 } else { f64::EPSILON };
  let want = match want { Some(w) => w, None => expected(sc, s)? };
  let t0 = Instant::now();
  m.budget = budget;
  let mut hot: Vec<u64> = Vec::new();
  'round: loop {
    m.rounds += 1;
    m.words = hot.len() as u64;
    m.prefix_len = 0;
    loop {
      m.hot_len = hot.len();
      m.hot[..hot.len()].copy_from_slice(&hot);
      let r = run_child(|| together(sc, s));
      m.schedules += 1;
      m.nodes += (m.log_len + 1).saturating_sub(m.prefix_len) as u64;
      let log = &m.log[..m.log_len];
      r.map_err(|e| format!("{}, {}", e, text(log)))?;
      let mut flat = take(s, MAX).into_iter();
      for (i, t) in sc.threads.iter().enumerate() {
        let got = take(s, i);
        if got.len() != t.len() { return Err(format!("thread {} gives {} answers to {} calls, {}", i, got.len(), t.len(), text(log))) }
        for (j, r) in got.into_iter().enumerate() {
          let (a, b) = (sc.call(t[j].0, t[j].1), &want[i][j]);
          let r = r.map_err(|e| format!("thread {}: {}: {}, {}", i, a, e, text(log)))?;
          if !same(&r, b, eps) { return Err(format!("thread {}: {} gives {:?}, alone it gives {:?}, {}", i, a, r, b, text(log))) }
          let r = flat.next().unwrap_or(Err("no answer".into())).map_err(|e| format!("afterwards: {}: {}, {}", a, e, text(log)))?;
          if !same(&r, b, eps) { return Err(format!("afterwards {} gives {:?}, alone it gives {:?}, {}", a, r, b, text(log))) }
        }
      }
      lost += m.diverged;
      if m.full != 0 { m.capped = 1; }
      let mut grown = false;
      for k in 0..m.new_len { if hot.len() < HOT && !hot.contains(&m.new[k]) { hot.push(m.new[k]); grown = true; } }
      let late = t0.elapsed() > limit;
      if grown && !late { continue 'round }
      if grown { m.capped = 1; return Ok(lost) }
      let mut k = m.log_len;
      loop {
        if k == 0 { break 'round }
        k -= 1;
        if m.log[k].1 + 1 < m.log[k].0 { break }
      }
      if late { m.capped = 1; return Ok(lost) }
      for j in 0..k { m.prefix[j] = m.log[j].1; }
      m.prefix[k] = m.log[k].1 + 1;
      m.prefix_len = k + 1;
    }
  }
  Ok(lost)
}

/// What the explorations say about themselves.
pub fn report(r: &Run) {
  if CAPPED.load(Ordering::Relaxed) > 0 { r.capped(format!("{} explorations ran out of time", CAPPED.load(Ordering::Relaxed))); }
  if DIVERGED.load(Ordering::Relaxed) > 0 { r.capped("some schedules could not be repeated".into()); }
  r.note(format!("{} choices could not be repeated", DIVERGED.load(Ordering::Relaxed)));
  r.note(format!("{} words of memory at most were accessed in conflict, {} accesses to such words, {} switches because a thread spun", WORDS.load(Ordering::Relaxed), POINTS.load(Ordering::Relaxed), FORCED.load(Ordering::Relaxed)));
}

/// Explores one scenario; tells whether its threads access memory in conflict.
pub fn scenario(sc: &Scenario, budget: usize, limit: Duration, last: bool, st: &mut Local) -> Result<bool, String> {
  st.sample(|| sc.name());
  unsafe {
    let s = shared();
    let want = if sc.setup.is_none() { Some(expected(sc, s).inspect_err(|_| unshare(s)).map_err(|e| format!("{}: {}", sc.name(), e))?) } else { None };
    let pid = fork();
    if pid < 0 { eprintln!("ERROR cannot fork"); std::process::exit(2) }
    if pid == 0 {
      prctl(1, 9, 0, 0, 0);
      let r = explore(sc, want, budget, limit, s);
      let m = &mut *s;
      m.diverged = *r.as_ref().unwrap_or(&0);
      if let Err(e) = r { let b = e.as_bytes(); m.msg_len = b.len().min(4096); m.msg[..m.msg_len].copy_from_slice(&b[..m.msg_len]); }
      m.finished = 1;
      _exit(0)
    }
    let mut status = 0;
    while waitpid(pid, &mut status, 0) < 0 {}
    let m = &*s;
    if status != 0 || m.finished != 1 { eprintln!("ERROR exploration of {} ended with {}", sc.name(), status); std::process::exit(2) }
    let calls: u64 = sc.threads.iter().map(|t| t.len() as u64).sum();
    st.states += m.nodes;
    st.step(m.schedules * 2 * calls + calls);
    st.traces += m.schedules;
    st.outcome((sc.name(), m.schedules));
    // an exploration that is repeated with more preemptions need not be complete yet
    let hot = m.words > 0 || m.capped != 0;
    if last || !hot { CAPPED.fetch_add(m.capped, Ordering::Relaxed); }
    DIVERGED.fetch_add(m.diverged, Ordering::Relaxed);
    WORDS.fetch_max(m.words, Ordering::Relaxed);
    POINTS.fetch_add(m.points, Ordering::Relaxed);
    FORCED.fetch_add(m.forced, Ordering::Relaxed);
    let r = if m.msg_len > 0 { Err(format!("{}: {}", sc.name(), String::from_utf8_lossy(&m.msg[..m.msg_len]))) } else { Ok(hot) };
    unshare(s);
    r
  }
}

