//! A scheduler that owns the interleaving of a few threads.  One thread runs at a time; at every
//! scheduling point (an operation on a number, an allocation, a futex call) the next thread is a
//! choice, and all sequences of choices with a bounded number of preemptions are executed.
//!
//! Nothing in here may allocate or use a lock of the standard library while a choice is made.
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const MAX: usize = 4;
const NONE: u32 = u32::MAX;
const READY: u32 = 0;
const BLOCKED: u32 = 1;
const DONE: u32 = 2;

struct Inner { n: usize, prefix: Vec<u8>, log: Vec<(u8, u8)>, budget: usize, used: usize, diverged: u64 }

pub struct Sched {
  lock: AtomicU32,
  turn: AtomicU32,
  go: [AtomicU32; MAX],
  status: [AtomicU32; MAX],
  addr: [AtomicUsize; MAX],
  finished: AtomicU32,
  beat: AtomicU64,
  quit: AtomicU32,
  spin: u32,
  inner: UnsafeCell<Inner>,
}
unsafe impl Sync for Sched {}
unsafe impl Send for Sched {}

thread_local! {
  static ME: Cell<*const Sched> = const { Cell::new(std::ptr::null()) };
  static IDX: Cell<usize> = const { Cell::new(0) };
  static IN: Cell<bool> = const { Cell::new(false) };
}

pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  let r: i64;
  std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
  r
}
fn futex_wait(a: &AtomicU32, v: u32, ms: Option<u64>) {
  let t: [i64; 2] = ms.map(|m| [(m / 1000) as i64, (m % 1000) as i64 * 1_000_000]).unwrap_or([0, 0]);
  unsafe { raw(202, a as *const _ as i64, 128, v as i64, if ms.is_some() { t.as_ptr() as i64 } else { 0 }, 0, 0); }
}
fn futex_wake(a: &AtomicU32) { unsafe { raw(202, a as *const _ as i64, 129, i32::MAX as i64, 0, 0, 0); } }

impl Sched {
  fn enter(&self) { while self.lock.swap(1, SeqCst) == 1 { std::hint::spin_loop(); } }
  fn leave(&self) { self.lock.store(0, SeqCst); }
  /// `go` is 1 when the turn has been given and 2 while its owner sleeps.
  fn wait(&self, me: usize) {
    for _ in 0..self.spin { if self.go[me].load(SeqCst) == 1 { self.go[me].store(0, SeqCst); return } std::hint::spin_loop(); }
    loop {
      if self.go[me].compare_exchange(1, 0, SeqCst, SeqCst).is_ok() { return }
      if self.quit.load(SeqCst) == 1 { return }
      if self.go[me].compare_exchange(0, 2, SeqCst, SeqCst) != Err(1) { futex_wait(&self.go[me], 2, None); }
    }
  }
  /// To be called inside the lock.
  fn give(&self, t: usize) {
    self.turn.store(t as u32, SeqCst);
    if self.go[t].swap(1, SeqCst) == 2 { futex_wake(&self.go[t]); }
  }
  #[allow(clippy::mut_from_ref)]
  fn inner(&self) -> &mut Inner { unsafe { &mut *self.inner.get() } }
  fn choose(&self, n: usize) -> usize {
    let s = self.inner();
    let mut c = s.prefix.get(s.log.len()).copied().unwrap_or(0);
    if c as usize >= n { c = 0; s.diverged += 1; }
    s.log.push((n as u8, c));
    c as usize
  }
  fn ready(&self, but: usize) -> ([usize; MAX], usize) {
    let mut v = [0; MAX];
    let mut k = 0;
    for t in 0..self.inner().n { if t != but && self.status[t].load(SeqCst) == READY { v[k] = t; k += 1; } }
    (v, k)
  }
  fn at_point(&self, me: usize) {
    self.enter();
    if self.turn.load(SeqCst) != me as u32 {
      self.status[me].store(READY, SeqCst);
      if self.turn.load(SeqCst) == NONE { self.turn.store(me as u32, SeqCst); self.leave(); return }
      self.leave();
      return self.wait(me)
    }
    self.beat.fetch_add(1, SeqCst);
    let (v, k) = self.ready(me);
    let s = self.inner();
    if k == 0 || s.used >= s.budget { return self.leave() }
    let c = self.choose(k + 1);
    if c == 0 { return self.leave() }
    s.used += 1;
    self.give(v[c - 1]);
    self.leave();
    self.wait(me)
  }
  /// Inside the lock: hands the turn to somebody else, for free.  Who follows a finished thread
  /// is a choice; who follows a waiting one is a choice as long as preemptions are left.
  fn hand_over(&self, me: usize, finished: bool) {
    if self.turn.load(SeqCst) != me as u32 { return }
    let (v, k) = self.ready(me);
    let branch = k > 1 && (finished || self.inner().used < self.inner().budget);
    if k == 0 { self.turn.store(NONE, SeqCst); }
    else { let c = if branch { self.choose(k) } else { 0 }; self.give(v[c]); }
  }
  fn done(&self, me: usize) {
    self.enter();
    self.beat.fetch_add(1, SeqCst);
    self.status[me].store(DONE, SeqCst);
    self.hand_over(me, true);
    let n = self.inner().n;
    let all = (0..n).all(|t| self.status[t].load(SeqCst) == DONE);
    self.leave();
    if all && self.finished.swap(1, SeqCst) == 2 { futex_wake(&self.finished); }
  }
  fn around_wait(&self, me: usize, addr: usize, f: impl FnOnce() -> i64) -> i64 {
    self.enter();
    self.beat.fetch_add(1, SeqCst);
    self.status[me].store(BLOCKED, SeqCst);
    self.addr[me].store(addr, SeqCst);
    self.hand_over(me, false);
    self.leave();
    let r = f();
    self.enter();
    self.beat.fetch_add(1, SeqCst);
    self.addr[me].store(0, SeqCst);
    self.status[me].store(READY, SeqCst);
    if self.turn.load(SeqCst) == NONE { self.turn.store(me as u32, SeqCst); self.leave(); return r }
    self.leave();
    self.wait(me);
    r
  }
  fn waiting(&self, addr: usize) -> usize { (0..self.inner().n).filter(|t| self.addr[*t].load(SeqCst) == addr).count() }
}

/// A scheduling point of the thread that calls it, if it is scheduled at all.
pub fn point() {
  let _ = ME.try_with(|m| {
    let s = m.get();
    if s.is_null() { return }
    IN.with(|i| {
      if i.replace(true) { return }
      unsafe { (*s).at_point(IDX.with(|x| x.get())); }
      i.set(false);
    });
  });
}

/// Runs harness code of a scheduled thread without scheduling points.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
  struct Back(bool);
  impl Drop for Back { fn drop(&mut self) { IN.with(|i| i.set(self.0)); } }
  let _b = Back(IN.with(|i| i.replace(true)));
  f()
}

/// The C library's `syscall`, through which the standard library waits and wakes.
pub unsafe fn syscall_hook(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  extern "C" { fn __errno_location() -> *mut i32; }
  let ret = |r: i64| if (-4095..0).contains(&r) { *__errno_location() = -r as i32; -1 } else { r };
  if n != 202 { return ret(raw(n, a, b, c, d, e, f)) }
  let s = ME.try_with(|m| m.get()).unwrap_or(std::ptr::null());
  if s.is_null() || IN.with(|i| i.get()) { return ret(raw(n, a, b, c, d, e, f)) }
  let s = &*s;
  let me = IDX.with(|x| x.get());
  match b & 127 {
    0 | 9 => {
      if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 { return ret(-11) }
      ret(s.around_wait(me, a as usize, || raw(n, a, b, c, d, e, f)))
    }
    1 | 10 => {
      let before = s.waiting(a as usize);
      let r = raw(n, a, b, c, d, e, f);
      // the woken threads become ready before the caller goes on, as far as they are ours
      if r > 0 && before > 0 {
        let want = before - before.min(r as usize);
        let t0 = Instant::now();
        while s.waiting(a as usize) > want && t0.elapsed() < Duration::from_millis(20) { std::hint::spin_loop(); }
      }
      ret(r)
    }
    _ => ret(raw(n, a, b, c, d, e, f)),
  }
}

pub type Job<R> = Arc<dyn Fn() -> R + Send + Sync>;

/// What one exploration did.
#[derive(Default, Debug)]
pub struct Seen { pub schedules: u64, pub nodes: u64, pub diverged: u64, pub capped: bool }

/// Runs the jobs, one per thread, under every schedule with at most `budget` preemptions and
/// hands the results of each schedule to `judge`, with the schedule.
pub fn explore<R: Send + 'static>(jobs: Vec<Job<R>>, budget: usize, limit: Duration, beat: &dyn Fn(), judge: &mut dyn FnMut(Vec<R>, &str) -> Result<(), String>) -> Result<Seen, String> {
  let n = jobs.len();
  let z = || [const { AtomicU32::new(0) }; MAX];
  let s = Arc::new(Sched { lock: AtomicU32::new(0), turn: AtomicU32::new(NONE), go: z(), status: z(), addr: [const { AtomicUsize::new(0) }; MAX], finished: AtomicU32::new(0), beat: AtomicU64::new(0), quit: AtomicU32::new(0), spin: 50_000,
    inner: UnsafeCell::new(Inner { n, prefix: Vec::with_capacity(1 << 12), log: Vec::with_capacity(1 << 12), budget, used: 0, diverged: 0 }) });
  let slots: Arc<Vec<std::sync::Mutex<Option<R>>>> = Arc::new((0..n).map(|_| std::sync::Mutex::new(None)).collect());
  let hands: Vec<_> = jobs.into_iter().enumerate().map(|(i, job)| {
    let (s, slots) = (s.clone(), slots.clone());
    std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
      IDX.with(|x| x.set(i));
      IN.with(|x| x.set(true));
      loop {
        s.wait(i);
        if s.quit.load(SeqCst) == 1 { return }
        ME.with(|m| m.set(Arc::as_ptr(&s)));
        IN.with(|x| x.set(false));
        let r = job();
        IN.with(|x| x.set(true));
        ME.with(|m| m.set(std::ptr::null()));
        *slots[i].lock().unwrap() = Some(r);
        s.done(i);
      }
    }).expect("thread")
  }).collect();
  let t0 = Instant::now();
  let mut seen = Seen::default();
  let mut prefix: Vec<u8> = Vec::new();
  let mut out = Ok(());
  'all: loop {
    {
      let q = s.inner();
      q.prefix.clear();
      q.prefix.extend(&prefix);
      q.log.clear();
      q.used = 0;
    }
    s.finished.store(0, SeqCst);
    for t in 0..n { s.status[t].store(READY, SeqCst); }
    s.enter();
    let first = if n > 1 { s.choose(n) } else { 0 };
    s.give(first);
    s.leave();
    let mut last = (s.beat.load(SeqCst), Instant::now());
    for _ in 0..s.spin { if s.finished.load(SeqCst) == 1 { break } std::hint::spin_loop(); }
    while s.finished.load(SeqCst) != 1 {
      if s.finished.compare_exchange(0, 2, SeqCst, SeqCst) != Err(1) { futex_wait(&s.finished, 2, Some(4)); }
      let b = s.beat.load(SeqCst);
      if b != last.0 { last = (b, Instant::now()); continue }
      if last.1.elapsed() > Duration::from_millis(40) {
        // the running thread waits for another one without telling: let the others run
        s.enter();
        let h = s.turn.load(SeqCst);
        if h != NONE && s.beat.load(SeqCst) == last.0 {
          let (v, k) = s.ready(h as usize);
          if k > 0 { s.status[h as usize].store(BLOCKED, SeqCst); s.give(v[0]); s.beat.fetch_add(1, SeqCst); }
        }
        s.leave();
      }
      if last.1.elapsed() > Duration::from_secs(12) {
        let st: Vec<u32> = (0..n).map(|t| s.status[t].load(SeqCst)).collect();
        // the threads are lost; they keep what they use
        std::mem::forget((s.clone(), slots.clone()));
        return Err(format!("the threads do not finish: {} of {} wait for each other, schedule {}", st.iter().filter(|x| **x != DONE).count(), n, text(&s.inner().log)))
      }
    }
    // every worker is back at its start before the next schedule
    let log = &s.inner().log;
    seen.schedules += 1;
    seen.nodes += (log.len() + 1).saturating_sub(prefix.len()) as u64;
    if seen.schedules % 64 == 0 { beat(); }
    let res: Vec<R> = slots.iter().map(|x| x.lock().unwrap().take().expect("result")).collect();
    if let Err(e) = judge(res, "") { out = Err(format!("{}, schedule {}", e, text(log))); break 'all }
    if t0.elapsed() > limit { seen.capped = true; break 'all }
    // the next sequence of choices
    let mut k = log.len();
    loop {
      if k == 0 { break 'all }
      k -= 1;
      if log[k].1 + 1 < log[k].0 { break }
    }
    prefix.clear();
    prefix.extend(log[..k].iter().map(|x| x.1));
    prefix.push(log[k].1 + 1);
  }
  seen.diverged = s.inner().diverged;
  s.quit.store(1, SeqCst);
  for g in &s.go { g.store(1, SeqCst); futex_wake(g); }
  for h in hands { h.join().ok(); }
  out.map(|_| seen)
}

/// The switches of a schedule: at which choice, to which alternative.
fn text(log: &[(u8, u8)]) -> String {
  let v: Vec<String> = log.iter().enumerate().filter(|(i, x)| x.1 != 0 || *i == 0).map(|(i, x)| format!("{}->{}", i, x.1)).collect();
  format!("[{}]", v.join(" "))
}
