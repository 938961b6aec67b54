//! One execution of a scenario under one schedule, in a process of its own.
//!
//! One of the scheduled threads runs at a time.  A word of memory is `hot` when accesses of two
//! threads to it conflict without being ordered by other accesses; before each access to a hot
//! word the next thread is a choice.  Accesses to all other words commute with whatever the other
//! threads do in between, so no choice is lost.  Which words are hot is found out by executing:
//! every execution reports the words it saw conflicting.
//!
//! Nothing in here may allocate or use a lock of the standard library while a choice is made.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub const MAX: usize = 4;
pub const LOG: usize = 1 << 14;
pub const HOT: usize = 1 << 12;
pub const OUT: usize = 1 << 15;
/// Consecutive choices without a switch after which a thread counts as waiting for another one.
const PATIENCE: u32 = 300;

/// Shared between the explorer and the executions.
#[repr(C)]
pub struct Shm {
  pub prefix_len: usize, pub log_len: usize, pub hot_len: usize, pub new_len: usize,
  pub budget: usize, pub diverged: u64, pub full: u64, pub forced: u64,
  // the explorer's summary
  pub schedules: u64, pub nodes: u64, pub capped: u64, pub rounds: u64, pub words: u64, pub msg_len: usize, pub finished: u64, pub points: u64,
  pub prefix: [u8; LOG], pub log: [(u8, u8); LOG], pub hot: [u64; HOT], pub new: [u64; HOT],
  pub out_len: [usize; MAX + 1], pub out: [[u64; OUT]; MAX + 1],
  pub msg: [u8; 4096],
}

#[derive(Clone, Copy)]
#[repr(C, align(64))]
struct Word { key: u64, wc: u32, wt: u8, hot: bool, seen: bool, amask: u8, awrite: u8, r: [u32; MAX], rel: [u32; MAX] }
const WORDS: usize = 1 << 20;
static mut TABLE: [Word; WORDS] = [Word { key: 0, wc: 0, wt: 0, hot: false, seen: false, amask: 0, awrite: 0, r: [0; MAX], rel: [0; MAX] }; WORDS];
static mut CLOCK: [[u32; MAX]; MAX] = [[0; MAX]; MAX];
static mut SHM: *mut Shm = std::ptr::null_mut();
static mut N: usize = 0;
static mut USED: usize = 0;
static mut STREAK: u32 = 0;

const READY: u32 = 0;
const BLOCKED: u32 = 1;
const DONE: u32 = 2;
const NOBODY: u32 = u32::MAX;
static LOCK: AtomicU32 = AtomicU32::new(0);
static TURN: AtomicU32 = AtomicU32::new(NOBODY);
static GO: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static STATUS: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static WHERE: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
static TIMED: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static FINISHED: AtomicU32 = AtomicU32::new(0);
static BEAT: AtomicU64 = AtomicU64::new(0);

thread_local! { static ME: Cell<isize> = const { Cell::new(-1) }; }
fn me() -> isize { ME.try_with(|m| m.get()).unwrap_or(-1) }

pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  let r: i64;
  std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
  r
}
fn sleep_on(a: &AtomicU32, v: u32, ms: i64) {
  let t: [i64; 2] = [ms / 1000, ms % 1000 * 1_000_000];
  unsafe { raw(202, a as *const _ as i64, 128, v as i64, if ms > 0 { t.as_ptr() as i64 } else { 0 }, 0, 0); }
}
fn wake_up(a: &AtomicU32) { unsafe { raw(202, a as *const _ as i64, 129, i32::MAX as i64, 0, 0, 0); } }

fn enter() { let mut k = 0u32; while LOCK.swap(1, SeqCst) == 1 { k += 1; if k % 1000 == 0 { unsafe { raw(24, 0, 0, 0, 0, 0, 0); } } std::hint::spin_loop(); } }
fn leave() { LOCK.store(0, SeqCst) }
/// `GO` is 1 when the turn has been given and 2 while its owner sleeps.
fn await_turn(i: usize) {
  for _ in 0..400 { if GO[i].load(SeqCst) == 1 { GO[i].store(0, SeqCst); return } std::hint::spin_loop(); }
  loop {
    if GO[i].compare_exchange(1, 0, SeqCst, SeqCst).is_ok() { return }
    if GO[i].compare_exchange(0, 2, SeqCst, SeqCst) != Err(1) { sleep_on(&GO[i], 2, 0); }
  }
}
fn give(t: usize) {
  unsafe { STREAK = 0; }
  TURN.store(t as u32, SeqCst);
  if GO[t].swap(1, SeqCst) == 2 { wake_up(&GO[t]); }
}
unsafe fn choose(n: usize) -> usize {
  let s = &mut *SHM;
  if s.log_len >= LOG { s.full = 1; return 0 }
  let mut c = if s.log_len < s.prefix_len { s.prefix[s.log_len] } else { 0 };
  if c as usize >= n { c = 0; s.diverged += 1; }
  s.log[s.log_len] = (n as u8, c);
  s.log_len += 1;
  c as usize
}
unsafe fn ready(but: usize) -> ([usize; MAX], usize) {
  let mut v = [0; MAX];
  let mut k = 0;
  for i in 1..=N { let t = (but + i) % N; if t != but && STATUS[t].load(SeqCst) == READY { v[k] = t; k += 1; } }
  (v, k)
}

/// Before an access to a hot word.
unsafe fn point(i: usize) {
  enter();
  BEAT.fetch_add(1, SeqCst);
  if TURN.load(SeqCst) != i as u32 {
    // the turn was taken away while this thread waited for something unseen
    STATUS[i].store(READY, SeqCst);
    if TURN.load(SeqCst) == NOBODY { TURN.store(i as u32, SeqCst); leave(); return }
    leave();
    return await_turn(i)
  }
  (*SHM).points += 1;
  STREAK += 1;
  let (v, k) = ready(i);
  if k == 0 { return leave() }
  if STREAK > PATIENCE { (*SHM).forced += 1; give(v[0]); leave(); return await_turn(i) }
  if USED >= (*SHM).budget { return leave() }
  let c = choose(k + 1);
  if c == 0 { return leave() }
  USED += 1;
  give(v[c - 1]);
  leave();
  await_turn(i)
}
/// The thread says that it waits for others.
unsafe fn yielded(i: usize) {
  enter();
  BEAT.fetch_add(1, SeqCst);
  if TURN.load(SeqCst) != i as u32 { return leave() }
  let (v, k) = ready(i);
  if k == 0 { return leave() }
  let c = if k > 1 && USED < (*SHM).budget { choose(k) } else { 0 };
  give(v[c]);
  leave();
  await_turn(i)
}
/// Inside the lock: somebody else goes on, for free.
unsafe fn hand_over(i: usize, finished: bool) {
  if TURN.load(SeqCst) != i as u32 { return }
  let (v, k) = ready(i);
  if k == 0 {
    // a wait with a time limit ends when nothing else can happen
    for t in 0..N { if STATUS[t].load(SeqCst) == BLOCKED && TIMED[t].load(SeqCst) == 1 { TIMED[t].store(2, SeqCst); WHERE[t].store(0, SeqCst); STATUS[t].store(READY, SeqCst); return give(t) } }
    return TURN.store(NOBODY, SeqCst)
  }
  let c = if k > 1 && (finished || USED < (*SHM).budget) { choose(k) } else { 0 };
  give(v[c]);
}

unsafe fn slot(a: usize) -> Option<&'static mut Word> {
  let key = (a >> 3) as u64;
  let t = std::ptr::addr_of_mut!(TABLE) as *mut Word;
  let mut i = (((key >> 6).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) as usize * 64 + (key & 63) as usize) & (WORDS - 1);
  for _ in 0..256 {
    let w = &mut *t.add(i);
    if w.key == key { return Some(w) }
    if w.key == 0 { w.key = key; return Some(w) }
    i = (i + 1) & (WORDS - 1);
  }
  (*SHM).full = 1;
  None
}
unsafe fn conflict(w: &mut Word) {
  if w.hot || w.seen { return }
  w.seen = true;
  let s = &mut *SHM;
  if s.new_len < HOT { s.new[s.new_len] = w.key; s.new_len += 1; } else { s.full = 1; }
}

unsafe fn word(i: usize, a: usize, write: bool) {
  let Some(w) = slot(a) else { return };
  if w.hot { point(i); }
  let c = &CLOCK[i];
  let others = w.amask & !(1 << i);
  if (w.wc > 0 && w.wt as usize != i && w.wc > c[w.wt as usize]) || (others != 0 && (write || w.awrite & !(1 << i) != 0)) { conflict(w); }
  if write {
    for t in 0..N { if t != i && w.r[t] > c[t] { conflict(w); } }
    w.wc = c[i];
    w.wt = i as u8;
  } else { w.r[i] = c[i]; }
}

pub unsafe fn plain(a: usize, n: usize, write: bool) {
  let i = me();
  if i < 0 { return }
  word(i as usize, a, write);
  if (a & 7) + n > 8 { word(i as usize, a + n - 1, write); }
}
/// Something outside of memory that has a number: a file.
pub unsafe fn named(n: u64, write: bool) {
  let i = me();
  if i >= 0 { word(i as usize, (n as usize + (1 << 52)) << 3, write); }
}
pub fn scheduled() -> bool { me() >= 0 }
pub unsafe fn range(a: usize, n: usize, write: bool) {
  let i = me();
  if i < 0 || n == 0 { return }
  let mut p = a & !7;
  while p < a + n { word(i as usize, p, write); p += 8; }
}
pub unsafe fn atomic(a: usize, write: bool) {
  let i = me();
  if i < 0 { return }
  let i = i as usize;
  let Some(w) = slot(a) else { return };
  if w.hot { point(i); }
  let others = w.amask & !(1 << i);
  if others != 0 && (write || w.awrite & !(1 << i) != 0) { conflict(w); }
  let c = &mut CLOCK[i];
  if (w.wc > 0 && w.wt as usize != i && w.wc > c[w.wt as usize]) || (write && (0..N).any(|t| t != i && w.r[t] > c[t])) { conflict(w); }
  w.amask |= 1 << i;
  for t in 0..N { c[t] = c[t].max(w.rel[t]); }
  if write {
    w.awrite |= 1 << i;
    w.rel = *c;
    c[i] += 1;
  }
}
/// What precompiled code does with the word after a wait is not announced; it sees what was
/// released there.
unsafe fn acquire(i: usize, a: usize) { if let Some(w) = slot(a) { for t in 0..N { CLOCK[i][t] = CLOCK[i][t].max(w.rel[t]); } } }
pub unsafe fn barrier() {}

// ---------------------------------------------------------------------------------------------
// memory: in an execution every thread has an arena of its own and no block is used twice

const ARENA: usize = 256 << 20;
const ARENAS: usize = MAX + 2;
static mut BASE: usize = 0;
static mut LIVE: bool = false;
static FILL: [AtomicUsize; ARENAS] = [const { AtomicUsize::new(64) }; ARENAS];

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    if !LIVE { return System.alloc(l) }
    let k = me();
    let k = if k >= 0 { k as usize } else if TURN.load(SeqCst) == NOBODY { MAX } else { MAX + 1 };
    // blocks of different sizes never share a word
    let al = l.align().max(8);
    let n = (l.size() + al + 7) & !7;
    let at = FILL[k].fetch_add(n, SeqCst);
    if at + n + al > ARENA { return System.alloc(l) }
    ((BASE + k * ARENA + at + al - 1) & !(al - 1)) as *mut u8
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    let a = p as usize;
    if BASE != 0 && a >= BASE && a < BASE + ARENAS * ARENA {
      // giving a block back writes to it
      if me() >= 0 { range(a, l.size(), true); std::ptr::write_bytes(p, 0xa5, l.size()); }
      return
    }
    System.dealloc(p, l)
  }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

extern "C" {
  fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
  fn munmap(addr: *mut u8, len: usize) -> i32;
  fn __errno_location() -> *mut i32;
}
/// Reserves the arenas; once, before anything is forked.
pub fn reserve() {
  unsafe {
    let p = mmap(std::ptr::null_mut(), ARENA * ARENAS, 3, 0x4022, -1, 0);
    assert!(p as isize != -1, "no memory");
    BASE = p as usize;
  }
}
pub fn shared() -> *mut Shm {
  let p = unsafe { mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), 3, 0x21, -1, 0) };
  assert!(p as isize != -1, "no memory");
  p as *mut Shm
}
pub unsafe fn unshare(p: *mut Shm) { munmap(p as *mut u8, std::mem::size_of::<Shm>()); }

// ---------------------------------------------------------------------------------------------
// waiting

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  let ret = |r: i64| if (-4095..0).contains(&r) { *__errno_location() = -r as i32; -1 } else { r };
  if n != 202 || N == 0 { return ret(raw(n, a, b, c, d, e, f)) }
  match b & 127 {
    0 | 9 => {
      let i = me();
      if i < 0 { return ret(raw(n, a, b, c, d, e, f)) }
      let i = i as usize;
      enter();
      BEAT.fetch_add(1, SeqCst);
      if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 { leave(); acquire(i, a as usize); return ret(-11) }
      TIMED[i].store((d != 0) as u32, SeqCst);
      WHERE[i].store(a as usize, SeqCst);
      STATUS[i].store(BLOCKED, SeqCst);
      hand_over(i, false);
      leave();
      await_turn(i);
      acquire(i, a as usize);
      if TIMED[i].swap(0, SeqCst) == 2 { ret(-110) } else { 0 }
    }
    1 | 10 => {
      let mut woken = 0;
      enter();
      for t in 0..N {
        if woken < c && WHERE[t].load(SeqCst) == a as usize && STATUS[t].load(SeqCst) == BLOCKED {
          WHERE[t].store(0, SeqCst);
          STATUS[t].store(READY, SeqCst);
          woken += 1;
          if TURN.load(SeqCst) == NOBODY { give(t); }
        }
      }
      BEAT.fetch_add(1, SeqCst);
      leave();
      if woken < c { let r = raw(n, a, b, c - woken, d, e, f); if r > 0 { woken += r; } }
      woken
    }
    _ => ret(raw(n, a, b, c, d, e, f)),
  }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 { let i = me(); if i >= 0 { yielded(i as usize); } else { raw(24, 0, 0, 0, 0, 0, 0); } 0 }
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const i64, b: *mut i64) -> i32 {
  let i = me();
  if i >= 0 { yielded(i as usize); return 0 }
  let r = raw(35, a as i64, b as i64, 0, 0, 0, 0);
  if r < 0 { *__errno_location() = -r as i32; -1 } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(k: i32, f: i32, a: *const i64, b: *mut i64) -> i32 {
  let i = me();
  if i >= 0 { yielded(i as usize); return 0 }
  -raw(230, k as i64, f as i64, a as i64, b as i64, 0, 0) as i32
}

// ---------------------------------------------------------------------------------------------

/// From here on this process is one execution of `n` threads.
pub unsafe fn begin(shm: *mut Shm, n: usize) {
  SHM = shm;
  let s = &mut *shm;
  s.log_len = 0; s.new_len = 0; s.diverged = 0; s.full = 0;
  for l in s.out_len.iter_mut() { *l = 0; }
  N = n;
  for i in 0..n { CLOCK[i][i] = 1; STATUS[i].store(READY, SeqCst); }
  for k in 0..s.hot_len { if let Some(w) = slot((s.hot[k] << 3) as usize) { w.hot = true; } }
  // alone, a thread gets memory back that it has given up, and with it the same addresses
  LIVE = n > 1;
}
/// Runs `f` as scheduled thread `i`.
pub unsafe fn thread(i: usize, f: impl FnOnce()) {
  await_turn(i);
  ME.with(|m| m.set(i as isize));
  f();
  ME.with(|m| m.set(-1));
  enter();
  BEAT.fetch_add(1, SeqCst);
  if TURN.load(SeqCst) != i as u32 { STATUS[i].store(DONE, SeqCst); } else { STATUS[i].store(DONE, SeqCst); hand_over(i, true); }
  let all = (0..N).all(|t| STATUS[t].load(SeqCst) == DONE);
  leave();
  if all { FINISHED.store(1, SeqCst); wake_up(&FINISHED); }
}
/// Starts the schedule and waits for its end; false when the threads block each other.
pub unsafe fn conduct() -> bool {
  enter();
  let first = if N > 1 { choose(N) } else { 0 };
  give(first);
  leave();
  let mut last = BEAT.load(SeqCst);
  let mut idle = 0;
  while FINISHED.load(SeqCst) == 0 {
    sleep_on(&FINISHED, 0, 20);
    let b = BEAT.load(SeqCst);
    if b != last { last = b; idle = 0; continue }
    idle += 1;
    if idle == 5 {
      // the running thread waits for another one without telling: let the others run
      enter();
      let h = TURN.load(SeqCst);
      if h != NOBODY && BEAT.load(SeqCst) == last {
        let (v, k) = ready(h as usize);
        if k > 0 { STATUS[h as usize].store(BLOCKED, SeqCst); WHERE[h as usize].store(1, SeqCst); give(v[0]); (*SHM).diverged += 1; BEAT.fetch_add(1, SeqCst); }
      }
      leave();
    }
    if idle > 200 { return false }
  }
  true
}
