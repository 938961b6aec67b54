//! C28: programs that share nothing, in one thread step by step and in several threads at the same
//! time, under every schedule at the level of single memory accesses.
mod exec;
mod explore;
mod files;
mod hooks;
use exec::reserve;
use explore::*;
use mc::engine::*;
use scen::apart::{code, interleavings, PROGRAMS};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Duration;

fn main() {
  reserve();
  run("C28", &["preemptions at all conflicting memory accesses of the library, waits and ends of threads; accesses inside precompiled libraries are not announced", "sequentially consistent memory"], |r| {
    let n = PROGRAMS.len();
    let ways = interleavings().len();
    let limit = |first: bool| Duration::from_millis(match (r.elapsed(), r.thorough, first) {
      (e, false, true) if e > 40.0 => 20, (_, false, true) => 4_000, (e, false, false) if e > 90.0 => 20, (_, false, false) => 4_000,
      (e, true, true) if e > 200.0 => 20, (_, true, true) => 5_000, (e, true, false) if e > 600.0 => 20, (e, true, false) if e > 400.0 => 500, _ => 20_000,
    });
    struct Group { name: &'static str, n: usize, ask: Box<dyn Fn(usize) -> Calls + Sync>, budget: usize, shared: Vec<AtomicBool> }
    let group = |name, count: usize, budget, ask: Box<dyn Fn(usize) -> Calls + Sync>| Group { name, n: count, ask, budget, shared: (0..2 * count).map(|_| AtomicBool::new(false)).collect() };
    let go = |g: &Group, first: bool| {
      let total = 2 * g.n;
      let replayed = std::env::args().any(|a| a == "--replay");
      let wanted = |i: usize| first || replayed || g.shared[i].load(Ordering::Relaxed);
      let name = if first { format!("{}-1", g.name) } else { g.name.to_string() };
      if !(0..total).any(wanted) { return }
      r.group(&name, total as u64, |i, st| {
        let i = i as usize;
        if !wanted(i) { return Ok(()) }
        let hot = scenario(&Scenario { setup: None, single: i % 2 == 1, prelude: vec![], threads: (g.ask)(i / 2) }, if first { 1 } else { g.budget }, limit(first), !first || g.budget < 2, st)?;
        g.shared[i].store(hot, Ordering::Relaxed);
        Ok(())
      });
    };
    let deep = if r.thorough { 3 } else { 2 };
    let vars: usize = if r.thorough { 4 } else { 2 };
    let groups = [
      // one thread: two programs, their steps interleaved in every way
      group("side-by-side", n * n * ways * if r.thorough { 16 } else { 2 }, 1, Box::new(move |i| {
        let mut q = Pick(i as u64);
        let (a, b, w) = (q.of(n), q.of(n), q.of(ways));
        let k = if i / (n * n * ways) > 1 || vars == 4 { i / (n * n * ways) } else { [4, 12][i / (n * n * ways)] };
        vec![vec![(code(a, b, w), k)]]
      })),
      // one thread: a program after two others
      group("after-others", n * n * n, 1, Box::new(move |i| vec![vec![(i % n, 0), (i / n % n, 1), (i / n / n, 2), (i % n, 3), (i % n, 0)]])),
      // two threads, every pair of programs and variants
      group("two-threads", n * n * 4 * vars, deep, Box::new(move |i| { let mut q = Pick(i as u64); let (a, b, k) = (q.of(n), q.of(n), q.of(4)); vec![vec![(a, q.of(vars))], vec![(b, k)]] })),
      // two threads with two programs each
      group("two-programs", n * n, 2, Box::new(move |i| vec![vec![(i % n, 0), (i / n, 1)], vec![(i / n, 2), (i % n, 3)]])),
      // three and four threads
      group("three-threads", n * n * n, 2, Box::new(move |i| vec![vec![(i % n, 0)], vec![(i / n % n, 1)], vec![(i / n / n, 3)]])),
      group("four-alike", n * 2, if r.thorough { 2 } else { 1 }, Box::new(move |i| (0..4).map(|k| vec![(i / 2, if i % 2 == 0 { k } else { 1 })]).collect())),
    ];
    for g in &groups { go(g, true); }
    for g in &groups { if g.budget > 1 { go(g, false); } }
    report(r);
  });
}
