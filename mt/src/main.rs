//! C25: concurrent queries on one shared network, under every schedule at the level of single
//! memory accesses.
mod exec;
mod explore;
mod files;
mod hooks;
use exec::reserve;
use explore::*;
use mc::engine::*;
use mc::num::EDGE;
use scen::{setups, vector, wide, Setup, QUERIES};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Duration;

fn main() {
  reserve();
  run("C25", &["thread-safe block functions", "preemptions at all conflicting memory accesses of the library, waits and ends of threads; accesses inside precompiled libraries are not announced", "sequentially consistent memory"], |r| {
    let small = setups();
    let edge: Vec<usize> = [1, 2, 3, 4, 5].iter().chain(EDGE.iter()).copied().filter(|n| r.thorough || *n <= 65).collect();
    let large = wide(&edge);
    let nq = QUERIES.len();
    let fits = |s: &Setup, t: &Calls| vector(s) || !t.iter().flatten().any(|(q, _)| *q == 5);
    // first every scenario with one preemption, then those whose threads touch the same memory with more
    let limit = |first: bool| Duration::from_millis(match (r.elapsed(), r.thorough, first) {
      (e, false, true) if e > 40.0 => 20, (_, false, true) => 1_000, (e, false, false) if e > 90.0 => 20, (_, false, false) => 4_000,
      (e, true, true) if e > 200.0 => 20, (_, true, true) => 5_000, (e, true, false) if e > 600.0 => 20, (e, true, false) if e > 400.0 => 500, _ => 20_000,
    });
    type Ask<'a> = Box<dyn Fn(usize) -> Calls + Sync + 'a>;
    struct Group<'a> { name: &'a str, sets: &'a [Setup], preludes: &'a [Vec<(usize, usize)>], n: usize, ask: Ask<'a>, budget: usize, shared: Vec<AtomicBool> }
    let go = |g: &Group, first: bool| {
      let total = g.sets.len() * 2 * g.preludes.len() * g.n;
      let replayed = std::env::args().any(|a| a == "--replay");
      let wanted = |i: usize| first || replayed || g.shared[i].load(Ordering::Relaxed);
      let name = if first { format!("{}-1", g.name) } else { g.name.to_string() };
      if !(0..total).any(wanted) { return }
      r.group(&name, total as u64, |i, st| {
        let mut q = Pick(i);
        let i = i as usize;
        if !wanted(i) { return Ok(()) }
        let setup = q.from(g.sets);
        let single = q.of(2) == 1;
        let prelude = q.from(g.preludes).clone();
        let threads = (g.ask)(q.of(g.n));
        if !fits(setup, &threads) || !fits(setup, &vec![prelude.clone()]) { return Ok(()) }
        let hot = scenario(&Scenario { setup: Some(setup), single, prelude, threads }, if first { 1 } else { g.budget }, limit(first), !first || g.budget < 2, st)?;
        g.shared[i].store(hot, Ordering::Relaxed);
        Ok(())
      });
    };
    let cold: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let warm: Vec<Vec<(usize, usize)>> = vec![vec![], vec![(0, 0)], vec![(0, 2), (1, 1)]];
    let group = |name: &'static str, sets: &'static [Setup], preludes: &'static [Vec<(usize, usize)>], n: usize, ask: Ask<'static>, budget: usize| Group { name, sets, preludes, n, ask, budget, shared: (0..sets.len() * 2 * preludes.len() * n).map(|_| AtomicBool::new(false)).collect() };
    let (small, large): (&'static [Setup], &'static [Setup]) = (Box::leak(small.into_boxed_slice()), Box::leak(large.into_boxed_slice()));
    let (cold, warm): (&'static [Vec<(usize, usize)>], &'static [Vec<(usize, usize)>]) = (Box::leak(cold.into_boxed_slice()), Box::leak(warm.into_boxed_slice()));
    let triples: Vec<[usize; 3]> = (0..nq).flat_map(|a| (a..nq).flat_map(move |b| (b..nq).map(move |c| [a, b, c]))).collect();
    let fours: Vec<[usize; 4]> = triples.iter().flat_map(|t| (t[2]..nq).map(|d| [t[0], t[1], t[2], d])).collect();
    let mut groups: Vec<Group> = vec![
      // two threads, one query each, equal and different inputs
      group("two-threads", small, warm, nq * nq * 2, Box::new(move |i| { let mut q = Pick(i as u64); let (a, b, k) = (q.of(nq), q.of(nq), q.of(2)); vec![vec![(a, 0)], vec![(b, k)]] }), if r.thorough { 3 } else { 2 }),
      // three and four threads with the same query
      group("three-alike", small, cold, nq * 2, Box::new(move |i| (0..3).map(|j| vec![(i / 2, if i % 2 == 0 { j } else { 0 })]).collect()), if r.thorough { 3 } else { 2 }),
      group("four-alike", small, cold, nq, Box::new(move |i| (0..4).map(|j| vec![(i, j)]).collect()), if r.thorough { 3 } else { 1 }),
      // two queries in each thread
      group("two-queries", small, cold, nq * nq * 4, Box::new(move |i| { let mut q = Pick(i as u64); let (a, b, k) = (q.of(nq), q.of(nq), q.of(4)); match k { 0 => vec![vec![(a, 0), (b, 0)], vec![(b, 1), (a, 1)]], 1 => vec![vec![(a, 0), (b, 1)], vec![(b, 0), (a, 1)]], 2 => vec![vec![(a, 0), (b, 1)], vec![(a, 1), (b, 0)]], _ => vec![vec![(a, 0), (a, 1)], vec![(b, 2), (b, 3)]] } }), 2),
      // sizes around the usual thresholds, all activations
      group("sizes", large, cold, nq * 2, Box::new(move |i| vec![vec![(i / 2, 0)], vec![(i / 2, 1 - i % 2)]]), 2),
      // many queries in each thread
      group("many-queries", small, cold, nq * nq, Box::new(move |i| { let (a, b) = (i % nq, i / nq); vec![(0..6).map(|j| (a, [0, 1, 0, 2, 3, 0][j])).collect(), (0..6).map(|j| (b, [1, 1, 0, 3, 0, 2][j])).collect()] }), 1),
      // three threads
      { let t = triples.clone(); group("three-threads", small, cold, t.len() * 3, Box::new(move |i| { let t = t[i / 3]; let ks = [[0, 1, 2], [0, 0, 1], [0, 0, 0]][i % 3]; (0..3).map(|j| vec![(t[j], ks[j])]).collect() }), 2) },
    ];
    if r.thorough {
      groups.push(group("four-threads", small, cold, fours.len() * 2, Box::new(move |i| { let t = fours[i / 2]; let ks = [[0, 1, 2, 3], [0, 0, 1, 1]][i % 2]; (0..4).map(|j| vec![(t[j], ks[j])]).collect() }), 1));
      groups.push(group("three-queries", small, warm, nq * nq * nq, Box::new(move |i| { let mut q = Pick(i as u64); let (a, b, c) = (q.of(nq), q.of(nq), q.of(nq)); vec![vec![(a, 0), (b, 1), (c, 0)], vec![(c, 1), (b, 0), (a, 1)]] }), 2));
    }
    for g in &groups { go(g, true); }
    for g in &groups { if g.budget > 1 { go(g, false); } }
    report(r);
  });
}
