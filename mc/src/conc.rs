//! Concurrent queries on one shared network, under every schedule.
use crate::actf::*;
use crate::cx::*;
use crate::engine::*;
use crate::ensure;
use crate::lossf::{self, CE, MSE};
use crate::num::*;
use crate::refnet::*;
use crate::sched::{explore, quiet, Job};
use crate::trainchk::{dataset, Point};
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

/// Choices that could not be repeated; nothing of the current code causes any.
static DIVERGED: AtomicU64 = AtomicU64::new(0);
/// Explorations that ran out of time.
static CAPPED: AtomicU64 = AtomicU64::new(0);

pub const QUERIES: [&str; 6] = ["predict", "list", "intercept", "loss MeanSquare", "loss CrossEntropy", "accuracy"];

/// Shared whatever the types promise: the threads only ask.
struct Shared<T: Num> { net: CNetwork<T>, data: Vec<Dataset<T, T>>, xs: Vec<IOType<T>>, layers: usize }
unsafe impl<T: Num> Sync for Shared<T> {}
unsafe impl<T: Num> Send for Shared<T> {}

pub struct Setup { pub name: &'static str, pub net: Vec<Lay>, pub xs: Vec<Dat> }

pub fn setups() -> Vec<Setup> {
  let m = |p: usize| move |i: usize| generic(p, i).scale(0.9) + c(0.05, -0.03);
  let vecs = |n: usize| (0..3).map(|p| Dat::vector((0..n).map(|i| generic(p + 4, i)).collect())).collect::<Vec<_>>();
  let maps = |n: usize, h: usize, w: usize| (0..3).map(|p| Dat::maps(n, h, w, (0..n * h * w).map(|i| generic(p + 4, i)).collect())).collect::<Vec<_>>();
  vec![
    Setup { name: "dense", net: vec![Lay::dense(2, 2, TANH, m(1)), Lay::dense(2, 2, NONE, m(2))], xs: vecs(2) },
    Setup { name: "convolution", net: vec![Lay::conv(1, 1, [1, 2], RELU, m(1))], xs: maps(1, 1, 3) },
    Setup { name: "pooling", net: vec![Lay::pool(1, [1, 2], |i| c(0.5 + i as f64, 0.0)), Lay::Flat { n: 1, h: 1, w: 2 }], xs: maps(1, 1, 4) },
    Setup { name: "mixed", net: vec![Lay::conv(1, 1, [1, 1], SIGMOID, m(1)), Lay::pool(1, [1, 2], |i| c(0.25 + i as f64, 0.0)), Lay::Flat { n: 1, h: 1, w: 1 }, Lay::dense(1, 2, CARD, m(2))], xs: maps(1, 1, 2) },
    Setup { name: "channels", net: vec![Lay::conv(2, 2, [1, 1], NONE, m(1)), Lay::Flat { n: 2, h: 1, w: 1 }], xs: maps(2, 1, 1) },
  ]
}

fn numbers<T: Num>(y: &IOType<T>) -> Vec<C> { let d = Dat::of(y); let mut v = vec![c(d.n as f64, d.h as f64), c(d.w as f64, d.vec as u8 as f64)]; v.extend(d.v); v }

fn ask<T: Num>(s: &Shared<T>, q: usize, who: usize) -> Result<Vec<C>, String> {
  let k = who % s.xs.len();
  match q {
    0 => { let y = s.net.forward(&s.xs[k]); quiet(|| y.map(|y| numbers(&y)).map_err(|e| format!("{:?}", e))) }
    1 => { let x = quiet(|| s.xs[k].clone()); let y = s.net.collect_acts(x); quiet(|| y.map(|v| v.iter().flat_map(numbers).collect()).map_err(|e| format!("{:?}", e))) }
    2 => {
      let x = quiet(|| s.xs[k].clone());
      match s.net.intercept(x, s.layers - 1) {
        Ok((y, l)) => { let z = l.foward(&y); quiet(|| { let mut v = numbers(&y); v.extend(numbers(&z.map_err(|e| format!("{:?}", e))?)); Ok(v) }) }
        Err(e) => quiet(|| Err(format!("{:?}", e))),
      }
    }
    3 | 4 => { let y = s.net.loss(&s.data[k], &lossf::loss_func(if q == 3 { MSE } else { CE })); quiet(|| y.map(|v| vec![c(real::<T>(v), 0.0)]).map_err(|e| format!("{:?}", e))) }
    _ => { let v = s.net.max_pred_test(&s.data[k]); quiet(|| Ok(vec![c(real::<T>(v), 0.0)])) }
  }
}

fn same(a: &[C], b: &[C], eps: f64) -> bool {
  a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (*x - *y).abs() <= 64.0 * eps * (1.0 + y.abs()) || (x.re.to_bits(), x.im.to_bits()) == (y.re.to_bits(), y.im.to_bits()))
}

/// All schedules of threads that each make their queries, with at most `budget` preemptions.
pub fn schedules<T: Num>(setup: &Setup, threads: &[Vec<usize>], budget: usize, limit: Duration, st: &mut Local) -> Case {
  let vec = predict(&setup.net, &setup.xs[0]).vec;
  let target = |k: usize| { let mut t = predict(&setup.net, &setup.xs[k]); for (i, z) in t.v.iter_mut().enumerate() { *z = generic(k + 3, i) + ONE; } t };
  let data = (0..setup.xs.len()).map(|k| { let p: Vec<Point> = (0..1 + k % 2).map(|j| { let x = (k + j) % setup.xs.len(); (setup.xs[x].clone(), target(x)) }).collect(); dataset::<T>(&p) }).collect();
  let s = Arc::new(Shared::<T> { net: build_net(&setup.net), data, xs: setup.xs.iter().map(|x| x.io()).collect(), layers: setup.net.len() });
  let name = format!("{} {} {}", T::NAME, setup.name, threads.iter().map(|t| t.iter().map(|q| QUERIES[*q]).collect::<Vec<_>>().join("; ")).collect::<Vec<_>>().join(" || "));
  st.sample(|| name.clone());
  if !vec && threads.iter().flatten().any(|q| *q == 5) { return Ok(()) }
  // one after another
  let mut want: Vec<Vec<Vec<C>>> = Vec::new();
  for (i, t) in threads.iter().enumerate() {
    let mut w = Vec::new();
    for q in t {
      match guard(|| ask(&s, *q, i)) { Ok(Ok(v)) => w.push(v), Ok(Err(e)) | Err(e) => return Err(format!("{}: {} alone: {}", name, QUERIES[*q], e)) }
      st.step(1);
    }
    want.push(w);
  }
  // against the model once
  for (i, t) in threads.iter().enumerate() { for (j, q) in t.iter().enumerate() { if *q == 0 {
    let y = predict(&setup.net.iter().map(|l| l.round::<T>()).collect::<Vec<_>>(), &setup.xs[i % 3].round::<T>());
    ensure!(same(&want[i][j][2..], &y.v, 1e4 * T::EPS), "{}: a prediction alone differs from the model", name);
  } } }
  let jobs: Vec<Job<Result<Vec<Vec<C>>, String>>> = threads.iter().enumerate().map(|(i, t)| {
    let (s, t) = (s.clone(), t.clone());
    Arc::new(move || { let mut out = quiet(|| Vec::with_capacity(8)); for q in &t { match guard(|| ask(&s, *q, i)) { Ok(Ok(v)) => out.push(v), Ok(Err(e)) => return Err(e), Err(e) => return Err(format!("panicked: {}", e)) } } Ok(out) }) as Job<_>
  }).collect();
  let calls: u64 = threads.iter().map(|t| t.len() as u64).sum();
  let eps = T::EPS;
  let mut traces = 0;
  let seen = {
    let st: &Local = st;
    explore(jobs, budget, limit, &|| st.tick(), &mut |res, _| {
      for (i, r) in res.iter().enumerate() {
        match r {
          Err(e) => return Err(format!("{}: thread {}: {}", name, i, e)),
          Ok(v) => for (j, (a, b)) in v.iter().zip(&want[i]).enumerate() {
            ensure!(same(a, b, eps), "{}: thread {}: {} gives {:?}, alone it gives {:?}", name, i, QUERIES[threads[i][j]], a, b);
          },
        }
      }
      traces += 1;
      Ok(())
    })?
  };
  for _ in 0..traces { st.trace(); }
  st.step(seen.schedules * calls);
  st.states += seen.nodes;
  st.outcome((name.clone(), seen.schedules));
  if seen.capped { CAPPED.fetch_add(1, Ordering::Relaxed); }
  DIVERGED.fetch_add(seen.diverged, Ordering::Relaxed);
  // afterwards everything is as it was
  for (i, t) in threads.iter().enumerate() { for (j, q) in t.iter().enumerate() {
    match guard(|| ask(&s, *q, i)) { Ok(Ok(v)) => ensure!(same(&v, &want[i][j], eps), "{}: afterwards {} gives {:?}, before {:?}", name, QUERIES[*q], v, want[i][j]), Ok(Err(e)) | Err(e) => return Err(format!("{}: {} afterwards: {}", name, QUERIES[*q], e)) }
  } }
  Ok(())
}

/// The groups of one number type.
pub fn explore_all<T: Num>(r: &Run, deep: bool) {
  let all = setups();
  let nq = QUERIES.len();
  let go = |name: &str, n: usize, f: &(dyn Fn(usize) -> (usize, Vec<Vec<usize>>) + Sync), budget: usize| {
    r.group_on(&format!("{}-{}", name, T::NAME), n as u64, 1, |i, st| { 
      let (k, t) = f(i as usize);
      // code that waits much or uses threads of its own is explored as far as time allows
      let limit = match (r.elapsed() > if r.thorough { 400.0 } else { 120.0 }, r.thorough) { (true, _) => 40, (_, true) => 30_000, _ => 4_000 };
      schedules::<T>(&all[k], &t, budget, Duration::from_millis(limit), st)
    });
  };
  // two threads, one query each
  let pairs: Vec<(usize, usize)> = (0..nq).flat_map(|a| (a..nq).map(move |b| (a, b))).collect();
  let n = all.len();
  go("two-threads", n * pairs.len(), &|i| (i % n, vec![vec![pairs[i / n].0], vec![pairs[i / n].1]]), if deep { 2 } else { 1 });
  // three threads
  let triples: Vec<[usize; 3]> = (0..nq).flat_map(|a| (a..nq).flat_map(move |b| (b..nq).map(move |c| [a, b, c]))).collect();
  go("three-threads", n * triples.len(), &|i| (i % n, triples[i / n].iter().map(|q| vec![*q]).collect()), 1);
  // two queries one after the other in each thread
  go("two-queries", n * nq * nq, &|i| (i % n, vec![vec![i / n % nq, i / n / nq], vec![i / n / nq, i / n % nq]]), 1);
  if deep {
    // the same query twice, more preemptions
    go("deep", n * nq, &|i| (i % n, vec![vec![i / n], vec![i / n]]), if r.thorough { 3 } else { 2 });
    if r.thorough { go("three-deep", n * nq, &|i| (i % n, vec![vec![i / n]; 3]), 2); }
  }
  if CAPPED.load(Ordering::Relaxed) > 0 { r.capped(format!("{} explorations ran out of time", CAPPED.load(Ordering::Relaxed))); }
  r.note(format!("{} choices could not be repeated", DIVERGED.load(Ordering::Relaxed)));
}
