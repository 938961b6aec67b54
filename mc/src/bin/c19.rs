//! C19: a failed training step leaves the network unchanged.
use mc::actf::*;
use mc::archs::moderate;
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::lossf::{self, LOSS_NAMES};
use mc::num::*;
use mc::refnet::*;
use mc::trainchk::{dataset, net_print, Point};
use renplex::cvnn::layer::reduce::Reduce;
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

/// Calls of the block functions left until one of them panics; negative: never.
type Fuse = Arc<AtomicI64>;

fn build<T: Num>(ls: &[Lay], fuse: &Fuse) -> CNetwork<T> {
  let mut n = CNetwork::new();
  for (i, l) in ls.iter().enumerate() {
    let layer = match l {
      Lay::Pool { n, block, co, kernel, ks } => {
        let co: Vec<T> = vec_of(co);
        let fuse = fuse.clone();
        let f = move |b: &[T]| {
          if fuse.load(Ordering::SeqCst) >= 0 && fuse.fetch_sub(1, Ordering::SeqCst) == 0 { panic!("injected failure of the block function") }
          co.iter().zip(b).fold(T::default(), |s, (a, x)| s + *a * *x)
        };
        Reduce::init(*n, *block, Box::new(f), Matrix::from_body(vec_of(kernel), *ks)).wrap()
      }
      _ => l.build(),
    };
    if i == 0 { n.add_input(layer).expect("input layer"); } else { n.add(layer).expect("layer"); }
  }
  n
}

struct Setup { name: &'static str, ls: Vec<Lay>, x: Dat }

fn setups() -> Vec<Setup> {
  let m = |p: usize| move |i: usize| moderate(p, i);
  let img = |n: usize, h: usize, w: usize| Dat::maps(n, h, w, vec![ZERO; n * h * w]);
  vec![
    Setup { name: "dense", ls: vec![Lay::dense(3, 4, TANH, m(1)), Lay::dense(4, 3, SIGMOID, m(2)), Lay::dense(3, 2, NONE, m(3))], x: Dat::vector(vec![ZERO; 3]) },
    Setup { name: "mixed", ls: vec![Lay::conv(1, 2, [2, 2], TANH, m(1)), Lay::mean_pool(2, [1, 3]), Lay::Flat { n: 2, h: 2, w: 1 }, Lay::dense(4, 3, CARD, m(2)), Lay::dense(3, 2, NONE, m(3))], x: img(1, 3, 4) },
    Setup { name: "pooling first", ls: vec![Lay::mean_pool(2, [2, 2]), Lay::conv(2, 2, [1, 2], RELU, m(1)), Lay::pool(2, [2, 1], |i| c(1.0 + i as f64, 0.0)), Lay::Flat { n: 2, h: 1, w: 1 }, Lay::dense(2, 2, MODZ, m(2))], x: img(2, 4, 4) },
    Setup { name: "maps out", ls: vec![Lay::conv(1, 2, [1, 2], SIGMOID, m(1)), Lay::mean_pool(2, [2, 1]), Lay::conv(2, 1, [1, 1], NONE, m(2))], x: img(1, 2, 3) },
    Setup { name: "one layer", ls: vec![Lay::dense(2, 2, TANH, m(1))], x: Dat::vector(vec![ZERO; 2]) },
    Setup { name: "one convolution", ls: vec![Lay::conv(1, 2, [1, 2], TANH, m(1))], x: img(1, 2, 3) },
  ]
}

/// Ways in which a point can be malformed.
const KINDS: [&str; 10] = ["input of the wrong kind", "input one element short", "input one element long", "empty input", "target of the wrong kind", "target one element short", "target one element long", "empty target", "input and target swapped", "other map size"];

fn malformed<T: Num>(p: &Point, kind: usize) -> (IOType<T>, IOType<T>) {
  let resize = |d: &Dat, by: isize| -> IOType<T> {
    if d.vec { let mut v = d.v.clone(); if by < 0 { v.pop(); } else { v.push(ONE); } Dat::vector(v).io() }
    else { match Dat::io::<T>(d) { IOType::Matrix(mut m) => { if by < 0 { m.pop(); } else { m.push(Matrix::from_body(vec_of(&gauss_vec(0, d.h * d.w)), [d.h, d.w])); } IOType::Matrix(m) } o => o } }
  };
  let other = |d: &Dat| -> IOType<T> { if d.vec { IOType::Matrix(vec![Matrix::from_body(vec_of(&d.v), [1, d.v.len()])]) } else { IOType::Scalar(vec_of(&d.v)) } };
  let none = |d: &Dat| -> IOType<T> { if d.vec { IOType::Scalar(vec![]) } else { IOType::Matrix(vec![]) } };
  let (x, t) = p;
  match kind {
    0 => (other(x), t.io()), 1 => (resize(x, -1), t.io()), 2 => (resize(x, 1), t.io()), 3 => (none(x), t.io()),
    4 => (x.io(), other(t)), 5 => (x.io(), resize(t, -1)), 6 => (x.io(), resize(t, 1)), 7 => (x.io(), none(t)),
    8 => (t.io(), x.io()),
    _ => (if x.vec { Dat::vector(gauss_vec(0, 2 * x.n)).io() } else { Dat::maps(x.n, x.h + 1, x.w + 1, gauss_vec(0, x.n * (x.h + 1) * (x.w + 1))).io() }, t.io()),
  }
}

fn points(s: &Setup, n: usize) -> Vec<Point> {
  (0..n).map(|p| {
    let mut x = s.x.clone();
    for (i, z) in x.v.iter_mut().enumerate() { *z = generic(p % 9, i + p); }
    let mut t = predict(&s.ls, &x);
    for (i, z) in t.v.iter_mut().enumerate() { *z = generic(p % 7 + 1, i) + ONE; }
    (x, t)
  }).collect()
}

/// After a failed step: identical answers, and the next step gives what it gives without it.
fn unchanged<T: Num>(s: &Setup, net: &mut CNetwork<T>, twin: &mut CNetwork<T>, before: &[u64], pts: &[Point], loss: usize, what: &str, st: &mut Local) -> Case {
  let x = &pts[0].0;
  ensure!(net_print(&s.ls, net, x) == before, "{}: the failed step changed the network", what);
  let same = |a: &CNetwork<T>, b: &CNetwork<T>, when: &str| -> Case {
    for (x, _) in pts.iter().take(2) {
      let (p, q) = (guard(|| a.forward(&x.io())), guard(|| b.forward(&x.io())));
      ensure!(matches!((&p, &q), (Ok(Ok(y)), Ok(Ok(z))) if Dat::of(y).bits() == Dat::of(z).bits()), "{}: predictions differ {}", what, when);
    }
    Ok(())
  };
  same(net, twin, "after the failed step")?;
  if s.ls.len() > 1 {
    for n in [net as &mut CNetwork<T>, twin as &mut CNetwork<T>] {
      guard(|| n.gradient_opt(dataset(&pts[..2]), &lossf::loss_func(loss), T::of(c(0.1, 0.02)))).map_err(|e| format!("{}: the next step panicked: {}", what, e))?.map_err(|e| format!("{}: the next step failed: {:?}", what, e))?;
      st.step(1);
    }
    same(net, twin, "after the next step")?;
    ensure!(net_print(&s.ls, net, x) == net_print(&s.ls, twin, x), "{}: the step after the failed one gives other parameters than without it", what);
  }
  st.trace();
  Ok(())
}

fn attempt<T: Num>(s: &Setup, data: Dataset<T, T>, blow: i64, loss: usize, pts: &[Point], what: &str, must_fail: bool, st: &mut Local) -> Case {
  let fuse: Fuse = Arc::new(AtomicI64::new(-1));
  let (mut net, mut twin) = (build::<T>(&s.ls, &fuse), build::<T>(&s.ls, &Arc::new(AtomicI64::new(-1))));
  let before = net_print(&s.ls, &net, &pts[0].0);
  fuse.store(blow, Ordering::SeqCst);
  let r = guard(|| net.gradient_opt(data, &lossf::loss_func(loss), T::of(c(0.2, 0.1))));
  fuse.store(-1, Ordering::SeqCst);
  st.step(1);
  let what = format!("{} {} {}, {}", T::NAME, s.name, LOSS_NAMES[loss], what);
  if let Ok(Ok(())) = r {
    ensure!(!must_fail, "{}: the step reported success", what);
    st.outcome((0, &what));
    return Ok(())
  }
  st.outcome((1, &what));
  unchanged(s, &mut net, &mut twin, &before, pts, loss, &what, st)
}

fn main() {
  run("C19", &["a malformed point that the library accepts without failing is not judged", "results compared bit for bit"], |r| {
    let ss = setups();
    // one malformed point of every kind at every position
    let top = if r.thorough { 9 } else { 5 };
    r.group("malformed", (ss.len() * top * top * KINDS.len() * 2) as u64, |i, st| {
      let mut q = Pick(i);
      let (s, n, at, kind, loss) = (q.from(&ss), q.range(1, top), q.of(top), q.of(KINDS.len()), q.of(2));
      if at >= n { return Ok(()) }
      st.state();
      let pts = points(s, n.max(2));
      fn go<T: Num>(s: &Setup, pts: &[Point], n: usize, at: usize, kind: usize, loss: usize, st: &mut Local) -> Case {
        let mut d: Dataset<T, T> = Dataset::new();
        for (j, p) in pts[..n].iter().enumerate() { d.add_point(if j == at { malformed(p, kind) } else { (p.0.io(), p.1.io()) }); }
        attempt::<T>(s, d, -1, loss, pts, &format!("point {} of {}: {}", at, n, KINDS[kind]), s.ls.len() == 1 || kind == 0 || kind == 4, st)
      }
      go::<Cf64>(s, &pts, n, at, kind, loss, st)?;
      go::<Cf32>(s, &pts, n, at, kind, loss, st)
    });
    // larger batches
    let sizes = if r.thorough { vec![16usize, 17, 33, 64, 65, 128, 257] } else { vec![17, 33] };
    let mut slots: Vec<(usize, usize)> = sizes.iter().flat_map(|n| (0..*n).map(move |k| (*n, k))).collect();
    for n in edges(1025).into_iter().filter(|n| *n > 33) { for k in [0, 1, n / 2, n - 2, n - 1] { slots.push((n, k)); } }
    r.group("late", (ss.len() * slots.len() * 2) as u64, |i, st| {
      let mut q = Pick(i);
      let (s, (n, at), kind) = (q.from(&ss), *q.from(&slots), [0, 4][q.of(2)]);
      st.state();
      let pts = points(s, n);
      let mut d: Dataset<Cf64, Cf64> = Dataset::new();
      for (j, p) in pts.iter().enumerate() { d.add_point(if j == at { malformed(p, kind) } else { (p.0.io(), p.1.io()) }); }
      attempt::<Cf64>(s, d, -1, 0, &pts, &format!("point {} of {}: {}", at, n, KINDS[kind]), true, st)
    });
    // two malformed points
    r.group("two-malformed", (ss.len() * 16 * KINDS.len() * KINDS.len()) as u64, |i, st| {
      let mut q = Pick(i);
      let (s, a, b, ka, kb) = (q.from(&ss), q.of(4), q.of(4), q.of(KINDS.len()), q.of(KINDS.len()));
      if a >= b { return Ok(()) }
      st.state();
      let pts = points(s, 4);
      let mut d: Dataset<Cf64, Cf64> = Dataset::new();
      for (j, p) in pts.iter().enumerate() { d.add_point(if j == a { malformed(p, ka) } else if j == b { malformed(p, kb) } else { (p.0.io(), p.1.io()) }); }
      attempt::<Cf64>(s, d, -1, 1, &pts, &format!("points {} ({}) and {} ({}) of 4", a, KINDS[ka], b, KINDS[kb]), false, st)
    });
    // an empty batch, and networks too small to train
    r.group("refused", (ss.len() * 2 * 4) as u64, |i, st| {
      let mut q = Pick(i);
      let (s, loss, n) = (q.from(&ss), q.of(2), q.of(4));
      if n > 0 && s.ls.len() > 1 { return Ok(()) }
      st.state();
      let pts = points(s, 4);
      attempt::<Cf64>(s, dataset(&pts[..n]), -1, loss, &pts, &format!("batch of {}", n), n > 0, st)?;
      attempt::<Cf32>(s, dataset(&pts[..n]), -1, loss, &pts, &format!("batch of {}", n), n > 0, st)
    });
    // the block function panics at every one of its calls
    let pooled: Vec<&Setup> = ss.iter().filter(|s| s.ls.iter().any(|l| matches!(l, Lay::Pool { .. }))).collect();
    let most = if r.thorough { 6 } else { 3 };
    let mut cases: Vec<(usize, usize, i64)> = Vec::new();
    for (k, s) in pooled.iter().enumerate() {
      for n in 1..=most {
        let pts = points(s, n.max(2));
        let fuse: Fuse = Arc::new(AtomicI64::new(i64::MAX / 2));
        let mut net = build::<Cf64>(&s.ls, &fuse);
        let _ = guard(|| net.gradient_opt(dataset(&pts[..n]), &lossf::loss_func(0), Cf64 { x: 0.1, y: 0.0 }));
        let calls = i64::MAX / 2 - fuse.load(Ordering::SeqCst);
        for c in 0..calls { cases.push((k, n, c)); }
      }
    }
    r.note(format!("{} calls of block functions", cases.len()));
    r.group("block-function", cases.len() as u64 * 2, |i, st| {
      let (k, n, at) = cases[i as usize / 2];
      let s = pooled[k];
      st.state();
      let pts = points(s, n.max(2));
      let what = format!("block function panics at call {} of a batch of {}", at, n);
      attempt::<Cf64>(s, dataset(&pts[..n]), at, (i % 2) as usize, &pts, &what, true, st)?;
      attempt::<Cf32>(s, dataset(&pts[..n]), at, (i % 2) as usize, &pts, &what, true, st)
    });
  });
}
