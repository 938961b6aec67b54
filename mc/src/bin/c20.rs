//! C20: batch loss and accuracy are exact averages.
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::laychk::text;
use mc::lossf::{self, LOSS_NAMES};
use mc::num::*;
use mc::refnet::*;
use mc::trainchk::{dataset, Point};
use renplex::cvnn::network::CNetwork;
use renplex::math::cfloat::{Cf32, Cf64};

trait Val { fn v(&self) -> f64; }
impl Val for f32 { fn v(&self) -> f64 { *self as f64 } }
impl Val for f64 { fn v(&self) -> f64 { *self } }

/// A network whose prediction is its input.
fn identity(n: usize) -> Vec<Lay> {
  vec![Lay::Dense { inp: n, units: n, act: 0, w: (0..n * n).map(|k| if k / n == k % n { ONE } else { ZERO }).collect(), b: vec![ZERO; n] }]
}

/// First index of the largest magnitude.
fn top(v: &[C]) -> usize {
  let mut k = 0;
  for i in 1..v.len() { if v[i].sq() > v[k].sq() { k = i } }
  k
}

fn judge<T: Num>(ls: &[Lay], net: &CNetwork<T>, pts: &[Point], accuracy: bool, st: &mut Local) -> Case where T::Precision: Val {
  let what = || format!("{} {} points: {}", T::NAME, pts.len(), if pts.len() > 6 { "...".into() } else { pts.iter().map(|(x, t)| format!("[{} -> {}]", text(&x.v), text(&t.v))).collect::<Vec<_>>().join(" ") });
  let d = dataset::<T>(pts);
  let preds: Vec<Dat> = pts.iter().map(|(x, _)| predict(ls, x)).collect();
  for k in 0..2 {
    let ls: Vec<f64> = preds.iter().zip(pts).map(|(p, (_, t))| lossf::loss(k, &t.v, &p.v)).collect();
    let want = ls.iter().sum::<f64>() / pts.len() as f64;
    let scale = 1.0 + ls.iter().map(|v| v.abs()).sum::<f64>() / pts.len() as f64 + preds.iter().zip(pts).map(|(p, (_, t))| p.v.iter().map(|z| z.sq()).fold(0.0, f64::max) * t.v.iter().map(|z| z.abs()).sum::<f64>()).fold(0.0, f64::max);
    let got = guard(|| net.loss(&d, &lossf::loss_func(k))).map_err(|e| format!("{}: {} loss panicked: {}", what(), LOSS_NAMES[k], e))?.map_err(|e| format!("{}: {} loss failed: {:?}", what(), LOSS_NAMES[k], e))?.v();
    ensure!(got.is_finite() && (got - want).abs() <= T::EPS * (64.0 + 4.0 * pts.len() as f64 + pts[0].1.v.len() as f64) * scale, "{}: {} loss {}, the mean of the points' losses is {}", what(), LOSS_NAMES[k], got, want);
    st.step(1);
    st.outcome(got.to_bits());
  }
  if accuracy {
    let hits = preds.iter().zip(pts).filter(|(p, (_, t))| top(&p.v) == top(&t.v)).count();
    let want = hits as f64 / pts.len() as f64;
    let got = guard(|| net.max_pred_test(&d)).map_err(|e| format!("{}: accuracy panicked: {}", what(), e))?.v();
    ensure!((got - want).abs() <= 4.0 * T::EPS, "{}: accuracy {}, {} of {} agree", what(), got, hits, pts.len());
    st.step(1);
    st.outcome(got.to_bits() ^ 1);
  }
  st.trace();
  Ok(())
}

fn both(ls: &[Lay], pts: &[Point], accuracy: bool, st: &mut Local) -> Case {
  judge::<Cf32>(ls, &build_net(ls), pts, accuracy, st)?;
  judge::<Cf64>(ls, &build_net(ls), pts, accuracy, st)
}

fn main() {
  run("C20", &["|prediction|^2 at most 50", "data sets are not empty", "magnitudes either tie exactly or differ clearly"], |r| {
    // one point: all predictions and targets over an alphabet with ties and zeros
    let al: Vec<C> = if r.thorough { vec![ZERO, ONE, -ONE, I, c(1.0, 1.0), c(0.5, 0.0), c(2.0, -1.0), c(0.0, -2.0)] } else { vec![ZERO, ONE, -ONE, I, c(1.0, 1.0), c(0.5, 0.0)] };
    for n in 1..=3usize {
      r.group(&format!("one-point-{}", n), (al.len() as u64).pow(2 * n as u32), |i, st| {
        let mut q = Pick(i);
        let x: Vec<C> = (0..n).map(|_| *q.from(&al)).collect();
        let t: Vec<C> = (0..n).map(|_| *q.from(&al)).collect();
        st.state();
        both(&identity(n), &[(Dat::vector(x), Dat::vector(t))], true, st)
      });
    }
    r.group("one-point-4", 5u64.pow(8), |i, st| {
      let mut q = Pick(i);
      let al = [ZERO, ONE, I, c(2.0, 0.0), c(1.0, -2.0)];
      let x: Vec<C> = (0..4).map(|_| *q.from(&al)).collect();
      let t: Vec<C> = (0..4).map(|_| *q.from(&al)).collect();
      st.state();
      judge::<Cf64>(&identity(4), &build_net(&identity(4)), &[(Dat::vector(x), Dat::vector(t))], true, st)
    });
    // all small data sets over points with distinguishable losses, hits and misses, duplicates
    let pt = |x: [C; 2], t: [C; 2]| (Dat::vector(x.to_vec()), Dat::vector(t.to_vec()));
    let pts: Vec<Point> = vec![
      pt([ONE, ZERO], [ONE, ZERO]), pt([ZERO, c(2.0, 0.0)], [ONE, ZERO]), pt([c(1.0, 1.0), c(3.0, 0.0)], [ZERO, ONE]), pt([ONE, -I], [I, ONE]),
      pt([ZERO, ZERO], [ZERO, ONE]), pt([ZERO, ZERO], [ONE, ZERO]), pt([c(0.0, -3.0), c(2.0, 2.0)], [c(0.5, 0.0), c(0.5, 0.5)]), pt([c(4.0, 1.0), ZERO], [ZERO, c(0.25, 0.0)]),
    ];
    for n in 1..=if r.thorough { 7 } else { 5 } {
      r.group(&format!("sets-{}", n), (pts.len() as u64).pow(n), |i, st| {
        let mut q = Pick(i);
        let set: Vec<Point> = (0..n).map(|_| q.from(&pts).clone()).collect();
        st.state();
        if n < 6 { judge::<Cf32>(&identity(2), &build_net(&identity(2)), &set, true, st)?; }
        judge::<Cf64>(&identity(2), &build_net(&identity(2)), &set, true, st)
      });
    }
    // sizes of data sets: one odd point at every position
    let sizes: Vec<usize> = (1..=40).chain(EDGE.iter().copied().filter(|n| *n > 40)).chain(if r.thorough { vec![500, 511, 512, 513, 1000, 1024, 1025] } else { vec![513, 1000] }).collect();
    let slots: Vec<(usize, usize)> = sizes.iter().flat_map(|n| (0..*n).map(move |k| (*n, k))).collect();
    r.group("positions", slots.len() as u64, |i, st| {
      let (n, at) = slots[i as usize];
      st.state();
      for (usual, odd) in [(0, 1), (1, 2), (7, 0)] {
        let set: Vec<Point> = (0..n).map(|k| pts[if k == at { odd } else { usual }].clone()).collect();
        both(&identity(2), &set, true, st)?;
      }
      Ok(())
    });
    // wide predictions: the largest element at every pair of places, ties with an earlier one
    let mut wide: Vec<(usize, usize, usize)> = EDGE.iter().copied().filter(|n| *n <= 65).flat_map(|n| (0..n).flat_map(move |a| [0, a / 2, a, (a + 1) % n, n - 1].into_iter().map(move |b| (n, a, b)))).collect();
    for n in edges(1025).into_iter().filter(|n| *n > 65) { for a in [0, 1, n / 2, 255, 256, 511, 512, n - 2, n - 1] { for b in [0, n / 2, 256, n - 1] { if a < n && b < n { wide.push((n, a, b)); } } } }
    r.group("wide", wide.len() as u64, |i, st| {
      let (n, a, b) = wide[i as usize];
      st.state();
      let one = |k: usize, tie: usize| { let mut v: Vec<C> = (0..n).map(|j| c(0.25, 0.125 * (j % 3) as f64)).collect(); v[k] = c(0.0, -2.0); v[tie] = c(2.0, 0.0); v };
      // a flattening layer is the cheaper identity for the larger sizes
      let id = if n <= 65 { identity(n) } else { vec![Lay::Flat { n: 1, h: 1, w: n }] };
      let x = |v: Vec<C>| if n <= 65 { Dat::vector(v) } else { Dat::maps(1, 1, n, v) };
      both(&id, &[(x(one(a, a)), Dat::vector(one(b, b)))], true, st)?;
      both(&id, &[(x(one(a, b)), Dat::vector(one(b, b))), (x(one(b, b)), Dat::vector(one(a, b))), (x(one(a, b)), Dat::vector(one(a.min(b), a.max(b))))], true, st)
    });
    // data sets of many sizes, a small set of points in turn
    let large = edges(if r.thorough { 65537 } else { 16385 });
    r.group("large-sets", large.len() as u64 * 3, |i, st| {
      let mut q = Pick(i);
      let (n, step) = (*q.from(&large), [1, 3, 5][q.of(3)]);
      st.state();
      let set: Vec<Point> = (0..n).map(|k| pts[(k * step + k / 97) % 8].clone()).collect();
      judge::<Cf64>(&identity(2), &build_net(&identity(2)), &set, true, st)?;
      if n > 4097 { return Ok(()) }
      judge::<Cf32>(&identity(2), &build_net(&identity(2)), &set, true, st)
    });
    // a point whose loss is not a number spoils the mean, wherever it is
    let bad = [c(f64::NAN, 0.0), c(0.0, f64::NAN), c(f64::INFINITY, 1.0)];
    r.group("not-a-number", 40 * 40 * 3 * 2, |i, st| {
      let mut q = Pick(i);
      let (n, at, z, k) = (q.range(1, 40), q.of(40), *q.from(&bad), q.of(2));
      if at >= n { return Ok(()) }
      st.state();
      let set: Vec<Point> = (0..n).map(|p| { let x = pts[p % 8].clone(); (Dat::maps(1, 1, 2, if p == at { vec![ONE, z] } else { x.0.v }), x.1) }).collect();
      let id = [Lay::Flat { n: 1, h: 1, w: 2 }];
      fn go<T: Num>(id: &[Lay], set: &[Point], k: usize) -> Result<f64, String> where T::Precision: Val {
        guard(|| build_net::<T>(id).loss(&dataset(set), &lossf::loss_func(k))).map_err(|e| format!("panicked: {}", e))?.map(|v| v.v()).map_err(|e| format!("failed: {:?}", e))
      }
      for v in [go::<Cf32>(&id, &set, k), go::<Cf64>(&id, &set, k)] {
        let v = v.map_err(|e| format!("{} points, {} in point {}: {} loss {}", n, z, at, LOSS_NAMES[k], e))?;
        ensure!(!v.is_finite(), "{} points, {} in point {}: {} loss {}", n, z, at, LOSS_NAMES[k], v);
        st.step(1);
      }
      st.trace();
      Ok(())
    });
    // losses of networks of every kind, feature-map predictions included
    let m = |p: usize| move |i: usize| mc::archs::moderate(p, i);
    let nets: Vec<(Vec<Lay>, Dat)> = vec![
      (vec![Lay::dense(3, 4, 3, m(1)), Lay::dense(4, 3, 2, m(2))], Dat::vector(vec![ZERO; 3])),
      (vec![Lay::conv(1, 2, [2, 2], 3, m(1)), Lay::mean_pool(2, [1, 3]), Lay::Flat { n: 2, h: 2, w: 1 }, Lay::dense(4, 3, 1, m(2))], Dat::maps(1, 3, 4, vec![ZERO; 12])),
      (vec![Lay::conv(2, 2, [1, 2], 2, m(1)), Lay::mean_pool(2, [2, 1])], Dat::maps(2, 2, 3, vec![ZERO; 12])),
      (vec![Lay::mean_pool(2, [1, 1])], Dat::maps(2, 2, 2, vec![ZERO; 8])),
      (vec![Lay::Flat { n: 2, h: 1, w: 2 }], Dat::maps(2, 1, 2, vec![ZERO; 4])),
    ];
    r.group("networks", (nets.len() * 24 * 6) as u64, |i, st| {
      let mut q = Pick(i);
      let ((ls, x0), n, p0) = (q.from(&nets), q.range(1, 24), q.of(6));
      st.state();
      fn go<T: Num>(ls: &[Lay], x0: &Dat, n: usize, p0: usize, st: &mut Local) -> Case where T::Precision: Val {
        let ls: Vec<Lay> = ls.iter().map(|l| l.round::<T>()).collect();
        let set: Vec<Point> = (0..n).map(|p| {
          let mut x = x0.clone();
          for (i, z) in x.v.iter_mut().enumerate() { *z = generic((p + p0) % 9, i + p + 7 * p0); }
          let x = x.round::<T>();
          let mut t = predict(&ls, &x);
          for (i, z) in t.v.iter_mut().enumerate() { *z = generic(p % 7 + 1, i) + ONE; }
          (x, t.round::<T>())
        }).collect();
        let vector = predict(&ls, &set[0].0).vec;
        // judged only where the largest magnitudes are clear
        let clear = set.iter().all(|(x, t)| [&predict(&ls, x).v, &t.v].iter().all(|v| { let k = top(v); v.iter().enumerate().all(|(j, z)| j == k || z.sq() < v[k].sq() - 1e-3) }));
        // the saturating activations are exact to 2e-6 only
        let net = build_net::<T>(&ls);
        let d = dataset::<T>(&set);
        for k in 0..2 {
          let want = set.iter().map(|(x, t)| lossf::loss(k, &t.v, &predict(&ls, x).v)).sum::<f64>() / n as f64;
          let got = guard(|| net.loss(&d, &lossf::loss_func(k))).map_err(|e| format!("{} loss panicked: {}", LOSS_NAMES[k], e))?.map_err(|e| format!("{} loss failed: {:?}", LOSS_NAMES[k], e))?.v();
          let tol = if T::EPS > 1e-10 { 1e-4 } else { 1e-11 };
          ensure!((got - want).abs() <= tol * (1.0 + want.abs()), "{} {} on {} points: {} loss {}, the mean of the points' losses is {}", T::NAME, ls.iter().map(|l| l.name()).collect::<Vec<_>>().join(" | "), n, LOSS_NAMES[k], got, want);
          st.step(1);
          st.outcome(got.to_bits());
        }
        if vector && clear {
          let hits = set.iter().filter(|(x, t)| top(&predict(&ls, x).v) == top(&t.v)).count();
          let got = guard(|| net.max_pred_test(&d)).map_err(|e| format!("accuracy panicked: {}", e))?.v();
          ensure!((got - hits as f64 / n as f64).abs() <= 4.0 * T::EPS, "{} accuracy {} with {} of {} hits", T::NAME, got, hits, n);
          st.step(1);
        }
        st.trace();
        Ok(())
      }
      go::<Cf32>(ls, x0, n, p0, st)?;
      go::<Cf64>(ls, x0, n, p0, st)
    });
  });
}
