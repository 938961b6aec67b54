//! C23: the signal generator over sample counts, batch sizes, noise levels and generator states.
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::Cf32;
use renplex::math::random::{lcgf32, lcgi};

const P: u64 = (1 << 31) - 1;
const A: u64 = 1103515245;
const B: u64 = 12345;
fn inverse() -> u64 {
  let (mut r, mut b, mut e) = (1u64, A % P, P - 2);
  while e > 0 { if e & 1 == 1 { r = r * b % P; } b = b * b % P; e >>= 1; }
  r
}
/// The state from which draw number `k` ends at state `t`.
fn before(t: u64, k: usize, inv: u64) -> u128 {
  let mut s = t % P;
  for _ in 0..=k { s = ((s + P - B) % P) * inv % P; }
  s as u128
}

struct Want { target: Vec<C>, input: Vec<Option<C>>, slack: f64, noise: f64, waves: usize }

fn waves(seed: &mut u128) -> Vec<(f64, f64, f64)> {
  let n = lcgi(seed, 8) + 1;
  (0..n).map(|_| {
    let a = lcgf32(seed) as f64 * 0.9 + 0.1;
    let w = lcgf32(seed) as f64 * 0.9 + 0.1;
    let p = std::f64::consts::TAU * lcgf32(seed) as f64;
    (a, w, p)
  }).collect()
}

fn signal(samples: usize, w: &[(f64, f64, f64)]) -> (Vec<C>, f64) {
  let mut v: Vec<C> = (0..samples).map(|k| {
    let t = 2.0 * std::f64::consts::TAU * k as f64 / samples as f64;
    w.iter().fold(ZERO, |s, (a, w, p)| s + C { re: (w * t + p).cos() * a, im: (w * t + p).sin() * a })
  }).collect();
  let peak = v.iter().fold(0.0f64, |m, z| m.max(z.abs()));
  let sum: f64 = w.iter().map(|x| x.0).sum();
  for z in v.iter_mut() { *z = z.scale(1.0 / peak); }
  (v, 1e-5 + 6e-6 * sum / peak)
}

/// `magnitudes` draws the sizes of the noise and `phases` its phases; they may be one stream.
fn corrupt(target: &[C], noise: f64, draw: &mut dyn FnMut(bool) -> f32) -> Vec<Option<C>> {
  let mut out = Vec::new();
  for pair in target.chunks(2) {
    let u = draw(false) as f64;
    let v = draw(false) as f64 * std::f64::consts::TAU;
    let r = (-2.0 * u.ln()).sqrt();
    let z = [r * v.cos(), r * v.sin()];
    let ph = [draw(true), draw(true)].map(|x| x as f64 * std::f64::consts::TAU);
    for (k, t) in pair.iter().enumerate() {
      let s = z[k] * noise * (1.0 + t.abs() / 20.0);
      // a zero draw has no logarithm: any finite value will do there
      out.push(if u == 0.0 { None } else { Some(*t + C { re: ph[k].cos() * s, im: ph[k].sin() * s }) });
    }
  }
  out
}

fn model(samples: usize, batch: usize, noise: f32, train: &mut u128, test: &mut u128) -> (Vec<Want>, Vec<Want>) {
  let (mut a, mut b) = (Vec::new(), Vec::new());
  let n = noise as f64;
  for _ in 0..batch {
    let wa = waves(train);
    let wb = waves(test);
    let (ta, sa) = signal(samples, &wa);
    let (tb, sb) = signal(samples, &wb);
    let ia = corrupt(&ta, n, &mut |phase| lcgf32(if phase { train } else { test }));
    let ib = corrupt(&tb, n, &mut |_| lcgf32(test));
    a.push(Want { target: ta, input: ia, slack: sa, noise: n, waves: wa.len() });
    b.push(Want { target: tb, input: ib, slack: sb, noise: n, waves: wb.len() });
  }
  (a, b)
}

fn vector(x: &IOType<Cf32>) -> Result<Vec<C>, String> {
  match x { IOType::Scalar(v) => Ok(v.iter().map(|z| z.un()).collect()), _ => Err("not a vector".into()) }
}

fn set(name: &str, d: &Dataset<Cf32, Cf32>, want: &[Want], samples: usize, st: &mut Local) -> Case {
  ensure!(d.get_n_points() == want.len(), "the {} set has {} points, not {}", name, d.get_n_points(), want.len());
  for (i, w) in want.iter().enumerate() {
    let (x, t) = d.get_point(i);
    let (x, t) = (vector(x)?, vector(t)?);
    ensure!(x.len() == samples && t.len() == samples, "{} point {} has an input of {} and a target of {} values, not {}", name, i, x.len(), t.len(), samples);
    ensure!(x.iter().chain(&t).all(|z| z.finite()), "{} point {} is not finite: {:?} for {:?}", name, i, x, t);
    if samples > 0 {
      let peak = t.iter().fold(0.0f64, |m, z| m.max(z.abs()));
      ensure!((peak - 1.0).abs() < 1e-5, "{} point {} has peak magnitude {}", name, i, peak);
    }
    for k in 0..samples {
      ensure!((t[k] - w.target[k]).abs() <= w.slack, "{} point {}: value {} of the target is {}, the {} waves give {}", name, i, k, t[k], w.waves, w.target[k]);
      if w.noise == 0.0 {
        ensure!(x[k] == t[k], "{} point {}: without noise value {} of the input is {} and of the target {}", name, i, k, x[k], t[k]);
      } else if let Some(z) = w.input[k] {
        let tol = w.slack * 2.0 + 4e-5 * w.noise;
        ensure!((x[k] - z).abs() <= tol, "{} point {}: value {} of the input is {} for target {}, the noise gives {}", name, i, k, x[k], t[k], z);
      }
    }
    st.outcome((w.waves, samples.min(3), w.noise == 0.0));
  }
  Ok(())
}

fn bits(d: &Dataset<Cf32, Cf32>) -> Vec<Vec<C>> {
  (0..d.get_n_points()).flat_map(|i| { let (x, t) = d.get_point(i); [vector(x).unwrap_or_default(), vector(t).unwrap_or_default()] }).collect()
}

fn case(samples: usize, batch: usize, noise: f32, train: u128, test: u128, st: &mut Local) -> Case {
  st.state();
  let what = format!("{} samples, {} points, noise {}, seeds {} and {}", samples, batch, noise, train, test);
  st.sample(|| what.clone());
  let (mut a, mut b) = (train, test);
  let (x, y) = guard(|| Dataset::<Cf32, Cf32>::signal_reconstruction(samples, batch, noise, &mut a, &mut b)).map_err(|e| format!("{}: panicked: {}", what, e))?;
  let (mut c, mut d) = (train, test);
  let (wx, wy) = guard(|| model(samples, batch, noise, &mut c, &mut d)).map_err(|e| format!("{}: {}", what, e))?;
  set("training", &x, &wx, samples, st).and_then(|_| set("test", &y, &wy, samples, st)).map_err(|e| format!("{}: {}", what, e))?;
  let (mut a2, mut b2) = (train, test);
  let (x2, y2) = guard(|| Dataset::<Cf32, Cf32>::signal_reconstruction(samples, batch, noise, &mut a2, &mut b2)).map_err(|e| format!("{}: panicked the second time: {}", what, e))?;
  ensure!(bits(&x) == bits(&x2) && bits(&y) == bits(&y2) && (a, b) == (a2, b2), "{}: the same call gave another result", what);
  st.step(2);
  st.trace();
  Ok(())
}

fn main() {
  run("C23", &["finite noise levels from 0 to 1000", "where the draw for the size of the noise is exactly zero any finite input is accepted"], |r| {
    let inv = inverse();
    let noises = [0.0f32, 0.05, 0.5, 1.0, 30.0];
    // every sample count and batch size
    let (top, most) = if r.thorough { (130, 6) } else { (40, 5) };
    r.group("sizes", ((top + 1) * most * noises.len() * 40) as u64, |i, st| {
      let mut q = Pick(i);
      let (s, b, n, k) = (q.of(top + 1), q.of(most), *q.from(&noises), q.of(40) as u128);
      case(s, b, n, k * k * 977 + k, k * 31 + 7, st)
    });
    let e = edges(16385);
    r.group("large-sizes", 3 * e.len() as u64, |i, st| {
      let mut q = Pick(i);
      let s = *q.from(&e);
      case(s, 2, noises[q.of(3)], s as u128, 1000 + s as u128, st)
    });
    let e = edges(4097);
    r.group("large-batches", 2 * e.len() as u64, |i, st| {
      let mut q = Pick(i);
      let b = *q.from(&e);
      case(5 + q.of(2), b, 0.3, 11, 12, st)
    });
    // each draw in turn takes each extreme state, in the training stream, in the test stream and in both
    let ends: Vec<u64> = vec![0, 1, 2, 5, P / 8 - 1, P / 8, P / 8 + 1, P / 2, P / 4 * 3, P - 200, P - 64, P - 2, P - 1];
    let far = if r.thorough { 400 } else { 150 };
    r.group("extreme-draws", (ends.len() * far * 4 * 2 * 3) as u64, |i, st| {
      let mut q = Pick(i);
      let (e, k, how, s, n) = (*q.from(&ends), q.of(far), q.of(4), 3 + q.of(2), [0.0f32, 0.05, 2.0][q.of(3)]);
      let z = before(e, k, inv);
      let other = 4242 + k as u128;
      let (a, b) = match how { 0 => (z, other), 1 => (other, z), 2 => (z, z), _ => (z + P as u128, other + (P as u128) * 1_000_000_007) };
      case(s, 2, n, a, b, st)
    });
    // small and large seeds
    let many = if r.thorough { 4_000_000 } else { 400_000 };
    r.group("seeds", many, |i, st| case(2 + (i % 3) as usize, 1, 0.1, i as u128, (i as u128 * 7919) % 65_536, st));
    r.group("seed-bits", 128 * 6, |i, st| {
      let mut q = Pick(i);
      let (k, how) = (q.of(128), q.of(6));
      let z = match how % 3 { 0 => 1u128 << k, 1 => (1u128 << k) - 1, _ => u128::MAX - ((1u128 << k) - 1) };
      let (a, b) = if how < 3 { (z, 5) } else { (6, z) };
      case(5, 2, 0.2, a, b, st)
    });
    // the ring of generator states at equal distances
    let (count, salt) = if r.thorough { (1u64 << 26, 1021) } else { (1 << 21, 131) };
    r.group("ring", count, |i, st| case(4, 1, 0.1, (i * (P / count)) as u128, ((i * salt) % count * (P / count) + 17) as u128, st));
  });
}
