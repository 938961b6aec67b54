//! C08: weight initialisation over generator states, methods, unit counts and layer shapes.
use std::sync::Mutex;

use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use renplex::act::ComplexActFunc;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::init::InitMethod;
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;

const P: u64 = (1 << 31) - 1;
const A: u64 = 1103515245;
const B: u64 = 12345;
fn prev(t: u64, inv: u64) -> u64 { ((t + P - B) % P) * inv % P }
fn inverse() -> u64 {
  let (mut r, mut b, mut e) = (1u64, A % P, P - 2);
  while e > 0 { if e & 1 == 1 { r = r * b % P; } b = b * b % P; e >>= 1; }
  r
}

const METHODS: [&str; 5] = ["Uniform", "XavierGlorotU", "XavierGlorotN", "Xavier", "HeInit"];
fn method(k: usize, n: usize) -> InitMethod {
  match k {
    0 => InitMethod::Uniform(n),
    1 => InitMethod::XavierGlorotU(n),
    2 => InitMethod::XavierGlorotN(n),
    3 => InitMethod::Xavier(n),
    _ => InitMethod::HeInit(n),
  }
}
/// Mean squared magnitude, and the largest magnitude where there is one.
fn law(k: usize, n: usize) -> (f64, Option<f64>) {
  let m = n as f64;
  match k {
    0 => (m * m / 3.0, Some(m)),
    1 => (2.0 / m, Some((6.0 / m).sqrt())),
    3 => (4.0 / m, Some((12.0 / m).sqrt())),
    _ => (2.0 / m, None),
  }
}

const SECTORS: usize = 16;
#[derive(Clone, Default)]
struct Stats { n: f64, sq: f64, moments: [C; 8], sectors: [f64; SECTORS], corr: [C; 4] }
impl Stats {
  fn add(&mut self, z: C) {
    self.n += 1.0;
    let s = z.sq();
    self.sq += s;
    if s > 0.0 {
      let u = z * C { re: 1.0 / s.sqrt(), im: 0.0 };
      let mut p = u;
      for m in self.moments.iter_mut() { *m += p; p = p * u; }
      self.corr[0] += z;
      self.corr[1] += u.scale(s);
      self.corr[2] += z * z;
      self.corr[3] += u * u * z;
      let t = (z.arg() / std::f64::consts::TAU).rem_euclid(1.0);
      self.sectors[((t * SECTORS as f64) as usize).min(SECTORS - 1)] += 1.0;
    }
  }
  fn merge(&mut self, o: &Stats) {
    self.n += o.n;
    self.sq += o.sq;
    for (a, b) in self.moments.iter_mut().zip(&o.moments) { *a += *b; }
    for (a, b) in self.corr.iter_mut().zip(&o.corr) { *a += *b; }
    for (a, b) in self.sectors.iter_mut().zip(&o.sectors) { *a += *b; }
  }
  fn judge(&self, who: &str, k: usize, units: usize, tol: f64) -> Case {
    let (want, _) = law(k, units);
    let mean = self.sq / self.n;
    ensure!((mean / want - 1.0).abs() < tol, "{}: mean squared magnitude {} over {} seeds, expected {}", who, mean, self.n, want);
    for (m, v) in self.moments.iter().enumerate() {
      ensure!(v.abs() / self.n < tol, "{}: phases are not uniform over {} seeds: mean of e^({} i phase) is {}", who, self.n, m + 1, v.scale(1.0 / self.n));
    }
    let rms = want.sqrt();
    for (v, d) in self.corr.iter().zip([rms, want, want, rms]) {
      ensure!(v.abs() / self.n < 2.0 * tol * d, "{}: phase and magnitude are not independent over {} seeds: {}", who, self.n, v.scale(1.0 / self.n));
    }
    for (s, c) in self.sectors.iter().enumerate() {
      let f = c / self.n * SECTORS as f64;
      ensure!((f - 1.0).abs() < 4.0 * tol, "{}: sector {} of {} gets {} of its share of phases", who, s, SECTORS, f);
    }
    Ok(())
  }
}

fn draw<T: Num>(m: &InitMethod, k: usize, n: usize, s: u64) -> Result<C, String> {
  let mut seed = s as u128;
  let z: T = m.gen(&mut seed);
  let z = z.to();
  ensure!(z.finite(), "{} {}({}): seed {} draws {}", T::NAME, METHODS[k], n, s, z);
  if let (_, Some(r)) = law(k, n) {
    ensure!(z.abs() <= r * (1.0 + 4.0 * T::EPS), "{} {}({}): seed {} draws {} of magnitude {} above {}", T::NAME, METHODS[k], n, s, z, z.abs(), r);
  }
  Ok(z)
}

fn sweep<T: Num>(r: &Run, k: usize, n: usize, stride: u64, count: u64, tol: f64) {
  let all = Mutex::new(Stats::default());
  let chunk = (count / 512).max(1);
  let name = format!("{}-{}({})", T::NAME, METHODS[k], n);
  r.group(&name, (count + chunk - 1) / chunk, |i, st| {
    let m = method(k, n);
    let mut loc = Stats::default();
    let hi = ((i + 1) * chunk).min(count);
    for j in i * chunk..hi { loc.add(draw::<T>(&m, k, n, j * stride)?); }
    st.states += hi - i * chunk;
    st.step(hi - i * chunk);
    all.lock().unwrap().merge(&loc);
    Ok(())
  });
  let t = all.into_inner().unwrap();
  r.serial(&format!("{}-law", name), 1, |_, st| {
    st.trace();
    if t.n == 0.0 { return Ok(()) } // replay of another group
    st.sample(|| format!("{} over {} seeds: mean |z|^2 = {}", name, t.n, t.sq / t.n));
    st.outcome(t.sq.to_bits());
    t.judge(&name, k, n, tol)
  });
}

fn expected<T: Num>(k: usize, n: usize, seed: u128, count: usize) -> (Vec<C>, u128) {
  let m = method(k, n);
  let mut s = seed;
  ((0..count).map(|_| m.gen::<T>(&mut s).to()).collect(), s)
}

fn dense<T: Num>(k: usize, n: usize, inputs: usize, units: usize, seed: u128, st: &mut Local) -> Case {
  let who = format!("{} dense layer {}x{} {}({}) seed {}", T::NAME, inputs, units, METHODS[k], n, seed);
  let mut s = seed;
  let l = DenseCLayer::<T>::init(IOShape::Scalar(inputs), units, ComplexActFunc::None, method(k, n), &mut s).map_err(|e| format!("{}: {:?}", who, e))?;
  let (want, end) = expected::<T>(k, n, seed, inputs * units);
  ensure!(s == end, "{}: seed left at {}, {} draws leave it at {}", who, s, inputs * units, end);
  ensure!(l.params_len() == (inputs * units, units), "{}: parameter count {:?}", who, l.params_len());
  let probe = |x: Vec<C>| -> Result<Vec<C>, String> {
    match l.forward(&IOType::Scalar(vec_of::<T>(&x))) { Ok(IOType::Scalar(v)) => Ok(vec_to(&v)), _ => Err(format!("{}: no output", who)) }
  };
  let b = probe(vec![ZERO; inputs])?;
  ensure!(b == vec![ZERO; units], "{}: biases {:?}", who, b);
  st.step(1);
  for j in 0..inputs {
    let mut x = vec![ZERO; inputs];
    x[j] = ONE;
    let y = probe(x)?;
    st.step(1);
    for u in 0..units { ensure!((y[u] - want[u * inputs + j]).abs() <= 16.0 * T::EPS * want[u * inputs + j].abs(), "{}: weight [{}][{}] is {}, draw number {} is {}", who, u, j, y[u], u * inputs + j, want[u * inputs + j]); }
  }
  st.state(); st.trace(); st.outcome(end);
  Ok(())
}

fn conv<T: Num>(k: usize, n: usize, ch: usize, filters: usize, ks: [usize; 2], seed: u128, st: &mut Local) -> Case {
  let who = format!("{} convolutional layer {} channels {} filters {:?} {}({}) seed {}", T::NAME, ch, filters, ks, METHODS[k], n, seed);
  let mut s = seed;
  let l = ConvCLayer::<T>::init(IOShape::Matrix(ch), filters, ks, ComplexActFunc::None, method(k, n), &mut s).map_err(|e| format!("{}: {:?}", who, e))?;
  let area = ks[0] * ks[1];
  let (want, end) = expected::<T>(k, n, seed, ch * filters * area);
  ensure!(s == end, "{}: seed left at {}, {} draws leave it at {}", who, s, ch * filters * area, end);
  ensure!(l.params_len() == (ch * filters * area, filters), "{}: parameter count {:?}", who, l.params_len());
  let probe = |x: Vec<C>| -> Result<Vec<C>, String> {
    let maps: Vec<Matrix<T>> = x.chunks(area).map(|m| Matrix::from_body(vec_of::<T>(m), ks)).collect();
    match l.forward(&IOType::Matrix(maps)) { Ok(IOType::Matrix(v)) => Ok(v.iter().map(|m| m.get_body()[0].to()).collect()), _ => Err(format!("{}: no output", who)) }
  };
  let b = probe(vec![ZERO; ch * area])?;
  ensure!(b == vec![ZERO; filters], "{}: biases {:?}", who, b);
  for j in 0..ch * area {
    let mut x = vec![ZERO; ch * area];
    x[j] = ONE;
    let y = probe(x)?;
    st.step(1);
    for f in 0..filters { ensure!((y[f] - want[f * ch * area + j]).abs() <= 16.0 * T::EPS * want[f * ch * area + j].abs(), "{}: kernel entry {} of filter {} is {}, draw number {} is {}", who, j, f, y[f], f * ch * area + j, want[f * ch * area + j]); }
  }
  st.state(); st.trace(); st.outcome(end);
  Ok(())
}

fn main() {
  run("C08", &["over a strided subset of the generator states (quick) the laws are checked to 0.03 percent (0.15 for the further unit counts), over an eighth of all states (thorough) to 0.02 percent"], |r| {
    let inv = inverse();
    // special generator states: the draws inside one initialisation hit the ends of the range
    let w = if r.thorough { 20000u64 } else { 2000 };
    let units = [1usize, 2, 3, 7, 64, 784, 1_000_000];
    r.group("special-states", 2 * w * 4, |i, st| {
      let mut p = Pick(i);
      let back = p.of(4);
      let j = p.0;
      let mut s = if j < w { j } else { P - 1 - (j - w) };
      for _ in 0..back { s = prev(s, inv); }
      for k in 0..5 {
        for n in units {
          draw::<Cf32>(&method(k, n), k, n, s)?;
          draw::<Cf64>(&method(k, n), k, n, s)?;
          st.step(2);
        }
      }
      st.state(); st.trace();
      Ok(())
    });
    // seeds outside the generator's own range
    r.group("wide-seeds", 128 * 5, |i, st| {
      let mut p = Pick(i);
      let k = p.of(5);
      let bit = p.of(128);
      for d in -2i128..=2 {
        let seed = (1u128 << bit).wrapping_add(d as u128);
        let (mut s, mut t) = (seed, seed % P as u128);
        let a: Cf64 = method(k, 3).gen(&mut s);
        let b: Cf64 = method(k, 3).gen(&mut t);
        ensure!(a == b && s == t && a.to().finite(), "{}: seed {} draws {}, its remainder draws {}", METHODS[k], seed, a, b);
        let a: Cf32 = method(k, 3).gen(&mut s);
        ensure!(a.to().finite(), "{}: after seed {} draws {}", METHODS[k], seed, a);
        st.step(3);
      }
      st.state(); st.trace();
      Ok(())
    });
    // the laws
    for k in 0..5 {
      let (stride, count, tol) = if r.thorough { (8, P / 8, 0.0002) } else { (127, P / 127, 0.0003) };
      sweep::<Cf32>(r, k, 1, stride, count, tol);
      sweep::<Cf64>(r, k, 1, stride, count, tol);
      let more: Vec<usize> = if r.thorough { (2..=40).chain([64, 100, 128, 256, 784, 1000, 4096, 1_000_000]).collect() } else { vec![2, 3, 5, 8, 10, 16, 50, 100, 784, 100_000] };
      for n in more {
        let (stride, count) = if r.thorough { (509, P / 509) } else { (7919, P / 7919) };
        sweep::<Cf32>(r, k, n, stride, count, 0.0015);
        sweep::<Cf64>(r, k, n, stride, count, 0.0015);
      }
    }
    // layers are built from consecutive draws
    let d = if r.thorough { 8usize } else { 5 };
    let seeds = [0u128, 1, 42, 12345, prev(0, inv) as u128, prev(prev(0, inv), inv) as u128, u128::MAX];
    r.group("dense-layers", (d * d * 5 * 3 * seeds.len()) as u64, |i, st| {
      let mut p = Pick(i);
      let (inputs, units, k, n, seed) = (p.range(1, d), p.range(1, d), p.of(5), *p.from(&[1usize, 4, 9]), *p.from(&seeds));
      dense::<Cf32>(k, n, inputs, units, seed, st)?;
      dense::<Cf64>(k, n, inputs, units, seed, st)
    });
    let e = edges(2049);
    r.group("dense-sizes", (e.len() * 5) as u64, |i, st| {
      let mut p = Pick(i);
      let (n, k) = (*p.from(&e), p.of(5));
      dense::<Cf32>(k, n, n, 3, 7, st)?;
      dense::<Cf64>(k, n, 3, n, 7, st)?;
      if n > 257 { return Ok(()) }
      dense::<Cf32>(k, n, n / 2 + 1, n, 7, st)
    });
    let d = if r.thorough { 4usize } else { 3 };
    r.group("conv-layers", (d * d * d * d * 5 * 3) as u64, |i, st| {
      let mut p = Pick(i);
      let (ch, f, ks, k, seed) = (p.range(1, d), p.range(1, d), [p.range(1, d), p.range(1, d)], p.of(5), *p.from(&[1u128, 99991, u128::MAX]));
      conv::<Cf32>(k, 5, ch, f, ks, seed, st)?;
      conv::<Cf64>(k, 5, ch, f, ks, seed, st)
    });
    let big = [(1, 16, [3, 3]), (16, 2, [3, 3]), (1, 1, [9, 9]), (3, 32, [5, 5]), (33, 1, [1, 2]), (2, 65, [2, 1]), (8, 8, [4, 3]), (1, 1, [33, 33]), (257, 2, [1, 1]), (1, 1025, [1, 1]), (1025, 1, [1, 1])];
    r.group("conv-sizes", big.len() as u64 * 5, |i, st| {
      let mut p = Pick(i);
      let (ch, f, ks) = *p.from(&big);
      let k = p.of(5);
      conv::<Cf32>(k, 5, ch, f, ks, 3, st)?;
      conv::<Cf64>(k, 5, ch, f, ks, 3, st)
    });
    r.group("wrong-shape", 2, |i, st| {
      let mut s = 5u128;
      st.state(); st.step(1);
      if i == 0 { ensure!(DenseCLayer::<Cf32>::init(IOShape::Matrix(2), 2, ComplexActFunc::None, method(0, 1), &mut s).is_err(), "a dense layer on feature maps was built"); }
      else { ensure!(ConvCLayer::<Cf32>::init(IOShape::Scalar(2), 2, [1, 1], ComplexActFunc::None, method(0, 1), &mut s).is_err(), "a convolutional layer on a vector was built"); }
      Ok(())
    });
  });
}
