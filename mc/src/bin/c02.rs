//! C02: polar view, conjugate, constants and ordering.
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::Complex;
use std::cmp::Ordering::*;

fn numbers(thorough: bool) -> Vec<C> {
  let mut v = Vec::new();
  let mags: &[f64] = &[1.0, 0.5, 2.0, 3.25, 10.0, 1e-3, 1e3, 1e-6, 1e6, 1e-12, 1e12, 1e-15, 1e15];
  let steps = if thorough { 7200 } else { 720 };
  for m in mags {
    for k in 0..steps {
      // half-step offset keeps the list away from the axes, which are added exactly below
      let p = -std::f64::consts::PI + (k as f64 + 0.5) * 2.0 * std::f64::consts::PI / steps as f64;
      v.push(C::polar(*m, p));
    }
    for (x, y) in [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (1.0, 1.0), (-1.0, 1.0), (1.0, -1.0), (-1.0, -1.0)] {
      // `+ 0.0` removes negative zeros
      v.push(c(x * m + 0.0, y * m + 0.0));
    }
  }
  let k = [0.0, 1.0, -1.0, 3.0, -4.0, 0.125, -7.5, 1e5, -1e-5];
  for a in k { for b in k { v.push(c(a, b)); } }
  v
}

fn one<T: Num>(z: C, st: &mut Local) -> Case {
  let t = T::of(z);
  let z = t.to();
  let e = T::EPS;
  let n = T::NAME;
  let re = real::<T>(t.re());
  let im = real::<T>(t.im());
  ensure!(re == z.re && im == z.im, "{} parts of {}: re={} im={}", n, z, re, im);
  let norm = real::<T>(t.norm());
  ensure!((norm - z.abs()).abs() <= 8.0 * e * z.abs(), "{} |{}| = {}, expected {}", n, z, norm, z.abs());
  let sq = real::<T>(t.norm_sq());
  ensure!((sq - z.sq()).abs() <= 8.0 * e * z.sq(), "{} |{}|^2 = {}, expected {}", n, z, sq, z.sq());
  let cj = t.conj().to();
  ensure!(cj.re == z.re && cj.im == -z.im, "{} conj {} = {}", n, z, cj);
  let ph = real::<T>(t.phase());
  ensure!(ph.is_finite(), "{} phase of {} = {}", n, z, ph);
  if z != ZERO {
    ensure!((ph - z.arg()).abs() <= 8.0 * e * z.arg().abs().max(1.0), "{} phase of {} = {}, expected {}", n, z, ph, z.arg());
  }
  let back = T::newe(t.norm(), t.phase()).to();
  ensure!((back - z).abs() <= 16.0 * e * z.abs(), "{} {} rebuilt from magnitude {} and phase {} = {}", n, z, norm, ph, back);
  let again = T::new(t.re(), t.im()).to();
  ensure!(again == z, "{} new(re, im) of {} = {}", n, z, again);
  // through the parts of other numbers: the imaginary part as a magnitude and so on
  let pol = T::newe(t.re(), t.im());
  if z.re.abs() <= 1e6 && z.im.abs() <= 100.0 {
    let want = C::polar(z.re, z.im);
    ensure!((pol.to() - want).abs() <= 16.0 * e * z.re.abs().max(1e-30) * z.im.abs().max(1.0), "{} newe({}, {}) = {}, expected {}", n, z.re, z.im, pol.to(), want);
  }
  st.step(9); st.trace();
  st.outcome((norm.to_bits(), ph.to_bits()));
  Ok(())
}

fn order<T: Num>(a: C, b: C, st: &mut Local) -> Case {
  let (x, y) = (T::of(a), T::of(b));
  let want = a.sq().partial_cmp(&b.sq()).unwrap();
  let got = [x < y, x <= y, x > y, x >= y, x.partial_cmp(&y) == Some(want)];
  let exp = [want == Less, want != Greater, want == Greater, want != Less, true];
  st.step(5); st.trace();
  st.outcome(format!("{:?}", want));
  ensure!(got == exp, "{} comparing {} with {}: [<,<=,>,>=,partial_cmp ok] = {:?}, expected {:?}", T::NAME, a, b, got, exp);
  Ok(())
}

/// The operators tell the same story about numbers whose magnitudes may or may not differ by a last bit.
fn agree<T: Num>(x: T, y: T, st: &mut Local) -> Case {
  let o = x.partial_cmp(&y);
  let back = y.partial_cmp(&x);
  ensure!(o.is_some() && back == o.map(|o| o.reverse()), "{} comparing {} with {}: {:?}, the other way {:?}", T::NAME, x.to(), y.to(), o, back);
  let o = o.unwrap();
  for (p, q, o) in [(x, y, o), (y, x, o.reverse())] {
    let (got, exp) = ([p < q, p <= q, p > q, p >= q], [o == Less, o != Greater, o == Greater, o != Less]);
    ensure!(got == exp, "{} comparing {} with {}: partial_cmp {:?} but [<,<=,>,>=] = {:?}", T::NAME, p.to(), q.to(), o, got);
  }
  st.step(10); st.trace();
  st.outcome(format!("{:?}", o));
  Ok(())
}

fn constants<T: Num>(k: u64, max: u64, st: &mut Local) -> Case {
  st.step(3); st.trace();
  ensure!(T::unit().to() == ONE, "{} one = {}", T::NAME, T::unit().to());
  ensure!(T::iunit().to() == I, "{} i = {}", T::NAME, T::iunit().to());
  ensure!(T::default().to() == ZERO, "{} default = {}", T::NAME, T::default().to());
  if k <= max {
    let v = T::usize_to_complex(k as usize).to();
    ensure!(v == c(k as f64, 0.0), "{} from count {} = {}", T::NAME, k, v);
  }
  Ok(())
}

fn main() {
  run("C02", &["magnitudes between 1e-15 and 1e15, for the ordering between 2^-60 and 2^60", "negative zeros excluded where the phase branch cut depends on them"], |r| {
    let v = numbers(r.thorough);
    r.group("numbers", v.len() as u64, |i, st| {
      let z = v[i as usize];
      st.state();
      st.sample(|| format!("z={}", z));
      one::<Cf32>(z, st)?;
      one::<Cf64>(z, st)
    });
    let k: Vec<f64> = if r.thorough { (-12..=12).map(|x| x as f64).chain([0.5, -0.25, 100.0, -1000.0]).collect() }
      else { vec![0.0, 1.0, -1.0, 2.0, -3.0, 3.0, 4.0, -4.0, 5.0, -5.0, 0.5, 12.0, 13.0] };
    let w: Vec<C> = k.iter().flat_map(|a| k.iter().map(move |b| c(*a, *b))).collect();
    let n = w.len() as u64;
    r.group("order", n * n, |i, st| {
      let (a, b) = (w[(i / n) as usize], w[(i % n) as usize]);
      st.state();
      st.sample(|| format!("a={} b={}", a, b));
      order::<Cf32>(a, b, st)?;
      order::<Cf64>(a, b, st)
    });
    // the same order at every scale, and between neighbouring magnitudes
    let near = |k: i32| 1.0 + (2.0f64).powi(-k);
    let shape = [c(1.0, 0.0), c(0.0, -1.0), c(3.0, 4.0), c(-4.0, 3.0), c(5.0, 0.0), c(0.0, 5.0), c(-1.0, 1.0), c(2.0, -1.0), c(-1.0, -2.0)];
    r.group("order-scales", 121 * 121 * 9 * 9, |i, st| {
      let mut p = Pick(i);
      let (x, y, a, b) = (p.of(121) as i32 - 60, p.of(121) as i32 - 60, *p.from(&shape), *p.from(&shape));
      if (x - y).abs() > 4 && (a != shape[0] || b != shape[2]) { return Ok(()) }
      st.state();
      let (a, b) = (a.scale((2.0f64).powi(x)), b.scale((2.0f64).powi(y)));
      order::<Cf32>(a, b, st)?;
      order::<Cf64>(a, b, st)
    });
    r.group("order-neighbours", 121 * 4 * 46 * 4, |i, st| {
      let mut p = Pick(i);
      let (x, a, k, turn) = (p.of(121) as i32 - 60, *p.from(&shape[..4]), p.of(46) as i32 + 3, p.of(4));
      let a = a.scale((2.0f64).powi(x));
      let b = a.scale(near(k));
      let b = if turn & 1 == 1 { c(-b.im, b.re) } else { b };
      let (a, b) = if turn & 2 == 2 { (b, a) } else { (a, b) };
      st.state();
      if k <= 20 { order::<Cf32>(Cf32::of(a).to(), Cf32::of(b).to(), st)?; }
      order::<Cf64>(a, b, st)
    });
    r.group("order-last-bits", 121 * 9 * 9 * 9, |i, st| {
      let mut p = Pick(i);
      let (x, a, up, side) = (p.of(121) as i32 - 60, *p.from(&shape), p.of(9) as i64 - 4, p.of(9) as i64 - 4);
      let a = a.scale((2.0f64).powi(x));
      let move64 = |v: f64, n: i64| if v == 0.0 { v } else { f64::from_bits((v.to_bits() as i64 + n) as u64) };
      let move32 = |v: f32, n: i64| if v == 0.0 { v } else { f32::from_bits((v.to_bits() as i64 + n) as u32) };
      st.state();
      agree(Cf64::new(a.re, a.im), Cf64::new(move64(a.re, up), move64(a.im, side)), st)?;
      agree(Cf64::new(a.re, a.im), Cf64::new(move64(a.im, up), move64(a.re, side)), st)?;
      let (u, v) = (a.re as f32, a.im as f32);
      agree(Cf32::new(u, v), Cf32::new(move32(u, up), move32(v, side)), st)?;
      agree(Cf32::new(u, v), Cf32::new(move32(v, up), move32(u, side)), st)
    });
    let mut counts: Vec<u64> = (0..70000).collect();
    counts.extend((17..=53).flat_map(|p| [(1u64 << p) - 1, 1 << p]));
    r.group("counts", counts.len() as u64, |i, st| {
      st.state();
      constants::<Cf32>(counts[i as usize], 1 << 24, st)?;
      constants::<Cf64>(counts[i as usize], 1 << 53, st)
    });
  });
}
