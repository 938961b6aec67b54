//! C09: activation values.
use mc::actf::*;
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use renplex::math::cfloat::{Cf32, Cf64};

fn tol<T: Num>() -> f64 { if T::EPS > 1e-10 { 2e-6 } else { 2e-13 } }

fn judge<T: Num>(k: usize, z: C, got: C, form: &str) -> Case {
  let want = act(k, z);
  let ok = match k {
    NONE | RELU => got == want,
    // on the axes bounding the first quadrant the statement leaves the value open
    ZRELU => if z.re < 0.0 || z.im < 0.0 || (z.re > 0.0 && z.im > 0.0) { got == want } else { got == ZERO || got == z },
    SIGMOID => near(got, want, 1.0, tol::<T>()) && got.re > 0.0 && got.re < 1.0 && got.im > 0.0 && got.im < 1.0,
    MODZ | TANH => near(got, want, 1.0, tol::<T>()),
    _ => near(got, want, 1.0, 8.0 * tol::<T>()),
  };
  ensure!(ok, "{} {} ({}) of {} = {}, expected {}", T::NAME, ACT_NAMES[k], form, z, got, want);
  Ok(())
}

fn point<T: Forms>(k: usize, z: C, st: &mut Local) -> Case {
  let zt = T::of(z);
  let z = zt.to();
  if (k == MODZ || k == CARD) && z == ZERO { return Ok(()) }
  let vals = T::vals(&ACTS[k], zt);
  for (f, v) in FORMS.iter().zip(vals) { judge::<T>(k, z, v.to(), f)?; ensure!(v == vals[0], "{} {} of {}: {} and {} differ", T::NAME, ACT_NAMES[k], z, FORMS[0], f); }
  let v = zt.activate(&ACTS[k]);
  ensure!(v == vals[0], "{} {} of {}: the generic form returns {} instead of {}", T::NAME, ACT_NAMES[k], z, v.to(), vals[0].to());
  let mut b = [zt];
  T::activate_mut(&mut b, &ACTS[k]);
  ensure!(b[0] == vals[0], "{} {} of {}: the generic slice form returns {} instead of {}", T::NAME, ACT_NAMES[k], z, b[0].to(), vals[0].to());
  st.step(5); st.trace();
  st.outcome((k, v.to().re.to_bits(), v.to().im.to_bits()));
  Ok(())
}

fn main() {
  run("C09", &["magnitudes from 1e-12 to 1e12 for the phase-only and cardioid activations", "tolerance 2e-6 / 2e-13 (cardioid 8 times that)"], |r| {
    let pts = plane(r.thorough);
    r.group("plane", pts.len() as u64, |i, st| {
      let z = pts[i as usize];
      st.state();
      st.sample(|| format!("{}", z));
      for k in 0..7 { point::<Cf32>(k, z, st)?; point::<Cf64>(k, z, st)?; }
      Ok(())
    });
    // slices: every position gets its own value, all lengths
    r.group("slices", 7 * 70, |i, st| {
      let mut p = Pick(i);
      let (k, n) = (p.of(7), p.of(70));
      let z: Vec<C> = (0..n).map(|j| generic(0, j).scale(3.0)).collect();
      let mut a = vec_of::<Cf32>(&z);
      let mut b = vec_of::<Cf64>(&z);
      for (j, v) in a.clone().iter().enumerate() { let w = ACTS[k].compute_val_cf32(v); ensure!({ let mut s = a.clone(); ACTS[k].compute_cf32(&mut s); s[j] == w }, "Cf32 {} on a slice of {}: position {}", ACT_NAMES[k], n, j); }
      ACTS[k].compute_cf32(&mut a);
      ACTS[k].compute_cf64(&mut b);
      ensure!(a.len() == n && b.len() == n, "length");
      for j in 0..n {
        judge::<Cf32>(k, Cf32::of(z[j]).to(), a[j].to(), "slice")?;
        judge::<Cf64>(k, z[j], b[j].to(), "slice")?;
      }
      st.state(); st.trace(); st.step(2 + n as u64);
      Ok(())
    });
    // every 32-bit float in either component of the split functions (quick: every 37th)
    let stride: u64 = if r.thorough { 1 } else { 37 };
    let total = (1u64 << 32) / stride;
    let chunk = 1u64 << 16;
    r.group("all-floats", (total + chunk - 1) / chunk, |i, st| {
      let (lo, hi) = (i * chunk, ((i + 1) * chunk).min(total));
      let mut n = 0u64;
      for j in lo..hi {
        let x = f32::from_bits((j * stride) as u32);
        if !x.is_finite() { continue }
        // the other component is an unrelated finite float
        let mut y = f32::from_bits(((j * stride) as u32).wrapping_mul(0x9E3779B1).rotate_left(13));
        if !y.is_finite() { y = 0.25; }
        if x == 0.0 && x.is_sign_negative() || y == 0.0 && y.is_sign_negative() { continue }
        for (k, swap) in [(NONE, false), (SIGMOID, false), (SIGMOID, true), (TANH, false), (TANH, true), (RELU, false), (RELU, true), (ZRELU, false)] {
          let z = if swap { Cf32 { x: y, y: x } } else { Cf32 { x, y } };
          let got = ACTS[k].compute_val_cf32(&z);
          // only the component holding the enumerated float is judged against the reference here
          let (xin, xout) = if swap { (z.y, got.y) } else { (z.x, got.x) };
          let want = match k { NONE => xin as f64, SIGMOID => act(SIGMOID, c(xin as f64, 0.0)).re, TANH => (xin as f64).tanh(), RELU => xin.max(0.0) as f64, _ => if z.x < 0.0 || z.y < 0.0 { 0.0 } else { xin as f64 } };
          let ok = match k {
            SIGMOID => (xout as f64 - want).abs() <= 2e-6 && xout > 0.0 && xout < 1.0,
            TANH => (xout as f64 - want).abs() <= 2e-6,
            ZRELU => xout as f64 == want || (z.x == 0.0 || z.y == 0.0),
            _ => xout as f64 == want,
          };
          if !ok { return Err(format!("Cf32 {} of {} (component {}) = {}, expected {}", ACT_NAMES[k], z, swap as u8, xout, want)) }
          n += 1;
        }
      }
      st.states += hi - lo; st.step(n); st.traces += 1;
      Ok(())
    });
    // 64-bit: every combination of sign, exponent and 24 mantissas in both components
    let m: Vec<u64> = (0..24).map(|i| (i * 0x000A_AAAA_AAAA_AAB7u64) & 0x000F_FFFF_FFFF_FFFF).collect();
    r.group("all-exponents", 2047, |e, st| {
      for &f in &m {
        for s in 0..2u64 {
          let x = f64::from_bits(s << 63 | e << 52 | f);
          let y = f64::from_bits((1 - s) << 63 | ((e * 1031 + 7) % 2047) << 52 | (f ^ 0x000F_0F0F_0F0F_0F0F));
          if x == 0.0 || y == 0.0 { continue }
          for k in [NONE, SIGMOID, TANH, RELU, ZRELU] {
            for z in [c(x, y), c(y, x), c(x, x), c(x.abs(), y.abs())] {
              let got = ACTS[k].compute_val_cf64(&Cf64::of(z)).to();
              judge::<Cf64>(k, z, got, "single value")?;
              st.step(1);
            }
          }
          st.state();
        }
      }
      st.trace();
      Ok(())
    });
  });
}
