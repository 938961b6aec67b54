//! C10: activation derivatives are the Wirtinger derivatives of the activations.
use mc::actf::*;
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use renplex::math::cfloat::{Cf32, Cf64};

fn judge<T: Num>(k: usize, z: C, what: &str, got: C, want: C) -> Case {
  let ok = match k {
    NONE | RELU | ZRELU => got == want,
    // relative to the size of the derivative, which is 1/|z|
    MODZ | CARD => got.finite() && (got - want).abs() <= 64.0 * T::EPS * (4.0 / z.abs()),
    _ => near(got, want, 1.0, if T::EPS > 1e-10 { 2e-6 } else { 2e-13 }),
  };
  ensure!(ok, "{} {}: {} at {} = {}, expected {}", T::NAME, ACT_NAMES[k], what, z, got, want);
  Ok(())
}

fn point<T: Forms>(k: usize, z: C, st: &mut Local) -> Case {
  let zt = T::of(z);
  let z = zt.to();
  if !smooth(k, z) { return Ok(()) }
  let (d, dc) = d_act(k, z);
  // the closed form of the reference is itself the limit of its difference quotients
  let (dn, dcn) = d_num(k, z);
  let scale = if k == MODZ || k == CARD { 1.0 / z.abs() } else { 1.0 };
  let far = match k { RELU | ZRELU => z.re.abs() > 1e-5 && z.im.abs() > 1e-5, _ => z.re.abs() < 1e5 && z.im.abs() < 1e5 || k == MODZ || k == CARD };
  if far && z.re.abs() < 1e9 && z.im.abs() < 1e9 || (k == MODZ || k == CARD) {
    let t = if k == NONE || k == RELU || k == ZRELU { 1e-9 * (1.0 + z.abs()) } else { 2e-8 };
    assert!((dn - d).abs() <= t * scale && (dcn - dc).abs() <= t * scale, "reference of {} at {}: {} {} against {} {}", ACT_NAMES[k], z, d, dc, dn, dcn);
  }
  let (ds, dcs) = (T::ds(&ACTS[k], zt), T::dcs(&ACTS[k], zt));
  for (f, (a, b)) in FORMS.iter().zip(ds.into_iter().zip(dcs)) {
    judge::<T>(k, z, &format!("derivative ({})", f), a.to(), d)?;
    judge::<T>(k, z, &format!("conjugate derivative ({})", f), b.to(), dc)?;
  }
  judge::<T>(k, z, "derivative (generic)", zt.d_activate(&ACTS[k]).to(), d)?;
  judge::<T>(k, z, "conjugate derivative (generic)", zt.d_conj_activate(&ACTS[k]).to(), dc)?;
  let mut b = [zt];
  T::d_activate_mut(&mut b, &ACTS[k]);
  judge::<T>(k, z, "derivative (generic slice)", b[0].to(), d)?;
  let mut b = [zt];
  T::d_conj_activate_mut(&mut b, &ACTS[k]);
  judge::<T>(k, z, "conjugate derivative (generic slice)", b[0].to(), dc)?;
  st.step(10); st.trace();
  st.outcome((k, d.re.to_bits(), dc.re.to_bits()));
  Ok(())
}

fn main() {
  run("C10", &["points where the activation is differentiable, magnitudes 1e-12 to 1e12", "sigmoid and tanh to 2e-6 / 2e-13 absolute (the sigmoid saturates by design)"], |r| {
    let pts = plane(r.thorough);
    r.group("plane", pts.len() as u64, |i, st| {
      let z = pts[i as usize];
      st.state();
      st.sample(|| format!("{}", z));
      for k in 0..7 { point::<Cf32>(k, z, st)?; point::<Cf64>(k, z, st)?; }
      Ok(())
    });
    let n = if r.thorough { 3000u64 } else { 600 };
    r.group("fine-grid", n * n, |i, st| {
      let mut p = Pick(i);
      let f = |a: usize| (a as f64 + 0.5) / n as f64 * 16.0 - 8.0;
      let z = c(f(p.of(n as usize)), f(p.of(n as usize)));
      st.state();
      for k in [MODZ, SIGMOID, TANH, RELU, ZRELU, CARD] { point::<Cf32>(k, z, st)?; point::<Cf64>(k, z, st)?; }
      Ok(())
    });
    // slices: every position gets its own derivative, all lengths
    r.group("slices", 7 * 70, |i, st| {
      let mut p = Pick(i);
      let (k, n) = (p.of(7), p.of(70));
      let z: Vec<C> = (0..n).map(|j| generic(0, j).scale(3.0)).collect();
      let (mut a, mut ac, mut b, mut bc) = (vec_of::<Cf32>(&z), vec_of::<Cf32>(&z), vec_of::<Cf64>(&z), vec_of::<Cf64>(&z));
      ACTS[k].compute_d_cf32(&mut a);
      ACTS[k].compute_d_conj_cf32(&mut ac);
      ACTS[k].compute_d_cf64(&mut b);
      ACTS[k].compute_d_conj_cf64(&mut bc);
      for j in 0..n {
        let z32 = Cf32::of(z[j]).to();
        if !smooth(k, z32) || !smooth(k, z[j]) { continue }
        judge::<Cf32>(k, z32, &format!("derivative (position {} of a slice)", j), a[j].to(), d_act(k, z32).0)?;
        judge::<Cf32>(k, z32, &format!("conjugate derivative (position {} of a slice)", j), ac[j].to(), d_act(k, z32).1)?;
        judge::<Cf64>(k, z[j], &format!("derivative (position {} of a slice)", j), b[j].to(), d_act(k, z[j]).0)?;
        judge::<Cf64>(k, z[j], &format!("conjugate derivative (position {} of a slice)", j), bc[j].to(), d_act(k, z[j]).1)?;
      }
      st.state(); st.trace(); st.step(4);
      Ok(())
    });
    // saturation: every exponent, the derivative stays finite and right
    r.group("saturation", 256 * 64, |i, st| {
      let mut p = Pick(i);
      let e = p.of(256) as u32;
      let m = p.of(64) as u32;
      let x = f32::from_bits(e << 23 | m << 17);
      if !x.is_finite() || x == 0.0 { return Ok(()) }
      for k in [SIGMOID, TANH, RELU, ZRELU, NONE] {
        for z in [Cf32 { x, y: 1.5 }, Cf32 { x: -1.5, y: x }, Cf32 { x: -x, y: x }] {
          let (d, dc) = d_act(k, z.to());
          if !smooth(k, z.to()) { continue }
          judge::<Cf32>(k, z.to(), "derivative", z_d(k, z), d)?;
          judge::<Cf32>(k, z.to(), "conjugate derivative", z_dc(k, z), dc)?;
          let w = Cf64::of(z.to());
          judge::<Cf64>(k, w.to(), "derivative", ACTS[k].compute_d_val_cf64(&w).to(), d)?;
          judge::<Cf64>(k, w.to(), "conjugate derivative", ACTS[k].compute_d_conj_val_cf64(&w).to(), dc)?;
          st.step(4);
        }
      }
      st.state(); st.trace();
      Ok(())
    });
  });
}

fn z_d(k: usize, z: Cf32) -> C { ACTS[k].compute_d_val_cf32(&z).to() }
fn z_dc(k: usize, z: Cf32) -> C { ACTS[k].compute_d_conj_val_cf32(&z).to() }
