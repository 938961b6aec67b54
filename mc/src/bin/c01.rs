//! C01: complex arithmetic in every spelling and both precisions.
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use renplex::math::cfloat::{Cf32, Cf64};
use std::ops::{Add, Div, Mul, Sub};

fn components(thorough: bool) -> Vec<f64> {
  let mut v = vec![0.0, 1.0, -1.0, 2.0, -3.0, 0.5, -0.25, 7.0, 10.0, -100.0, 0.1, -2.7, 1.41421356, 1e3, -1e-3, 1e6, 1e-6];
  if thorough {
    v.extend([-2.0, 3.0, -5.0, 0.75, -0.125, 1024.0, -4096.0, 0.3333333, -0.7071068, 3.1415927, -2.7182818, 16777216.0, -8388607.0, 1e9, -1e9, 1e-9, 1e12, -1e-12, 123.456, -0.0078125, 255.0, -1e7, 6.02e5]);
  }
  v
}

/// Gaussian-integer-like operands whose products are exact in both precisions.
fn exact_operands() -> Vec<C> {
  let k = [0.0, 1.0, -1.0, 2.0, -2.0, 3.0, -5.0, 0.5, -0.25, 12.0, 255.0];
  k.iter().flat_map(|a| k.iter().map(move |b| c(*a, *b))).collect()
}

const OPS: [&str; 4] = ["+", "-", "*", "/"];

fn reference(op: usize, a: C, b: C) -> C {
  match op { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b }
}
fn scale(op: usize, a: C, b: C) -> f64 {
  match op { 0 | 1 => a.abs() + b.abs(), 2 => a.abs() * b.abs(), _ => a.abs() / b.abs() }
}

fn apply<T: Num>(op: usize, form: usize, a: T, b: T) -> T
where for<'x> &'x T: Add<&'x T, Output = T> + Sub<&'x T, Output = T> + Mul<&'x T, Output = T> + Div<&'x T, Output = T> {
  match (form, op) {
    (0, 0) => a + b, (0, 1) => a - b, (0, 2) => a * b, (0, _) => a / b,
    (1, 0) => &a + &b, (1, 1) => &a - &b, (1, 2) => &a * &b, (1, _) => &a / &b,
    (_, o) => {
      let mut r = a;
      match o { 0 => r += b, 1 => r -= b, 2 => r *= b, _ => r /= b }
      r
    }
  }
}
const FORMS: [&str; 3] = ["by value", "by reference", "compound assignment"];

fn pair<T: Num>(a: C, b: C, exact: bool, st: &mut Local) -> Case
where for<'x> &'x T: Add<&'x T, Output = T> + Sub<&'x T, Output = T> + Mul<&'x T, Output = T> + Div<&'x T, Output = T> {
  let (ta, tb) = (T::of(a), T::of(b));
  let (ra, rb) = (ta.to(), tb.to());
  for op in 0..4 {
    if op == 3 && b == ZERO { continue }
    let want = reference(op, ra, rb);
    let pow2 = { let n = rb.sq(); n > 0.0 && n.log2().fract() == 0.0 };
    for form in 0..3 {
      let got = apply::<T>(op, form, ta, tb).to();
      st.step(1);
      let ok = if exact && (op != 3 || pow2) { got == want }
        else { got.finite() && (got - want).abs() <= 16.0 * T::EPS * scale(op, ra, rb) };
      ensure!(ok, "{} {} {} {} ({}) = {}, expected {}", T::NAME, ra, OPS[op], rb, FORMS[form], got, want);
      if form == 0 { st.outcome((got.re.to_bits(), got.im.to_bits())); }
    }
  }
  // operand aliasing: the same variable on both sides
  for op in 0..4 {
    if op == 3 && a == ZERO { continue }
    let want = reference(op, ra, ra);
    for form in 0..3 {
      let got = apply::<T>(op, form, ta, ta).to();
      st.step(1);
      ensure!((got - want).abs() <= 16.0 * T::EPS * scale(op, ra, ra), "{} {} {} itself ({}) = {}, expected {}", T::NAME, ra, OPS[op], FORMS[form], got, want);
    }
  }
  st.trace();
  Ok(())
}

/// All operand sequences of compound assignments: the history matters only through the value.
fn chain<T: Num>(i: u64, st: &mut Local) -> Case
where for<'x> &'x T: Add<&'x T, Output = T> + Sub<&'x T, Output = T> + Mul<&'x T, Output = T> + Div<&'x T, Output = T> {
  let vals = [c(1.0, 0.0), c(0.0, 1.0), c(1.0, -1.0), c(-2.0, 0.0), c(0.0, -0.5)];
  let mut p = Pick(i);
  let mut r = *p.from(&vals);
  let mut t = T::of(r);
  let mut text = format!("{}", r);
  for _ in 0..4 {
    let op = p.of(4);
    let v = *p.from(&vals);
    t = apply::<T>(op, 2, t, T::of(v));
    r = reference(op, r, v);
    st.step(1);
    text += &format!(" {}= {}", OPS[op], v);
    // dyadic values with unit-power-of-two divisors stay exact
    ensure!(t.to() == r, "{}: {} gives {}, expected {}", T::NAME, text, t.to(), r);
  }
  st.state(); st.trace();
  Ok(())
}

fn zero_division<T: Num>(a: C, z: C, form: usize, st: &mut Local) -> Case
where for<'x> &'x T: Add<&'x T, Output = T> + Sub<&'x T, Output = T> + Mul<&'x T, Output = T> + Div<&'x T, Output = T> {
  st.step(1); st.state(); st.trace();
  match guard(|| apply::<T>(3, form, T::of(a), T::of(z))) {
    Ok(v) => Err(format!("{} {} / {} ({}) returned {} instead of panicking", T::NAME, a, z, FORMS[form], v.to())),
    Err(_) => Ok(()),
  }
}

fn main() {
  run("C01", &["operands whose squared magnitudes neither overflow nor underflow the component type", "tolerance 16 ulp of the result's magnitude; exact for dyadic operands"], |r| {
    let k = components(r.thorough);
    let ops: Vec<C> = k.iter().flat_map(|a| k.iter().map(move |b| c(*a, *b))).collect();
    let n = ops.len() as u64;
    r.group("pairs", n * n, |i, st| {
      let (a, b) = (ops[(i / n) as usize], ops[(i % n) as usize]);
      st.state();
      st.sample(|| format!("a={} b={}", a, b));
      pair::<Cf32>(a, b, false, st)?;
      pair::<Cf64>(a, b, false, st)
    });
    let ex = exact_operands();
    let n = ex.len() as u64;
    r.group("exact", n * n, |i, st| {
      let (a, b) = (ex[(i / n) as usize], ex[(i % n) as usize]);
      st.state();
      st.sample(|| format!("a={} b={}", a, b));
      pair::<Cf32>(a, b, true, st)?;
      pair::<Cf64>(a, b, true, st)
    });
    let depth = 5 * 20u64.pow(4);
    r.group("chains-cf32", depth, |i, st| chain::<Cf32>(i, st));
    r.group("chains-cf64", depth, |i, st| chain::<Cf64>(i, st));
    let zeros = [c(0.0, 0.0), c(-0.0, 0.0), c(0.0, -0.0), c(-0.0, -0.0)];
    r.group("zero-division", ex.len() as u64 * 4 * 3, |i, st| {
      let mut p = Pick(i);
      let a = *p.from(&ex);
      let z = *p.from(&zeros);
      let f = p.of(3);
      zero_division::<Cf32>(a, z, f, st)?;
      zero_division::<Cf64>(a, z, f, st)
    });
  });
}
