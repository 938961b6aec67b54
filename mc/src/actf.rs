//! Reference activation functions and their Wirtinger derivatives, and access to every form
//! in which the crate offers them.
use crate::cx::*;
use crate::num::Num;
use renplex::act::ComplexActFunc;
use renplex::math::cfloat::{Cf32, Cf64};

pub const ACTS: [ComplexActFunc; 7] = [
  ComplexActFunc::None, ComplexActFunc::ModZ, ComplexActFunc::RITSigmoid, ComplexActFunc::RITTanh,
  ComplexActFunc::RITReLU, ComplexActFunc::ZReLU, ComplexActFunc::Cardioid,
];
pub const NONE: usize = 0;
pub const MODZ: usize = 1;
pub const SIGMOID: usize = 2;
pub const TANH: usize = 3;
pub const RELU: usize = 4;
pub const ZRELU: usize = 5;
pub const CARD: usize = 6;
pub const ACT_NAMES: [&str; 7] = ["None", "ModZ", "RITSigmoid", "RITTanh", "RITReLU", "ZReLU", "Cardioid"];

fn sigmoid(x: f64) -> f64 { if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { let e = x.exp(); e / (1.0 + e) } }
fn d_sigmoid(x: f64) -> f64 { let e = (-x.abs()).exp(); e / ((1.0 + e) * (1.0 + e)) }
fn d_tanh(x: f64) -> f64 { let e = (-2.0 * x.abs()).exp(); 4.0 * e / ((1.0 + e) * (1.0 + e)) }
fn step(x: f64) -> f64 { if x > 0.0 { 1.0 } else { 0.0 } }

/// Value of activation `k`.
pub fn act(k: usize, z: C) -> C {
  match k {
    NONE => z,
    MODZ => z.scale(1.0 / z.abs()),
    SIGMOID => c(sigmoid(z.re), sigmoid(z.im)),
    TANH => c(z.re.tanh(), z.im.tanh()),
    RELU => c(z.re.max(0.0), z.im.max(0.0)),
    ZRELU => if z.re < 0.0 || z.im < 0.0 { ZERO } else { z },
    _ => { let u = z.scale(1.0 / z.abs()); u.scale(2.0 * (1.0 + u.re)) }
  }
}

/// Whether the activation is differentiable at `z`.
pub fn smooth(k: usize, z: C) -> bool {
  match k {
    MODZ | CARD => z.re != 0.0 || z.im != 0.0,
    RELU => z.re != 0.0 && z.im != 0.0,
    ZRELU => z.re < 0.0 || z.im < 0.0 || (z.re > 0.0 && z.im > 0.0),
    _ => true,
  }
}

/// The Wirtinger derivative and conjugate derivative of activation `k`, in closed form.
pub fn d_act(k: usize, z: C) -> (C, C) {
  let split = |a: f64, b: f64| (c((a + b) / 2.0, 0.0), c((a - b) / 2.0, 0.0));
  match k {
    NONE => (ONE, ZERO),
    MODZ => {
      let u = z.scale(1.0 / z.abs());
      (c(0.5 / z.abs(), 0.0), -(u * u).scale(0.5 / z.abs()))
    }
    SIGMOID => split(d_sigmoid(z.re), d_sigmoid(z.im)),
    TANH => split(d_tanh(z.re), d_tanh(z.im)),
    RELU => split(step(z.re), step(z.im)),
    ZRELU => if z.re > 0.0 && z.im > 0.0 { (ONE, ZERO) } else { (ZERO, ZERO) },
    _ => {
      // f = 2(1 + cos p)e^{ip} depends on the phase p only:
      // df/dz = f'(p) * dp/dz, dp/dz = 1/(2 i z), dp/dconj(z) = -1/(2 i conj(z))
      let u = z.scale(1.0 / z.abs());
      let fp = u.scale(-2.0 * u.im) + (I * u).scale(2.0 * (1.0 + u.re));
      let two_i = c(0.0, 2.0);
      (fp / (two_i * z), -(fp / (two_i * z.conj())))
    }
  }
}

/// The same derivatives by central differences of the reference function.
pub fn d_num(k: usize, z: C) -> (C, C) {
  let h = 1e-6 * if k == MODZ || k == CARD { z.abs() } else { 1.0 };
  let dx = (act(k, c(z.re + h, z.im)) - act(k, c(z.re - h, z.im))).scale(0.5 / h);
  let dy = (act(k, c(z.re, z.im + h)) - act(k, c(z.re, z.im - h))).scale(0.5 / h);
  ((dx - I * dy).scale(0.5), (dx + I * dy).scale(0.5))
}

/// Every public form of one precision: (name, function of one value).
pub trait Forms: Num {
  fn vals(f: &ComplexActFunc, z: Self) -> [Self; 3];
  fn ds(f: &ComplexActFunc, z: Self) -> [Self; 3];
  fn dcs(f: &ComplexActFunc, z: Self) -> [Self; 3];
}
pub const FORMS: [&str; 3] = ["function handle", "slice", "single value"];
macro_rules! forms {
  ($t:ty, $h:ident $s:ident $v:ident, $dh:ident $ds:ident $dv:ident, $ch:ident $cs:ident $cv:ident) => {
    impl Forms for $t {
      fn vals(f: &ComplexActFunc, z: Self) -> [Self; 3] { let mut b = [z]; f.$s(&mut b); [f.$h()(z), b[0], f.$v(&z)] }
      fn ds(f: &ComplexActFunc, z: Self) -> [Self; 3] { let mut b = [z]; f.$ds(&mut b); [f.$dh()(z), b[0], f.$dv(&z)] }
      fn dcs(f: &ComplexActFunc, z: Self) -> [Self; 3] { let mut b = [z]; f.$cs(&mut b); [f.$ch()(z), b[0], f.$cv(&z)] }
    }
  };
}
forms!(Cf32, release_func_cf32 compute_cf32 compute_val_cf32, release_dfunc_cf32 compute_d_cf32 compute_d_val_cf32, release_dfunc_conj_cf32 compute_d_conj_cf32 compute_d_conj_val_cf32);
forms!(Cf64, release_func_cf64 compute_cf64 compute_val_cf64, release_dfunc_cf64 compute_d_cf64 compute_d_val_cf64, release_dfunc_conj_cf64 compute_d_conj_cf64 compute_d_conj_val_cf64);

/// Points of the complex plane: axes, quadrants, magnitudes from 1e-12 to 1e12, saturation.
pub fn plane(thorough: bool) -> Vec<C> {
  let mut v = Vec::new();
  let phases = if thorough { 1440 } else { 360 };
  for e in -48..=48 {
    let r = 10f64.powf(e as f64 / 4.0);
    for p in 0..phases {
      let t = std::f64::consts::TAU * (p as f64 + if p % 2 == 0 { 0.0 } else { 0.31 }) / phases as f64;
      v.push(C::polar(r, t));
    }
    for (a, b) in [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (1.0, 1.0), (-1.0, 1.0), (1.0, -1.0), (-1.0, -1.0)] { v.push(c(a * r, b * r)); }
  }
  let n = if thorough { 120 } else { 48 };
  for i in -n..=n { for j in -n..=n { v.push(c(i as f64 / 4.0, j as f64 / 4.0)); } }
  let special = [0.0, 1e-12, 1e-6, 1e-3, 0.5, 1.0, 14.9, 14.999999, 15.0, 15.000001, 15.1, 16.0, 20.0, 29.9, 30.0, 30.1, 40.0, 44.0, 45.0, 88.0, 89.0, 90.0, 100.0, 709.0, 710.0, 1000.0, 1e6, 1e12];
  for a in special { for b in special { for (s, t) in [(1.0, 1.0), (-1.0, 1.0), (1.0, -1.0), (-1.0, -1.0)] {
    v.push(c(if a == 0.0 { 0.0 } else { s * a }, if b == 0.0 { 0.0 } else { t * b }));
  } } }
  v
}
