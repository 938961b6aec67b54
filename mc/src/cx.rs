//! Reference complex arithmetic in f64, written independently of the crate under test.
use std::ops::{Add, Div, Mul, Neg, Sub, AddAssign};

#[derive(Default, Clone, Copy, Debug, PartialEq)]
pub struct C { pub re: f64, pub im: f64 }

pub const fn c(re: f64, im: f64) -> C { C { re, im } }
pub const ZERO: C = c(0.0, 0.0);
pub const ONE: C = c(1.0, 0.0);
pub const I: C = c(0.0, 1.0);

impl C {
  pub fn conj(self) -> C { c(self.re, -self.im) }
  pub fn abs(self) -> f64 { self.re.hypot(self.im) }
  pub fn sq(self) -> f64 { self.re * self.re + self.im * self.im }
  pub fn arg(self) -> f64 { self.im.atan2(self.re) }
  pub fn scale(self, k: f64) -> C { c(self.re * k, self.im * k) }
  pub fn polar(r: f64, p: f64) -> C { c(r * p.cos(), r * p.sin()) }
  pub fn finite(self) -> bool { self.re.is_finite() && self.im.is_finite() }
}
impl Add for C { type Output = C; fn add(self, o: C) -> C { c(self.re + o.re, self.im + o.im) } }
impl Sub for C { type Output = C; fn sub(self, o: C) -> C { c(self.re - o.re, self.im - o.im) } }
impl Mul for C { type Output = C; fn mul(self, o: C) -> C { c(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re) } }
impl Div for C {
  type Output = C;
  /// Smith's algorithm.
  fn div(self, o: C) -> C {
    if o.re.abs() >= o.im.abs() {
      let r = o.im / o.re;
      let d = o.re + o.im * r;
      c((self.re + self.im * r) / d, (self.im - self.re * r) / d)
    } else {
      let r = o.re / o.im;
      let d = o.re * r + o.im;
      c((self.re * r + self.im) / d, (self.im * r - self.re) / d)
    }
  }
}
impl Neg for C { type Output = C; fn neg(self) -> C { c(-self.re, -self.im) } }
impl AddAssign for C { fn add_assign(&mut self, o: C) { *self = *self + o; } }
impl std::fmt::Display for C {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "({}{:+}i)", self.re, self.im) }
}

/// Distance of `a` from `b` is at most `tol * max(1, scale)`.
pub fn near(a: C, b: C, scale: f64, tol: f64) -> bool {
  a.finite() && b.finite() && (a - b).abs() <= tol * scale.max(1.0)
}
