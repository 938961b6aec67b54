//! The two complex precisions of the crate under one roof.
use crate::cx::{c, C};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::{BasicOperations, Complex};

pub trait Num: Complex + BasicOperations<Self> {
  const NAME: &'static str;
  /// Unit roundoff of the components.
  const EPS: f64;
  fn of(v: C) -> Self;
  fn to(&self) -> C;
}

impl Num for Cf32 {
  const NAME: &'static str = "Cf32";
  const EPS: f64 = f32::EPSILON as f64;
  fn of(v: C) -> Self { Cf32 { x: v.re as f32, y: v.im as f32 } }
  fn to(&self) -> C { c(self.x as f64, self.y as f64) }
}

impl Num for Cf64 {
  const NAME: &'static str = "Cf64";
  const EPS: f64 = f64::EPSILON;
  fn of(v: C) -> Self { Cf64 { x: v.re, y: v.im } }
  fn to(&self) -> C { c(self.x, self.y) }
}

pub fn vec_of<T: Num>(v: &[C]) -> Vec<T> { v.iter().map(|z| T::of(*z)).collect() }
pub fn vec_to<T: Num>(v: &[T]) -> Vec<C> { v.iter().map(|z| z.to()).collect() }

/// Real part of the precision type as f64, through the public conversions.
pub fn real<T: Num>(p: T::Precision) -> f64 { T::new(p, T::unit().im()).to().re }

/// Element types a matrix can hold, real ones ignoring the imaginary part.
pub trait El: BasicOperations<Self> {
  const TY: &'static str;
  const REAL: bool;
  const ULP: f64;
  fn mk(v: C) -> Self;
  fn un(&self) -> C;
  /// The reference value of what `mk` really stored.
  fn exact(v: C) -> C { Self::mk(v).un() }
}
impl El for f32 { const TY: &'static str = "f32"; const REAL: bool = true; const ULP: f64 = f32::EPSILON as f64; fn mk(v: C) -> Self { v.re as f32 } fn un(&self) -> C { c(*self as f64, 0.0) } }
impl El for f64 { const TY: &'static str = "f64"; const REAL: bool = true; const ULP: f64 = f64::EPSILON; fn mk(v: C) -> Self { v.re } fn un(&self) -> C { c(*self, 0.0) } }
impl El for Cf32 { const TY: &'static str = "Cf32"; const REAL: bool = false; const ULP: f64 = f32::EPSILON as f64; fn mk(v: C) -> Self { Cf32::of(v) } fn un(&self) -> C { self.to() } }
impl El for Cf64 { const TY: &'static str = "Cf64"; const REAL: bool = false; const ULP: f64 = f64::EPSILON; fn mk(v: C) -> Self { Cf64::of(v) } fn un(&self) -> C { self.to() } }

pub fn mk<T: El>(v: &[C]) -> Vec<T> { v.iter().map(|z| T::mk(*z)).collect() }
pub fn un<T: El>(v: &[T]) -> Vec<C> { v.iter().map(|z| z.un()).collect() }

/// Small Gaussian integers that differ between positions and patterns: products and sums of
/// a few thousand of them are exact in both precisions, whatever the order of evaluation.
pub fn gauss(pattern: usize, i: usize) -> C {
  match pattern % 4 {
    0 => c(((i * 7 + 3) % 11) as f64 - 5.0, ((i * 5 + 1) % 7) as f64 - 3.0),
    1 => c(((i * 3 + 1) % 5) as f64 - 2.0, ((i * 11 + 4) % 9) as f64 - 4.0),
    2 => c((i % 3) as f64 + 1.0, 0.0),
    _ => c(((i * 13 + pattern) % 7) as f64 - 3.0, ((i * 17 + 2 * pattern) % 5) as f64 - 2.0),
  }
}
pub fn gauss_vec(pattern: usize, n: usize) -> Vec<C> { (0..n).map(|i| gauss(pattern, i)).collect() }

/// Generic non-dyadic values of moderate size.
pub fn generic(pattern: usize, i: usize) -> C {
  let t = (i as f64 + 1.0) * (0.7548776662466927 + 0.1 * pattern as f64);
  let u = (i as f64 + 1.0) * (0.5698402909980532 + 0.07 * pattern as f64);
  c(2.0 * t.fract() - 1.0, 2.0 * u.fract() - 1.0)
}
pub fn generic_vec(pattern: usize, n: usize) -> Vec<C> { (0..n).map(|i| generic(pattern, i)).collect() }

/// Lengths around powers of two and other places where implementations switch strategy.
pub const EDGE: [usize; 26] = [6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257];
/// The same further up, for what is cheap there.
pub const WIDE: [usize; 16] = [300, 500, 511, 512, 513, 784, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097];
pub const LONG: [usize; 14] = [5000, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537];
/// All of the above up to `top`.
pub fn edges(top: usize) -> Vec<usize> { EDGE.iter().chain(&WIDE).chain(&LONG).copied().filter(|n| *n <= top).collect() }
