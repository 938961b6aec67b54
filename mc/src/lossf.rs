//! Reference losses and their Wirtinger derivatives.
use crate::cx::*;
use crate::num::Num;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::opt::ComplexLossFunc;

pub const MSE: usize = 0;
pub const CE: usize = 1;
pub const LOSS_NAMES: [&str; 2] = ["MeanSquare", "NormCrossEntropy"];
pub fn loss_func(k: usize) -> ComplexLossFunc { if k == MSE { ComplexLossFunc::MeanSquare } else { ComplexLossFunc::NormCrossEntropy } }

fn softmax(p: &[C]) -> Vec<f64> {
  let m = p.iter().map(|z| z.sq()).fold(0.0, f64::max);
  let e: Vec<f64> = p.iter().map(|z| (z.sq() - m).exp()).collect();
  let s: f64 = e.iter().sum();
  e.iter().map(|v| v / s).collect()
}

/// The reported loss value.
pub fn loss(k: usize, t: &[C], p: &[C]) -> f64 {
  if k == MSE { t.iter().zip(p).map(|(t, p)| (*t - *p).sq()).sum::<f64>() / t.len() as f64 }
  else { t.iter().zip(softmax(p)).map(|(t, s)| -t.re * s.ln()).sum() }
}

/// What the derivatives refer to: the total squared error, or the cross-entropy.
pub fn objective(k: usize, t: &[C], p: &[C]) -> f64 {
  if k == MSE { t.iter().zip(p).map(|(t, p)| (*t - *p).sq()).sum::<f64>() } else { loss(k, t, p) }
}

pub fn d_loss(k: usize, t: &[C], p: &[C]) -> Vec<C> {
  if k == MSE { return t.iter().zip(p).map(|(t, p)| (*p - *t).conj()).collect() }
  let sum: f64 = t.iter().map(|z| z.re).sum();
  t.iter().zip(p).zip(softmax(p)).map(|((t, p), s)| p.conj().scale(s * sum - t.re)).collect()
}

/// Central differences of the objective.
pub fn d_loss_num(k: usize, t: &[C], p: &[C]) -> Vec<C> {
  let h = 1e-6;
  (0..p.len()).map(|i| {
    let at = |dx: f64, dy: f64| { let mut q = p.to_vec(); q[i] += c(dx, dy); objective(k, t, &q) };
    c((at(h, 0.0) - at(-h, 0.0)) / (4.0 * h), -(at(0.0, h) - at(0.0, -h)) / (4.0 * h))
  }).collect()
}

pub fn scalar<T: Num>(v: &[C]) -> IOType<T> { IOType::Scalar(v.iter().map(|z| T::of(*z)).collect()) }
/// `maps` feature maps of `h` x `w`.
pub fn maps<T: Num>(v: &[C], h: usize, w: usize) -> IOType<T> {
  IOType::Matrix(v.chunks(h * w).map(|m| Matrix::from_body(m.iter().map(|z| T::of(*z)).collect(), [h, w])).collect())
}

/// Every public form of loss value and derivative.
pub trait Losses: Num {
  fn values(f: &ComplexLossFunc, t: &IOType<Self>, p: &IOType<Self>) -> Vec<Result<f64, String>>;
  fn derivs(f: &ComplexLossFunc, t: &IOType<Self>, p: &IOType<Self>) -> Vec<Result<Vec<C>, String>>;
  fn handles(f: &ComplexLossFunc, t: &[Self], p: &[Self]) -> (f64, Vec<C>);
}
macro_rules! losses {
  ($t:ty, $c:ident, $d:ident, $h:ident, $dh:ident) => {
    impl Losses for $t {
      fn values(f: &ComplexLossFunc, t: &IOType<Self>, p: &IOType<Self>) -> Vec<Result<f64, String>> {
        use renplex::math::Complex;
        vec![f.$c(t, p).map(|v| v as f64).map_err(|e| format!("{:?}", e)), <$t as Complex>::loss(t, p, f).map(|v| v as f64).map_err(|e| format!("{:?}", e))]
      }
      fn derivs(f: &ComplexLossFunc, t: &IOType<Self>, p: &IOType<Self>) -> Vec<Result<Vec<C>, String>> {
        use renplex::math::Complex;
        let u = |v: Vec<$t>| v.iter().map(|z| z.to()).collect::<Vec<C>>();
        vec![f.$d(t, p).map(u).map_err(|e| format!("{:?}", e)), <$t as Complex>::d_loss(t, p, f).map(u).map_err(|e| format!("{:?}", e))]
      }
      fn handles(f: &ComplexLossFunc, t: &[Self], p: &[Self]) -> (f64, Vec<C>) {
        (f.$h()(t.iter(), p.iter()) as f64, f.$dh()(t.iter(), p.iter()).iter().map(|z| z.to()).collect())
      }
    }
  };
}
losses!(Cf32, compute_cf32, compute_d_cf32, release_func_cf32, release_dfunc_cf32);
losses!(Cf64, compute_cf64, compute_d_cf64, release_func_cf64, release_dfunc_cf64);
