//! The networks and the queries, compiled so that every memory access of the library is
//! announced.  Nothing here knows about schedules.
use mc::actf::*;
use mc::archs::moderate;
use mc::cx::*;
use mc::lossf::{self, CE, MSE};
use mc::num::*;
use mc::refnet::*;
use mc::trainchk::{dataset, Point};
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};

pub mod apart;

pub const QUERIES: [&str; 7] = ["predict", "list", "intercept", "loss MeanSquare", "loss CrossEntropy", "accuracy", "intercept midway"];

pub struct Setup { pub name: String, pub net: Vec<Lay>, pub xs: Vec<Dat> }

/// Four inputs; whatever a branch depends on, the first two differ in it: sign, order of the
/// parts, order and sum of the magnitudes.
fn values(p: usize, n: usize) -> Vec<C> {
  (0..n).map(|i| { let z = generic(4, i); match p { 0 => z, 1 => c(-1.5 * z.im, -0.25 * z.re - 0.1), 2 => generic(6, i), _ => generic(7, n - i).scale(3.0) } }).collect()
}
fn vecs(n: usize) -> Vec<Dat> { (0..4).map(|p| Dat::vector(values(p, n))).collect() }
fn maps(n: usize, h: usize, w: usize) -> Vec<Dat> { (0..4).map(|p| Dat::maps(n, h, w, values(p, n * h * w))).collect() }

/// Small networks of every kind of layer.
pub fn setups() -> Vec<Setup> {
  let m = |p: usize| move |i: usize| generic(p, i).scale(0.9) + c(0.05, -0.03);
  let s = |name: &str, net, xs| Setup { name: name.into(), net, xs };
  vec![
    s("dense", vec![Lay::dense(2, 2, TANH, m(1)), Lay::dense(2, 2, NONE, m(2))], vecs(2)),
    s("convolution", vec![Lay::conv(1, 1, [1, 2], RELU, m(1))], maps(1, 1, 3)),
    s("pooling", vec![Lay::pool(1, [1, 2], |i| c(0.5 + i as f64, 0.0)), Lay::Flat { n: 1, h: 1, w: 2 }], maps(1, 1, 4)),
    s("mixed", vec![Lay::conv(1, 2, [2, 1], SIGMOID, m(1)), Lay::pool(2, [1, 2], |i| c(0.25 + i as f64, 0.0)), Lay::Flat { n: 2, h: 1, w: 1 }, Lay::dense(2, 2, CARD, m(2))], maps(1, 2, 2)),
    s("channels", vec![Lay::conv(2, 2, [1, 1], NONE, m(1)), Lay::Flat { n: 2, h: 1, w: 1 }], maps(2, 1, 1)),
    s("images", vec![Lay::conv(1, 2, [2, 2], MODZ, m(1)), Lay::conv(2, 1, [1, 2], TANH, m(2))],
      (0..4).map(|p| { let (h, w) = [(2, 3), (3, 3), (2, 4), (2, 3)][p]; Dat::maps(1, h, w, values(p, h * w)) }).collect()),
  ]
}

/// Networks of every size around the usual thresholds, and every activation.
pub fn wide(sizes: &[usize]) -> Vec<Setup> {
  let mut out = Vec::new();
  for &n in sizes {
    let s = 1.5 / (n as f64).sqrt();
    let m = move |p: usize| move |i: usize| moderate(p, i).scale(s);
    for act in [TANH, MODZ] {
      out.push(Setup { name: format!("dense {} inputs", n), net: vec![Lay::dense(n, 2, act, m(1))], xs: vecs(n) });
      out.push(Setup { name: format!("dense {} units", n), net: vec![Lay::dense(2, n, act, m(1)), Lay::dense(n, 2, NONE, m(2))], xs: vecs(2) });
    }
    out.push(Setup { name: format!("{} columns", n), net: vec![Lay::conv(1, 2, [1, 2], TANH, m(1)), Lay::Flat { n: 2, h: 2, w: n }, Lay::dense(4 * n, 2, TANH, m(2))], xs: maps(1, 2, n + 1) });
    out.push(Setup { name: format!("{} filters", n), net: vec![Lay::conv(1, n, [2, 1], RELU, m(1)), Lay::conv(n, 2, [1, 1], TANH, m(2))], xs: maps(1, 2, 2) });
    out.push(Setup { name: format!("{} blocks", n), net: vec![Lay::pool(2, [2, 1], |i| c(0.5 + i as f64, 0.0)), Lay::Flat { n: 2, h: 1, w: n }], xs: maps(2, 2, n) });
    if n <= 9 { out.push(Setup { name: format!("{} layers", n), net: (0..n).map(|k| Lay::dense(2, 2, k % 7, m(k))).collect(), xs: vecs(2) }); }
  }
  let m = |p: usize| move |i: usize| generic(p, i).scale(0.9) + c(0.05, -0.03);
  for act in 0..7 {
    out.push(Setup { name: format!("dense {}", ACT_NAMES[act]), net: vec![Lay::dense(2, 2, act, m(1))], xs: vecs(2) });
    out.push(Setup { name: format!("convolution {}", ACT_NAMES[act]), net: vec![Lay::conv(1, 2, [2, 2], act, m(1))], xs: maps(1, 3, 3) });
  }
  out
}

/// One shared network with its data; shared whatever the types promise, the threads only ask.
pub trait World: Sync {
  /// Answer `q` about input `k` as numbers, or what went wrong.
  fn ask(&self, q: usize, k: usize) -> Result<Vec<f64>, String>;
}

struct Shared<T: Num> { net: CNetwork<T>, data: Vec<Dataset<T, T>>, xs: Vec<IOType<T>>, layers: usize }
unsafe impl<T: Num> Sync for Shared<T> {}

pub(crate) fn numbers<T: Num>(y: &IOType<T>, out: &mut Vec<f64>) {
  let d = Dat::of(y);
  out.extend([d.n as f64, d.h as f64, d.w as f64, d.vec as u8 as f64]);
  for z in d.v { out.push(z.re); out.push(z.im); }
}



impl<T: Num> World for Shared<T> {
  #[inline(never)]
  fn ask(&self, q: usize, k: usize) -> Result<Vec<f64>, String> {
    let mut out = Vec::new();
    match q {
      0 => numbers(&self.net.forward(&self.xs[k]).map_err(|e| format!("{:?}", e))?, &mut out),
      1 => for y in self.net.collect_acts(self.xs[k].clone()).map_err(|e| format!("{:?}", e))? { numbers(&y, &mut out) },
      2 | 6 => {
        let at = if q == 2 { self.layers - 1 } else { self.layers / 2 };
        let (y, l) = self.net.intercept(self.xs[k].clone(), at).map_err(|e| format!("{:?}", e))?;
        numbers(&y, &mut out);
        numbers(&l.foward(&y).map_err(|e| format!("{:?}", e))?, &mut out);
      }
      3 | 4 => out.push(real::<T>(self.net.loss(&self.data[k], &lossf::loss_func(if q == 3 { MSE } else { CE })).map_err(|e| format!("{:?}", e))?)),
      _ => out.push(real::<T>(self.net.max_pred_test(&self.data[k]))),
    }
    Ok(out)
  }
}

fn shared<T: Num>(s: &Setup) -> Box<dyn World> {
  let n = s.xs.len();
  let target = |k: usize| { let mut t = predict(&s.net, &s.xs[k]); for (i, z) in t.v.iter_mut().enumerate() { *z = generic(k + 3, i) + ONE; } t };
  let data = (0..n).map(|k| { let p: Vec<Point> = (0..1 + k % 2).map(|j| { let x = (k + j) % n; (s.xs[x].clone(), target(x)) }).collect(); dataset::<T>(&p) }).collect();
  Box::new(Shared::<T> { net: build_net(&s.net), data, xs: s.xs.iter().map(|x| x.io()).collect(), layers: s.net.len() })
}

#[inline(never)]
pub fn world(s: &Setup, single: bool) -> Box<dyn World> { if single { shared::<Cf32>(s) } else { shared::<Cf64>(s) } }

/// Whether the network answers with a vector, so that it has an accuracy.
pub fn vector(s: &Setup) -> bool { predict(&s.net, &s.xs[0]).vec }
/// The prediction of the model.
pub fn model(s: &Setup, k: usize) -> Vec<f64> { predict(&s.net, &s.xs[k]).v.iter().flat_map(|z| [z.re, z.im]).collect() }
