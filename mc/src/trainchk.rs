//! Comparison of a real network with its model, layer by layer, through the public interface.
use crate::archs::*;
use crate::cx::*;
use crate::engine::*;
use crate::ensure;
use crate::lossf;
use crate::num::*;
use crate::refnet::*;
use renplex::cvnn::layer::CLayer;
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;

pub const MARGIN: f64 = 0.02;

pub type Point = (Dat, Dat);

pub fn dataset<T: Num>(points: &[Point]) -> Dataset<T, T> {
  let mut d = Dataset::new();
  for (x, t) in points { d.add_point((x.io(), t.io())); }
  d
}

/// Whether the whole network is differentiable along `x`, with head-room.
pub fn smooth(ls: &[Lay], loss: usize, x: &Dat) -> bool {
  let a = acts(ls, x);
  ls.iter().zip(&a).all(|(l, y)| l.smooth(y, MARGIN)) && (loss == lossf::MSE || a[ls.len()].v.iter().all(|z| z.sq() <= 40.0))
}

pub fn target(ls: &[Lay], loss: usize, x: &Dat, p: usize) -> Dat {
  let mut t = predict(ls, x);
  for (i, z) in t.v.iter_mut().enumerate() { *z = if loss == lossf::CE { c((generic(p + 11, i).re + 1.0) / 2.0, generic(p + 12, i).im) } else { generic(p + 11, i).scale(1.5) }; }
  t
}

/// The first `n` input patterns from `from` on which the network is differentiable.
pub fn batch<T: Num>(a: &Arch, ls: &[Lay], loss: usize, from: usize, n: usize) -> Option<Vec<Point>> {
  let mut out = Vec::new();
  for p in from..from + 40 + 4 * n {
    let x = a.input(p, |p, i| generic(p % 9, i + 3 * p)).round::<T>();
    if smooth(ls, loss, &x) { let t = target(ls, loss, &x, p).round::<T>(); out.push((x, t)); }
    if out.len() == n { return Some(out) }
  }
  None
}

fn soft_probes(l: &Lay) -> Vec<Dat> {
  let (h, w) = match l { Lay::Conv { k, .. } => (k[0], k[1]), Lay::Pool { block, .. } => (block[0], block[1]), Lay::Flat { h, w, .. } => (*h, *w), _ => (1, 1) };
  let mk = |v: Vec<C>| match l { Lay::Dense { .. } => Dat::vector(v), Lay::Conv { ch, .. } => Dat::maps(*ch, h, w, v), Lay::Pool { n, .. } | Lay::Flat { n, .. } => Dat::maps(*n, h, w, v) };
  let len = match l { Lay::Dense { inp, .. } => *inp, Lay::Conv { ch, .. } => ch * h * w, Lay::Pool { n, .. } | Lay::Flat { n, .. } => n * h * w };
  let mut out = vec![mk(vec![ZERO; len]), mk(generic_vec(3, len)), mk(generic_vec(4, len).iter().map(|z| z.scale(3.0)).collect())];
  if l.params().0 == 0 { return out }
  let picks: Vec<usize> = if len <= 12 { (0..len).collect() } else { (0..len).step_by(len / 10).chain([len - 1]).collect() };
  for j in picks {
    for f in [c(1.0, 0.0), c(0.0, -1.0), c(-4.0, 0.0), c(0.0, 4.0), c(16.0, 16.0)] { let mut v = vec![ZERO; len]; v[j] = f; out.push(mk(v)); }
  }
  out
}

/// Agreement of one layer with its model to relative precision `rel` of its parameters.
pub fn layer_agrees<T: Num>(m: &Lay, real: &CLayer<T>, rel: f64, st: &mut Local) -> Case {
  ensure!(real.params_len() == m.params() && real.get_input_shape() == m.in_shape() && real.get_output_shape() == m.out_shape(), "it reports {:?} parameters", real.params_len());
  for x in soft_probes(m) {
    let x = x.round::<T>();
    if !m.smooth(&x, MARGIN) { continue }
    let t = crate::laychk::tol::<T>(m, &x, &[], false);
    let low = match m.act() { Some(crate::actf::MODZ) | Some(crate::actf::CARD) => m.q(&x).v.iter().map(|z| z.abs()).fold(1.0, f64::min), _ => 1.0 };
    let xs = 1.0 + x.v.iter().map(|z| z.abs()).sum::<f64>();
    let want = m.forward(&x);
    let got = guard(|| real.foward(&x.io())).map_err(|e| format!("it panicked: {}", e))?.map_err(|e| format!("it failed: {:?}", e))?;
    let got = Dat::of(&got);
    ensure!(got.like(&want), "it answers {} instead of {}", got.shape(), want.shape());
    crate::laychk::diff(&format!("its answer to {}", crate::laychk::text(&x.v)), &got.v, &want.v, t.forward + rel * xs / low)?;
    st.step(1);
    if real.propagates() && m.params().0 > 0 {
      let g = round::<T>(&generic_vec(6, want.v.len()));
      let gc: Vec<C> = g.iter().map(|z| z.conj()).collect();
      let t = crate::laychk::tol::<T>(m, &x, &g, false);
      let (dw, _, dx) = m.backward(&x, &g);
      let r = guard(|| real.compute_derivatives(&x.io(), vec_of(&g), vec_of(&gc))).map_err(|e| format!("it panicked: {}", e))?.map_err(|e| format!("it failed: {:?}", e))?;
      let gs: f64 = 1.0 + g.iter().map(|z| z.abs()).sum::<f64>();
      let ws = match m { Lay::Dense { w, .. } | Lay::Conv { w, .. } => 1.0 + w.iter().map(|z| z.abs()).fold(0.0, f64::max), _ => 1.0 };
      for (n, a, b) in [("weight derivative", &r.0, &dw), ("input derivative", &r.2, &dx)] { crate::laychk::diff(&format!("its {} at {}", n, crate::laychk::text(&x.v)), &vec_to(a), b, t.deriv + 4.0 * rel * gs * xs * (xs + ws) * ws / (low * low))?; }
      st.step(1);
    }
  }
  Ok(())
}

/// Agreement of all layers; `x` is any input on which the network answers.
pub fn net_agrees<T: Num>(ls: &[Lay], net: &CNetwork<T>, x: &Dat, rel: f64, st: &mut Local) -> Case {
  for (k, m) in ls.iter().enumerate() {
    let (_, real) = guard(|| net.intercept(x.io(), k)).map_err(|e| format!("interception at {} panicked: {}", k, e))?.map_err(|e| format!("interception at {} failed: {:?}", k, e))?;
    layer_agrees::<T>(m, real, rel, st).map_err(|e| format!("layer {} ({}): {}", k, m.name(), e))?;
  }
  Ok(())
}

/// Allowed relative error of a trained parameter.
pub fn rel<T: Num>(steps: usize) -> f64 { steps as f64 * if T::EPS > 1e-10 { 4e-4 } else { 2e-11 } }

/// Bit-exact record of everything the network answers layer by layer.
pub fn net_print<T: Num>(ls: &[Lay], net: &CNetwork<T>, x: &Dat) -> Vec<u64> {
  let mut out = vec![net.params_len() as u64];
  for (k, m) in ls.iter().enumerate() {
    match guard(|| net.intercept(x.io(), k)) {
      Ok(Ok((a, real))) => {
        out.extend(Dat::of(&a).bits());
        let (h, w) = match m { Lay::Conv { k, .. } => (k[0], k[1]), Lay::Pool { block, .. } => (block[0], block[1]), Lay::Flat { h, w, .. } => (*h, *w), _ => (1, 1) };
        out.extend(fingerprint(real, m, h, w));
      }
      _ => out.push(3),
    }
  }
  out
}
