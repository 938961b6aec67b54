//! Comparison of one real layer with its model: forward pass, derivatives, adjustment, refusals.
use crate::actf::*;
use crate::cx::*;
use crate::engine::*;
use crate::ensure;
use crate::num::*;
use crate::refnet::*;
use renplex::cvnn::layer::CLayer;
use renplex::math::matrix::Matrix;
use renplex::input::IOType;

/// Rounding head-room: exact for piecewise linear activations on exactly representable values.
pub struct Tol { pub forward: f64, pub deriv: f64 }

pub fn tol<T: Num>(l: &Lay, x: &Dat, g: &[C], exact: bool) -> Tol {
  let linear = match l.act() { None => true, Some(a) => matches!(a, NONE | RELU | ZRELU) };
  if exact && linear { return Tol { forward: 0.0, deriv: 0.0 } }
  let (ws, bs, terms): (f64, f64, usize) = match l {
    Lay::Dense { inp, w, b, .. } => (w.iter().map(|z| z.abs()).fold(0.0, f64::max), b.iter().map(|z| z.abs()).fold(0.0, f64::max), *inp),
    Lay::Conv { ch, k, w, b, .. } => (w.iter().map(|z| z.abs()).fold(0.0, f64::max), b.iter().map(|z| z.abs()).fold(0.0, f64::max), ch * k[0] * k[1]),
    Lay::Pool { co, kernel, .. } => (co.iter().chain(kernel).map(|z| z.abs()).fold(0.0, f64::max), 0.0, co.len() + kernel.len()),
    Lay::Flat { .. } => (1.0, 0.0, 1),
  };
  let xs = x.v.iter().map(|z| z.abs()).fold(0.0, f64::max);
  let gs: f64 = g.iter().map(|z| z.abs()).sum();
  let s = 1.0 + terms as f64 * ws * xs + bs;
  let low = match l.act() { Some(MODZ) | Some(CARD) => l.q(x).v.iter().map(|z| z.abs()).fold(1.0, f64::min), _ => 1.0 };
  let fixed = match l.act() { Some(SIGMOID) | Some(TANH) => if T::EPS > 1e-10 { 2e-6 } else { 2e-13 }, _ => 0.0 };
  let r = 8.0 * T::EPS * (terms as f64 + 8.0);
  Tol { forward: fixed + r * s / low, deriv: (fixed + r * s / (low * low)) * (1.0 + gs) * (1.0 + xs + ws) }
}

pub fn text(v: &[C]) -> String { if v.len() > 16 { format!("<{} values>", v.len()) } else { v.iter().map(|z| z.to_string()).collect::<Vec<_>>().join(" ") } }

/// First entry that differs.
pub fn diff(what: &str, got: &[C], want: &[C], tol: f64) -> Case {
  ensure!(got.len() == want.len(), "{} has {} entries, expected {}", what, got.len(), want.len());
  for i in 0..got.len() {
    ensure!(got[i].finite() && (got[i] - want[i]).abs() <= tol, "{} entry {} is {}, expected {} (all: {} / expected {})", what, i, got[i], want[i], text(got), text(want));
  }
  Ok(())
}

fn about<T: Num>(l: &Lay, x: &Dat) -> String {
  let p = match l { Lay::Dense { w, b, .. } | Lay::Conv { w, b, .. } => format!(" with weights {} biases {}", text(w), text(b)), _ => String::new() };
  format!("{} {}{} on {} {}", T::NAME, l.name(), p, x.shape(), text(&x.v))
}

pub fn forward<T: Num>(l: &Lay, real: &CLayer<T>, x: &Dat, exact: bool, st: &mut Local) -> Case {
  if !l.defined(x) { return Ok(()) }
  let mut want = l.forward(x);
  if !exact && l.act() == Some(ZRELU) && !l.smooth(x, 1e-3) { return Ok(()) }
  let got = guard(|| real.foward(&x.io())).map_err(|e| format!("{} panicked: {}", about::<T>(l, x), e))?.map_err(|e| format!("{} failed: {:?}", about::<T>(l, x), e))?;
  let got = Dat::of(&got);
  ensure!(got.like(&want), "{}: output is {}, expected {}", about::<T>(l, x), got.shape(), want.shape());
  // on the axes z-ReLU may give the number or zero
  if l.act() == Some(ZRELU) { for (w, (g, q)) in want.v.iter_mut().zip(got.v.iter().zip(&l.q(x).v)) { if q.re * q.im == 0.0 && q.re >= 0.0 && q.im >= 0.0 && *g == ZERO { *w = ZERO; } } }
  diff("output", &got.v, &want.v, tol::<T>(l, x, &[], exact).forward).map_err(|e| format!("{}: {}", about::<T>(l, x), e))?;
  st.step(1);
  st.outcome(got.bits());
  Ok(())
}

/// Derivatives for upstream derivative `g` (its conjugate goes along).
pub fn derivs<T: Num>(l: &Lay, real: &CLayer<T>, x: &Dat, g: &[C], exact: bool, st: &mut Local) -> Case {
  if !l.smooth(x, 1e-3) { return Ok(()) }
  let (dw, db, dx) = l.backward(x, g);
  let gc: Vec<C> = g.iter().map(|z| z.conj()).collect();
  let t = tol::<T>(l, x, g, exact);
  let what = || format!("{}, upstream {}", about::<T>(l, x), text(g));
  let r = guard(|| real.compute_derivatives(&x.io(), vec_of(g), vec_of(&gc))).map_err(|e| format!("{} panicked: {}", what(), e))?.map_err(|e| format!("{} failed: {:?}", what(), e))?;
  // the library's half weights stay exact on integers except for the split derivatives' halves,
  // which are dyadic and exact too
  let dxc: Vec<C> = dx.iter().map(|z| z.conj()).collect();
  for (name, got, want) in [("weight derivative", &r.0, &dw), ("bias derivative", &r.1, &db), ("input derivative", &r.2, &dx), ("conjugate input derivative", &r.3, &dxc)] {
    diff(name, &vec_to(got), want, t.deriv).map_err(|e| format!("{}: {}", what(), e))?;
  }
  st.step(1);
  st.outcome(hash(&vec_to(&r.0).iter().chain(&vec_to(&r.2)).map(|z| (z.re.to_bits(), z.im.to_bits())).collect::<Vec<_>>()));
  Ok(())
}

/// The reverse-mode rule of the model against difference quotients.
pub fn self_check(l: &Lay, x: &Dat, g: &[C]) {
  if !l.smooth(x, 1e-2) { return }
  // L = 2 Re(sum conj-free g.a) has dL/da = g
  let f = |l: &Lay, x: &Dat| l.forward(x).v.iter().zip(g).map(|(a, g)| 2.0 * (*a * *g).re).sum::<f64>();
  let h = 1e-6;
  let (dw, db, dx) = l.backward(x, g);
  let quot = |at: &dyn Fn(C) -> f64| { let a = (at(c(h, 0.0)) - at(c(-h, 0.0))) / (2.0 * h); let b = (at(c(0.0, h)) - at(c(0.0, -h))) / (2.0 * h); c(a / 2.0, -b / 2.0) };
  let ok = |a: C, b: C| assert!((a - b).abs() <= 1e-4 * (1.0 + a.abs()), "reference derivative of {} is {}, difference quotient {}", l.name(), b, a);
  for i in 0..x.v.len() { ok(quot(&|d| { let mut y = x.clone(); y.v[i] += d; f(l, &y) }), dx[i]); }
  let (nw, nb) = l.params();
  for i in 0..nw + nb {
    let n = quot(&|d| { let mut m = l.clone(); if let Lay::Dense { w, b, .. } | Lay::Conv { w, b, .. } = &mut m { if i < nw { w[i] += d } else { b[i - nw] += d } } f(&m, x) });
    ok(n, if i < nw { dw[i] } else { db[i - nw] });
  }
}

/// All of forward and derivatives on a few probes that expose every parameter.
pub fn agrees<T: Num>(l: &Lay, real: &CLayer<T>, h: usize, w: usize, exact: bool, st: &mut Local) -> Case {
  for x in probes(l, h, w) {
    let x = x.round::<T>();
    let e = exact && x.v.iter().all(|z| z.re.fract() == 0.0 && z.im.fract() == 0.0);
    forward::<T>(l, real, &x, e, st)?;
    if real.propagates() {
      let n = if l.defined(&x) { l.forward(&x).v.len() } else { continue };
      derivs::<T>(l, real, &x, &round::<T>(&generic_vec(6, n)), false, st)?;
    }
  }
  Ok(())
}

/// Adjustments change the parameters by minus the conjugate and refuse wrong lengths.
pub fn adjusting<T: Num>(l: &Lay, h: usize, w: usize, st: &mut Local) -> Case {
  let (nw, nb) = l.params();
  let mut real = l.build::<T>();
  let mut model = l.clone();
  let before = fingerprint(&real, &model, h, w);
  for (dw, db) in [(nw + 1, nb), (nw.wrapping_sub(1), nb), (nw, nb + 1), (nw, nb.wrapping_sub(1)), (0, nb), (nw, 0), (0, 0), (nw + 1, nb + 1), (nw.wrapping_sub(1), nb.wrapping_sub(1)), (nw + nb, 0), (nw * 2, nb), (nw, nb * 2), (nb, nw), (nw + 1, nb.wrapping_sub(1)), (nw.wrapping_sub(1), nb + 1)] {
    if (dw, db) == (nw, nb) || dw > 1 << 30 || db > 1 << 30 { continue }
    let r = guard(|| real.neg_conj_adjustment(vec_of(&gauss_vec(0, dw)), vec_of(&gauss_vec(1, db))));
    ensure!(matches!(r, Ok(Err(_))), "{} {}: adjustment of {} weights and {} biases (it has {} and {}) gave {:?} instead of an error", T::NAME, l.name(), dw, db, nw, nb, r);
    st.step(1);
    ensure!(fingerprint(&real, &model, h, w) == before, "{} {}: refused adjustment of {} weights and {} biases changed the layer", T::NAME, l.name(), dw, db);
  }
  for p in 0..4 {
    let (dw, db) = (gauss_vec(p, nw), gauss_vec(p + 1, nb));
    guard(|| real.neg_conj_adjustment(vec_of(&dw), vec_of(&db))).map_err(|e| format!("{} {}: adjustment panicked: {}", T::NAME, l.name(), e))?.map_err(|e| format!("{} {}: adjustment failed: {:?}", T::NAME, l.name(), e))?;
    model.adjust(&dw, &db);
    st.step(1);
    agrees::<T>(&model, &real, h, w, true, st).map_err(|e| format!("after {} adjustments: {}", p + 1, e))?;
  }
  // one parameter at a time
  for j in 0..(nw + nb).min(40) {
    let (mut dw, mut db) = (vec![ZERO; nw], vec![ZERO; nb]);
    if j < nw { dw[j] = c(1.0, 2.0) } else { db[j - nw] = c(1.0, 2.0) }
    guard(|| real.neg_conj_adjustment(vec_of(&dw), vec_of(&db))).map_err(|e| format!("adjustment panicked: {}", e))?.map_err(|e| format!("adjustment failed: {:?}", e))?;
    model.adjust(&dw, &db);
    st.step(1);
    agrees::<T>(&model, &real, h, w, true, st).map_err(|e| format!("after adjusting parameter {}: {}", j, e))?;
  }
  st.trace();
  Ok(())
}

/// Input of the wrong kind is refused and changes nothing.
pub fn refuses<T: Num>(l: &Lay, real: &CLayer<T>, io: &IOType<T>, what: &str, h: usize, w: usize, st: &mut Local) -> Case {
  let before = fingerprint(real, l, h, w);
  let r = guard(|| real.foward(io));
  ensure!(matches!(r, Ok(Err(_))), "{} {}: forward of {} {} instead of being refused", T::NAME, l.name(), what, match &r { Err(e) => format!("panicked ({})", e), _ => "succeeded".into() });
  st.step(1);
  ensure!(fingerprint(real, l, h, w) == before, "{} {}: refused forward of {} changed the layer", T::NAME, l.name(), what);
  Ok(())
}

pub fn images<T: Num>(n: usize, h: usize, w: usize) -> IOType<T> {
  IOType::Matrix((0..n).map(|k| Matrix::from_body(vec_of(&gauss_vec(k, h * w)), [h, w])).collect())
}
