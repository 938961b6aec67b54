//! Reference model of layers and networks, written from the definitions, and the bridge that
//! builds the real layer with the same parameters through the public interface.
use crate::actf::{self, ACTS};
use crate::cx::*;
use crate::lossf;
use crate::num::*;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::flatten::Flatten;
use renplex::cvnn::layer::reduce::Reduce;
use renplex::cvnn::layer::CLayer;
use renplex::cvnn::network::CNetwork;
use renplex::init::InitMethod;
use renplex::input::{IOShape, IOType};
use renplex::math::matrix::Matrix;

/// A value flowing through a network: a vector, or `n` maps of `h` x `w` in row-major order.
#[derive(Clone, Debug, PartialEq)]
pub struct Dat { pub vec: bool, pub n: usize, pub h: usize, pub w: usize, pub v: Vec<C> }

impl Dat {
  pub fn vector(v: Vec<C>) -> Dat { Dat { vec: true, n: v.len(), h: 1, w: 1, v } }
  pub fn maps(n: usize, h: usize, w: usize, v: Vec<C>) -> Dat { assert!(v.len() == n * h * w); Dat { vec: false, n, h, w, v } }
  pub fn io<T: Num>(&self) -> IOType<T> {
    if self.vec { IOType::Scalar(vec_of(&self.v)) }
    else { IOType::Matrix((0..self.n).map(|k| Matrix::from_body(vec_of(&self.v[k * self.h * self.w..(k + 1) * self.h * self.w]), [self.h, self.w])).collect()) }
  }
  pub fn of<T: Num>(io: &IOType<T>) -> Dat {
    match io {
      IOType::Scalar(v) => Dat::vector(vec_to(v)),
      IOType::Matrix(m) => {
        let (h, w) = m.first().map(|x| (x.get_shape()[0], x.get_shape()[1])).unwrap_or((0, 0));
        Dat { vec: false, n: m.len(), h, w, v: m.iter().flat_map(|x| vec_to(x.get_body())).collect() }
      }
    }
  }
  pub fn round<T: Num>(&self) -> Dat { Dat { v: round::<T>(&self.v), ..self.clone() } }
  pub fn like(&self, o: &Dat) -> bool { (self.vec, self.n, self.h, self.w, self.v.len()) == (o.vec, o.n, o.h, o.w, o.v.len()) }
  pub fn shape(&self) -> String { if self.vec { format!("vector({})", self.n) } else { format!("{} maps {}x{}", self.n, self.h, self.w) } }
  pub fn bits(&self) -> Vec<u64> {
    let mut b = vec![self.vec as u64, self.n as u64, self.h as u64, self.w as u64];
    for z in &self.v { b.push(z.re.to_bits()); b.push(z.im.to_bits()); }
    b
  }
}

pub fn round<T: Num>(v: &[C]) -> Vec<C> { v.iter().map(|z| T::of(*z).to()).collect() }

/// A layer with its parameters.
#[derive(Clone, Debug, PartialEq)]
pub enum Lay {
  Dense { inp: usize, units: usize, act: usize, w: Vec<C>, b: Vec<C> },
  /// Weights in the order filter, channel, kernel row, kernel column.
  Conv { ch: usize, filters: usize, k: [usize; 2], act: usize, w: Vec<C>, b: Vec<C> },
  /// Linear block function with coefficients `co`; `kernel` smooths the up-sampled gradient.
  Pool { n: usize, block: [usize; 2], co: Vec<C>, kernel: Vec<C>, ks: [usize; 2] },
  Flat { n: usize, h: usize, w: usize },
}

/// Up-sampling by `block` with smoothing kernel, as in the statement of C06.
pub fn upsample(a: &[C], sh: [usize; 2], b: [usize; 2], k: &[C], sk: [usize; 2]) -> Vec<C> {
  let out = [sh[0] * b[0], sh[1] * b[1]];
  let at = |n: usize| (n - 1) / 2;
  let mut r = vec![ZERO; out[0] * out[1]];
  for i in 0..sh[0] { for j in 0..sh[1] {
    let (y, x) = ((i * b[0] + at(b[0])) as isize, (j * b[1] + at(b[1])) as isize);
    // the value at (y, x) is seen by the kernel centred `(p, q)` away from it
    for p in 0..sk[0] { for q in 0..sk[1] {
      let (oy, ox) = (y - p as isize + (sk[0] / 2) as isize, x - q as isize + (sk[1] / 2) as isize);
      if oy < 0 || ox < 0 || oy >= out[0] as isize || ox >= out[1] as isize { continue }
      r[oy as usize * out[1] + ox as usize] += a[i * sh[1] + j] * k[p * sk[1] + q];
    } }
  } }
  r
}

/// The kernel that makes up-sampling the exact adjoint of the linear block function `co`.
pub fn matching_kernel(block: [usize; 2], co: &[C]) -> (Vec<C>, [usize; 2]) {
  let side = |n: usize| { let at = (n - 1) / 2; 2 * at.max(n - 1 - at) + 1 };
  let ks = [side(block[0]), side(block[1])];
  let mut k = vec![ZERO; ks[0] * ks[1]];
  for r in 0..block[0] { for s in 0..block[1] {
    let p = (block[0] - 1) / 2 + ks[0] / 2 - r;
    let q = (block[1] - 1) / 2 + ks[1] / 2 - s;
    k[p * ks[1] + q] = co[r * block[1] + s];
  } }
  (k, ks)
}

impl Lay {
  pub fn dense(inp: usize, units: usize, act: usize, f: impl Fn(usize) -> C) -> Lay {
    Lay::Dense { inp, units, act, w: (0..inp * units).map(&f).collect(), b: (0..units).map(|i| f(inp * units + i)).collect() }
  }
  pub fn conv(ch: usize, filters: usize, k: [usize; 2], act: usize, f: impl Fn(usize) -> C) -> Lay {
    let n = ch * filters * k[0] * k[1];
    Lay::Conv { ch, filters, k, act, w: (0..n).map(&f).collect(), b: (0..filters).map(|i| f(n + i)).collect() }
  }
  /// Pooling with the kernel that matches its block function.
  pub fn pool(n: usize, block: [usize; 2], f: impl Fn(usize) -> C) -> Lay {
    let co: Vec<C> = (0..block[0] * block[1]).map(f).collect();
    let (kernel, ks) = matching_kernel(block, &co);
    Lay::Pool { n, block, co, kernel, ks }
  }
  pub fn mean_pool(n: usize, block: [usize; 2]) -> Lay { Lay::pool(n, block, |_| c(1.0 / (block[0] * block[1]) as f64, 0.0)) }

  pub fn name(&self) -> String {
    match self {
      Lay::Dense { inp, units, act, .. } => format!("dense {}->{} {}", inp, units, actf::ACT_NAMES[*act]),
      Lay::Conv { ch, filters, k, act, .. } => format!("conv {}ch {}f {}x{} {}", ch, filters, k[0], k[1], actf::ACT_NAMES[*act]),
      Lay::Pool { n, block, .. } => format!("pool {} {}x{}", n, block[0], block[1]),
      Lay::Flat { n, h, w } => format!("flatten {} {}x{}", n, h, w),
    }
  }
  pub fn params(&self) -> (usize, usize) {
    match self { Lay::Dense { w, b, .. } | Lay::Conv { w, b, .. } => (w.len(), b.len()), _ => (0, 0) }
  }
  pub fn in_shape(&self) -> IOShape {
    match self { Lay::Dense { inp, .. } => IOShape::Scalar(*inp), Lay::Conv { ch, .. } => IOShape::Matrix(*ch), Lay::Pool { n, .. } | Lay::Flat { n, .. } => IOShape::Matrix(*n) }
  }
  pub fn out_shape(&self) -> IOShape {
    match self { Lay::Dense { units, .. } => IOShape::Scalar(*units), Lay::Conv { filters, .. } => IOShape::Matrix(*filters), Lay::Pool { n, .. } => IOShape::Matrix(*n), Lay::Flat { n, h, w } => IOShape::Scalar(n * h * w) }
  }
  pub fn round<T: Num>(&self) -> Lay {
    let mut l = self.clone();
    match &mut l {
      Lay::Dense { w, b, .. } | Lay::Conv { w, b, .. } => { *w = round::<T>(w); *b = round::<T>(b); }
      Lay::Pool { co, kernel, .. } => { *co = round::<T>(co); *kernel = round::<T>(kernel); }
      _ => {}
    }
    l
  }
  pub fn act(&self) -> Option<usize> { match self { Lay::Dense { act, .. } | Lay::Conv { act, .. } => Some(*act), _ => None } }

  /// Pre-activations.
  pub fn q(&self, x: &Dat) -> Dat {
    match self {
      Lay::Dense { inp, units, w, b, .. } => {
        assert!(x.vec && x.v.len() == *inp);
        Dat::vector((0..*units).map(|u| { let mut s = b[u]; for j in 0..*inp { s += w[u * inp + j] * x.v[j]; } s }).collect())
      }
      Lay::Conv { ch, filters, k, w, b, .. } => {
        assert!(!x.vec && x.n == *ch);
        let (oh, ow) = (x.h + 1 - k[0], x.w + 1 - k[1]);
        let mut v = Vec::new();
        for f in 0..*filters { for i in 0..oh { for j in 0..ow {
          let mut s = b[f];
          for m in 0..*ch { for p in 0..k[0] { for q in 0..k[1] {
            s += w[((f * ch + m) * k[0] + p) * k[1] + q] * x.v[(m * x.h + i + p) * x.w + j + q];
          } } }
          v.push(s);
        } } }
        Dat::maps(*filters, oh, ow, v)
      }
      _ => unreachable!(),
    }
  }

  pub fn forward(&self, x: &Dat) -> Dat {
    match self {
      Lay::Dense { act, .. } | Lay::Conv { act, .. } => { let mut q = self.q(x); for z in q.v.iter_mut() { *z = actf::act(*act, *z); } q }
      Lay::Pool { block, co, .. } => {
        let (oh, ow) = (x.h / block[0], x.w / block[1]);
        let mut v = Vec::new();
        for m in 0..x.n { for i in 0..oh { for j in 0..ow {
          let mut s = ZERO;
          for p in 0..block[0] { for q in 0..block[1] { s += co[p * block[1] + q] * x.v[(m * x.h + i * block[0] + p) * x.w + j * block[1] + q]; } }
          v.push(s);
        } } }
        Dat::maps(x.n, oh, ow, v)
      }
      Lay::Flat { .. } => Dat::vector(x.v.clone()),
    }
  }

  /// Whether the layer is differentiable at `x`, with the pre-activations at least `margin`
  /// away from every kink or singularity.
  pub fn smooth(&self, x: &Dat, margin: f64) -> bool {
    match self.act() {
      None => true,
      Some(a) => self.q(x).v.iter().all(|z| actf::smooth(a, *z) && match a {
        actf::MODZ | actf::CARD => z.abs() >= margin,
        actf::RELU | actf::ZRELU => z.re.abs() >= margin && z.im.abs() >= margin,
        _ => true,
      }),
    }
  }
  /// Whether the layer's value is defined at `x` (phase activations need a nonzero argument).
  pub fn defined(&self, x: &Dat) -> bool {
    match self.act() { Some(actf::MODZ) | Some(actf::CARD) => self.q(x).v.iter().all(|z| z.abs() > 1e-9), _ => true }
  }

  /// Chain rule: derivatives with respect to weights, biases and inputs, given the Wirtinger
  /// derivative `g` of a real loss with respect to the outputs.
  pub fn backward(&self, x: &Dat, g: &[C]) -> (Vec<C>, Vec<C>, Vec<C>) {
    match self {
      Lay::Dense { inp, units, act, w, .. } => {
        let dq = self.dq(*act, x, g);
        let (mut dw, mut dx) = (Vec::new(), vec![ZERO; *inp]);
        for u in 0..*units { for j in 0..*inp { dw.push(dq[u] * x.v[j]); dx[j] += dq[u] * w[u * inp + j]; } }
        (dw, dq, dx)
      }
      Lay::Conv { ch, filters, k, act, w, .. } => {
        let dq = self.dq(*act, x, g);
        let (oh, ow) = (x.h + 1 - k[0], x.w + 1 - k[1]);
        let (mut dw, mut db, mut dx) = (vec![ZERO; w.len()], vec![ZERO; *filters], vec![ZERO; x.v.len()]);
        for f in 0..*filters { for i in 0..oh { for j in 0..ow {
          let d = dq[(f * oh + i) * ow + j];
          db[f] += d;
          for m in 0..*ch { for p in 0..k[0] { for q in 0..k[1] {
            let (wi, xi) = (((f * ch + m) * k[0] + p) * k[1] + q, (m * x.h + i + p) * x.w + j + q);
            dw[wi] += d * x.v[xi];
            dx[xi] += d * w[wi];
          } } }
        } } }
        (dw, db, dx)
      }
      Lay::Pool { block, kernel, ks, .. } => {
        let sh = [x.h / block[0], x.w / block[1]];
        let dx = g.chunks(sh[0] * sh[1]).flat_map(|m| upsample(m, sh, *block, kernel, *ks)).collect();
        (vec![], vec![], dx)
      }
      Lay::Flat { .. } => (vec![], vec![], g.to_vec()),
    }
  }
  fn dq(&self, act: usize, x: &Dat, g: &[C]) -> Vec<C> {
    self.q(x).v.iter().zip(g).map(|(q, g)| { let (d, dc) = actf::d_act(act, *q); d * *g + dc.conj() * g.conj() }).collect()
  }

  /// `w - conj(d)` on every parameter.
  pub fn adjust(&mut self, dw: &[C], db: &[C]) {
    if let Lay::Dense { w, b, .. } | Lay::Conv { w, b, .. } = self {
      for (a, d) in w.iter_mut().zip(dw) { *a = *a - d.conj(); }
      for (a, d) in b.iter_mut().zip(db) { *a = *a - d.conj(); }
    }
  }

  /// The real layer with these parameters: initialised to zero and adjusted once.
  pub fn build<T: Num>(&self) -> CLayer<T> {
    let mut seed = 1u128;
    match self {
      Lay::Dense { inp, units, act, w, b } => {
        let mut l = DenseCLayer::<T>::init(IOShape::Scalar(*inp), *units, ACTS[*act], InitMethod::Uniform(0), &mut seed).expect("dense layer").wrap();
        l.neg_conj_adjustment(neg_conj(w), neg_conj(b)).expect("set parameters");
        l
      }
      Lay::Conv { ch, filters, k, act, w, b } => {
        let mut l = ConvCLayer::<T>::init(IOShape::Matrix(*ch), *filters, *k, ACTS[*act], InitMethod::Uniform(0), &mut seed).expect("convolutional layer").wrap();
        l.neg_conj_adjustment(neg_conj(w), neg_conj(b)).expect("set parameters");
        l
      }
      Lay::Pool { n, block, co, kernel, ks } => {
        let co: Vec<T> = vec_of(co);
        let f = move |b: &[T]| co.iter().zip(b).fold(T::default(), |s, (a, x)| s + *a * *x);
        Reduce::init(*n, *block, Box::new(f), Matrix::from_body(vec_of(kernel), *ks)).wrap()
      }
      Lay::Flat { n, h, w } => Flatten::init([*h, *w], *n).wrap(),
    }
  }
}

fn neg_conj<T: Num>(v: &[C]) -> Vec<T> { v.iter().map(|z| T::of(-(z.conj()))).collect() }

/// The real network of a list of layers.
pub fn build_net<T: Num>(ls: &[Lay]) -> CNetwork<T> {
  let mut n = CNetwork::new();
  for (i, l) in ls.iter().enumerate() {
    if i == 0 { n.add_input(l.build()).expect("input layer"); } else { n.add(l.build()).expect("compatible layer"); }
  }
  n
}

pub fn acts(ls: &[Lay], x: &Dat) -> Vec<Dat> {
  let mut a = vec![x.clone()];
  for l in ls { let y = l.forward(a.last().unwrap()); a.push(y); }
  a
}
pub fn predict(ls: &[Lay], x: &Dat) -> Dat { acts(ls, x).pop().unwrap() }

pub type Grad = Vec<(Vec<C>, Vec<C>)>;

/// Derivative of one point's loss with respect to all parameters.
pub fn grad(ls: &[Lay], loss: usize, x: &Dat, t: &Dat) -> Grad {
  let a = acts(ls, x);
  let mut g = lossf::d_loss(loss, &t.v, &a[ls.len()].v);
  let mut out = Vec::new();
  for (i, l) in ls.iter().enumerate().rev() {
    let (dw, db, dx) = l.backward(&a[i], &g);
    out.push((dw, db));
    g = dx;
  }
  out.reverse();
  out
}

/// The same by central differences of the forward pass.
pub fn grad_num(ls: &[Lay], loss: usize, x: &Dat, t: &Dat) -> Grad {
  let h = 1e-6;
  let f = |ls: &[Lay]| lossf::objective(loss, &t.v, &predict(ls, x).v);
  let mut ls: Vec<Lay> = ls.to_vec();
  let mut out = Vec::new();
  for i in 0..ls.len() {
    let (nw, nb) = ls[i].params();
    let mut d = Vec::new();
    for j in 0..nw + nb {
      let mut at = |dz: C| {
        let slot = |l: &mut Lay, z: C| if let Lay::Dense { w, b, .. } | Lay::Conv { w, b, .. } = l { let r = if j < nw { &mut w[j] } else { &mut b[j - nw] }; let o = *r; *r = z; o } else { unreachable!() };
        let old = slot(&mut ls[i], ZERO);
        slot(&mut ls[i], old + dz);
        let v = f(&ls);
        slot(&mut ls[i], old);
        v
      };
      let dx = (at(c(h, 0.0)) - at(c(-h, 0.0))) / (2.0 * h);
      let dy = (at(c(0.0, h)) - at(c(0.0, -h))) / (2.0 * h);
      d.push(c(dx / 2.0, -dy / 2.0));
    }
    let db = d.split_off(nw);
    out.push((d, db));
  }
  out
}

/// One gradient-descent step on a batch.
pub fn train(ls: &mut [Lay], loss: usize, batch: &[(Dat, Dat)], lr: C) {
  let grads: Vec<Grad> = batch.iter().map(|(x, t)| grad(ls, loss, x, t)).collect();
  let k = lr.scale(1.0 / batch.len() as f64);
  for (i, l) in ls.iter_mut().enumerate() {
    let (nw, nb) = l.params();
    let (mut dw, mut db) = (vec![ZERO; nw], vec![ZERO; nb]);
    for g in &grads {
      for (a, b) in dw.iter_mut().zip(&g[i].0) { *a += *b; }
      for (a, b) in db.iter_mut().zip(&g[i].1) { *a += *b; }
    }
    for z in dw.iter_mut().chain(db.iter_mut()) { *z = *z * k; }
    l.adjust(&dw, &db);
  }
}

/// Inputs that expose every parameter of a layer.
pub fn probes(l: &Lay, h: usize, w: usize) -> Vec<Dat> {
  let (maps, n, len) = match l {
    Lay::Dense { inp, .. } => (false, *inp, *inp),
    Lay::Conv { ch, .. } => (true, *ch, ch * h * w),
    Lay::Pool { n, .. } | Lay::Flat { n, .. } => (true, *n, n * h * w),
  };
  let mk = |v: Vec<C>| if maps { Dat::maps(n, h, w, v) } else { Dat::vector(v) };
  let mut out = vec![mk(vec![ZERO; len]), mk(generic_vec(3, len)), mk(generic_vec(4, len).iter().map(|z| z.scale(5.0)).collect())];
  let picks: Vec<usize> = if len <= 24 { (0..len).collect() } else { (0..len).step_by(len / 16).chain([len - 1]).collect() };
  for j in picks {
    for f in [c(1.0, 0.0), c(-64.0, 0.0), c(0.0, 64.0), c(64.0, -64.0)] {
      let mut v = vec![ZERO; len];
      v[j] = f;
      out.push(mk(v));
    }
  }
  out
}

/// Everything the public interface tells about a layer, bit for bit.
pub fn fingerprint<T: Num>(l: &CLayer<T>, model: &Lay, h: usize, w: usize) -> Vec<u64> {
  let mut out = Vec::new();
  for x in probes(model, h, w) {
    if !model.defined(&x) { continue }
    let io = x.io::<T>();
    match crate::engine::guard(|| l.foward(&io)) {
      Ok(Ok(y)) => {
        let y = Dat::of(&y);
        out.extend(y.bits());
        if l.propagates() {
          let g = generic_vec(6, y.v.len());
          let gc: Vec<C> = g.iter().map(|z| z.conj()).collect();
          match crate::engine::guard(|| l.compute_derivatives(&io, vec_of(&g), vec_of(&gc))) {
            Ok(Ok((a, b, c, d))) => for v in [a, b, c, d] { for z in vec_to(&v) { out.push(z.re.to_bits()); out.push(z.im.to_bits()); } },
            _ => out.push(1),
          }
        }
      }
      _ => out.push(2),
    }
  }
  out
}
