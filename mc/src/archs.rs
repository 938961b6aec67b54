//! All network architectures over a layer alphabet, up to a bounded depth.
use crate::cx::*;
use crate::num::*;
use crate::refnet::*;

/// What may follow what.
pub struct Alphabet {
  pub units: Vec<usize>,
  pub filters: Vec<usize>,
  pub kernels: Vec<[usize; 2]>,
  pub blocks: Vec<[usize; 2]>,
}

/// An architecture: the shape of its input and its layers, parameters all zero, activation 0.
#[derive(Clone)]
pub struct Arch { pub input: Dat, pub layers: Vec<Lay> }

pub fn vec_in(n: usize) -> Dat { Dat::vector(vec![ZERO; n]) }
pub fn map_in(n: usize, h: usize, w: usize) -> Dat { Dat::maps(n, h, w, vec![ZERO; n * h * w]) }

impl Arch {
  pub fn name(&self) -> String { format!("{} | {}", self.input.shape(), self.layers.iter().map(|l| l.name()).collect::<Vec<_>>().join(" | ")) }
  /// Number of layers with parameters.
  pub fn trainable(&self) -> usize { self.layers.iter().filter(|l| l.params().0 > 0).count() }
  /// The same architecture with parameters of pattern `p` and the given activations.
  pub fn fill(&self, p: usize, acts: &[usize], value: impl Fn(usize, usize) -> C) -> Vec<Lay> {
    let mut at = 0;
    self.layers.iter().enumerate().map(|(k, l)| {
      let mut l = l.clone();
      if let Lay::Dense { w, b, act, .. } | Lay::Conv { w, b, act, .. } = &mut l {
        *act = acts[at];
        at += 1;
        let nw = w.len();
        for (i, z) in w.iter_mut().enumerate() { *z = value(p + k, i); }
        for (i, z) in b.iter_mut().enumerate() { *z = value(p + k, nw + i); }
      }
      l
    }).collect()
  }
  pub fn input(&self, p: usize, value: impl Fn(usize, usize) -> C) -> Dat {
    let mut x = self.input.clone();
    for (i, z) in x.v.iter_mut().enumerate() { *z = value(p, i); }
    x
  }
}

fn after(y: &Dat, al: &Alphabet) -> Vec<(Lay, Dat)> {
  let mut out = Vec::new();
  if y.vec {
    for u in &al.units { out.push((Lay::dense(y.n, *u, 0, |_| ZERO), vec_in(*u))); }
  } else {
    for f in &al.filters { for k in &al.kernels {
      if k[0] <= y.h && k[1] <= y.w { out.push((Lay::conv(y.n, *f, *k, 0, |_| ZERO), map_in(*f, y.h + 1 - k[0], y.w + 1 - k[1]))); }
    } }
    for b in &al.blocks {
      // unequal coefficients, so that their places matter
      if y.h % b[0] == 0 && y.w % b[1] == 0 { out.push((Lay::pool(y.n, *b, |i| c(0.25 * (i + 1) as f64, 0.0)), map_in(y.n, y.h / b[0], y.w / b[1]))); }
    }
    out.push((Lay::Flat { n: y.n, h: y.h, w: y.w }, vec_in(y.n * y.h * y.w)));
  }
  out
}

/// Every architecture with `lo..=hi` layers.
pub fn architectures(inputs: &[Dat], al: &Alphabet, lo: usize, hi: usize) -> Vec<Arch> {
  let mut out = Vec::new();
  for x in inputs {
    let mut level = vec![(Vec::<Lay>::new(), x.clone())];
    for depth in 1..=hi {
      let mut next = Vec::new();
      for (ls, y) in &level { for (l, z) in after(y, al) { let mut v = ls.clone(); v.push(l); next.push((v, z)); } }
      if depth >= lo { for (ls, _) in &next { out.push(Arch { input: x.clone(), layers: ls.clone() }); } }
      level = next;
    }
  }
  out
}

/// Values used for parameters and inputs of networks: moderate, generic.
pub fn moderate(p: usize, i: usize) -> C { generic(p, i).scale(0.9) + c(0.05, -0.03) }

/// Inputs that are easily mistaken for `x`: same sum, same magnitudes, same elements in another
/// order or shape, one element changed by as little as one bit.
pub fn family(x: &Dat) -> Vec<(String, Dat)> {
  let n = x.v.len();
  let map = |f: &dyn Fn(usize, C) -> C| Dat { v: x.v.iter().enumerate().map(|(i, z)| f(i, *z)).collect(), ..x.clone() };
  let mut out = vec![
    ("x".to_string(), x.clone()),
    ("-x".into(), map(&|_, z| ZERO - z)),
    ("conj x".into(), map(&|_, z| z.conj())),
    ("i x".into(), map(&|_, z| z * I)),
    ("swapped parts of x".into(), map(&|_, z| c(z.im, z.re))),
    ("x backwards".into(), map(&|i, _| x.v[n - 1 - i])),
    ("x rotated".into(), map(&|i, _| x.v[(i + 1) % n])),
    ("x with the first two exchanged".into(), map(&|i, z| if i < 2 && n > 1 { x.v[1 - i] } else { z })),
    ("x with the last two exchanged".into(), map(&|i, z| if i + 2 >= n && n > 1 { x.v[2 * n - 3 - i] } else { z })),
    ("|x|".into(), map(&|_, z| c(z.abs(), 0.0))),
    ("2 x".into(), map(&|_, z| z.scale(2.0))),
    ("0".into(), map(&|_, _| ZERO)),
    ("-0".into(), map(&|_, _| c(-0.0, -0.0))),
    ("the first of x everywhere".into(), map(&|_, _| x.v[0])),
    ("x of the same sum".into(), map(&|i, z| if i == 0 { z + c(0.25, -0.5) } else if i == n - 1 { z - c(0.25, -0.5) } else { z })),
    ("x with only real parts".into(), map(&|_, z| c(z.re, 0.0))),
  ];
  let picks: Vec<usize> = if n <= 12 { (0..n).collect() } else { vec![0, 1, 7, 8, n / 2, n - 2, n - 1] };
  for j in picks {
    out.push((format!("x with element {} changed", j), map(&|i, z| if i == j { z + c(0.125, 0.0) } else { z })));
    out.push((format!("x with element {} turned", j), map(&|i, z| if i == j { z * I } else { z })));
    // one unit in the last place of a 32-bit float
    out.push((format!("x with a bit of element {} changed", j), map(&|i, z| if i == j { c(z.re, f32::from_bits((z.im as f32).to_bits() ^ 1) as f64) } else { z })));
  }
  out
}
