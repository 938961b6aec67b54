//! C13: convolutional layers.
use mc::actf::*;
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::laychk::*;
use mc::num::*;
use mc::refnet::*;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};

fn one<T: Num>(l: &Lay, xs: &[Dat], gs: &[Vec<C>], exact: bool, st: &mut Local) -> Case {
  let l = if exact { l.clone() } else { l.round::<T>() };
  let real = l.build::<T>();
  for x in xs {
    let x = x.round::<T>();
    forward::<T>(&l, &real, &x, exact, st)?;
    for g in gs {
      let g = round::<T>(g);
      derivs::<T>(&l, &real, &x, &g, exact, st)?;
    }
  }
  st.trace();
  Ok(())
}

fn refusals<T: Num>(ch: usize, filters: usize, k: [usize; 2], act: usize, st: &mut Local) -> Case {
  let l = Lay::conv(ch, filters, k, act, |i| gauss(0, i));
  let real = l.build::<T>();
  let (h, w) = (k[0] + 1, k[1] + 2);
  ensure!(real.params_len() == l.params(), "{} {}: parameter count {:?}", T::NAME, l.name(), real.params_len());
  for n in 0..=ch * h * w + 1 { refuses::<T>(&l, &real, &IOType::Scalar(vec_of(&gauss_vec(0, n))), &format!("a vector of {}", n), h, w, st)?; }
  for n in 0..=2 * ch + 2 {
    if n == ch { continue }
    refuses::<T>(&l, &real, &images(n, h, w), &format!("{} channels", n), h, w, st)?;
  }
  st.trace();
  Ok(())
}

fn main() {
  run("C13", &["images at least as large as the kernel", "activations judged where they are defined, derivatives where differentiable", "piecewise linear activations exactly on integers, others to rounding"], |r| {
    // one kernel entry, two pixels: all values of a grid
    let m = if r.thorough { 3i32 } else { 2 };
    let grid: Vec<C> = (-m..=m).flat_map(|a| (-m..=m).map(move |b| c(a as f64, b as f64))).collect();
    let n = grid.len();
    r.group("one-entry", (7 * n * n * n) as u64, |i, st| {
      let mut q = Pick(i);
      let (act, w, b, x) = (q.of(7), *q.from(&grid), *q.from(&grid), *q.from(&grid));
      let l = Lay::Conv { ch: 1, filters: 1, k: [1, 1], act, w: vec![w], b: vec![b] };
      st.state();
      let xs = [Dat::maps(1, 1, 2, vec![x, c(1.0, 2.0)])];
      let gs = [vec![ONE, ZERO], vec![c(2.0, -3.0), I]];
      self_check(&l, &xs[0], &gs[1]);
      one::<Cf32>(&l, &xs, &gs, true, st)?;
      one::<Cf64>(&l, &xs, &gs, true, st)
    });
    // a 1x2 or 2x1 kernel over three pixels: all values of a small alphabet
    let al: Vec<C> = if r.thorough { vec![ZERO, c(1.0, -1.0), c(-2.0, 1.0), c(1.0, 1.0), c(0.0, -3.0)] } else { vec![ZERO, c(1.0, -1.0), c(-2.0, 1.0), c(1.0, 1.0)] };
    let k = al.len() as u64;
    r.group("small-kernels", 14 * k.pow(6), |i, st| {
      let mut q = Pick(i);
      let (act, tall) = (q.of(7), q.of(2) == 1);
      let v: Vec<C> = (0..6).map(|_| *q.from(&al)).collect();
      let l = Lay::Conv { ch: 1, filters: 1, k: if tall { [2, 1] } else { [1, 2] }, act, w: v[..2].to_vec(), b: v[2..3].to_vec() };
      st.state();
      let xs = [if tall { Dat::maps(1, 3, 1, v[3..].to_vec()) } else { Dat::maps(1, 1, 3, v[3..].to_vec()) }];
      let gs = [vec![c(1.0, 2.0), c(-3.0, 1.0)]];
      one::<Cf32>(&l, &xs, &gs, true, st)?;
      one::<Cf64>(&l, &xs, &gs, true, st)
    });
    // every shape
    let (cm, km, em) = if r.thorough { (4, 4, 4) } else { (3, 3, 3) };
    r.group("shapes", (cm * cm * km * km * em * em * 7 * 3) as u64, |i, st| {
      let mut q = Pick(i);
      let (ch, filters, k, ex, act, p) = (q.range(1, cm), q.range(1, cm), [q.range(1, km), q.range(1, km)], [q.of(em), q.of(em)], q.of(7), q.of(3));
      let (h, w) = (k[0] + ex[0], k[1] + ex[1]);
      let exact = p < 2;
      let v = |i: usize| if exact { gauss(p, i) } else { generic(p, i) };
      let l = Lay::conv(ch, filters, k, act, v);
      st.state();
      let out = filters * (ex[0] + 1) * (ex[1] + 1);
      let mut xs = vec![Dat::maps(ch, h, w, (0..ch * h * w).map(|j| v(j + 3)).collect())];
      let mut b = vec![ZERO; ch * h * w];
      b[i as usize % (ch * h * w)] = c(1.0, 2.0);
      xs.push(Dat::maps(ch, h, w, b));
      let mut gs = vec![(0..out).map(|j| v(j + 5)).collect::<Vec<_>>()];
      let mut b = vec![ZERO; out];
      b[i as usize % out] = c(2.0, 1.0);
      gs.push(b);
      if i % 16 == 0 { self_check(&l, &xs[0], &gs[0]); }
      one::<Cf32>(&l, &xs, &gs, exact, st)?;
      one::<Cf64>(&l, &xs, &gs, exact, st)
    });
    // basis images and basis upstream derivatives, all of them
    let (cm, km, em) = if r.thorough { (3, 3, 3) } else { (2, 3, 2) };
    r.group("basis", (cm * cm * km * km * em * em * 3) as u64, |i, st| {
      let mut q = Pick(i);
      let (ch, filters, k, ex, act) = (q.range(1, cm), q.range(1, cm), [q.range(1, km), q.range(1, km)], [q.of(em), q.of(em)], [NONE, RELU, MODZ][q.of(3)]);
      let (h, w) = (k[0] + ex[0], k[1] + ex[1]);
      let l = Lay::conv(ch, filters, k, act, |i| gauss(0, i));
      st.state();
      let out = filters * (ex[0] + 1) * (ex[1] + 1);
      let unit = |n: usize, j: usize| { let mut b = vec![ZERO; n]; b[j] = c(1.0, 2.0); b };
      let xs: Vec<Dat> = (0..ch * h * w).map(|j| Dat::maps(ch, h, w, unit(ch * h * w, j))).collect();
      let gs: Vec<Vec<C>> = (0..out).map(|j| unit(out, j)).collect();
      one::<Cf32>(&l, &xs, &gs, true, st)?;
      one::<Cf64>(&l, &xs, &gs, true, st)
    });
    // larger sizes, one dimension at a time
    let e: Vec<usize> = edges(if r.thorough { 2049 } else { 1025 });
    r.group("edge-sizes", (e.len() * 7 * 3) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, mode, act) = (*q.from(&e), q.of(7), [NONE, RELU, CARD][q.of(3)]);
      let (ch, filters, k, h, w) = match mode {
        0 => (n, 2, [2, 1], 3, 2), 1 => (2, n, [1, 2], 2, 3), 2 => (1, 2, [n, 2], n + 1, 3), 3 => (2, 1, [2, n], 3, n + 1),
        4 => (1, 2, [2, 3], n, 4), 5 => (2, 1, [3, 2], 4, n), _ => (1, 1, [2, 3], n.min(70), n.min(70) + 1),
      };
      let l = Lay::conv(ch, filters, k, act, |i| gauss(0, i));
      st.state();
      let xs = [Dat::maps(ch, h, w, gauss_vec(1, ch * h * w))];
      let gs = [gauss_vec(0, filters * (h + 1 - k[0]) * (w + 1 - k[1]))];
      one::<Cf32>(&l, &xs, &gs, true, st)?;
      one::<Cf64>(&l, &xs, &gs, true, st)
    });
    let top = if r.thorough { 3 } else { 2 };
    r.group("adjustments", (top * top * 9 * 7) as u64, |i, st| {
      let mut q = Pick(i);
      let (ch, filters, k, act) = (q.range(1, top), q.range(1, top), [q.range(1, 3), q.range(1, 3)], q.of(7));
      let l = Lay::conv(ch, filters, k, act, |i| gauss(0, i));
      st.state();
      adjusting::<Cf32>(&l, k[0] + 1, k[1], st)?;
      adjusting::<Cf64>(&l, k[0], k[1] + 1, st)
    });
    r.group("refusals", (top * top * 9 * 7) as u64, |i, st| {
      let mut q = Pick(i);
      let (ch, filters, k, act) = (q.range(1, top), q.range(1, top), [q.range(1, 3), q.range(1, 3)], q.of(7));
      st.state();
      refusals::<Cf32>(ch, filters, k, act, st)?;
      refusals::<Cf64>(ch, filters, k, act, st)
    });
  });
}
