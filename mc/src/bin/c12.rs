//! C12: dense layers.
use mc::actf::*;
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::laychk::*;
use mc::num::*;
use mc::refnet::*;
use renplex::math::cfloat::{Cf32, Cf64};

fn one<T: Num>(l: &Lay, xs: &[Dat], gs: &[Vec<C>], exact: bool, st: &mut Local) -> Case {
  let l = if exact { l.clone() } else { l.round::<T>() };
  let real = l.build::<T>();
  for x in xs {
    let x = x.round::<T>();
    forward::<T>(&l, &real, &x, exact, st)?;
    for g in gs {
      let g = round::<T>(g);
      derivs::<T>(&l, &real, &x, &g, exact, st)?;
    }
  }
  st.trace();
  Ok(())
}

fn refusals<T: Num>(inp: usize, units: usize, act: usize, st: &mut Local) -> Case {
  let l = Lay::dense(inp, units, act, |i| gauss(0, i));
  let real = l.build::<T>();
  ensure!(real.params_len() == (inp * units, units), "{} {}: parameter count {:?}", T::NAME, l.name(), real.params_len());
  for n in [0, 1, inp, inp + 1] {
    for (h, w) in [(1, 1), (1, inp), (inp, 1), (2, 3)] { refuses::<T>(&l, &real, &images(n, h, w), &format!("{} maps of {}x{}", n, h, w), 1, 1, st)?; }
  }
  let x = Dat::vector(gauss_vec(3, inp));
  let before = fingerprint(&real, &l, 1, 1);
  for a in 0..=2 * units + 1 {
    for b in 0..=2 * units + 1 {
      if (a, b) == (units, units) { continue }
      let r = guard(|| real.compute_derivatives(&x.io(), vec_of(&gauss_vec(0, a)), vec_of(&gauss_vec(1, b))));
      ensure!(matches!(r, Ok(Err(_))), "{} {}: derivatives from {} and {} upstream values did not give an error (panic: {})", T::NAME, l.name(), a, b, r.is_err());
      st.step(1);
    }
  }
  ensure!(fingerprint(&real, &l, 1, 1) == before, "{} {}: refused derivatives changed the layer", T::NAME, l.name());
  st.trace();
  Ok(())
}

fn main() {
  run("C12", &["activations judged where they are defined, derivatives where differentiable", "piecewise linear activations exactly on integers, others to rounding"], |r| {
    // one weight, one bias, one input: all values of a grid
    let m = if r.thorough { 4i32 } else { 3 };
    let grid: Vec<C> = (-m..=m).flat_map(|a| (-m..=m).map(move |b| c(a as f64, b as f64))).collect();
    let g = grid.len();
    r.group("one-unit", (7 * g * g * g) as u64, |i, st| {
      let mut q = Pick(i);
      let (act, w, b, x) = (q.of(7), *q.from(&grid), *q.from(&grid), *q.from(&grid));
      let l = Lay::Dense { inp: 1, units: 1, act, w: vec![w], b: vec![b] };
      st.state();
      let xs = [Dat::vector(vec![x])];
      let gs = [vec![ONE], vec![I], vec![c(2.0, -3.0)]];
      self_check(&l, &xs[0], &gs[2]);
      one::<Cf32>(&l, &xs, &gs, true, st)?;
      one::<Cf64>(&l, &xs, &gs, true, st)
    });
    // two inputs, two units: all values of a smaller alphabet
    let al: Vec<C> = if r.thorough { vec![ZERO, c(1.0, -1.0), c(-2.0, 1.0), c(1.0, 1.0), c(0.0, -3.0)] } else { vec![ZERO, c(1.0, -1.0), c(-2.0, 1.0), c(1.0, 1.0)] };
    let k = al.len() as u64;
    r.group("two-by-two", 7 * k.pow(8), |i, st| {
      let mut q = Pick(i);
      let act = q.of(7);
      let v: Vec<C> = (0..8).map(|_| *q.from(&al)).collect();
      let l = Lay::Dense { inp: 2, units: 2, act, w: v[..4].to_vec(), b: v[4..6].to_vec() };
      st.state();
      let xs = [Dat::vector(v[6..].to_vec())];
      let gs = [vec![c(1.0, 2.0), c(-3.0, 1.0)]];
      one::<Cf32>(&l, &xs, &gs, true, st)?;
      one::<Cf64>(&l, &xs, &gs, true, st)
    });
    // every size
    let top = if r.thorough { 12 } else { 7 };
    r.group("sizes", (top * top * 7 * 6) as u64, |i, st| {
      let mut q = Pick(i);
      let (inp, units, act, p) = (q.range(1, top), q.range(1, top), q.of(7), q.of(6));
      let exact = p < 4;
      let v = |i: usize| if exact { gauss(p, i) } else { generic(p, i) };
      let l = Lay::dense(inp, units, act, v);
      st.state();
      let mut xs = vec![Dat::vector((0..inp).map(|j| v(j + 3)).collect()), Dat::vector((0..inp).map(|j| -v(j + 1)).collect()), Dat::vector(vec![ZERO; inp])];
      for j in 0..inp { let mut b = vec![ZERO; inp]; b[j] = c(1.0, 2.0); xs.push(Dat::vector(b)); }
      let mut gs = vec![(0..units).map(|j| v(j + 5)).collect::<Vec<_>>()];
      for j in 0..units { let mut b = vec![ZERO; units]; b[j] = c(2.0, 1.0); gs.push(b); }
      for x in &xs { self_check(&l, x, &gs[0]); }
      one::<Cf32>(&l, &xs, &gs, exact, st)?;
      one::<Cf64>(&l, &xs, &gs, exact, st)
    });
    // sizes where implementations change strategy
    let edge = edges(4097);
    let e = edge.len();
    r.group("edge-sizes", (e * 3 * 7) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, mode, act) = (*q.from(&edge), q.of(3), q.of(7));
      let (inp, units) = [(n, 2), (2, n), (n.min(257), n.min(257))][mode];
      if n > 257 && mode == 2 { return Ok(()) }
      let l = Lay::dense(inp, units, act, |i| gauss(0, i));
      st.state();
      let xs = [Dat::vector(gauss_vec(1, inp)), Dat::vector(gauss_vec(3, inp))];
      let gs = [gauss_vec(0, units)];
      one::<Cf32>(&l, &xs, &gs, true, st)?;
      one::<Cf64>(&l, &xs, &gs, true, st)
    });
    let top = if r.thorough { 6 } else { 4 };
    r.group("adjustments", (top * top * 7 * 2) as u64, |i, st| {
      let mut q = Pick(i);
      let (inp, units, act, p) = (q.range(1, top), q.range(1, top), q.of(7), q.of(2));
      let l = Lay::dense(inp, units, act, |i| gauss(p, i));
      st.state();
      adjusting::<Cf32>(&l, 1, 1, st)?;
      adjusting::<Cf64>(&l, 1, 1, st)
    });
    r.group("large-adjustments", (e * 2) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, mode) = (*q.from(&edge), q.of(2));
      let (inp, units) = [(n, 2), (2, n)][mode];
      let l = Lay::dense(inp, units, NONE, |i| gauss(0, i));
      st.state();
      adjusting::<Cf64>(&l, 1, 1, st)
    });
    r.group("refusals", (top * top * 7) as u64, |i, st| {
      let mut q = Pick(i);
      let (inp, units, act) = (q.range(1, top), q.range(1, top), q.of(7));
      st.state();
      refusals::<Cf32>(inp, units, act, st)?;
      refusals::<Cf64>(inp, units, act, st)
    });
  });
}
