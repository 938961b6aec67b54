//! C16: inference is the in-order composition of the layers.
use mc::actf::*;
use mc::archs::*;
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use mc::refnet::*;
use renplex::err::ForwardError;
use renplex::math::cfloat::{Cf32, Cf64};

fn same<T: Num>(a: &Dat, b: &Dat) -> bool { a.like(b) && a.v.iter().zip(&b.v).all(|(x, y)| (*x - *y).abs() <= 16.0 * T::EPS * (1.0 + y.abs())) }

/// Composition of layers built on their own, the whole list, every interception.
fn network<T: Num>(ls: &[Lay], x: &Dat, st: &mut Local) -> Case {
  let what = || format!("{} {} | {}", T::NAME, x.shape(), ls.iter().map(|l| l.name()).collect::<Vec<_>>().join(" | "));
  let net = build_net::<T>(ls);
  let alone: Vec<_> = ls.iter().map(|l| l.build::<T>()).collect();
  let mut want = vec![x.round::<T>()];
  for l in &alone {
    let y = guard(|| l.foward(&want.last().unwrap().io())).map_err(|e| format!("{}: a layer panicked: {}", what(), e))?.map_err(|e| format!("{}: a layer failed: {:?}", what(), e))?;
    want.push(Dat::of(&y));
  }
  let y = guard(|| net.forward(&x.io())).map_err(|e| format!("{}: prediction panicked: {}", what(), e))?.map_err(|e| format!("{}: prediction failed: {:?}", what(), e))?;
  let y = Dat::of(&y);
  ensure!(same::<T>(&y, want.last().unwrap()), "{}: prediction {:?} on {:?}, the layers one after the other give {:?}", what(), y.v, x.v, want.last().unwrap().v);
  st.step(1);
  st.outcome(y.bits());
  let list = guard(|| net.collect_acts(x.io())).map_err(|e| format!("{}: listing panicked: {}", what(), e))?.map_err(|e| format!("{}: listing failed: {:?}", what(), e))?;
  ensure!(list.len() == ls.len() + 1, "{}: {} activations listed", what(), list.len());
  for (k, (g, w)) in list.iter().zip(&want).enumerate() { ensure!(same::<T>(&Dat::of(g), w), "{}: activation {} is {:?}, expected {:?}", what(), k, Dat::of(g).v, w.v); }
  st.step(1);
  for k in 0..ls.len() {
    let (a, l) = guard(|| net.intercept(x.io(), k)).map_err(|e| format!("{}: interception at {} panicked: {}", what(), k, e))?.map_err(|e| format!("{}: interception at {} failed: {:?}", what(), k, e))?;
    ensure!(same::<T>(&Dat::of(&a), &want[k]), "{}: interception at {} gives {:?}, expected {:?}", what(), k, Dat::of(&a).v, want[k].v);
    ensure!(l.get_input_shape() == ls[k].in_shape() && l.get_output_shape() == ls[k].out_shape() && l.params_len() == ls[k].params(), "{}: interception at {} returns another layer", what(), k);
    let b = guard(|| l.foward(&a)).map_err(|e| format!("{}: intercepted layer {} panicked: {}", what(), k, e))?.map_err(|e| format!("{}: intercepted layer {} failed: {:?}", what(), k, e))?;
    ensure!(same::<T>(&Dat::of(&b), &want[k + 1]), "{}: the layer intercepted at {} gives {:?}, expected {:?}", what(), k, Dat::of(&b).v, want[k + 1].v);
    st.step(2);
  }
  for k in [ls.len(), ls.len() + 1, ls.len() * 2 + 5, usize::MAX] {
    let r = guard(|| net.intercept(x.io(), k).map(|_| ())).map_err(|e| format!("{}: interception at {} panicked: {}", what(), k, e))?;
    ensure!(matches!(r, Err(ForwardError::InvalidLayerIndex)), "{}: interception at {} of {} layers gave {:?}", what(), k, ls.len(), r);
    st.step(1);
  }
  st.trace();
  Ok(())
}

fn main() {
  run("C16", &["inputs have the shape the input layer expects", "the reference composes separately built layers"], |r| {
    let al = Alphabet { units: vec![1, 2, 3], filters: vec![1, 2], kernels: vec![[1, 1], [2, 1], [1, 2], [2, 2]], blocks: vec![[1, 1], [2, 1], [1, 2], [2, 2]] };
    let ins = [vec_in(1), vec_in(2), vec_in(3), map_in(1, 1, 1), map_in(1, 2, 3), map_in(2, 2, 2), map_in(1, 4, 4), map_in(3, 4, 2)];
    let deep = if r.thorough { 5 } else { 4 };
    let archs = architectures(&ins, &al, 1, deep);
    // activations: every assignment up to three trainable layers, fixed patterns beyond
    let cases: Vec<(usize, Vec<usize>)> = archs.iter().enumerate().flat_map(|(i, a)| {
      let n = a.trainable();
      let full = if r.thorough { 2 } else { 1 };
      if n <= full || (n <= 2 && a.layers.len() <= 2) { (0..7usize.pow(n as u32)).map(|k| { let mut q = Pick(k as u64); (i, (0..n).map(|_| q.of(7)).collect()) }).collect::<Vec<_>>() }
      else { (0..3).map(|k| (i, (0..n).map(|j| (i + k * 3 + j * (k + 1)) % 7).collect())).collect() }
    }).collect();
    r.note(format!("{} architectures, {} with activations", archs.len(), cases.len()));
    r.group("architectures", cases.len() as u64, |i, st| {
      let (k, acts) = &cases[i as usize];
      let a = &archs[*k];
      st.state();
      st.sample(|| a.name());
      let ls = a.fill(1, acts, moderate);
      for p in 0..2 { network::<Cf64>(&ls, &a.input(p, moderate), st)?; }
      network::<Cf32>(&ls, &a.input(0, moderate), st)
    });
    // all inputs of a small alphabet through exact networks
    let vals = [ZERO, c(1.0, -1.0), c(-2.0, 1.0)];
    let small: Vec<Arch> = architectures(&[vec_in(2), map_in(1, 1, 2), map_in(1, 2, 2)], &al, 2, 3);
    r.group("inputs", (small.len() * 81) as u64, |i, st| {
      let mut q = Pick(i);
      let a = q.from(&small);
      let n = a.input.v.len();
      let mut x = a.input.clone();
      for z in x.v.iter_mut() { *z = *q.from(&vals); }
      if n == 2 && q.of(9) != 0 { return Ok(()) }
      st.state();
      let ls = a.fill(0, &[NONE, RELU, SIGMOID, TANH], |p, i| gauss(p, i));
      network::<Cf64>(&ls, &x, st)
    });
    // layers that leave their input as it is, at every subset of the places
    let unit = |n: usize| Lay::Dense { inp: n, units: n, act: NONE, w: (0..n * n).map(|k| if k / n == k % n { ONE } else { ZERO }).collect(), b: vec![ZERO; n] };
    let depth = if r.thorough { 6 } else { 5 };
    r.group("unchanging", (2u64 << depth) * 7 * 3 * 3, |i, st| {
      let mut q = Pick(i);
      let (mask, act, n, kind) = (q.of(2 << depth), q.of(7), q.range(1, 3), q.of(3));
      let len = usize::BITS as usize - 1 - (mask.max(1)).leading_zeros() as usize;
      if len == 0 { return Ok(()) }
      st.state();
      let maps = kind == 2;
      let ls: Vec<Lay> = (0..len).map(|k| match (mask >> k & 1 == 1, maps) {
        (true, false) => unit(n),
        (false, false) => Lay::dense(n, n, (act + k) % 7, |i| moderate(k + 1, i)),
        (true, true) => if k % 2 == 0 { Lay::mean_pool(n, [1, 1]) } else { Lay::Conv { ch: n, filters: n, k: [1, 1], act: NONE, w: (0..n * n).map(|k| if k / n == k % n { ONE } else { ZERO }).collect(), b: vec![ZERO; n] } },
        (false, true) => Lay::conv(n, n, [1, 1], (act + k) % 7, |i| moderate(k + 1, i)),
      }).collect();
      for x in [generic_vec(1, n), vec![ZERO; n], vec![ONE; n]] {
        let x = if maps { Dat::maps(n, 1, 2, x.iter().chain(&x).copied().collect()) } else { Dat::vector(x) };
        network::<Cf64>(&ls, &x, st)?;
        network::<Cf32>(&ls, &x, st)?;
      }
      Ok(())
    });
    // deep networks: order of layers, index arithmetic
    let e = edges(1025);
    r.group("deep", (e.len() * 3) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, mode) = (*q.from(&e), q.of(3));
      st.state();
      let (ls, x): (Vec<Lay>, Dat) = match mode {
        0 => ((0..n).map(|k| Lay::dense(1 + k % 3, 1 + (k + 1) % 3, if k % 2 == 0 { TANH } else { SIGMOID }, |i| moderate(k, i))).collect(), Dat::vector(vec![c(0.5, 0.25)])),
        1 => ((0..n).map(|k| if k % 4 == 3 { Lay::pool(1 + k % 2, [1, 1], |_| c(0.5, 0.0)) } else { Lay::conv(1 + k % 2, 1 + (k + 1) % 2, [1, 1], TANH, |i| moderate(k, i)) }).scan(1usize, |ch, l| {
          // keep the channel counts chained through the pooling layers
          let l = match l { Lay::Conv { filters, k, act, .. } => Lay::conv(*ch, filters, k, act, |i| moderate(filters + *ch, i)), _ => Lay::pool(*ch, [1, 1], |_| c(0.5, 0.0)) };
          if let Lay::Conv { filters, .. } = &l { *ch = *filters; }
          Some(l)
        }).collect(), Dat::maps(1, 2, 2, gauss_vec(0, 4))),
        _ => (vec![Lay::dense(n, 2, MODZ, |i| moderate(1, i)), Lay::dense(2, n, CARD, |i| moderate(2, i)), Lay::dense(n, 3, NONE, |i| moderate(3, i))], Dat::vector(generic_vec(2, n))),
      };
      network::<Cf64>(&ls, &x, st)?;
      network::<Cf32>(&ls, &x, st)
    });
    // wide feature maps
    r.group("wide", (e.len() * 3) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, mode) = (*q.from(&e), q.of(3));
      st.state();
      let (x, ls): (Dat, Vec<Lay>) = match mode {
        0 => (Dat::maps(1, n, 3, generic_vec(1, 3 * n)), vec![Lay::conv(1, 2, [2, 2], RELU, |i| moderate(1, i)), Lay::Flat { n: 2, h: n - 1, w: 2 }, Lay::dense(4 * (n - 1), 2, TANH, |i| moderate(2, i))]),
        1 => (Dat::maps(2, 2, 2 * n, generic_vec(1, 8 * n)), vec![Lay::pool(2, [1, n], |i| c(1.0 / (i + 1) as f64, 0.0)), Lay::conv(2, 1, [2, 1], MODZ, |i| moderate(1, i)), Lay::Flat { n: 1, h: 1, w: 2 }]),
        _ => (Dat::maps(1, 2, 2, generic_vec(1, 4)), vec![Lay::conv(1, n, [1, 2], TANH, |i| moderate(1, i)), Lay::conv(n, 2, [2, 1], NONE, |i| moderate(2, i)), Lay::Flat { n: 2, h: 1, w: 1 }]),
      };
      network::<Cf64>(&ls, &x, st)?;
      network::<Cf32>(&ls, &x, st)
    });
  });
}
