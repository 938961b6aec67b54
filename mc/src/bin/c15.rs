//! C15: network assembly.
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use mc::refnet::*;
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::err::{ForwardError, LayerAdditionError};
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::opt::ComplexLossFunc;

fn dense(i: usize, u: usize) -> Lay { Lay::dense(i, u, 0, |k| gauss(i + u, k)) }
fn conv(ch: usize, f: usize) -> Lay { Lay::conv(ch, f, [1, 1], 0, |k| gauss(ch + f, k)) }
fn flat(n: usize, h: usize, w: usize) -> Lay { Lay::Flat { n, h, w } }

/// Layers with colliding counts of both kinds, and layers that lack parameters.
fn alphabet() -> Vec<Lay> {
  vec![
    dense(1, 1), dense(2, 1), dense(2, 3), dense(3, 2), dense(1, 2), dense(6, 2),
    conv(1, 1), conv(1, 2), conv(2, 1), conv(3, 2), conv(2, 3),
    Lay::mean_pool(1, [1, 1]), Lay::mean_pool(2, [1, 1]), Lay::mean_pool(3, [1, 1]),
    flat(1, 1, 1), flat(1, 1, 2), flat(2, 1, 1), flat(2, 1, 3), flat(3, 2, 1), flat(1, 3, 1),
    dense(2, 0), dense(0, 2), dense(0, 0), conv(1, 0), conv(0, 1), conv(0, 0), conv(2, 0), dense(1, 0),
  ]
}
fn empty(l: &Lay) -> bool {
  match l { Lay::Dense { inp, units, .. } => inp * units == 0, Lay::Conv { ch, filters, .. } => ch * filters == 0, _ => false }
}

/// Whether the values have the sizes the layers were made for.
fn fits(ls: &[Lay], x: &Dat) -> bool {
  let mut y = x.clone();
  for l in ls {
    let ok = match l {
      Lay::Dense { inp, .. } => y.vec && y.v.len() == *inp,
      Lay::Conv { ch, .. } => !y.vec && y.n == *ch,
      Lay::Pool { n, .. } => !y.vec && y.n == *n,
      Lay::Flat { n, h, w } => !y.vec && (y.n, y.h, y.w) == (*n, *h, *w),
    };
    if !ok { return false }
    y = l.forward(&y);
  }
  true
}

fn inputs(ls: &[Lay]) -> Vec<Dat> {
  match ls.first().map(|l| l.in_shape()) {
    Some(IOShape::Scalar(n)) => vec![Dat::vector(gauss_vec(1, n))],
    Some(IOShape::Matrix(n)) => [(1, 1), (1, 2), (1, 3), (2, 1), (3, 1)].iter().map(|(h, w)| Dat::maps(n, *h, *w, gauss_vec(2, n * h * w))).collect(),
    None => vec![],
  }
}

fn answers<T: Num>(net: &CNetwork<T>, ls: &[Lay], what: &str, st: &mut Local) -> Case {
  let params: usize = ls.iter().map(|l| l.params().0 + l.params().1).sum();
  ensure!(net.params_len() == params, "{}: {} parameters reported, {} expected", what, net.params_len(), params);
  match ls.len() {
    0 => {
      ensure!(net.get_input_shape().is_err() && net.get_output_shape().is_err(), "{}: an empty network reports shapes", what);
      for io in [IOType::Scalar(vec![T::of(ONE)]), IOType::Scalar(vec![]), IOType::Matrix(vec![])] {
        let r = guard(|| net.forward(&io)).map_err(|e| format!("{}: prediction on an empty network panicked: {}", what, e))?;
        ensure!(matches!(r, Err(ForwardError::MissingLayers)), "{}: prediction on an empty network gave {:?}", what, r);
        let r = guard(|| net.collect_acts(io.clone())).map_err(|e| format!("{}: listing on an empty network panicked: {}", what, e))?;
        ensure!(matches!(r, Err(ForwardError::MissingLayers)), "{}: listing on an empty network gave {:?}", what, r);
        for k in [0, 1, 2, usize::MAX] {
          let r = guard(|| net.intercept(io.clone(), k).map(|_| ())).map_err(|e| format!("{}: interception at {} on an empty network panicked: {}", what, k, e))?;
          ensure!(matches!(r, Err(ForwardError::MissingLayers) | Err(ForwardError::InvalidLayerIndex)), "{}: interception at {} on an empty network gave {:?}", what, k, r);
        }
      }
    }
    n => {
      ensure!(net.get_input_shape().ok() == Some(ls[0].in_shape()), "{}: input shape {:?}", what, net.get_input_shape());
      ensure!(net.get_output_shape().ok() == Some(ls[n - 1].out_shape()), "{}: output shape {:?}", what, net.get_output_shape());
    }
  }
  st.step(3);
  Ok(())
}

fn behaves<T: Num>(net: &CNetwork<T>, ls: &[Lay], what: &str, st: &mut Local) -> Case {
  for x in inputs(ls) {
    if !fits(ls, &x) { continue }
    let want = acts(ls, &x);
    let got = guard(|| net.collect_acts(x.io())).map_err(|e| format!("{}: listing panicked: {}", what, e))?.map_err(|e| format!("{}: listing failed: {:?}", what, e))?;
    ensure!(got.len() == want.len(), "{}: {} layers answer, {} were accepted", what, got.len() - 1, ls.len());
    for (g, w) in got.iter().zip(&want) { let g = Dat::of(g); ensure!(g.like(w) && g.v.iter().zip(&w.v).all(|(a, b)| (*a - *b).abs() <= 64.0 * T::EPS * (1.0 + b.abs())), "{}: the network does not answer like the accepted layers", what); }
    st.step(1);
    break;
  }
  Ok(())
}

fn small_training<T: Num>(net: &mut CNetwork<T>, ls: &[Lay], what: &str, st: &mut Local) -> Case {
  let Some(x) = inputs(ls).into_iter().find(|x| fits(ls, x)).or(if ls.is_empty() { Some(Dat::vector(vec![ONE])) } else { None }) else { return Ok(()) };
  let t = if ls.is_empty() { x.clone() } else { let mut t = predict(ls, &x); for z in t.v.iter_mut() { *z += ONE } t };
  for points in 0..3 {
    for loss in [ComplexLossFunc::MeanSquare, ComplexLossFunc::NormCrossEntropy] {
      let mut d: Dataset<T, T> = Dataset::new();
      for _ in 0..points { d.add_point((x.io(), t.io())); }
      let r = guard(|| net.gradient_opt(d, &loss, T::of(c(0.5, 0.25)))).map_err(|e| format!("{}: training with {} layers and {} points panicked: {}", what, ls.len(), points, e))?;
      ensure!(matches!(r, Err(ForwardError::MissingLayers)), "{}: training with {} layers gave {:?}", what, ls.len(), r);
      st.step(1);
    }
  }
  answers(net, ls, &format!("{} after refused training", what), st)?;
  behaves(net, ls, &format!("{} after refused training", what), st)
}

fn sequence<T: Num>(ops: &[(usize, bool)], al: &[Lay], st: &mut Local) -> Case {
  let mut net: CNetwork<T> = CNetwork::new();
  let mut ls: Vec<Lay> = Vec::new();
  let mut what = format!("{}:", T::NAME);
  answers(&net, &ls, &what, st)?;
  for (k, input) in ops {
    let l = &al[*k];
    what += &format!(" {}({});", if *input { "add_input" } else { "add" }, l.name());
    let mut allowed: Vec<&str> = Vec::new();
    if *input && !ls.is_empty() { allowed.push("ExistentInput"); }
    if !*input && ls.is_empty() { allowed.push("MissingInput"); }
    if empty(l) { allowed.push("MissingInitialization"); }
    if !*input && ls.last().map(|p| p.out_shape() != l.in_shape()).unwrap_or(false) { allowed.push("IncompatibleIO"); }
    let real = l.build::<T>();
    let r = guard(|| if *input { net.add_input(real) } else { net.add(real) }).map_err(|e| format!("{} panicked: {}", what, e))?;
    st.step(1);
    let name = match &r { Ok(()) => "accepted", Err(LayerAdditionError::MissingInput) => "MissingInput", Err(LayerAdditionError::ExistentInput) => "ExistentInput", Err(LayerAdditionError::MissingInitialization) => "MissingInitialization", Err(LayerAdditionError::IncompatibleIO) => "IncompatibleIO" };
    if allowed.is_empty() {
      ensure!(r.is_ok(), "{} was refused with {}", what, name);
      ls.push(l.clone());
    } else {
      ensure!(allowed.contains(&name), "{} gave {}, expected {:?}", what, name, allowed);
    }
    answers(&net, &ls, &what, st)?;
    st.outcome((name, ls.len(), net.params_len()));
  }
  behaves(&net, &ls, &what, st)?;
  if ls.len() < 2 { small_training(&mut net, &ls, &what, st)?; }
  st.trace();
  Ok(())
}

fn main() {
  run("C15", &["when several reasons for a refusal apply, any of them may be named"], |r| {
    let al = alphabet();
    let n = al.len() * 2;
    let ops = |i: u64, depth: usize| { let mut q = Pick(i); (0..depth).map(|_| (q.of(n / 2), q.of(2) == 0)).collect::<Vec<_>>() };
    for depth in 0..=if r.thorough { 4 } else { 3 } {
      r.group(&format!("all-{}", depth), (n as u64).pow(depth as u32), |i, st| {
        st.state();
        st.sample(|| format!("{:?}", ops(i, depth)));
        if depth < 4 { sequence::<Cf32>(&ops(i, depth), &al, st)?; }
        sequence::<Cf64>(&ops(i, depth), &al, st)
      });
    }
    // accepted prefixes of every length up to the bound, each followed by every operation
    let depth = if r.thorough { 8 } else { 6 };
    let mut chains: Vec<Vec<usize>> = (0..al.len()).filter(|k| !empty(&al[*k])).map(|k| vec![k]).collect();
    let mut level = chains.clone();
    for _ in 1..depth {
      let mut next = Vec::new();
      for ch in &level { for k in 0..al.len() { if !empty(&al[k]) && al[*ch.last().unwrap()].out_shape() == al[k].in_shape() { let mut c = ch.clone(); c.push(k); next.push(c); } } }
      chains.extend(next.iter().cloned());
      level = next;
    }
    r.group("accepted-chains", chains.len() as u64, |i, st| {
      let ch = &chains[i as usize];
      st.state();
      let mut ops: Vec<(usize, bool)> = ch.iter().enumerate().map(|(i, k)| (*k, i == 0)).collect();
      sequence::<Cf64>(&ops, &al, st)?;
      // refusals squeezed in between and behind
      let bad = (i as usize) % al.len();
      for at in 0..=ops.len() {
        let refused = (bad, at != 0);
        let mut v = ops.clone();
        v.insert(at, refused);
        sequence::<Cf64>(&v, &al, st)?;
      }
      ops.push((bad, false));
      sequence::<Cf64>(&ops, &al, st)
    });
    // long networks and large counts
    let e = edges(1025);
    r.group("long", 6 * e.len() as u64, |i, st| {
      let mut q = Pick(i);
      let (n, mode) = (*q.from(&e), q.of(6));
      if mode < 2 && n > 257 { return Ok(()) }
      st.state();
      let (al, seq): (Vec<Lay>, Vec<(usize, bool)>) = match mode {
        0 => (vec![dense(2, 2)], (0..n).map(|k| (0, k == 0)).collect()),
        1 => (vec![conv(2, 2), Lay::mean_pool(2, [1, 1])], (0..n).map(|k| (k % 2, k == 0)).collect()),
        2 => (vec![dense(n, 2), dense(2, n), dense(n - 1, 2), dense(n + 1, 2)], vec![(0, true), (1, false), (2, false), (3, false), (0, false), (1, true)]),
        3 => (vec![conv(n, 2), conv(2, n), conv(n - 1, 2), conv(n + 1, 2), dense(n, 1)], vec![(0, true), (1, false), (2, false), (3, false), (4, false), (0, false)]),
        4 => (vec![flat(n, 1, 2), dense(2 * n, 2), dense(2 * n + 1, 1), dense(n, 1)], vec![(0, true), (2, false), (3, false), (1, false)]),
        _ => (vec![flat(2, n, 3), dense(6 * n, 1), dense(6 * n - 1, 1), dense(2 * n, 1)], vec![(0, true), (2, false), (3, false), (1, false)]),
      };
      sequence::<Cf64>(&seq, &al, st)
    });
  });
}
