//! C17: queries never change later results.
use mc::actf::*;
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::lossf::{self, CE, MSE};
use mc::num::*;
use mc::refnet::*;
use mc::trainchk::{dataset, net_print, Point};
use mc::archs::{family, moderate};
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use std::collections::HashMap;
use std::sync::Mutex;

struct Setup {
  name: &'static str,
  /// Two networks of the same architecture with different parameters.
  nets: [Vec<Lay>; 2],
  x: [Dat; 2],
  data: [Vec<Point>; 2],
  batch: [Vec<Point>; 2],
  accuracy: bool,
}

fn setups() -> Vec<Setup> {
  let mk = |name, layers: &dyn Fn(usize) -> Vec<Lay>, xs: &dyn Fn(usize) -> Dat, accuracy: bool| {
    let nets = [layers(1), layers(5)];
    let target = |p: usize| { let mut t = predict(&nets[0], &xs(p)); for (i, z) in t.v.iter_mut().enumerate() { *z = generic(p + 3, i) + ONE; } t };
    let pt = |p: usize| (xs(p), target(p));
    Setup { name, x: [xs(0), xs(1)], data: [vec![pt(0), pt(1), pt(2), pt(3), pt(4)], vec![pt(0), pt(3), pt(2), pt(1), pt(4)]], batch: [vec![pt(0), pt(1)], vec![pt(4)]], nets: [layers(1), layers(5)], accuracy }
  };
  let m = |p: usize| move |i: usize| moderate(p, i);
  vec![
    mk("dense", &|p| vec![Lay::dense(3, 4, TANH, m(p)), Lay::dense(4, 2, SIGMOID, m(p + 1))], &|p| Dat::vector((0..3).map(|i| generic(p, i + p)).collect()), true),
    mk("mixed", &|p| vec![Lay::conv(1, 2, [2, 2], RELU, m(p)), Lay::mean_pool(2, [1, 3]), Lay::Flat { n: 2, h: 2, w: 1 }, Lay::dense(4, 3, CARD, m(p + 1)), Lay::dense(3, 2, NONE, m(p + 2))], &|p| Dat::maps(1, 3, 4, (0..12).map(|i| generic(p, i + p)).collect()), true),
    // images of different sizes through the same network
    mk("images", &|p| vec![Lay::conv(1, 2, [2, 1], TANH, m(p)), Lay::pool(2, [1, 2], |i| c(0.5 + i as f64, 0.0)), Lay::conv(2, 1, [1, 1], MODZ, m(p + 1))], &|p| { let w = [4, 6, 2, 4, 2][p]; Dat::maps(1, 3, w, (0..3 * w).map(|i| generic(p, i + p)).collect()) }, false),
  ]
}

/// Operations on the networks; queries return what they saw.
const OPS: [&str; 12] = ["A.predict(x0)", "A.predict(x1)", "B.predict(x0)", "A.list(x0)", "A.intercept(x1)", "A.intercept(past the end)", "A.loss(d0, MeanSquare)", "A.loss(d1, CrossEntropy)", "A.accuracy(d0)", "A.train(b0)", "A.train(b1)", "B.train(b0)"];
const TRAIN: usize = 9;

struct World<T: Num> { nets: [CNetwork<T>; 2], buf: IOType<T>, data: [Dataset<T, T>; 2] }

fn world<T: Num>(s: &Setup) -> World<T> {
  World { nets: [build_net(&s.nets[0]), build_net(&s.nets[1])], buf: s.x[0].io(), data: [dataset(&s.data[0]), dataset(&s.data[1])] }
}

fn bits<T: Num>(z: &IOType<T>) -> Vec<u64> { Dat::of(z).bits() }

/// Real precision as bits, whatever type it is.
trait Bits { fn b(&self) -> u64; }
impl Bits for f32 { fn b(&self) -> u64 { self.to_bits() as u64 } }
impl Bits for f64 { fn b(&self) -> u64 { self.to_bits() } }

fn apply<T: Num>(s: &Setup, w: &mut World<T>, op: usize) -> Result<Vec<u64>, String> where T::Precision: Bits {
  // the same buffer is overwritten for every prediction
  let fill = |buf: &mut IOType<T>, x: &Dat| match buf {
    IOType::Scalar(v) => { for (a, b) in v.iter_mut().zip(&x.v) { *a = T::of(*b); } }
    IOType::Matrix(m) if m[0].get_shape() == [x.h, x.w] => { for (k, z) in m.iter_mut().enumerate() { for (a, b) in z.get_body_as_mut().iter_mut().zip(&x.v[k * x.h * x.w..]) { *a = T::of(*b); } } }
    _ => *buf = x.io(),
  };
  guard(|| match op {
    0 | 1 => { fill(&mut w.buf, &s.x[op]); w.nets[0].forward(&w.buf).map(|y| bits(&y)).map_err(|e| format!("{:?}", e)) }
    2 => { fill(&mut w.buf, &s.x[0]); w.nets[1].forward(&w.buf).map(|y| bits(&y)).map_err(|e| format!("{:?}", e)) }
    3 => w.nets[0].collect_acts(s.x[0].io()).map(|v| v.iter().flat_map(|y| bits(y)).collect()).map_err(|e| format!("{:?}", e)),
    4 => w.nets[0].intercept(s.x[1].io(), s.nets[0].len() - 1).map(|(y, l)| { let mut b = bits(&y); b.extend(bits(&l.foward(&y).unwrap())); b }).map_err(|e| format!("{:?}", e)),
    5 => match w.nets[0].intercept(s.x[0].io(), s.nets[0].len()) { Ok(_) => Err("an index past the end was accepted".into()), Err(_) => Ok(vec![]) },
    6 => w.nets[0].loss(&w.data[0], &lossf::loss_func(MSE)).map(|v| vec![v.b()]).map_err(|e| format!("{:?}", e)),
    7 => w.nets[0].loss(&w.data[1], &lossf::loss_func(CE)).map(|v| vec![v.b()]).map_err(|e| format!("{:?}", e)),
    8 => Ok(if s.accuracy { vec![w.nets[0].max_pred_test(&w.data[0]).b()] } else { vec![] }),
    9 | 10 => w.nets[0].gradient_opt(dataset(&s.batch[op - 9]), &lossf::loss_func(MSE), T::of(c(0.1, 0.05))).map(|_| vec![]).map_err(|e| format!("{:?}", e)),
    _ => w.nets[1].gradient_opt(dataset(&s.batch[0]), &lossf::loss_func(CE), T::of(c(0.2, 0.0))).map(|_| vec![]).map_err(|e| format!("{:?}", e)),
  }).map_err(|e| format!("panicked: {}", e))?
}

type Memo = Mutex<HashMap<(usize, bool, Vec<usize>, usize), Vec<u64>>>;

/// What `op` answers on networks that performed only the training steps in `seq`.
fn expected<T: Num>(s: &Setup, k: usize, seq: &[usize], op: usize, memo: &Memo) -> Result<Vec<u64>, String> where T::Precision: Bits {
  let key = (k, T::EPS > 1e-10, seq.to_vec(), op);
  if let Some(v) = memo.lock().unwrap().get(&key) { return Ok(v.clone()) }
  let mut w = world::<T>(s);
  for t in seq { apply(s, &mut w, *t)?; }
  // op beyond the alphabet: everything the two networks tell
  let v = if op < OPS.len() { apply(s, &mut w, op)? } else { let mut p = net_print(&s.nets[0], &w.nets[0], &s.x[0]); p.extend(net_print(&s.nets[1], &w.nets[1], &s.x[0])); p };
  memo.lock().unwrap().insert(key, v.clone());
  Ok(v)
}

fn sequence<T: Num>(s: &Setup, k: usize, ops: &[usize], memo: &Memo, st: &mut Local) -> Case where T::Precision: Bits {
  let mut w = world::<T>(s);
  let mut trained: Vec<usize> = Vec::new();
  let text = |n: usize| ops[..n].iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", ");
  for (n, op) in ops.iter().enumerate() {
    let got = apply(s, &mut w, *op).map_err(|e| format!("{} {}: after {} the call {} {}", T::NAME, s.name, text(n), OPS[*op], e))?;
    st.step(1);
    if *op >= TRAIN { trained.push(*op); continue }
    let want = expected::<T>(s, k, &trained, *op, memo)?;
    ensure!(got == want, "{} {}: after {} the call {} answers differently from an identical network that only trained", T::NAME, s.name, text(n), OPS[*op]);
    st.outcome(got);
  }
  let mut print = net_print(&s.nets[0], &w.nets[0], &s.x[0]);
  print.extend(net_print(&s.nets[1], &w.nets[1], &s.x[0]));
  ensure!(print == expected::<T>(s, k, &trained, OPS.len(), memo)?, "{} {}: {} leaves other parameters than the training steps alone", T::NAME, s.name, text(ops.len()));
  for (d, pts) in w.data.iter().zip(&s.data) {
    ensure!(d.get_n_points() == pts.len(), "{} {}: {} changed the number of points of a data set", T::NAME, s.name, text(ops.len()));
    for (i, (x, t)) in pts.iter().enumerate() {
      let (a, b) = d.get_point(i);
      ensure!(bits(a) == bits::<T>(&x.io()) && bits(b) == bits::<T>(&t.io()), "{} {}: {} changed point {} of a data set", T::NAME, s.name, text(ops.len()), i);
    }
  }
  st.trace();
  Ok(())
}

/// The same elements in other shapes a network of convolutions and poolings takes.
fn reshaped(x: &Dat) -> Vec<(String, Dat)> {
  [[2, 6], [3, 4], [6, 2], [4, 3], [2, 4], [3, 2], [3, 6]].iter().filter(|s| s[1] % 2 == 0 && [s[0], s[1]] != [x.h, x.w]).map(|s| (format!("the elements of x as {}x{}", s[0], s[1]), Dat::maps(1, s[0], s[1], (0..s[0] * s[1]).map(|i| x.v[i % x.v.len()]).collect()))).collect()
}

const ASK: [&str; 8] = ["predict", "list", "intercept", "MeanSquare loss of", "CrossEntropy loss of", "loss with a second point of", "accuracy of", "the first layer on"];

fn ask<T: Num>(ls: &[Lay], net: &CNetwork<T>, q: usize, x: &Dat) -> Result<Vec<u64>, String> where T::Precision: Bits {
  let target = || { let mut t = predict(ls, x); for (i, z) in t.v.iter_mut().enumerate() { *z = generic(3, i) + ONE; } t };
  guard(|| match q {
    0 => net.forward(&x.io()).map(|y| bits(&y)).map_err(|e| format!("{:?}", e)),
    1 => net.collect_acts(x.io()).map(|v| v.iter().flat_map(|y| bits(y)).collect()).map_err(|e| format!("{:?}", e)),
    2 => { let mut b = Vec::new(); for k in 0..ls.len() { let (y, l) = net.intercept(x.io(), k).map_err(|e| format!("{:?}", e))?; b.extend(bits(&y)); b.extend(bits(&l.foward(&y).map_err(|e| format!("{:?}", e))?)); } Ok(b) }
    3 | 4 => net.loss(&dataset(&[(x.clone(), target())]), &lossf::loss_func(if q == 3 { MSE } else { CE })).map(|v| vec![v.b()]).map_err(|e| format!("{:?}", e)),
    5 => { let mut y = x.clone(); y.v.reverse(); net.loss(&dataset(&[(x.clone(), target()), (y, target())]), &lossf::loss_func(MSE)).map(|v| vec![v.b()]).map_err(|e| format!("{:?}", e)) }
    6 => { let t = target(); Ok(if t.vec { vec![net.max_pred_test(&dataset(&[(x.clone(), t)])).b()] } else { vec![] }) }
    _ => { let (_, l) = net.intercept(x.io(), 0).map_err(|e| format!("{:?}", e))?; let y = l.foward(&x.io()).map(|y| bits(&y)).map_err(|e| format!("{:?}", e)); y }
  }).map_err(|e| format!("panicked: {}", e))?
}

/// Asks about two inputs one after the other, and about the first again.
fn collide<T: Num>(ls: &[Lay], xs: [&(String, Dat); 2], qs: [usize; 2], want: &Mutex<HashMap<(bool, String, String, usize), Vec<u64>>>, key: &str, st: &mut Local) -> Case where T::Precision: Bits {
  let alone = |q: usize, x: &(String, Dat)| -> Result<Vec<u64>, String> {
    let k = (T::EPS > 1e-10, key.to_string(), x.0.clone(), q);
    if let Some(v) = want.lock().unwrap().get(&k) { return Ok(v.clone()) }
    let v = ask(ls, &build_net::<T>(ls), q, &x.1).map_err(|e| format!("{} {}: {} {}: {}", T::NAME, key, ASK[q], x.0, e))?;
    want.lock().unwrap().insert(k, v.clone());
    Ok(v)
  };
  let net = build_net::<T>(ls);
  for (n, (q, x)) in [(qs[0], xs[0]), (qs[1], xs[1]), (qs[0], xs[0])].iter().enumerate() {
    let what = || format!("{} {}: {} {}, then {} {}, then {} {}", T::NAME, key, ASK[qs[0]], xs[0].0, ASK[qs[1]], xs[1].0, ASK[qs[0]], xs[0].0);
    let got = ask(ls, &net, *q, &x.1).map_err(|e| format!("{}: call {}: {}", what(), n + 1, e))?;
    ensure!(got == alone(*q, x)?, "{}: call {} answers differently from a new network", what(), n + 1);
    st.step(1);
    if n == 0 { st.outcome(got); }
  }
  st.trace();
  Ok(())
}

fn main() {
  run("C17", &["results compared bit for bit with a fresh network that performed only the training steps"], |r| {
    let ss = setups();
    let memo: Memo = Mutex::new(HashMap::new());
    let top = if r.thorough { 5 } else { 4 };
    for len in 1..=top {
      r.group(&format!("length-{}", len), (OPS.len() as u64).pow(len) * ss.len() as u64, |i, st| {
        let mut q = Pick(i);
        let k = q.of(ss.len());
        let ops: Vec<usize> = (0..len).map(|_| q.of(OPS.len())).collect();
        st.state();
        st.sample(|| ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", "));
        sequence::<Cf64>(&ss[k], k, &ops, &memo, st)?;
        if len < 4 { sequence::<Cf32>(&ss[k], k, &ops, &memo, st)?; }
        Ok(())
      });
    }
    // inputs that are easily mistaken for each other, in every order, through every kind of query
    let fams: Vec<Vec<(String, Dat)>> = ss.iter().map(|s| { let mut f = family(&s.x[0]); if s.name == "images" { f.extend(reshaped(&s.x[0])); } f }).collect();
    let want = Mutex::new(HashMap::new());
    let pairs: Vec<(usize, usize, usize)> = fams.iter().enumerate().flat_map(|(k, f)| (0..f.len()).flat_map(move |a| (0..f.len()).map(move |b| (k, a, b)))).collect();
    let qs: Vec<[usize; 2]> = (0..64).map(|i| [i / 8, i % 8]).collect();
    r.group("mistakable", (pairs.len() * qs.len()) as u64, |i, st| {
      let mut q = Pick(i);
      let (p, qs) = (q.from(&pairs), *q.from(&qs));
      let (f, s) = (&fams[p.0], &ss[p.0]);
      st.state();
      st.sample(|| format!("{} then {}", f[p.1].0, f[p.2].0));
      collide::<Cf64>(&s.nets[0], [&f[p.1], &f[p.2]], qs, &want, s.name, st)?;
      collide::<Cf32>(&s.nets[0], [&f[p.1], &f[p.2]], qs, &want, s.name, st)
    });
    // the same for sizes around the usual thresholds
    let e: Vec<usize> = mc::num::edges(if r.thorough { 513 } else { 129 }).into_iter().chain(if r.thorough { vec![] } else { vec![256, 513] }).collect();
    let wide: Vec<(String, Vec<Lay>, Vec<(String, Dat)>)> = e.iter().flat_map(|&n| {
      let s = 1.5 / (n as f64).sqrt();
      let m = move |p: usize| move |i: usize| moderate(p, i).scale(s);
      let v = |n: usize| Dat::vector((0..n).map(|i| generic(2, i)).collect());
      vec![
        (format!("dense {} inputs", n), vec![Lay::dense(n, 2, TANH, m(1)), Lay::dense(2, 2, NONE, m(2))], family(&v(n))),
        (format!("dense {} units", n), vec![Lay::dense(2, n, TANH, m(1)), Lay::dense(n, 2, SIGMOID, m(2))], family(&v(2))),
        (format!("{} columns", n), vec![Lay::conv(1, 2, [1, 2], TANH, m(1)), Lay::pool(2, [2, 1], |i| c(0.5 + i as f64, 0.0)), Lay::Flat { n: 2, h: 1, w: n - 1 }, Lay::dense(2 * n - 2, 2, NONE, m(2))], family(&Dat::maps(1, 2, n, (0..2 * n).map(|i| generic(2, i)).collect()))),
        (format!("{} filters", n), vec![Lay::conv(1, n, [1, 2], RELU, m(1)), Lay::conv(n, 1, [2, 1], TANH, m(2))], family(&Dat::maps(1, 2, 3, (0..6).map(|i| generic(2, i)).collect()))),
      ]
    }).collect();
    let cases: Vec<(usize, usize)> = wide.iter().enumerate().flat_map(|(k, w)| (0..w.2.len()).map(move |a| (k, a))).collect();
    let quick = [[0, 0], [1, 1], [3, 3], [6, 0]];
    let all: Vec<[usize; 2]> = if r.thorough { (0..8).flat_map(|a| [[a, a], [a, 0], [0, a]]).collect() } else { quick.to_vec() };
    r.group("mistakable-sizes", (cases.len() * all.len() * 2) as u64, |i, st| {
      let mut q = Pick(i);
      let (p, qs, turn) = (*q.from(&cases), *q.from(&all), q.of(2));
      let w = &wide[p.0];
      let (a, b) = if turn == 0 { (0, p.1) } else { (p.1, 0) };
      st.state();
      collide::<Cf64>(&w.1, [&w.2[a], &w.2[b]], qs, &want, &w.0, st)
    });
    // data sets of every size, equal sizes with other points, asked again and again
    let ns: Vec<usize> = (1..=40).chain(edges(if r.thorough { 1025 } else { 257 }).into_iter().filter(|n| *n > 40)).collect();
    r.group("set-sizes", (ns.len() * 3 * 3 * 3) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, a, b, k) = (*q.from(&ns), q.of(3), q.of(3), q.of(3));
      let s = &ss[k];
      if !s.accuracy && (a == 2 || b == 2) { return Ok(()) }
      st.state();
      let set = |o: usize| dataset::<Cf64>(&(0..n).map(|p| { let (x, t) = &s.data[0][(p * (o + 1) + p / 5 + o) % 5]; (x.clone(), t.clone()) }).collect::<Vec<Point>>());
      let sets = [set(0), set(1)];
      let ask = |net: &CNetwork<Cf64>, q: usize, d: &Dataset<Cf64, Cf64>| guard(|| match q { 0 | 1 => net.loss(d, &lossf::loss_func(if q == 0 { MSE } else { CE })).map(|v| v.b()).map_err(|e| format!("{:?}", e)), _ => Ok(net.max_pred_test(d).b()) }).map_err(|e| format!("panicked: {}", e)).and_then(|v| v);
      let net = build_net::<Cf64>(&s.nets[0]);
      let mut seen: HashMap<(usize, usize), u64> = HashMap::new();
      for (step, (q, d)) in [(a, 0), (a, 0), (b, 1), (a, 0), (b, 0), (a, 1), (b, 1), (a, 0)].into_iter().enumerate() {
        let got = ask(&net, q, &sets[d]).map_err(|e| format!("{}: {} points, call {}: {}", s.name, n, step + 1, e))?;
        if !seen.contains_key(&(q, d)) { seen.insert((q, d), ask(&build_net::<Cf64>(&s.nets[0]), q, &sets[d]).map_err(|e| format!("{}: {} points: {}", s.name, n, e))?); }
        ensure!(got == seen[&(q, d)], "{}: call {} of losses and accuracies on sets of {} points answers differently from a new network", s.name, step + 1, n);
        st.step(1);
      }
      st.trace();
      Ok(())
    });
    // many repetitions of one query between training steps
    let reps = [2usize, 3, 7, 8, 9, 16, 17, 33, 64, 65, 100, 129, 300];
    r.group("repetition", (ss.len() * 9 * 3 * reps.len()) as u64, |i, st| {
      let mut q = Pick(i);
      let (k, op, tr, n) = (q.of(ss.len()), q.of(9), TRAIN + q.of(3), *q.from(&reps));
      let mut ops = vec![op; n];
      ops.push(tr);
      ops.extend([op, (op + 1) % 9, op]);
      st.state();
      sequence::<Cf32>(&ss[k], k, &ops, &memo, st)?;
      sequence::<Cf64>(&ss[k], k, &ops, &memo, st)
    });
    // many training steps with a query after each
    r.group("alternation", (ss.len() * 9 * 2) as u64, |i, st| {
      let mut q = Pick(i);
      let (k, op, tr) = (q.of(ss.len()), q.of(9), TRAIN + q.of(2));
      let ops: Vec<usize> = (0..if r.thorough { 60 } else { 20 }).map(|j| if j % 2 == 0 { tr } else { op }).collect();
      st.state();
      sequence::<Cf64>(&ss[k], k, &ops, &memo, st)
    });
  });
}
