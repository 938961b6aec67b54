//! C26: a query on an input that some layer cannot take is never answered.
use mc::actf::*;
use mc::archs::*;
use mc::engine::*;
use mc::ensure;
use mc::lossf;
use mc::num::*;
use mc::refnet::*;
use mc::trainchk::net_print;
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;

/// The shape of an offered value: a vector, or maps that need not be alike.
#[derive(Clone, Debug, PartialEq)]
enum Form { Vector(usize), Maps(Vec<[usize; 2]>) }

impl Form {
  fn io<T: Num>(&self, p: usize) -> IOType<T> {
    match self {
      Form::Vector(n) => IOType::Scalar(vec_of(&generic_vec(p, *n))),
      Form::Maps(ms) => IOType::Matrix(ms.iter().enumerate().map(|(k, s)| if s[0] * s[1] == 0 { Matrix::new() } else { Matrix::from_body(vec_of(&generic_vec(p + k, s[0] * s[1])), *s) }).collect()),
    }
  }
}

/// What a layer makes of a form: another form, a refusal, or something no statement fixes.
enum Step { To(Form), Refuse, Open }

fn step(l: &Lay, f: &Form) -> Step {
  match (l, f) {
    (Lay::Dense { inp, units, .. }, Form::Vector(n)) => if n == inp { Step::To(Form::Vector(*units)) } else { Step::Refuse },
    (Lay::Conv { ch, filters, k, .. }, Form::Maps(ms)) => {
      if ms.len() != *ch || ms.iter().any(|m| *m != ms[0] || m[0] < k[0] || m[1] < k[1]) { return Step::Refuse }
      Step::To(Form::Maps(vec![[ms[0][0] + 1 - k[0], ms[0][1] + 1 - k[1]]; *filters]))
    }
    (Lay::Pool { n, block, .. }, Form::Maps(ms)) => {
      if ms.iter().any(|m| m[0] % block[0] != 0 || m[1] % block[1] != 0) { return Step::Refuse }
      // another number of maps than announced may be taken or refused, empty maps as well
      if ms.len() != *n || ms.iter().any(|m| m[0] * m[1] == 0) { return Step::Open }
      Step::To(Form::Maps(ms.iter().map(|m| [m[0] / block[0], m[1] / block[1]]).collect()))
    }
    (Lay::Flat { n, h, w }, Form::Maps(ms)) => {
      // another total may be taken or refused, it is the next layer that has to refuse it
      let total = ms.iter().map(|m| m[0] * m[1]).sum();
      if ms.len() == *n && ms.iter().all(|m| *m == [*h, *w]) || total != n * h * w { Step::To(Form::Vector(total)) } else { Step::Open }
    }
    _ => Step::Refuse,
  }
}

/// The first layer that has to refuse the form, if every way of going on ends in a refusal.
fn refuses(ls: &[Lay], f: &Form) -> Option<usize> {
  let mut f = f.clone();
  for (k, l) in ls.iter().enumerate() {
    match step(l, &f) { Step::To(g) => f = g, Step::Refuse => return Some(k), Step::Open => return None }
  }
  None
}

/// Answered means: a value came back.
fn silent<V>(r: Result<Result<V, impl Sized>, String>) -> bool { !matches!(r, Ok(Ok(_))) }

fn offer<T: Num>(ls: &[Lay], net: &CNetwork<T>, good: &Dat, before: &[u64], f: &Form, at: usize, pick: usize, st: &mut Local) -> Case {
  let what = || format!("{} {} offered {:?}", T::NAME, ls.iter().map(|l| l.name()).collect::<Vec<_>>().join(" | "), f);
  let bad = || f.io::<T>(2);
  ensure!(silent(guard(|| net.forward(&bad()))), "{}: a prediction was returned", what());
  ensure!(silent(guard(|| net.collect_acts(bad()))), "{}: activations were returned", what());
  st.step(2);
  for k in at + 1..ls.len() { ensure!(silent(guard(|| net.intercept(bad(), k).map(|_| ()))), "{}: interception at {} returned a value", what(), k); st.step(1); }
  // one such point among good ones
  let t = predict(ls, &good.round::<T>());
  for n in 1..=3 { for j in 0..n {
    // all places for small networks, one of them for the others
    if ls.len() > 1 && (n != 2 || j != pick % 2) { continue }
    let mut d: Dataset<T, T> = Dataset::new();
    for i in 0..n { d.add_point((if i == j { bad() } else { good.io() }, t.io())); }
    for l in 0..2 {
      if ls.len() > 2 && l != pick / 2 % 2 { continue }
      ensure!(silent(guard(|| net.loss(&d, &lossf::loss_func(l)))), "{}: a loss was returned with the point at {} of {}", what(), j, n);
      st.step(1);
    }
    if t.vec && (ls.len() < 3 || pick % 3 == 0) { ensure!(guard(|| net.max_pred_test(&d)).is_err(), "{}: an accuracy was returned with the point at {} of {}", what(), j, n); st.step(1); }
  } }
  // the layer that has to refuse, alone
  let alone = ls[at].build::<T>();
  if at == 0 { ensure!(silent(guard(|| alone.foward(&bad()))), "{}: the layer alone returned a value", what()); st.step(1); }
  if ls.len() == 1 || pick % 16 == 0 { ensure!(net_print(ls, net, good) == before, "{}: the network changed", what()); }
  st.outcome((at, ls.len(), format!("{:?}", f)));
  st.trace();
  Ok(())
}

fn forms(top: usize, side: usize) -> Vec<Form> {
  let mut out: Vec<Form> = (0..=top).map(Form::Vector).collect();
  let mut sizes = vec![[0, 0]];
  for h in 1..=side { for w in 1..=side { sizes.push([h, w]); } }
  for n in 0..=3 { for s in if n == 0 { &sizes[..1] } else { &sizes[..] } { out.push(Form::Maps(vec![*s; n])); } }
  // one map unlike the others, at every place
  for n in 2..=3 { for j in 0..n { for s in &sizes[1..] { for d in [[0, 0], [s[0] + 1, s[1]], [s[0], s[1] + 1], [s[1], s[0]], [s[0] * s[1], 1]] {
    if d == *s { continue }
    let mut v = vec![*s; n];
    v[j] = d;
    out.push(Form::Maps(v));
  } } } }
  out
}

fn main() {
  run("C26", &["an error and a panic are both refusals", "numbers of maps other than announced, and empty maps, are left open for pooling and flatten layers"], |r| {
    let al = Alphabet { units: vec![1, 2, 3], filters: vec![1, 2], kernels: vec![[1, 1], [2, 1], [1, 2], [2, 2], [3, 2]], blocks: vec![[1, 1], [2, 1], [1, 3], [2, 2]] };
    let ins = [vec_in(1), vec_in(2), vec_in(4), map_in(1, 2, 3), map_in(2, 2, 2), map_in(1, 4, 4), map_in(3, 4, 3)];
    let deep = if r.thorough { 4 } else { 3 };
    let archs = architectures(&ins, &al, 1, deep);
    let fs = forms(if r.thorough { 20 } else { 13 }, if r.thorough { 6 } else { 4 });
    r.note(format!("{} architectures, {} forms", archs.len(), fs.len()));
    let acts = [NONE, TANH, SIGMOID, RELU, CARD, MODZ];
    r.group("architectures", archs.len() as u64, |i, st| {
      let a = &archs[i as usize];
      st.sample(|| a.name());
      let ls = a.fill(1, &acts[i as usize % 3..], moderate);
      let good = a.input(1, moderate);
      let (n64, n32) = (build_net::<Cf64>(&ls), build_net::<Cf32>(&ls));
      let (b64, b32) = (net_print(&ls, &n64, &good), net_print(&ls, &n32, &good));
      for (k, f) in fs.iter().enumerate() {
        if let Some(at) = refuses(&ls, f) {
          st.state();
          st.tick();
          if k % 2 == 0 || a.layers.len() < 3 { offer::<Cf64>(&ls, &n64, &good, &b64, f, at, k / 2, st)?; }
          if k % 2 == 1 || a.layers.len() < 3 { offer::<Cf32>(&ls, &n32, &good, &b32, f, at, k / 2, st)?; }
        }
      }
      ensure!(net_print(&ls, &n64, &good) == b64 && net_print(&ls, &n32, &good) == b32, "{}: the network changed", a.name());
      Ok(())
    });
    // lengths around the expected one, for sizes around powers of two
    let e = edges(1025);
    r.group("lengths", (e.len() * 7) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, act) = (*q.from(&e), q.of(7));
      let ls = vec![Lay::dense(n, 2, act, |i| moderate(1, i % 50)), Lay::dense(2, 2, TANH, |i| moderate(2, i))];
      let good = Dat::vector(generic_vec(1, n));
      let net = build_net::<Cf64>(&ls);
      let before = net_print(&ls, &net, &good);
      for m in [0, 1, n / 2, n - 1, n + 1, 2 * n, n * n, 4096, 65536] {
        let f = Form::Vector(m);
        if let Some(at) = refuses(&ls, &f) { st.state(); offer::<Cf64>(&ls, &net, &good, &before, &f, at, 0, st)?; }
      }
      Ok(())
    });
    // channels around the expected number, and images around the size of the kernel
    let e = edges(65);
    r.group("channels", (e.len() * 7) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, act) = (*q.from(&e), q.of(7));
      let ls = vec![Lay::conv(n, 2, [2, 2], act, |i| moderate(1, i % 50)), Lay::Flat { n: 2, h: 1, w: 2 }, Lay::dense(4, 2, TANH, |i| moderate(2, i))];
      let good = Dat::maps(n, 2, 3, generic_vec(1, 6 * n));
      let net = build_net::<Cf32>(&ls);
      let before = net_print(&ls, &net, &good);
      for m in [0, 1, n / 2, n - 1, n, n + 1, 2 * n] { for s in [[2, 3], [3, 2], [2, 2], [1, 3], [2, 1], [1, 1], [3, 3], [2, 4], [1, 6]] {
        let f = Form::Maps(vec![s; m]);
        if let Some(at) = refuses(&ls, &f) { st.state(); st.tick(); offer::<Cf32>(&ls, &net, &good, &before, &f, at, 0, st)?; }
      } }
      Ok(())
    });
    r.group("kernels", (8 * 8 * 8 * 8) as u64, |i, st| {
      let mut q = Pick(i);
      let (k, s) = ([q.range(1, 8), q.range(1, 8)], [q.range(1, 8), q.range(1, 8)]);
      let ls = vec![Lay::conv(1, 1, k, NONE, |i| moderate(1, i))];
      let f = Form::Maps(vec![s]);
      if let Some(at) = refuses(&ls, &f) {
        st.state();
        let good = Dat::maps(1, 8, 8, generic_vec(1, 64));
        let net = build_net::<Cf64>(&ls);
        let before = net_print(&ls, &net, &good);
        offer::<Cf64>(&ls, &net, &good, &before, &f, at, 0, st)?;
      }
      let ls = vec![Lay::mean_pool(1, k)];
      if let Some(at) = refuses(&ls, &f) {
        st.state();
        let good = Dat::maps(1, k[0], k[1], generic_vec(1, k[0] * k[1]));
        let net = build_net::<Cf64>(&ls);
        let before = net_print(&ls, &net, &good);
        offer::<Cf64>(&ls, &net, &good, &before, &f, at, 0, st)?;
      }
      Ok(())
    });
  });
}
