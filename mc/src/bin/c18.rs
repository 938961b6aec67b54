//! C18: a training step is one exact gradient-descent step.
use mc::actf::*;
use mc::archs::*;
use mc::cx::*;
use mc::engine::*;
use mc::lossf::{self, CE, LOSS_NAMES, MSE};
use mc::num::*;
use mc::refnet::*;
use mc::trainchk::*;
use renplex::cvnn::network::CNetwork;
use renplex::math::cfloat::{Cf32, Cf64};

fn describe(ls: &[Lay], x: &Dat) -> String { format!("{} | {}", x.shape(), ls.iter().map(|l| l.name()).collect::<Vec<_>>().join(" | ")) }

fn real_step<T: Num>(net: &mut CNetwork<T>, loss: usize, pts: &[Point], lr: C, what: &dyn Fn() -> String, st: &mut Local) -> Case {
  guard(|| net.gradient_opt(dataset::<T>(pts), &lossf::loss_func(loss), T::of(lr)))
    .map_err(|e| format!("{}: training panicked: {}", what(), e))?
    .map_err(|e| format!("{}: training failed: {:?}", what(), e))?;
  st.step(1);
  Ok(())
}

/// One history of steps; each step is (loss, batch size, first pattern, learning rate).
fn history<T: Num>(a: &Arch, ls0: &[Lay], steps: &[(usize, usize, usize, C)], st: &mut Local) -> Case {
  let mut ls: Vec<Lay> = ls0.iter().map(|l| l.round::<T>()).collect();
  let mut net = build_net::<T>(&ls);
  for (k, (loss, n, from, lr)) in steps.iter().enumerate() {
    let lr = T::of(*lr).to();
    let Some(pts) = batch::<T>(a, &ls, *loss, *from, *n) else { return Ok(()) };
    let what = || format!("{} {} after {} steps, step {} points {} lr {}", T::NAME, describe(&ls, &a.input), k, n, LOSS_NAMES[*loss], lr);
    real_step(&mut net, *loss, &pts, lr, &what, st)?;
    let mut next = ls.clone();
    train(&mut next, *loss, &pts, lr);
    let msg = what();
    ls = next;
    // parameters that ran away lose precision and are no longer judged
    let big = ls.iter().map(|l| match l { Lay::Dense { w, b, .. } | Lay::Conv { w, b, .. } => w.iter().chain(b).map(|z| z.abs()).fold(0.0, f64::max), _ => 0.0 }).fold(0.0, f64::max);
    if !(big < 60.0) { return Ok(()) }
    net_agrees::<T>(&ls, &net, &pts[0].0, rel::<T>(k + 1) * (1.0 + big), st).map_err(|e| format!("{}: {}", msg, e))?;
    st.trace();
    st.outcome(hash(&format!("{:?}", ls.iter().map(|l| l.params()).collect::<Vec<_>>())) ^ hash(&match &ls[0] { Lay::Dense { w, .. } | Lay::Conv { w, .. } => format!("{:?}", w), _ => format!("{:?}", ls[ls.len() - 1]) }));
  }
  Ok(())
}

/// Steps on given points; parameters are judged up to `most`, to `slack` times the usual precision.
fn on_points<T: Num>(ls0: &[Lay], steps: &[(usize, Vec<Point>, C)], most: f64, slack: f64, st: &mut Local) -> Case {
  let mut ls: Vec<Lay> = ls0.iter().map(|l| l.round::<T>()).collect();
  let mut net = build_net::<T>(&ls);
  for (k, (loss, pts, lr)) in steps.iter().enumerate() {
    let lr = T::of(*lr).to();
    let pts: Vec<Point> = pts.iter().map(|(x, t)| (x.round::<T>(), t.round::<T>())).collect();
    if !pts.iter().all(|p| mc::trainchk::smooth(&ls, *loss, &p.0)) { return Ok(()) }
    let what = || format!("{} {} after {} steps, step {} {:?} lr {}", T::NAME, describe(&ls, &pts[0].0), k, LOSS_NAMES[*loss], pts, lr);
    real_step(&mut net, *loss, &pts, lr, &what, st)?;
    let mut next = ls.clone();
    train(&mut next, *loss, &pts, lr);
    let msg = what();
    ls = next;
    let big = ls.iter().map(|l| match l { Lay::Dense { w, b, .. } | Lay::Conv { w, b, .. } => w.iter().chain(b).map(|z| z.abs()).fold(0.0, f64::max), _ => 0.0 }).fold(0.0, f64::max);
    if !(big < most) { return Ok(()) }
    net_agrees::<T>(&ls, &net, &pts[0].0, slack * rel::<T>(k + 1) * (1.0 + big), st).map_err(|e| format!("{}: {}", msg, e))?;
    st.trace();
    st.outcome(hash(&format!("{:?}", ls)));
  }
  Ok(())
}

/// The model's gradient against difference quotients of its forward pass.
fn self_check(a: &Arch, ls: &[Lay], loss: usize) {
  let Some(pts) = batch::<Cf64>(a, ls, loss, 0, 1) else { return };
  let (x, t) = &pts[0];
  for (k, (g, n)) in grad(ls, loss, x, t).iter().zip(grad_num(ls, loss, x, t)).enumerate() {
    let scale = 1.0 + g.0.iter().chain(&g.1).map(|z| z.abs()).fold(0.0, f64::max);
    for (p, q) in g.0.iter().chain(&g.1).zip(n.0.iter().chain(&n.1)) { assert!((*p - *q).abs() <= 1e-4 * scale, "reference gradient of {} layer {}: {} / {}", describe(ls, x), k, p, q); }
  }
}

fn main() {
  run("C18", &["networks and points where all activations are differentiable, with head-room", "pooling with real coefficients and the matching interpolation kernel", "parameters compared through the layers' answers and derivatives to 2e-11 (f64) and 4e-4 (f32) of their size"], |r| {
    let al = Alphabet { units: vec![1, 2, 3], filters: vec![1, 2], kernels: vec![[1, 1], [2, 1], [1, 2], [2, 2]], blocks: vec![[1, 1], [2, 1], [1, 2], [2, 2]] };
    let ins = [vec_in(1), vec_in(2), vec_in(3), map_in(1, 2, 3), map_in(2, 2, 2), map_in(1, 4, 4), map_in(2, 4, 2)];
    let lrs = [c(0.1, 0.0), c(0.0, 0.2), c(0.15, -0.1), c(-0.1, 0.0), c(0.5, 0.0)];
    // every architecture, every activation assignment of up to two trainable layers
    let archs: Vec<Arch> = architectures(&ins, &al, 2, if r.thorough { 4 } else { 3 }).into_iter().filter(|a| a.trainable() > 0).collect();
    let cases: Vec<(usize, Vec<usize>)> = archs.iter().enumerate().flat_map(|(i, a)| {
      let n = a.trainable();
      if n <= 2 && a.layers.len() <= 3 { (0..7usize.pow(n as u32)).map(|k| { let mut q = Pick(k as u64); (i, (0..n).map(|_| q.of(7)).collect()) }).collect::<Vec<_>>() }
      else { (0..4).map(|k| (i, (0..n).map(|j| (i + k * 2 + j * (k + 1)) % 7).collect())).collect() }
    }).collect();
    r.note(format!("{} architectures, {} with activations", archs.len(), cases.len()));
    r.group("architectures", cases.len() as u64 * 2, |i, st| {
      let loss = (i % 2) as usize;
      let (k, acts) = &cases[i as usize / 2];
      let a = &archs[*k];
      st.state();
      st.sample(|| a.name());
      let ls = a.fill(1, acts, moderate);
      if i % 8 < 2 { self_check(a, &ls, loss); }
      let n = 1 + (i as usize / 2) % 3;
      let lr = lrs[(i as usize / 6) % lrs.len()];
      history::<Cf64>(a, &ls, &[(loss, n, 0, lr)], st)?;
      if i % 4 < 2 { history::<Cf32>(a, &ls, &[(loss, n, 0, lr)], st)?; }
      Ok(())
    });
    // three trainable layers: every activation assignment on the main shapes
    let three: Vec<Arch> = vec![
      Arch { input: vec_in(2), layers: vec![Lay::dense(2, 3, 0, |_| ZERO), Lay::dense(3, 2, 0, |_| ZERO), Lay::dense(2, 2, 0, |_| ZERO)] },
      Arch { input: map_in(1, 3, 4), layers: vec![Lay::conv(1, 2, [2, 2], 0, |_| ZERO), Lay::conv(2, 1, [1, 2], 0, |_| ZERO), Lay::Flat { n: 1, h: 2, w: 2 }, Lay::dense(4, 2, 0, |_| ZERO)] },
      Arch { input: map_in(1, 4, 5), layers: vec![Lay::conv(1, 2, [1, 2], 0, |_| ZERO), Lay::pool(2, [2, 2], |i| c(0.25 * (i + 1) as f64, 0.0)), Lay::conv(2, 2, [2, 1], 0, |_| ZERO), Lay::Flat { n: 2, h: 1, w: 2 }, Lay::dense(4, 2, 0, |_| ZERO)] },
      Arch { input: map_in(2, 4, 6), layers: vec![Lay::conv(2, 2, [2, 2], 0, |_| ZERO), Lay::conv(2, 3, [2, 2], 0, |_| ZERO), Lay::pool(3, [2, 2], |i| c(0.5 - 0.125 * i as f64, 0.0)), Lay::conv(3, 1, [1, 1], 0, |_| ZERO)] },
      Arch { input: map_in(2, 4, 4), layers: vec![Lay::pool(2, [2, 1], |i| c(0.5 + i as f64, 0.0)), Lay::conv(2, 2, [1, 2], 0, |_| ZERO), Lay::pool(2, [2, 3], |i| c(0.125 * (i + 1) as f64, 0.0)), Lay::Flat { n: 2, h: 1, w: 1 }, Lay::dense(2, 3, 0, |_| ZERO), Lay::dense(3, 2, 0, |_| ZERO)] },
    ];
    r.group("activations", (three.len() * 343 * 2) as u64, |i, st| {
      let mut q = Pick(i);
      let a = q.from(&three);
      let (acts, loss) = ([q.of(7), q.of(7), q.of(7)], q.of(2));
      st.state();
      let ls = a.fill(2, &acts, moderate);
      if i % 5 == 0 { self_check(a, &ls, loss); }
      history::<Cf64>(a, &ls, &[(loss, 2, 3, c(0.1, 0.05)), (loss, 1, 9, c(0.1, 0.0))], st)?;
      history::<Cf32>(a, &ls, &[(loss, 2, 3, c(0.1, 0.05))], st)
    });
    // batch sizes and learning rates
    let sizes: Vec<usize> = (1..=if r.thorough { 40 } else { 12 }).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]).collect();
    let rates = [c(0.1, 0.0), c(1.0, 0.0), ZERO, c(0.0, 0.3), c(-0.2, 0.1), c(1e-3, 0.0)];
    r.group("batches", (sizes.len() * three.len() * rates.len() * 2) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, a, lr, loss) = (*q.from(&sizes), q.from(&three), *q.from(&rates), q.of(2));
      st.state();
      let ls = a.fill(1, &[TANH, MODZ, SIGMOID], moderate);
      history::<Cf64>(a, &ls, &[(loss, n, 0, lr)], st)?;
      history::<Cf32>(a, &ls, &[(loss, n, 0, lr)], st)
    });
    let large: Vec<usize> = edges(if r.thorough { 8193 } else { 4097 }).into_iter().filter(|n| *n > 257).collect();
    r.group("large-batches", (large.len() * 2 * 2) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, a, loss) = (*q.from(&large), &three[q.of(2)], q.of(2));
      st.state();
      let ls = a.fill(1, &[TANH, MODZ, SIGMOID], moderate);
      history::<Cf64>(a, &ls, &[(loss, n, 0, c(0.1, 0.05))], st)
    });
    // every order of the points, with repetitions
    r.group("order", (three.len() * 2 * 256) as u64, |i, st| {
      let mut q = Pick(i);
      let (a, loss) = (q.from(&three), q.of(2));
      let order: Vec<usize> = (0..4).map(|_| q.of(4)).collect();
      st.state();
      let ls = a.fill(1, &[CARD, TANH, NONE], moderate);
      let Some(pts) = batch::<Cf64>(a, &ls, loss, 0, 4) else { return Ok(()) };
      let sel: Vec<Point> = order.iter().map(|k| pts[*k].clone()).collect();
      let what = || format!("{} points {:?}", describe(&ls, &a.input), order);
      let mut net = build_net::<Cf64>(&ls);
      real_step(&mut net, loss, &sel, c(0.2, 0.1), &what, st)?;
      let mut want = ls.clone();
      train(&mut want, loss, &sel, c(0.2, 0.1));
      net_agrees::<Cf64>(&want, &net, &sel[0].0, rel::<Cf64>(1) * 4.0, st).map_err(|e| format!("{}: {}", what(), e))?;
      st.trace();
      Ok(())
    });
    // histories: every sequence of steps over a small alphabet
    let alpha: Vec<(usize, usize, usize, C)> = vec![(MSE, 1, 0, c(0.1, 0.0)), (MSE, 2, 4, c(0.05, 0.05)), (CE, 1, 2, c(0.1, 0.0)), (CE, 3, 6, c(-0.05, 0.02)), (MSE, 1, 0, ZERO)];
    let len = if r.thorough { 5 } else { 3 };
    r.group("histories", (three.len() * 3) as u64 * (alpha.len() as u64).pow(len), |i, st| {
      let mut q = Pick(i);
      let (a, set) = (q.from(&three), q.of(3));
      let seq: Vec<_> = (0..len).map(|_| *q.from(&alpha)).collect();
      st.state();
      let ls = a.fill(set, &[[TANH, SIGMOID, NONE], [NONE, CARD, TANH], [MODZ, TANH, SIGMOID]][set], moderate);
      history::<Cf64>(a, &ls, &seq, st)?;
      if i % 3 == 0 { history::<Cf32>(a, &ls, &seq, st)?; }
      Ok(())
    });
    // gradients of every magnitude, with a learning rate that makes the step moderate
    let two: Vec<Arch> = vec![
      Arch { input: vec_in(2), layers: vec![Lay::dense(2, 2, 0, |_| ZERO), Lay::dense(2, 3, 0, |_| ZERO)] },
      Arch { input: map_in(1, 2, 3), layers: vec![Lay::conv(1, 2, [2, 2], 0, |_| ZERO), Lay::conv(2, 1, [1, 1], 0, |_| ZERO)] },
    ];
    let both: Vec<&Arch> = three.iter().chain(&two).collect();
    let sets = [[TANH, SIGMOID, NONE], [NONE, NONE, NONE], [MODZ, CARD, TANH], [RELU, RELU, RELU], [SIGMOID, ZRELU, SIGMOID], [CARD, TANH, MODZ]];
    let powers: Vec<i32> = (-30..=30).collect();
    r.group("magnitudes", (powers.len() * both.len() * sets.len() * 2 * 3) as u64, |i, st| {
      let mut q = Pick(i);
      let (e, a, set, loss, n) = (*q.from(&powers), *q.from(&both), q.from(&sets), q.of(2), 1 + q.of(3));
      let s = 2f64.powi(e);
      st.state();
      let ls = a.fill(1, &set[..a.trainable()], moderate);
      let Some(pts) = batch::<Cf32>(a, &ls, loss, 0, n) else { return Ok(()) };
      let lr = c(0.1, 0.03).scale(1.0 / s);
      let scaled = |near: bool| -> Vec<Point> { pts.iter().map(|(x, t)| { let y = predict(&ls, x); (x.clone(), Dat { v: t.v.iter().zip(&y.v).map(|(t, y)| if near { *y + t.scale(s) } else { t.scale(s) }).collect(), ..t.clone() }) }).collect() };
      if loss == CE || e >= 0 {
        on_points::<Cf64>(&ls, &[(loss, scaled(false), lr)], 60.0, 4.0, st)?;
        on_points::<Cf32>(&ls, &[(loss, scaled(false), lr)], 60.0, 4.0, st)
      } else {
        // the target close to the prediction, as far as the difference keeps enough digits
        if e >= -20 { on_points::<Cf64>(&ls, &[(loss, scaled(true), lr)], 60.0, 4.0 + 1e-3 / s, st)?; }
        if e >= -6 { on_points::<Cf32>(&ls, &[(loss, scaled(true), lr)], 60.0, 4.0 + 0.1 / s, st) } else { Ok(()) }
      }
    });
    // learning rates of every magnitude, targets that are met exactly
    r.group("rates", (powers.len() * both.len() * 3 * 4) as u64, |i, st| {
      let mut q = Pick(i);
      let (e, a, set, dir) = (*q.from(&powers), *q.from(&both), q.of(3), q.of(4));
      let lr = [ONE, I, c(-1.0, 0.0), c(0.0, -1.0)][dir].scale(2f64.powi(e));
      st.state();
      let ls: Vec<Lay> = a.fill(1, &[[TANH, TANH, SIGMOID], [NONE, NONE, NONE], [SIGMOID, CARD, TANH]][set][..a.trainable()], moderate);
      let Some(pts) = batch::<Cf64>(a, &ls, MSE, 0, 2) else { return Ok(()) };
      on_points::<Cf64>(&ls, &[(MSE, pts.clone(), lr)], 1e4, 1.0, st)?;
      let met: Vec<Point> = pts.iter().map(|(x, _)| (x.clone(), predict(&ls, x))).collect();
      on_points::<Cf64>(&ls, &[(MSE, met, lr.scale(1e-3))], 60.0, 1.0 + lr.abs() * 1e-3, st)
    });
    // zero inputs, zero parameters, zero targets
    r.group("zeros", (both.len() * 27 * 2 * 8) as u64, |i, st| {
      let mut q = Pick(i);
      let (a, loss, kind) = (*q.from(&both), q.of(2), q.of(8));
      let acts: Vec<usize> = (0..a.trainable()).map(|_| [TANH, SIGMOID, NONE][q.of(3)]).collect();
      st.state();
      let mut ls = a.fill(1, &acts, moderate);
      let mut k = 0;
      for l in ls.iter_mut() { if let Lay::Dense { w, b, .. } | Lay::Conv { w, b, .. } = l {
        if kind & 1 == 1 && k == 0 { for z in w.iter_mut() { *z = ZERO; } }
        if kind == 3 || kind == 7 { for z in b.iter_mut() { *z = ZERO; } }
        if kind & 1 == 1 && k > 0 { for (i, z) in w.iter_mut().enumerate() { if i % 2 == 0 { *z = ZERO; } } }
        k += 1;
      } }
      let x = a.input(0, |_, i| if kind & 2 == 2 { ZERO } else { generic(1, i) });
      let y = a.input(0, |_, i| if i % 2 == 0 { ZERO } else { generic(2, i) });
      let mut t = predict(&ls, &x);
      for (i, z) in t.v.iter_mut().enumerate() { *z = if kind & 4 == 4 { ZERO } else if i == 0 { ONE } else { ZERO }; }
      on_points::<Cf64>(&ls, &[(loss, vec![(x.clone(), t.clone())], c(0.2, 0.1)), (loss, vec![(y.clone(), t.clone()), (x.clone(), t.clone())], c(0.1, 0.0))], 60.0, 1.0, st)?;
      on_points::<Cf32>(&ls, &[(loss, vec![(x, t.clone()), (y, t)], c(0.2, 0.1))], 60.0, 1.0, st)
    });
    // points that are easily mistaken for each other, in one batch and in consecutive steps
    let fams: Vec<Vec<(String, Dat)>> = both.iter().map(|a| family(&a.input(1, |p, i| generic(p % 9, i + 3 * p)))).collect();
    let cases: Vec<(usize, usize)> = fams.iter().enumerate().flat_map(|(k, f)| (0..f.len()).map(move |j| (k, j))).collect();
    r.group("mistakable", (cases.len() * 2 * 6) as u64, |i, st| {
      let mut q = Pick(i);
      let ((k, j), loss, mode) = (*q.from(&cases), q.of(2), q.of(6));
      let a = both[k];
      st.state();
      let ls = a.fill(1, &[TANH, SIGMOID, NONE][..a.trainable()], moderate);
      let pt = |x: &Dat, p: usize| -> Point { (x.clone(), target(&ls, loss, x, p)) };
      let (x, y) = (&fams[k][0].1, &fams[k][j].1);
      let lr = c(0.2, -0.05);
      let steps = match mode {
        0 => vec![(loss, vec![pt(x, 1)], lr), (loss, vec![pt(y, 1)], lr), (loss, vec![pt(x, 1)], lr)],
        1 => vec![(loss, vec![pt(y, 1)], lr), (loss, vec![pt(x, 2)], lr)],
        2 => vec![(loss, vec![pt(x, 1), pt(y, 1)], lr)],
        3 => vec![(loss, vec![pt(y, 1), pt(x, 2), pt(y, 3)], lr)],
        4 => vec![(loss, vec![pt(x, 1), pt(y, 2)], lr), (loss, vec![pt(y, 2), pt(x, 1)], lr), (1 - loss, vec![pt(x, 1), pt(y, 2)], lr)],
        _ => vec![(loss, vec![pt(x, 1), pt(x, 2), pt(y, 1), pt(y, 2)], lr), (loss, vec![pt(x, 2)], lr)],
      };
      on_points::<Cf64>(&ls, &steps, 60.0, 1.0, st)?;
      on_points::<Cf32>(&ls, &steps, 60.0, 1.0, st)
    });
    // long training
    r.group("long", (three.len() * 2 * 2) as u64, |i, st| {
      let mut q = Pick(i);
      let (a, loss, set) = (q.from(&three), q.of(2), q.of(2));
      st.state();
      let ls = a.fill(set, &[[TANH, SIGMOID, NONE], [SIGMOID, TANH, TANH]][set], moderate);
      let steps: Vec<_> = (0..if r.thorough { 200 } else { 40 }).map(|k| (loss, 1 + k % 3, k % 7, c(0.02, 0.005))).collect();
      history::<Cf64>(a, &ls, &steps, st)
    });
    // wide layers
    let e: Vec<usize> = edges(if r.thorough { 2049 } else { 1025 });
    r.group("wide", (e.len() * 5 * 2) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, mode, loss) = (*q.from(&e), q.of(5), q.of(2));
      if mode > 2 && n > if r.thorough { 257 } else { 129 } { return Ok(()) }
      let z = |_: usize| ZERO;
      let a = match mode {
        0 => Arch { input: vec_in(n), layers: vec![Lay::dense(n, 2, 0, z), Lay::dense(2, 2, 0, z)] },
        1 => Arch { input: vec_in(2), layers: vec![Lay::dense(2, n, 0, z), Lay::dense(n, 2, 0, z)] },
        2 => Arch { input: vec_in(2), layers: vec![Lay::dense(2, 2, 0, z), Lay::dense(2, n, 0, z)] },
        3 => Arch { input: map_in(1, 3, n), layers: vec![Lay::conv(1, 2, [2, 2], 0, z), Lay::Flat { n: 2, h: 2, w: n - 1 }, Lay::dense(4 * (n - 1), 2, 0, z)] },
        _ => Arch { input: map_in(1, 2, 3), layers: vec![Lay::conv(1, n, [2, 2], 0, z), Lay::conv(n, 2, [1, 1], 0, z), Lay::Flat { n: 2, h: 1, w: 2 }, Lay::dense(4, 1, 0, z)] },
      };
      st.state();
      let s = 1.5 / (n as f64).sqrt();
      let ls = a.fill(1, &[TANH, NONE, TANH], |p, i| moderate(p, i).scale(s));
      history::<Cf64>(&a, &ls, &[(loss, 2, 0, c(0.1, 0.0))], st)?;
      history::<Cf32>(&a, &ls, &[(loss, 2, 0, c(0.1, 0.0))], st)
    });
  });
}
