//! C11: loss values and derivatives.
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::lossf::*;
use mc::num::*;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};

fn round<T: Num>(v: &[C]) -> Vec<C> { v.iter().map(|z| T::of(*z).to()).collect() }
fn text(v: &[C]) -> String { if v.len() > 12 { format!("<{} values>", v.len()) } else { v.iter().map(|z| z.to_string()).collect::<Vec<_>>().join(" ") } }

fn compare<T: Losses>(k: usize, t: &[C], p: &[C], shape: &str, targ: &IOType<T>, pred: &IOType<T>, st: &mut Local) -> Case {
  let n = t.len() as f64;
  let eps = T::EPS * if k == CE { 200.0 + if n > 300.0 { n } else { 0.0 } } else { 8.0 + n };
  let spread = (1.0 + t.iter().map(|z| z.re.abs()).sum::<f64>()) * (1.0 + p.iter().map(|z| z.sq()).fold(0.0, f64::max));
  let f = loss_func(k);
  let want = loss(k, t, p);
  let dwant = d_loss(k, t, p);
  let scale: f64 = want.abs() + if k == CE { t.iter().map(|z| z.re.abs()).sum::<f64>() * p.iter().map(|z| 1.0 + z.sq()).fold(0.0, f64::max) } else { 0.0 };
  for v in T::values(&f, targ, pred) {
    let v = v.map_err(|e| format!("{} {} of {} failed: {}", T::NAME, LOSS_NAMES[k], shape, e))?;
    ensure!(v.is_finite() && (v - want).abs() <= eps * scale, "{} {} ({}) of target {} and prediction {} = {}, expected {}", T::NAME, LOSS_NAMES[k], shape, text(t), text(p), v, want);
    st.outcome(v.to_bits());
    st.step(1);
  }
  for d in T::derivs(&f, targ, pred) {
    let d = d.map_err(|e| format!("{} {} derivative of {} failed: {}", T::NAME, LOSS_NAMES[k], shape, e))?;
    ensure!(d.len() == dwant.len(), "{} {} derivative of {} has {} entries", T::NAME, LOSS_NAMES[k], shape, d.len());
    for i in 0..d.len() {
      let s = p[i].abs() * spread + t[i].abs();
      ensure!(d[i].finite() && (d[i] - dwant[i]).abs() <= eps * s + 1e-300, "{} {} derivative ({}) of target {} and prediction {}: entry {} is {}, expected {}", T::NAME, LOSS_NAMES[k], shape, text(t), text(p), i, d[i], dwant[i]);
    }
    st.step(1);
  }
  st.trace();
  Ok(())
}

fn both<T: Losses>(k: usize, t: &[C], p: &[C], st: &mut Local) -> Case {
  let (t, p) = (round::<T>(t), round::<T>(p));
  compare::<T>(k, &t, &p, "vectors", &scalar(&t), &scalar(&p), st)?;
  let (v, d) = T::handles(&loss_func(k), &vec_of::<T>(&t), &vec_of::<T>(&p));
  let vs = T::values(&loss_func(k), &scalar(&t), &scalar(&p));
  let ds = T::derivs(&loss_func(k), &scalar(&t), &scalar(&p));
  ensure!(vs[0].as_ref() == Ok(&v) && ds[0].as_ref() == Ok(&d), "{} {}: the released functions give {} {}", T::NAME, LOSS_NAMES[k], v, text(&d));
  // the same elements grouped into maps in every possible way
  let n = t.len();
  for m in 1..=n {
    if n % m != 0 { continue }
    for h in 1..=n / m {
      if (n / m) % h != 0 { continue }
      let w = n / m / h;
      compare::<T>(k, &t, &p, &format!("{} maps of {}x{}", m, h, w), &maps(&t, h, w), &maps(&p, h, w), st)?;
    }
  }
  // a vector against maps
  let f = loss_func(k);
  for (a, b) in [(scalar::<T>(&t), maps::<T>(&p, 1, n)), (maps::<T>(&t, n, 1), scalar::<T>(&p))] {
    ensure!(T::values(&f, &a, &b).iter().all(|r| r.is_err()), "{} {} between a vector and feature maps succeeded", T::NAME, LOSS_NAMES[k]);
    ensure!(T::derivs(&f, &a, &b).iter().all(|r| r.is_err()), "{} {} derivative between a vector and feature maps succeeded", T::NAME, LOSS_NAMES[k]);
    st.step(4);
  }
  Ok(())
}

fn groupings<T: Losses>(v: &[C]) -> Vec<IOType<T>> {
  let n = v.len();
  let mut out: Vec<IOType<T>> = vec![];
  for m in 1..=n {
    if n % m != 0 { continue }
    for h in 1..=n / m {
      if (n / m) % h == 0 { out.push(maps(v, h, n / m / h)); }
    }
  }
  if n == 0 { out.push(IOType::Matrix(vec![])); }
  out
}

fn mismatch<T: Losses>(a: usize, b: usize, st: &mut Local) -> Case {
  let (t, p) = (gauss_vec(1, a), gauss_vec(3, b));
  for k in 0..2 {
    let f = loss_func(k);
    let mut pairs: Vec<(IOType<T>, IOType<T>)> = vec![(scalar(&t), scalar(&p))];
    for x in 0..groupings::<T>(&t).len() {
      for y in 0..groupings::<T>(&p).len() { pairs.push((groupings(&t).swap_remove(x), groupings(&p).swap_remove(y))); }
    }
    for (x, y) in &pairs {
      ensure!(T::values(&f, x, y).iter().all(|r| r.is_err()), "{} {} between {} and {} elements succeeded", T::NAME, LOSS_NAMES[k], a, b);
      ensure!(T::derivs(&f, x, y).iter().all(|r| r.is_err()), "{} {} derivative between {} and {} elements succeeded", T::NAME, LOSS_NAMES[k], a, b);
      st.outcome((a * 64 + b) as u64);
      st.step(4);
    }
  }
  st.trace();
  Ok(())
}

fn main() {
  run("C11", &["|prediction|^2 at most 50 for the cross entropy, squares within the number range for the squared error", "rounding tolerances proportional to the precision"], |r| {
    let al = [ZERO, ONE, -ONE, I, c(1.0, -1.0), c(2.0, -3.0), c(0.5, 0.25)];
    let tl = [ZERO, ONE, c(0.5, 0.0), c(-1.0, 2.0)];
    for n in 1..=4usize {
      let (pa, ta): (&[C], &[C]) = if n == 4 && !r.thorough { (&al[..5], &tl[..3]) } else { (&al, &tl) };
      let total = (pa.len() * ta.len()) as u64;
      r.group(&format!("all-values-{}", n), total.pow(n as u32), |i, st| {
        let mut q = Pick(i);
        let p: Vec<C> = (0..n).map(|_| *q.from(pa)).collect();
        let t: Vec<C> = (0..n).map(|_| *q.from(ta)).collect();
        st.state();
        for k in 0..2 { both::<Cf32>(k, &t, &p, st)?; both::<Cf64>(k, &t, &p, st)?; }
        // the reference derivative is the limit of difference quotients
        for k in 0..2 {
          for (a, b) in d_loss(k, &t, &p).iter().zip(d_loss_num(k, &t, &p)) { assert!((*a - b).abs() < 1e-6 * (1.0 + a.abs()), "reference {} {}", a, b); }
        }
        Ok(())
      });
    }
    // all lengths, one-hot at every position, soft and generic targets
    let mut sizes: Vec<usize> = (1..=40).collect();
    sizes.extend(edges(4097).into_iter().filter(|n| *n > 40));
    r.group("lengths", (sizes.len() * 6) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, kind) = (*q.from(&sizes), q.of(6));
      let p: Vec<C> = (0..n).map(|j| match kind { 0 => gauss(3, j), 1 => generic(0, j), 2 => generic(1, j).scale(4.9), 3 => gauss(2, j), 4 => generic(2, j).scale(1e-3), _ => ZERO }).collect();
      let hots: Vec<usize> = if n <= 40 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
      let mut targets: Vec<Vec<C>> = hots.iter().map(|h| (0..n).map(|j| if j == *h { ONE } else { ZERO }).collect()).collect();
      targets.push((0..n).map(|_| c(1.0 / n as f64, 0.0)).collect());
      targets.push(generic_vec(5, n));
      targets.push(p.clone());
      for t in &targets {
        st.state();
        for k in 0..2 {
          let (t32, p32) = (round::<Cf32>(t), round::<Cf32>(&p));
          compare::<Cf32>(k, &t32, &p32, "vectors", &scalar(&t32), &scalar(&p32), st)?;
          compare::<Cf64>(k, t, &p, "vectors", &scalar(t), &scalar(&p), st)?;
        }
      }
      for k in 0..2 { both::<Cf32>(k, &targets[0], &p, st)?; both::<Cf64>(k, &targets[targets.len() - 2], &p, st)?; }
      Ok(())
    });
    // squared errors of every magnitude
    let e32: Vec<i32> = (-60..=60).step_by(4).collect();
    let e64: Vec<i32> = (-480..=480).step_by(16).collect();
    r.group("magnitudes", (e32.len() + e64.len()) as u64 * 5 * 4, |i, st| {
      let mut q = Pick(i);
      let (e, n, mode) = (q.of(e32.len() + e64.len()), [1, 2, 3, 10, 33][q.of(5)], q.of(4));
      let s = 2f64.powi(if e < e32.len() { e32[e] } else { e64[e - e32.len()] });
      let p: Vec<C> = (0..n).map(|j| match mode { 0 => generic(0, j).scale(s), 1 => generic(1, j).scale(if j % 2 == 0 { s } else { 1.0 }), 2 => generic(2, j), _ => gauss(3, j).scale(s) }).collect();
      let t: Vec<C> = (0..n).map(|j| match mode { 0 => generic(3, j).scale(s), 1 => generic(4, j), 2 => generic(5, j).scale(s), _ => ZERO }).collect();
      st.state();
      if e < e32.len() { both::<Cf32>(MSE, &t, &p, st) } else { both::<Cf64>(MSE, &t, &p, st) }
    });
    // different numbers of elements are refused, in either order and any grouping
    r.group("mismatches", 41 * 41, |i, st| {
      let mut q = Pick(i);
      let (a, b) = (q.of(41), q.of(41));
      if a == b { return Ok(()) }
      st.state();
      mismatch::<Cf32>(a, b, st)?;
      mismatch::<Cf64>(a, b, st)
    });
    // feature maps of unequal sizes inside one sample
    r.group("mixed-maps", 2 * 36, |i, st| {
      let mut q = Pick(i);
      let (k, a, b) = (q.of(2), q.range(1, 6), q.range(1, 6));
      let n = a * 2 + b * 3;
      let (t, p) = (gauss_vec(0, n), gauss_vec(3, n));
      let build = |v: &[C]| IOType::Matrix(vec![
        renplex::math::matrix::Matrix::from_body(vec_of::<Cf64>(&v[..a * 2]), [2, a]),
        renplex::math::matrix::Matrix::from_body(vec_of::<Cf64>(&v[a * 2..]), [b, 3])]);
      st.state();
      compare::<Cf64>(k, &t, &p, "maps of different sizes", &build(&t), &build(&p), st)
    });
  });
}
