//! C06: block reduction and gradient up-sampling against their definitions.
use std::cell::RefCell;

use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;

type Sh = [usize; 2];

fn show(v: &[C], sh: Sh) -> String {
  if v.len() > 64 { return format!("<{}x{}>", sh[0], sh[1]) }
  let rows: Vec<String> = v.chunks(sh[1].max(1)).map(|r| r.iter().map(|z| z.to_string()).collect::<Vec<_>>().join(" ")).collect();
  format!("[{}]", rows.join("; "))
}

fn reduce<T: El>(a: &[C], sh: Sh, b: Sh, st: &mut Local) -> Case {
  let m = Matrix::from_body(mk::<T>(a), sh);
  let a = un(m.get_body());
  // an order-sensitive block function: every permutation of the block is noticed
  let calls: RefCell<Vec<Vec<C>>> = RefCell::new(Vec::new());
  let res = m.block_reduce(&b, |blk: &[T]| {
    calls.borrow_mut().push(un(blk));
    let n = calls.borrow().len() as f64;
    T::mk(c(3.0 * n + 1.0, -n))
  });
  st.step(1); st.trace();
  let ok = b[0] > 0 && b[1] > 0 && sh[0] > 0 && sh[1] > 0 && sh[0] % b[0] == 0 && sh[1] % b[1] == 0;
  let calls = calls.into_inner();
  // nothing to reduce: only a zero block size has a defined answer
  if sh[0] == 0 && b[0] > 0 && b[1] > 0 { return Ok(()) }
  st.step(calls.len() as u64);
  let res = match res {
    Err(_) => { ensure!(!ok, "{}: reducing {:?} by {:?} failed", T::TY, sh, b); return Ok(()) }
    Ok(r) => r,
  };
  ensure!(ok, "{}: reducing {:?} by {:?} succeeded", T::TY, sh, b);
  let out = [sh[0] / b[0], sh[1] / b[1]];
  ensure!(res.get_shape() == out, "{}: reducing {:?} by {:?} has shape {:?}", T::TY, sh, b, res.get_shape());
  let mut want_calls = Vec::new();
  for i in 0..out[0] { for j in 0..out[1] {
    let mut blk = Vec::new();
    for p in 0..b[0] { for q in 0..b[1] { blk.push(a[(i * b[0] + p) * sh[1] + j * b[1] + q]); } }
    want_calls.push(blk);
  } }
  ensure!(calls == want_calls, "{}: reducing {} by {:?} called the block function with {:?}, expected {:?}", T::TY, show(&a, sh), b, calls, want_calls);
  let want: Vec<C> = (1..=out[0] * out[1]).map(|n| T::exact(c(3.0 * n as f64 + 1.0, -(n as f64)))).collect();
  ensure!(un(res.get_body()) == want, "{}: reducing {:?} by {:?} put the block results at {}", T::TY, sh, b, show(&un(res.get_body()), out));
  ensure!(un(m.get_body()) == a, "{}: reduction changed the matrix", T::TY);
  st.outcome(format!("{:?}{:?}", sh, b));
  Ok(())
}

fn upsample<T: El>(a: &[C], sh: Sh, b: Sh, k: &[C], sk: Sh, st: &mut Local) -> Case {
  let (m, mkr) = (Matrix::from_body(mk::<T>(a), sh), Matrix::from_body(mk::<T>(k), sk));
  let (a, k) = (un(m.get_body()), un(mkr.get_body()));
  let res = m.fractional_upsampling(&b, &mkr);
  st.step(1); st.trace();
  if sk[0] % 2 == 0 || sk[1] % 2 == 0 {
    ensure!(res.is_err(), "{}: up-sampling {:?} by {:?} with the even kernel {:?} succeeded", T::TY, sh, b, sk);
    return Ok(())
  }
  let res = res.map_err(|e| format!("{}: up-sampling {:?} by {:?} with kernel {:?} failed: {:?}", T::TY, sh, b, sk, e))?;
  let out = [sh[0] * b[0], sh[1] * b[1]];
  // values at the block centres
  let at = |n: usize| if n % 2 == 0 { n / 2 - 1 } else { n / 2 };
  let mut up = vec![ZERO; out[0] * out[1]];
  for i in 0..sh[0] { for j in 0..sh[1] { up[(i * b[0] + at(b[0])) * out[1] + j * b[1] + at(b[1])] = a[i * sh[1] + j]; } }
  // same-size convolution: the kernel centred at every cell, zeros outside
  let (h0, h1) = (sk[0] / 2, sk[1] / 2);
  let mut want = vec![ZERO; out[0] * out[1]];
  for i in 0..out[0] { for j in 0..out[1] {
    for p in 0..sk[0] { for q in 0..sk[1] {
      let (y, x) = (i + p, j + q);
      if y < h0 || x < h1 || y - h0 >= out[0] || x - h1 >= out[1] { continue }
      want[i * out[1] + j] += up[(y - h0) * out[1] + x - h1] * k[p * sk[1] + q];
    } }
  } }
  ensure!(res.get_shape() == out, "{}: up-sampling {:?} by {:?} with kernel {:?} has shape {:?}", T::TY, sh, b, sk, res.get_shape());
  ensure!(un(res.get_body()) == want, "{}: up-sampling {} by {:?} with kernel {} = {}, expected {}", T::TY, show(&a, sh), b, show(&k, sk), show(&un(res.get_body()), out), show(&want, out));
  ensure!(un(m.get_body()) == a && un(mkr.get_body()) == k, "{}: up-sampling changed its operands", T::TY);
  st.outcome(format!("{:?}", want));
  Ok(())
}

fn main() {
  run("C06", &["values are small Gaussian integers, compared exactly", "the kernel of an up-sampling is not empty; the block size of an up-sampling is positive"], |r| {
    let d = if r.thorough { 24usize } else { 13 };
    r.group("reduce", ((d + 1) * (d + 1) * (d + 2) * (d + 2)) as u64, |i, st| {
      let mut p = Pick(i);
      let mut sh = [p.of(d + 1), p.of(d + 1)];
      let b = [p.of(d + 2), p.of(d + 2)];
      if sh[0] == 0 || sh[1] == 0 { sh = [0, 0]; }
      st.state();
      let v = gauss_vec(0, sh[0] * sh[1]);
      reduce::<f32>(&v, sh, b, st)?;
      reduce::<f64>(&v, sh, b, st)?;
      reduce::<Cf32>(&v, sh, b, st)?;
      reduce::<Cf64>(&v, sh, b, st)
    });
    let mut cases: Vec<(Sh, Sh)> = Vec::new();
    for n in edges(4097) {
      for k in 1..=n { if n % k == 0 || k < 6 { cases.push(([n, 2], [k, 1])); cases.push(([2, n], [1, k])); cases.push(([2, n], [2, k])); cases.push(([n, 3], [k, 3])); } }
    }
    for s in [[28, 28], [26, 26], [24, 36], [32, 64]] { for a in 1..=s[0] { for b in 1..=s[1] { if s[0] % a == 0 && s[1] % b == 0 { cases.push((s, [a, b])); } } } }
    r.group("reduce-sizes", cases.len() as u64, |i, st| {
      let (sh, b) = cases[i as usize];
      st.state();
      st.sample(|| format!("{:?} by {:?}", sh, b));
      let v = gauss_vec(1, sh[0] * sh[1]);
      reduce::<Cf32>(&v, sh, b, st)?;
      reduce::<Cf64>(&v, sh, b, st)
    });
    // up-sampling: all matrix, block and kernel shapes
    let (d, bd, kd) = if r.thorough { (7usize, 8usize, 11usize) } else { (5, 6, 9) };
    r.group("upsample", (d * d * bd * bd * kd * kd) as u64, |i, st| {
      let mut p = Pick(i);
      let sh = [p.range(1, d), p.range(1, d)];
      let b = [p.range(1, bd), p.range(1, bd)];
      let sk = [p.range(1, kd), p.range(1, kd)];
      st.state();
      st.sample(|| format!("{:?} by {:?} kernel {:?}", sh, b, sk));
      let (v, k) = (gauss_vec(0, sh[0] * sh[1]), gauss_vec(1, sk[0] * sk[1]));
      upsample::<f32>(&v, sh, b, &k, sk, st)?;
      upsample::<f64>(&v, sh, b, &k, sk, st)?;
      upsample::<Cf32>(&v, sh, b, &k, sk, st)?;
      upsample::<Cf64>(&v, sh, b, &k, sk, st)
    });
    // every single input cell with every single kernel cell
    let kb = [1usize, 3, 5];
    r.group("upsample-basis", (3 * 3 * 4 * 4 * 9) as u64, |i, st| {
      let mut p = Pick(i);
      let sh = [p.range(1, 3), p.range(1, 3)];
      let b = [p.range(1, 4), p.range(1, 4)];
      let sk = [*p.from(&kb), *p.from(&kb)];
      for x in 0..sh[0] * sh[1] { for y in 0..sk[0] * sk[1] {
        let (mut v, mut k) = (vec![ZERO; sh[0] * sh[1]], vec![ZERO; sk[0] * sk[1]]);
        v[x] = c(2.0, -3.0);
        k[y] = c(1.0, 4.0);
        st.state();
        upsample::<Cf32>(&v, sh, b, &k, sk, st)?;
        upsample::<Cf64>(&v, sh, b, &k, sk, st)?;
      } }
      Ok(())
    });
    let mut cases: Vec<(Sh, Sh, Sh)> = Vec::new();
    for s in [[13, 13], [14, 14], [8, 16], [1, 32], [33, 1]] { for b in [[1, 1], [2, 2], [3, 3], [2, 3], [4, 1]] { for k in [[1, 1], [3, 3], [5, 5], [3, 1], [1, 7], [9, 3], [2, 2]] { cases.push((s, b, k)); } } }
    for n in edges(1025) { cases.push(([n, 1], [2, 1], [3, 1])); cases.push(([1, n], [1, 3], [1, 3])); cases.push(([n, 2], [1, 2], [1, 5])); cases.push(([2, 1], [1, 2], [n | 1, 1])); cases.push(([1, 2], [2, 1], [3, n | 1])); }
    for n in edges(257) { for k in [1, 3, 5, 11] { cases.push(([2, 3], [n, 1], [k, 1])); cases.push(([2, 3], [2, n], [3, k])); } }
    r.group("upsample-sizes", cases.len() as u64, |i, st| {
      let (sh, b, sk) = cases[i as usize];
      st.state();
      let (v, k) = (gauss_vec(2, sh[0] * sh[1]), gauss_vec(0, sk[0] * sk[1]));
      upsample::<f32>(&v, sh, b, &k, sk, st)?;
      upsample::<Cf32>(&v, sh, b, &k, sk, st)?;
      upsample::<Cf64>(&v, sh, b, &k, sk, st)
    });
  });
}
