//! C05: convolution, flipping and padding against their definitions.
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;

type Sh = [usize; 2];

fn show(v: &[C], sh: Sh) -> String {
  if v.len() > 64 { return format!("<{}x{}>", sh[0], sh[1]) }
  let rows: Vec<String> = v.chunks(sh[1].max(1)).map(|r| r.iter().map(|z| z.to_string()).collect::<Vec<_>>().join(" ")).collect();
  format!("[{}]", rows.join("; "))
}

/// Sum over all kernel positions of kernel times covered pixel.
fn reference(a: &[C], sa: Sh, k: &[C], sk: Sh) -> (Vec<C>, Sh) {
  let out = [sa[0] + 1 - sk[0], sa[1] + 1 - sk[1]];
  let mut v = Vec::new();
  for i in 0..out[0] {
    for j in 0..out[1] {
      let mut s = ZERO;
      for p in 0..sk[0] { for q in 0..sk[1] { s += a[(i + p) * sa[1] + j + q] * k[p * sk[1] + q]; } }
      v.push(s);
    }
  }
  (v, out)
}

fn same(got: &[C], want: &[C], tol: f64) -> bool {
  got.len() == want.len() && got.iter().zip(want).all(|(g, w)| if tol == 0.0 { g == w } else { near(*g, *w, w.abs(), tol) })
}

fn conv<T: El>(a: &[C], sa: Sh, k: &[C], sk: Sh, tol: f64, st: &mut Local) -> Case {
  let (ma, mk_) = (Matrix::from_body(mk::<T>(a), sa), Matrix::from_body(mk::<T>(k), sk));
  let (a, k) = (un(ma.get_body()), un(mk_.get_body()));
  let ok = sk[0] > 0 && sk[1] > 0 && sk[0] <= sa[0] && sk[1] <= sa[1];
  st.step(1); st.trace();
  match ma.convolution(&mk_) {
    Ok(r) => {
      ensure!(ok, "{}: convolving {:?} with kernel {:?} succeeded", T::TY, sa, sk);
      let (want, wsh) = reference(&a, sa, &k, sk);
      ensure!(r.get_shape() == wsh, "{}: {:?} convolved with {:?} has shape {:?}", T::TY, sa, sk, r.get_shape());
      ensure!(same(&un(r.get_body()), &want, tol), "{}: {} convolved with {} = {}, expected {}", T::TY, show(&a, sa), show(&k, sk), show(&un(r.get_body()), wsh), show(&want, wsh));
      st.outcome(format!("{:?}", want));
    }
    Err(_) => ensure!(!ok, "{}: convolving {:?} with kernel {:?} failed", T::TY, sa, sk),
  }
  ensure!(un(ma.get_body()) == a && un(mk_.get_body()) == k, "{}: convolution changed its operands", T::TY);
  Ok(())
}

fn cconv<T: El + Num>(a: &[C], sa: Sh, k: &[C], sk: Sh, tol: f64, st: &mut Local) -> Case {
  if sk[0] == 0 || sk[1] == 0 || sk[0] > sa[0] || sk[1] > sa[1] { return Ok(()) }
  let (ma, mk_) = (Matrix::from_body(mk::<T>(a), sa), Matrix::from_body(mk::<T>(k), sk));
  let (a, k) = (un(ma.get_body()), un(mk_.get_body()));
  let kc: Vec<C> = k.iter().map(|z| z.conj()).collect();
  let (want, wsh) = reference(&a, sa, &kc, sk);
  st.step(1); st.trace();
  let r = ma.cconvolution(&mk_).map_err(|e| format!("{}: complex convolution of {:?} with {:?} failed: {:?}", T::TY, sa, sk, e))?;
  ensure!(r.get_shape() == wsh && same(&un(r.get_body()), &want, tol), "{}: {} complex-convolved with {} = {}, expected {}", T::TY, show(&a, sa), show(&k, sk), show(&un(r.get_body()), wsh), show(&want, wsh));
  Ok(())
}

fn flip_pad<T: El>(a: &[C], sa: Sh, st: &mut Local) -> Case {
  let m = Matrix::from_body(mk::<T>(a), sa);
  let a = un(m.get_body());
  let f = m.flip().map_err(|e| format!("flip failed: {:?}", e))?;
  let mut want = a.clone();
  want.reverse();
  ensure!(f.get_shape() == sa && un(f.get_body()) == want, "{}: flip of {} = {}", T::TY, show(&a, sa), show(&un(f.get_body()), sa));
  for i in 0..sa[0] {
    if sa[0] > 33 && i > 3 && i + 3 < sa[0] && i % 64 > 1 { continue }
    for rows in 1..=sa[0] - i {
      if sa[0] > 33 && rows > 3 && i + rows < sa[0] { continue }
      let got: Vec<Vec<C>> = m.get_slider(i, rows).map(|r| un(r)).collect();
      let want: Vec<Vec<C>> = (i..i + rows).map(|r| a[r * sa[1]..(r + 1) * sa[1]].to_vec()).collect();
      ensure!(got == want, "{}: slider of {} rows at {} in {}", T::TY, rows, i, show(&a, sa));
    }
  }
  for p0 in 0..4 {
    for p1 in 0..4 {
      let out = [sa[0] + 2 * p0, sa[1] + 2 * p1];
      let mut want = vec![ZERO; out[0] * out[1]];
      for i in 0..sa[0] { for j in 0..sa[1] { want[(i + p0) * out[1] + j + p1] = a[i * sa[1] + j]; } }
      let r = m.clone().pad((p0, p1));
      ensure!(r.get_shape() == out && un(r.get_body()) == want, "{}: {} padded by ({},{}) = {}", T::TY, show(&a, sa), p0, p1, show(&un(r.get_body()), out));
      st.step(1);
    }
  }
  st.step(1); st.trace();
  Ok(())
}

macro_rules! each { ($f:ident ( $($a:expr),* ; $st:expr )) => {{ $f::<f32>($($a),*, 0.0, $st)?; $f::<f64>($($a),*, 0.0, $st)?; $f::<Cf32>($($a),*, 0.0, $st)?; $f::<Cf64>($($a),*, 0.0, $st) }} }

fn dense(sa: Sh, sk: Sh, st: &mut Local) -> Case {
  let (na, nk) = (sa[0] * sa[1], sk[0] * sk[1]);
  for pat in 0..3 {
    let (a, k) = (gauss_vec(pat, na), gauss_vec(pat + 1, nk));
    each!(conv(&a, sa, &k, sk; st))?;
    cconv::<Cf32>(&a, sa, &k, sk, 0.0, st)?;
    cconv::<Cf64>(&a, sa, &k, sk, 0.0, st)?;
  }
  let (a, k) = (generic_vec(0, na), generic_vec(1, nk));
  let t = 8.0 * (nk.max(1)) as f64;
  conv::<f32>(&a, sa, &k, sk, t * f32::ULP, st)?;
  conv::<f64>(&a, sa, &k, sk, t * f64::ULP, st)?;
  conv::<Cf32>(&a, sa, &k, sk, t * Cf32::ULP, st)?;
  conv::<Cf64>(&a, sa, &k, sk, t * Cf64::ULP, st)
}

fn main() {
  run("C05", &["small Gaussian integers are compared exactly, other values up to rounding", "the complex variant is only exercised on kernels that fit (it documents no error handling)"], |r| {
    // every image shape with every kernel shape, dense values
    let d = if r.thorough { 18usize } else { 11 };
    let kd = d + 2;
    r.group("shapes", (d * d * kd * kd) as u64, |i, st| {
      let mut p = Pick(i);
      let sa = [p.range(1, d), p.range(1, d)];
      let sk = [p.of(kd), p.of(kd)];
      st.state();
      st.sample(|| format!("image {:?} kernel {:?}", sa, sk));
      dense(sa, sk, st)
    });
    // no image
    r.group("empty-image", 16, |i, st| {
      let mut p = Pick(i);
      let sk = [p.of(4), p.of(4)];
      st.state();
      each!(conv(&[], [0, 0], &gauss_vec(0, sk[0] * sk[1]), sk; st))?;
      let (e, k) = (Matrix::<Cf32>::new(), Matrix::<Cf32>::new());
      ensure!(e.convolution(&k).is_err(), "convolving an empty image with an empty kernel succeeded");
      Ok(())
    });
    // every basis image with every basis kernel: pins down each individual product
    let b = if r.thorough { 9usize } else { 6 };
    r.group("basis", (b * b * b * b) as u64, |i, st| {
      let mut p = Pick(i);
      let sa = [p.range(1, b), p.range(1, b)];
      let sk = [p.range(1, b), p.range(1, b)];
      if sk[0] > sa[0] || sk[1] > sa[1] { return Ok(()) }
      for x in 0..sa[0] * sa[1] {
        for y in 0..sk[0] * sk[1] {
          let mut a = vec![ZERO; sa[0] * sa[1]];
          let mut k = vec![ZERO; sk[0] * sk[1]];
          a[x] = c(2.0, -3.0);
          k[y] = c(-1.0, 5.0);
          st.state();
          conv::<f64>(&a, sa, &k, sk, 0.0, st)?;
          conv::<Cf32>(&a, sa, &k, sk, 0.0, st)?;
          cconv::<Cf64>(&a, sa, &k, sk, 0.0, st)?;
        }
      }
      Ok(())
    });
    // every 2x2 and 2x3 image over an alphabet with every 1x2 / 2x1 / 2x2 kernel
    let al = [ZERO, ONE, c(-1.0, 1.0), I];
    for (sa, sk) in [([2, 2], [1, 2]), ([2, 2], [2, 1]), ([2, 2], [2, 2]), ([1, 3], [1, 2]), ([3, 1], [2, 1])] {
      let (na, nk): (usize, usize) = (sa[0] * sa[1], sk[0] * sk[1]);
      r.group(&format!("all-{:?}-{:?}", sa, sk), 4u64.pow((na + nk) as u32), |i, st| {
        let mut p = Pick(i);
        let a: Vec<C> = (0..na).map(|_| *p.from(&al)).collect();
        let k: Vec<C> = (0..nk).map(|_| *p.from(&al)).collect();
        st.state();
        conv::<Cf32>(&a, sa, &k, sk, 0.0, st)?;
        conv::<Cf64>(&a, sa, &k, sk, 0.0, st)?;
        cconv::<Cf32>(&a, sa, &k, sk, 0.0, st)
      });
    }
    // long thin images, real image sizes, kernels up to the full image
    let mut cases: Vec<(Sh, Sh)> = Vec::new();
    for n in edges(1025) {
      for k in [1, 2, 3, n - 1, n, n + 1] {
        cases.push(([1, n], [1, k])); cases.push(([n, 1], [k, 1]));
        cases.push(([2, n], [2, k])); cases.push(([n, 3], [k, 2]));
      }
    }
    for s in [[28, 28], [26, 26], [13, 13], [16, 24], [33, 17], [64, 64], [30, 32]] {
      for k in [[1, 1], [2, 2], [3, 3], [5, 5], [3, 7], [8, 4], [16, 16], s] { cases.push((s, k)); }
    }
    r.group("sizes", cases.len() as u64, |i, st| {
      let (sa, sk) = cases[i as usize];
      st.state();
      dense(sa, sk, st)
    });
    let f = if r.thorough { 24usize } else { 12 };
    r.group("flip-pad", (f * f * 3) as u64, |i, st| {
      let mut p = Pick(i);
      let sa = [p.range(1, f), p.range(1, f)];
      let v = gauss_vec(p.of(3), sa[0] * sa[1]);
      st.state();
      flip_pad::<f32>(&v, sa, st)?;
      flip_pad::<f64>(&v, sa, st)?;
      flip_pad::<Cf32>(&v, sa, st)?;
      flip_pad::<Cf64>(&v, sa, st)
    });
    let e = edges(if r.thorough { 65537 } else { 8193 });
    r.group("flip-pad-sizes", e.len() as u64 * 2, |i, st| {
      let mut p = Pick(i);
      let n = *p.from(&e);
      let sa = if p.of(2) == 0 { [n, 2] } else { [2, n] };
      st.state();
      flip_pad::<Cf32>(&gauss_vec(0, 2 * n), sa, st)
    });
  });
}
