//! C04: matrix and slice arithmetic against the textbook definitions.
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::{Matrix, SliceOps, SliceToMatrix};

fn show(v: &[C]) -> String {
  let s: Vec<String> = v.iter().take(24).map(|z| z.to_string()).collect();
  format!("[{}{}]", s.join(" "), if v.len() > 24 { " .." } else { "" })
}

/// The values as the element type really stores them.
fn cast<T: El>(v: &[C]) -> Vec<C> { v.iter().map(|z| T::exact(*z)).collect() }

fn same(got: &[C], want: &[C], tol: f64) -> bool {
  got.len() == want.len() && got.iter().zip(want).all(|(g, w)| if tol == 0.0 { g == w } else { near(*g, *w, w.abs().max(1.0), tol) })
}

/// Matrix times vector, both spellings, right and wrong lengths.
fn mul_case<T: El>(sh: [usize; 2], a: &[C], x: &[C], tol: f64, st: &mut Local) -> Case {
  let (a, x) = (cast::<T>(a), cast::<T>(x));
  let m = Matrix::from_body(mk::<T>(&a), sh);
  let want: Vec<C> = (0..sh[0]).map(|i| (0..sh[1]).fold(ZERO, |acc, j| acc + a[i * sh[1] + j] * x.get(j).copied().unwrap_or(ZERO))).collect();
  let ok = x.len() == sh[1];
  let v = mk::<T>(&x);
  for (name, got) in [("mul_slice", m.mul_slice(&v)), ("mul_vec", m.mul_vec(v.clone()))] {
    st.step(1);
    match got {
      Ok(r) => {
        ensure!(ok, "{} {}: {:?} matrix times vector of length {} succeeded", T::TY, name, sh, x.len());
        let r = un(&r);
        ensure!(same(&r, &want, tol), "{} {}: {:?} matrix {} times {} = {}, expected {}", T::TY, name, sh, show(&a), show(&x), show(&r), show(&want));
        st.outcome(format!("{:?}", r));
      }
      Err(_) => ensure!(!ok, "{} {}: {:?} matrix times vector of length {} failed", T::TY, name, sh, x.len()),
    }
  }
  ensure!(un(m.get_body()) == a, "{}: multiplying changed the matrix", T::TY);
  st.trace();
  Ok(())
}

fn matrix(kind: usize, pattern: usize, r: usize, k: usize) -> (Vec<C>, [usize; 2]) {
  let n = r * k;
  (if kind == 0 { gauss_vec(pattern, n) } else { generic_vec(pattern, n) }, [r, k])
}

fn build<T: El>(v: &[C], sh: [usize; 2]) -> Matrix<T> {
  if sh == [0, 0] { Matrix::new() } else { Matrix::from_body(mk::<T>(v), sh) }
}

fn add_case<T: El>(a: &[C], s1: [usize; 2], b: &[C], s2: [usize; 2], tol: f64, st: &mut Local) -> Case {
  let (a, b) = (cast::<T>(a), cast::<T>(b));
  let mut m = build::<T>(&a, s1);
  let n = build::<T>(&b, s2);
  let ok = s1 == s2 || s1 == [0, 0] || s2 == [0, 0];
  let got = m.add_mut(&n).is_ok();
  st.step(1);
  ensure!(got == ok, "{}: adding {:?} to {:?}: ok={}", T::TY, s2, s1, got);
  let (want, wsh) = if !ok || s2 == [0, 0] { (a.clone(), s1) } else if s1 == [0, 0] { (b.clone(), s2) }
    else { (a.iter().zip(&b).map(|(x, y)| *x + *y).collect(), s1) };
  ensure!(m.get_shape() == wsh, "{}: {:?} + {:?} has shape {:?}", T::TY, s1, s2, m.get_shape());
  ensure!(same(&un(m.get_body()), &want, tol), "{}: {:?} {} + {} = {}, expected {}", T::TY, s1, show(&a), show(&b), show(&un(m.get_body())), show(&want));
  let cap = m.get_capacity();
  ensure!(cap[0] >= wsh[0] && cap[1] >= wsh[1], "{}: {:?} + {:?} has shape {:?} and capacity {:?}", T::TY, s1, s2, wsh, cap);
  ensure!(un(n.get_body()) == b && n.get_shape() == s2, "{}: adding changed the right operand", T::TY);
  // the sum is a matrix of its own
  if let Some(e) = m.get_body_as_mut().first_mut() { *e += T::mk(ONE); }
  ensure!(un(n.get_body()) == b, "{}: the sum shares storage with the right operand", T::TY);
  st.trace();
  Ok(())
}

fn scalar_case<T: El>(v: &[C], sh: [usize; 2], k: C, tol: f64, st: &mut Local) -> Case {
  let v = cast::<T>(v);
  let k = T::exact(k);
  for op in 0..3 {
    if op == 2 && k == ZERO { continue }
    let want: Vec<C> = v.iter().map(|z| match op { 0 => *z + k, 1 => *z * k, _ => *z / k }).collect();
    let mut m = build::<T>(&v, sh);
    let ok = match op { 0 => m.add_mut_scalar(T::mk(k)), 1 => m.mul_mut_scalar(T::mk(k)), _ => m.div_mut_scalar(T::mk(k)) }.is_ok();
    ensure!(ok && m.get_shape() == sh && same(&un(m.get_body()), &want, tol), "{}: scalar op {} of {:?} {} with {} = {} (ok={})", T::TY, ["+", "*", "/"][op], sh, show(&v), k, show(&un(m.get_body())), ok);
    st.step(1);
    if op > 0 {
      let mut s = mk::<T>(&v);
      let ok = if op == 1 { s[..].mul_mut_scalar(T::mk(k)) } else { s[..].div_mut_scalar(T::mk(k)) }.is_ok();
      ensure!(ok && same(&un(&s), &want, tol), "{}: slice {} {} {} = {} (ok={})", T::TY, show(&v), ["+", "*", "/"][op], k, show(&un(&s)), ok);
      st.step(1);
    }
  }
  st.trace();
  Ok(())
}

fn slice_case<T: El>(a: &[C], b: &[C], tol: f64, st: &mut Local) -> Case {
  let (a, b) = (cast::<T>(a), cast::<T>(b));
  let (ta, tb) = (mk::<T>(&a), mk::<T>(&b));
  let eq = a.len() == b.len();
  let sum: Vec<C> = a.iter().zip(&b).map(|(x, y)| *x + *y).collect();
  let prod: Vec<C> = a.iter().zip(&b).map(|(x, y)| *x * *y).collect();
  let mut s = ta.clone();
  let ok = s[..].add_slice_mut(&tb).is_ok();
  ensure!(ok == eq && same(&un(&s), if eq { &sum } else { &a }, tol), "{}: {} += {} gives {} (ok={})", T::TY, show(&a), show(&b), show(&un(&s)), ok);
  let mut s = ta.clone();
  let ok = s[..].mul_slice_mut(&tb).is_ok();
  ensure!(ok == eq && same(&un(&s), if eq { &prod } else { &a }, tol), "{}: {} *= {} gives {} (ok={})", T::TY, show(&a), show(&b), show(&un(&s)), ok);
  match ta[..].add_slice(&tb) {
    Ok(r) => {
      let want = if a.is_empty() { &b } else { &sum };
      ensure!((eq || a.is_empty()) && same(&un(&r), want, tol), "{}: {} + {} = {}", T::TY, show(&a), show(&b), show(&un(&r)));
    }
    Err(_) => ensure!(!eq && !a.is_empty(), "{}: {} + {} failed", T::TY, show(&a), show(&b)),
  }
  match ta[..].mul_slice(&tb) {
    Ok(r) => ensure!(eq && same(&un(&r), &prod, tol), "{}: {} * {} = {}", T::TY, show(&a), show(&b), show(&un(&r))),
    Err(_) => ensure!(!eq, "{}: {} * {} failed", T::TY, show(&a), show(&b)),
  }
  if eq {
    let want = prod.iter().fold(ZERO, |x, y| x + *y);
    let got = ta[..].scalar_prod(&tb).un();
    ensure!(if tol == 0.0 { got == want } else { near(got, want, 1.0, tol * a.len() as f64) }, "{}: scalar product {} . {} = {}, expected {}", T::TY, show(&a), show(&b), got, want);
  }
  ensure!(un(&ta) == a && un(&tb) == b, "{}: operands changed", T::TY);
  st.step(5); st.trace();
  Ok(())
}

fn reshape_case<T: El>(n: usize, sh: [usize; 2], st: &mut Local) -> Case {
  let v = cast::<T>(&gauss_vec(3, n));
  st.step(1); st.trace();
  match mk::<T>(&v)[..].to_matrix(sh) {
    Ok(m) => {
      ensure!(n == sh[0] * sh[1], "{}: {} elements reshaped to {:?}", T::TY, n, sh);
      ensure!(m.get_shape() == sh && un(m.get_body()) == v, "{}: reshape to {:?} gave shape {:?} body {}", T::TY, sh, m.get_shape(), show(&un(m.get_body())));
      for i in 0..sh[0] { for j in 0..sh[1] { ensure!(m.elm(i, j).unwrap().un() == v[i * sh[1] + j], "{}: element ({},{}) after reshape to {:?}", T::TY, i, j, sh); } }
    }
    Err(_) => ensure!(n != sh[0] * sh[1], "{}: {} elements not reshaped to {:?}", T::TY, n, sh),
  }
  Ok(())
}

macro_rules! all { ($f:ident ( $($a:expr),* )) => {{ $f::<f32>($($a),*)?; $f::<f64>($($a),*)?; $f::<Cf32>($($a),*)?; $f::<Cf64>($($a),*) }} }
macro_rules! all_tol { ($f:ident ( $($a:expr),* ; $k:expr ; $st:expr )) => {{
  $f::<f32>($($a,)* $k * f32::ULP, $st)?; $f::<f64>($($a,)* $k * f64::ULP, $st)?; $f::<Cf32>($($a,)* $k * Cf32::ULP, $st)?; $f::<Cf64>($($a,)* $k * Cf64::ULP, $st) }} }

fn main() {
  run("C04", &["small Gaussian integers are compared exactly, other values up to rounding", "rows have at least one element"], |r| {
    let alpha = [ZERO, ONE, c(-1.0, 0.0), I, c(2.0, -1.0)];
    // all small matrices and vectors over the alphabet
    let shapes: Vec<[usize; 2]> = if r.thorough { vec![[1, 1], [1, 2], [2, 1], [2, 2], [1, 3], [3, 1], [1, 4]] } else { vec![[1, 1], [1, 2], [2, 1], [2, 2], [3, 1]] };
    for sh in &shapes {
      let k = sh[0] * sh[1] + sh[1];
      r.group(&format!("mul-all-{}x{}", sh[0], sh[1]), 5u64.pow(k as u32), |i, st| {
        let mut p = Pick(i);
        let v: Vec<C> = (0..k).map(|_| *p.from(&alpha)).collect();
        st.state();
        st.sample(|| format!("matrix {} vector {}", show(&v[..sh[0] * sh[1]]), show(&v[sh[0] * sh[1]..])));
        all!(mul_case(*sh, &v[..sh[0] * sh[1]], &v[sh[0] * sh[1]..], 0.0, st))
      });
    }
    // every basis matrix times every basis vector
    let dim = if r.thorough { 9 } else { 6 };
    r.group("mul-basis", (dim * dim) as u64, |i, st| {
      let mut p = Pick(i);
      let sh = [p.range(1, dim), p.range(1, dim)];
      for e in 0..sh[0] * sh[1] {
        for k in 0..sh[1] {
          let mut a = vec![ZERO; sh[0] * sh[1]];
          a[e] = c(3.0, -2.0);
          let mut x = vec![ZERO; sh[1]];
          x[k] = c(-1.0, 4.0);
          st.state();
          all!(mul_case(sh, &a, &x, 0.0, st))?;
        }
      }
      Ok(())
    });
    // every shape with dense values, and every wrong vector length nearby
    let big = if r.thorough { 24 } else { 12 };
    r.group("mul-shapes", (big * big * 5) as u64, |i, st| {
      let mut p = Pick(i);
      let sh = [p.range(1, big), p.range(1, big)];
      let len = (sh[1] + p.of(5)).saturating_sub(2);
      st.state();
      for pat in 0..4 {
        all!(mul_case(sh, &gauss_vec(pat, sh[0] * sh[1]), &gauss_vec(pat + 1, len), 0.0, st))?;
      }
      if len == sh[1] { all_tol!(mul_case(sh, &generic_vec(0, sh[0] * sh[1]), &generic_vec(1, len); 8.0 * len as f64; st)) } else { Ok(()) }
    });
    let edge = edges(4097);
    let long = edges(65537);
    let (e, l) = (edge.len() as u64, long.len() as u64);
    r.group("mul-sizes", e * 3 * 2, |i, st| {
      let mut p = Pick(i);
      let n = *p.from(&edge);
      let k = p.range(1, 3);
      let sh = if p.of(2) == 0 { [n, k] } else { [k, n] };
      st.state();
      all!(mul_case(sh, &gauss_vec(0, n * k), &gauss_vec(3, sh[1]), 0.0, st))?;
      all!(mul_case(sh, &gauss_vec(1, n * k), &gauss_vec(2, sh[1] + 1), 0.0, st))
    });
    // sums of all pairs of shapes, including empty operands
    let d = if r.thorough { 7 } else { 5 };
    let mut shs = vec![[0, 0]];
    for a in 1..=d { for b in 1..=d { shs.push([a, b]); } }
    let n = shs.len() as u64;
    r.group("add-shapes", n * n, |i, st| {
      let (s1, s2) = (shs[(i / n) as usize], shs[(i % n) as usize]);
      st.state();
      st.sample(|| format!("{:?} + {:?}", s1, s2));
      for pat in 0..3 {
        let (a, _) = matrix(0, pat, s1[0], s1[1]);
        let (b, _) = matrix(0, pat + 1, s2[0], s2[1]);
        all!(add_case(&a, s1, &b, s2, 0.0, st))?;
      }
      let (a, _) = matrix(1, 0, s1[0], s1[1]);
      let (b, _) = matrix(1, 1, s2[0], s2[1]);
      all_tol!(add_case(&a, s1, &b, s2; 4.0; st))
    });
    r.group("mul-square", 24, |i, st| {
      let n = EDGE[i as usize] + 1;
      st.state();
      all!(mul_case([n, n], &gauss_vec(0, n * n), &gauss_vec(3, n), 0.0, st))
    });
    r.group("add-sizes", l * 2, |i, st| {
      let mut p = Pick(i);
      let n = *p.from(&long);
      let sh = if p.of(2) == 0 { [n, 2] } else { [3, n] };
      st.state();
      all!(add_case(&gauss_vec(0, sh[0] * sh[1]), sh, &gauss_vec(1, sh[0] * sh[1]), sh, 0.0, st))
    });
    // scalars
    let dy = [ZERO, ONE, c(-1.0, 0.0), c(2.0, 0.0), c(-4.0, 0.0), c(0.5, 0.0), I, c(0.0, -2.0), c(1.0, 1.0), c(-0.5, 0.5)];
    let ge = [c(3.0, 0.0), c(0.7, 0.2), c(-1.3, 2.1), c(0.1, -0.9), c(7.0, -5.0)];
    r.group("scalar", n * (dy.len() + ge.len()) as u64, |i, st| {
      let mut p = Pick(i);
      let sh = *p.from(&shs);
      let k = p.of(dy.len() + ge.len());
      st.state();
      if k < dy.len() {
        for pat in 0..4 {
          let v = gauss_vec(pat, sh[0] * sh[1]);
          // purely imaginary and mixed scalars have no real counterpart to divide by
          if dy[k].re == 0.0 && dy[k] != ZERO { scalar_case::<Cf32>(&v, sh, dy[k], 0.0, st)?; scalar_case::<Cf64>(&v, sh, dy[k], 0.0, st)?; }
          else { all!(scalar_case(&v, sh, dy[k], 0.0, st))?; }
        }
        Ok(())
      } else {
        all_tol!(scalar_case(&generic_vec(2, sh[0] * sh[1]), sh, ge[k - dy.len()]; 64.0; st))
      }
    });
    r.group("scalar-sizes", l * dy.len() as u64, |i, st| {
      let mut p = Pick(i);
      let n = *p.from(&long);
      let k = *p.from(&dy);
      st.state();
      scalar_case::<Cf32>(&gauss_vec(0, n), [1, n], k, 0.0, st)?;
      scalar_case::<Cf64>(&gauss_vec(1, n), [n, 1], k, 0.0, st)
    });
    // slices: all small values, all length pairs, edge sizes
    for len in 1..=(if r.thorough { 4usize } else { 3 }) {
      r.group(&format!("slice-all-{}", len), 5u64.pow(2 * len as u32), |i, st| {
        let mut p = Pick(i);
        let a: Vec<C> = (0..len).map(|_| *p.from(&alpha)).collect();
        let b: Vec<C> = (0..len).map(|_| *p.from(&alpha)).collect();
        st.state();
        all!(slice_case(&a, &b, 0.0, st))
      });
    }
    let top = if r.thorough { 40 } else { 20 };
    r.group("slice-lengths", (top * top) as u64, |i, st| {
      let mut p = Pick(i);
      let (a, b) = (p.of(top), p.of(top));
      st.state();
      for pat in 0..4 { all!(slice_case(&gauss_vec(pat, a), &gauss_vec(pat + 1, b), 0.0, st))?; }
      all_tol!(slice_case(&generic_vec(0, a), &generic_vec(1, b); 16.0; st))
    });
    r.group("slice-sizes", l * 3, |i, st| {
      let mut p = Pick(i);
      let a = *p.from(&long);
      let b = a + p.of(3) - 1;
      st.state();
      all!(slice_case(&gauss_vec(0, a), &gauss_vec(1, b), 0.0, st))
    });
    let q = if r.thorough { 65 } else { 33 };
    r.group("reshape", (q * 9 * 9) as u64, |i, st| {
      let mut p = Pick(i);
      let n = p.of(q);
      let sh = [p.of(9), p.of(9)];
      st.state();
      all!(reshape_case(n, sh, st))
    });
    r.group("reshape-sizes", l * 6, |i, st| {
      let mut p = Pick(i);
      let n = *p.from(&long);
      let (m, sh) = [(n, [1, n]), (n, [n, 1]), (2 * n, [2, n]), (2 * n, [n, 2]), (n, [n + 1, 1]), (n + 1, [1, n])][p.of(6)];
      st.state();
      all!(reshape_case(m, sh, st))
    });
  });
}
