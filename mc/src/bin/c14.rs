//! C14: pooling and flatten layers.
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::laychk::{diff, text};
use mc::num::*;
use mc::refnet::*;
use renplex::cvnn::layer::flatten::Flatten;
use renplex::cvnn::layer::reduce::Reduce;
use renplex::cvnn::layer::CLayer;
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;

/// Block functions; the order of the elements matters for all but the first two.
const FUNCS: [&str; 6] = ["sum", "largest", "first", "last", "horner", "twice the sum plus the count"];
fn model(f: usize, b: &[C]) -> C {
  match f {
    0 => b.iter().fold(ZERO, |s, z| s + *z),
    1 => { let mut m = b[0]; for z in b { if z.sq() > m.sq() { m = *z } } m }
    2 => b[0],
    3 => b[b.len() - 1],
    // not the identity on single elements either
    5 => b.iter().fold(c(b.len() as f64, 0.0), |s, z| s + *z + *z),
    // modulo keeps the value small and exact
    _ => b.iter().fold(ZERO, |s, z| { let t = s * c(1.0, 1.0) + *z; c(t.re % 1024.0, t.im % 1024.0) }),
  }
}
fn layer<T: Num>(n: usize, block: [usize; 2], f: usize, k: &[C], ks: [usize; 2]) -> CLayer<T> {
  let func = move |b: &[T]| T::of(model(f, &vec_to(b)));
  Reduce::init(n, block, Box::new(func), Matrix::from_body(vec_of(k), ks)).wrap()
}
fn maps<T: Num>(v: &[C], shapes: &[[usize; 2]]) -> IOType<T> {
  let mut at = 0;
  IOType::Matrix(shapes.iter().map(|s| { let m = Matrix::from_body(vec_of(&v[at..at + s[0] * s[1]]), *s); at += s[0] * s[1]; m }).collect())
}

/// Maps whose sizes are multiples of the block, possibly different ones.
fn pool<T: Num>(shapes: &[[usize; 2]], block: [usize; 2], f: usize, ks: [usize; 2], p: usize, st: &mut Local) -> Case {
  let total: usize = shapes.iter().map(|s| s[0] * s[1]).sum();
  let x = gauss_vec(p, total);
  let k = gauss_vec(p + 1, ks[0] * ks[1]);
  let mut l = layer::<T>(shapes.len(), block, f, &k, ks);
  let io = maps::<T>(&x, shapes);
  let name = format!("{} pooling of maps {:?} by {:?} with {}", T::NAME, shapes, block, FUNCS[f]);
  ensure!(l.params_len() == (0, 0) && l.get_input_shape() == IOShape::Matrix(shapes.len()) && l.get_output_shape() == IOShape::Matrix(shapes.len()), "{}: reports shapes {:?} {:?} and {:?} parameters", name, l.get_input_shape(), l.get_output_shape(), l.params_len());
  let mut at = 0;
  let mut want = Vec::new();
  for s in shapes {
    let mut m = Vec::new();
    for i in 0..s[0] / block[0] { for j in 0..s[1] / block[1] {
      let b: Vec<C> = (0..block[0] * block[1]).map(|e| x[at + (i * block[0] + e / block[1]) * s[1] + j * block[1] + e % block[1]]).collect();
      m.push(model(f, &b));
    } }
    want.push(m);
    at += s[0] * s[1];
  }
  let check = |l: &CLayer<T>, when: &str| -> Case {
    let y = guard(|| l.foward(&io)).map_err(|e| format!("{} {} panicked: {}", name, when, e))?.map_err(|e| format!("{} {} failed: {:?}", name, when, e))?;
    let y = match y { IOType::Matrix(m) => m, IOType::Scalar(v) => return Err(format!("{} {} gave a vector of {}", name, when, v.len())) };
    ensure!(y.len() == shapes.len(), "{} {} gave {} maps", name, when, y.len());
    for (k, m) in y.iter().enumerate() {
      ensure!(m.get_shape() == [shapes[k][0] / block[0], shapes[k][1] / block[1]], "{} {}: map {} has shape {:?}", name, when, k, m.get_shape());
      diff(&format!("map {}", k), &vec_to(m.get_body()), &want[k], 0.0).map_err(|e| format!("{} {}: {}", name, when, e))?;
    }
    Ok(())
  };
  check(&l, "")?;
  st.step(1);
  // back-propagation: the conjugate vector is up-sampled on its own
  if shapes.iter().all(|s| *s == shapes[0]) && ks[0] % 2 == 1 && ks[1] % 2 == 1 {
    let sh = [shapes[0][0] / block[0], shapes[0][1] / block[1]];
    let n = shapes.len() * sh[0] * sh[1];
    let g = gauss_vec(p + 2, n);
    for gc in [g.iter().map(|z| z.conj()).collect::<Vec<C>>(), gauss_vec(p + 3, n)] {
      let up = |g: &[C]| g.chunks(sh[0] * sh[1]).flat_map(|m| upsample(m, sh, block, &k, ks)).collect::<Vec<C>>();
      let r = guard(|| l.compute_derivatives(&io, vec_of(&g), vec_of(&gc))).map_err(|e| format!("{} with kernel {:?}: back-propagation panicked: {}", name, ks, e))?.map_err(|e| format!("{} with kernel {:?}: back-propagation failed: {:?}", name, ks, e))?;
      st.step(1);
      ensure!(r.0.is_empty() && r.1.is_empty(), "{}: reports {} weight and {} bias derivatives", name, r.0.len(), r.1.len());
      diff("derivative", &vec_to(&r.2), &up(&g), 0.0).map_err(|e| format!("{} with kernel {:?} {}: {}", name, ks, text(&k), e))?;
      diff("conjugate derivative", &vec_to(&r.3), &up(&gc), 0.0).map_err(|e| format!("{} with kernel {:?} {}: {}", name, ks, text(&k), e))?;
      st.outcome(hash(&format!("{:?}", vec_to(&r.2))));
    }
    // a vector as the previous activation
    let v = IOType::Scalar(vec_of::<T>(&x));
    let r = guard(|| l.compute_derivatives(&v, vec_of(&g), vec_of(&g)));
    ensure!(matches!(r, Ok(Err(_))), "{}: back-propagation to a vector did not give an error", name);
  }
  for n in [0, 1, total] {
    let v = IOType::Scalar(vec_of::<T>(&x[..n]));
    let r = guard(|| l.foward(&v));
    ensure!(matches!(r, Ok(Err(_))), "{}: a vector of {} was not refused", name, n);
  }
  for (a, b) in [(0, 0), (1, 0), (total, shapes.len())] {
    guard(|| { let _ = l.neg_conj_adjustment(vec_of(&gauss_vec(0, a)), vec_of(&gauss_vec(1, b))); }).map_err(|e| format!("{}: adjusting panicked: {}", name, e))?;
    check(&l, "after adjusting")?;
    st.step(2);
  }
  ensure!(l.params_len() == (0, 0), "{}: has parameters after adjusting", name);
  ensure!(Dat::of(&io).v == x, "{}: changed its input", name);
  st.trace();
  Ok(())
}

fn flat<T: Num>(shapes: &[[usize; 2]], p: usize, st: &mut Local) -> Case {
  let total: usize = shapes.iter().map(|s| s[0] * s[1]).sum();
  let x: Vec<C> = (0..total).map(|i| gauss(p, i) + c(i as f64 * 16.0, 0.0)).collect();
  let l: CLayer<T> = Flatten::init(shapes[0], shapes.len()).wrap();
  let name = format!("{} flatten of {:?}", T::NAME, shapes);
  ensure!(l.params_len() == (0, 0) && l.get_input_shape() == IOShape::Matrix(shapes.len()), "{}: reports input {:?}", name, l.get_input_shape());
  ensure!(l.get_output_shape() == IOShape::Scalar(shapes.len() * shapes[0][0] * shapes[0][1]), "{}: reports output {:?}", name, l.get_output_shape());
  let y = guard(|| l.foward(&maps::<T>(&x, shapes))).map_err(|e| format!("{} panicked: {}", name, e))?.map_err(|e| format!("{} failed: {:?}", name, e))?;
  match y { IOType::Scalar(v) => diff("output", &vec_to(&v), &x, 0.0).map_err(|e| format!("{}: {}", name, e))?, _ => return Err(format!("{} gave maps", name)) }
  st.step(1);
  st.outcome((total, shapes.len(), p));
  for n in [0, 1, total] {
    let v = IOType::Scalar(vec_of::<T>(&x[..n]));
    ensure!(matches!(guard(|| l.foward(&v)), Ok(Err(_))), "{}: a vector of {} was not refused", name, n);
    st.step(1);
  }
  st.trace();
  Ok(())
}

fn main() {
  run("C14", &["map sizes are multiples of the block size", "values are small Gaussian integers, compared exactly"], |r| {
    let (nm, dm, bm, kn) = if r.thorough { (4, 4, 4, 5) } else { (3, 3, 3, 5) };
    let ks: Vec<[usize; 2]> = { let o: Vec<usize> = (1..=kn).step_by(2).collect(); o.iter().flat_map(|a| o.iter().map(move |b| [*a, *b])).collect() };
    r.group("pool", (nm * dm * dm * bm * bm * FUNCS.len() * ks.len() * 2) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, d, b, f, k, p) = (q.range(1, nm), [q.range(1, dm), q.range(1, dm)], [q.range(1, bm), q.range(1, bm)], q.of(FUNCS.len()), *q.from(&ks), q.of(2));
      st.state();
      let sh = vec![[d[0] * b[0], d[1] * b[1]]; n];
      pool::<Cf32>(&sh, b, f, k, p, st)?;
      pool::<Cf64>(&sh, b, f, k, p, st)
    });
    // maps of different sizes in one input
    r.group("mixed-sizes", (81 * 9 * FUNCS.len()) as u64, |i, st| {
      let mut q = Pick(i);
      let d: Vec<usize> = (0..4).map(|_| q.range(1, 3)).collect();
      let (b, f) = ([q.range(1, 3), q.range(1, 3)], q.of(FUNCS.len()));
      let sh = [[d[0] * b[0], d[1] * b[1]], [d[2] * b[0], d[3] * b[1]], [b[0], 2 * b[1]]];
      st.state();
      pool::<Cf32>(&sh, b, f, [3, 3], 0, st)?;
      pool::<Cf64>(&sh, b, f, [3, 3], 0, st)?;
      flat::<Cf32>(&sh, 0, st)?;
      flat::<Cf64>(&sh, 1, st)
    });
    let mut big: Vec<(usize, [usize; 2], [usize; 2])> = Vec::new();
    for n in edges(1025) { big.push((n, [2, 4], [2, 2])); big.push((2, [n * 2, 3], [2, 3])); big.push((2, [2, n * 2], [1, 2])); big.push((1, [2 * n, 2], [n, 1])); big.push((2, [3, 2 * n], [3, n])); }
    for b in [[2, 2], [4, 4], [7, 7], [2, 7], [14, 2], [28, 28], [1, 28], [28, 1]] { for n in [1, 3, 6] { big.push((n, [28, 28], b)); } }
    r.group("sizes", (big.len() * FUNCS.len()) as u64, |i, st| {
      let mut q = Pick(i);
      let ((n, s, b), f) = (*q.from(&big), q.of(FUNCS.len()));
      st.state();
      pool::<Cf32>(&vec![s; n], b, f, [3, 5], 1, st)?;
      pool::<Cf64>(&vec![s; n], b, f, [1, 3], 0, st)
    });
    let d = if r.thorough { 9 } else { 6 };
    r.group("flatten", (d * d * d * 2) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, h, w, p) = (q.range(1, d), q.range(1, d), q.range(1, d), q.of(2));
      st.state();
      flat::<Cf32>(&vec![[h, w]; n], p, st)?;
      flat::<Cf64>(&vec![[h, w]; n], p, st)
    });
    let e = edges(65537);
    r.group("flatten-sizes", (e.len() * 4) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, mode) = (*q.from(&e), q.of(4));
      if mode == 0 && n > 4097 || mode == 3 && n > 257 { return Ok(()) }
      let (m, h, w) = [(n, 2, 3), (2, n, 3), (3, 2, n), (1, n, n + 1)][mode];
      st.state();
      flat::<Cf32>(&vec![[h, w]; m], 0, st)?;
      flat::<Cf64>(&vec![[h, w]; m], 1, st)
    });
  });
}
