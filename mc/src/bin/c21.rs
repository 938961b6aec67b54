//! C21: data sets, data wrappers, one-hot vectors.
use mc::engine::*;
use mc::ensure;
use mc::num::{edges, EDGE, LONG, WIDE};
use renplex::dataset::Dataset;
use renplex::init::PredictModel;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::math::{Complex, Real};
use std::fmt::Debug;

fn shape<T: Clone>(m: &Matrix<T>) -> ([usize; 2], Vec<T>) { ([m.get_shape()[0], m.get_shape()[1]], m.get_body().to_vec()) }

/// Structural equality of wrapped data.
fn eq<T: PartialEq + Clone>(a: &IOType<T>, b: &IOType<T>) -> bool {
  match (a, b) {
    (IOType::Scalar(x), IOType::Scalar(y)) => x == y,
    (IOType::Matrix(x), IOType::Matrix(y)) => x.len() == y.len() && x.iter().zip(y).all(|(m, n)| shape(m) == shape(n)),
    _ => false,
  }
}

/// Kinds of points; `k` makes the values of one point distinguishable from all others.
fn point(kind: usize, k: u32) -> (IOType<u32>, IOType<u64>) {
  let m = |h: usize, w: usize, o: u32| Matrix::from_body((0..(h * w) as u32).map(|i| 1000 * k + i + o).collect(), [h, w]);
  let n = |h: usize, w: usize| Matrix::from_body((0..(h * w) as u64).map(|i| 7_000_000 + 1000 * k as u64 + i).collect(), [h, w]);
  match kind {
    0 => (IOType::Scalar(vec![1000 * k]), IOType::Scalar(vec![5_000_000 + k as u64])),
    1 => (IOType::Scalar((0..3).map(|i| 1000 * k + i).collect()), IOType::Scalar(vec![])),
    2 => (IOType::Matrix(vec![m(2, 3, 0), m(1, 2, 500)]), IOType::Scalar(vec![1, k as u64])),
    3 => (IOType::Scalar(vec![]), IOType::Matrix(vec![n(1, 1), n(3, 2)])),
    4 => (IOType::Matrix(vec![]), IOType::Matrix(vec![n(2, 2)])),
    _ => (IOType::Matrix(vec![Matrix::new(), m(1, 1, 0), Matrix::with_capacity([2, 2])]), IOType::Matrix(vec![Matrix::new()])),
  }
}

fn judge(d: &Dataset<u32, u64>, want: &[(IOType<u32>, IOType<u64>)], st: &mut Local) -> Case {
  let n = want.len();
  ensure!(d.get_n_points() == n, "{} points reported after {} additions", d.get_n_points(), n);
  for (i, (x, t)) in want.iter().enumerate() {
    let (a, b) = guard(|| d.get_point(i)).map_err(|e| format!("point {} of {} panicked: {}", i, n, e))?;
    ensure!(eq(a, x) && eq(b, t), "point {} of {} is {:?} -> {:?}, added was {:?} -> {:?}", i, n, a, b, x, t);
    st.step(1);
  }
  let (a, b) = d.points_as_iter();
  ensure!(a.len() == n && b.len() == n, "borrowing iteration over {} and {} of {} points", a.len(), b.len(), n);
  ensure!(a.zip(want).all(|(p, q)| eq(p, &q.0)) && b.zip(want).all(|(p, q)| eq(p, &q.1)), "borrowing iteration over {} points is out of order", n);
  let c = d.clone();
  let (a, b) = c.points_into_iter();
  ensure!(a.len() == n && b.len() == n, "consuming iteration over {} and {} of {} points", a.len(), b.len(), n);
  ensure!(a.zip(want).all(|(p, q)| eq(&p, &q.0)) && b.zip(want).all(|(p, q)| eq(&p, &q.1)), "consuming iteration over {} points is out of order", n);
  st.step(3);
  Ok(())
}

fn additions(kinds: &[(usize, u32)], st: &mut Local) -> Case {
  let mut d: Dataset<u32, u64> = Dataset::new();
  let mut want = Vec::new();
  judge(&d, &want, st)?;
  for (kind, k) in kinds {
    d.add_point(point(*kind, *k));
    want.push(point(*kind, *k));
    st.step(1);
    judge(&d, &want, st)?;
  }
  st.outcome(format!("{:?}", kinds));
  st.trace();
  Ok(())
}

/// A matrix of the given shape; one without elements is made in the way such matrices arise.
fn mat<T: Clone>(b: Vec<T>, s: [usize; 2]) -> Matrix<T> {
  match s { [0, 0] => Matrix::new(), [0, w] if w % 2 == 0 => Matrix::with_capacity([3, w]), _ => Matrix::from_body(b, s) }
}

/// Reading back wrapped data through every accessor, and writing through the mutable one.
fn wrapped<T: Copy + PartialEq + Debug>(v: &[T], other: T, maps: &[[usize; 2]], st: &mut Local) -> Case {
  let w = || IOType::Scalar(v.to_vec());
  let io = w();
  ensure!(guard(|| io.as_slice().to_vec()).as_deref() == Ok(v), "a vector of {} comes back changed as a slice", v.len());
  ensure!(guard(|| io.to_vec()).as_deref() == Ok(v), "a vector of {} comes back changed as a copy", v.len());
  ensure!(guard(|| w().release_vec().ok()) == Ok(Some(v.to_vec())), "a vector of {} comes back changed when released", v.len());
  ensure!(matches!(guard(|| w().release_maps().map(|_| ())), Ok(Err(_))), "a vector of {} was released as maps", v.len());
  st.step(4);
  for i in 0..v.len().min(40) {
    let mut io = w();
    let got = guard(|| { io.as_mut()[i] = other; io.as_slice().to_vec() });
    let mut want = v.to_vec();
    want[i] = other;
    ensure!(got.as_ref() == Ok(&want), "writing element {} of a vector of {} gives {:?}", i, v.len(), got);
    st.step(1);
  }
  let mut io = w();
  ensure!(guard(|| io.as_mut().to_vec()).as_deref() == Ok(v), "a vector of {} comes back changed as a mutable slice", v.len());
  let mut at = 0;
  let ms: Vec<Matrix<T>> = maps.iter().map(|s| { let n = s[0] * s[1]; let b = (0..n).map(|i| v[(at + i) % v.len().max(1)]).collect(); at += n; mat(b, *s) }).collect();
  let mk = || IOType::Matrix(ms.iter().zip(maps).map(|(m, s)| mat(m.get_body().to_vec(), *s)).collect());
  let r = guard(|| mk().release_maps().ok());
  ensure!(matches!(&r, Ok(Some(got)) if got.len() == ms.len() && got.iter().zip(&ms).all(|(a, b)| shape(a) == shape(b))), "maps {:?} come back changed when released", maps);
  ensure!(matches!(guard(|| mk().release_vec().map(|_| ())), Ok(Err(_))), "maps {:?} were released as a vector", maps);
  let io = mk();
  ensure!(eq(&io.clone(), &io), "a clone of maps {:?} differs", maps);
  st.step(3);
  st.trace();
  Ok(())
}

trait Hot: Sized + Copy + PartialEq + Debug { const NAME: &'static str; fn hot(n: usize, i: usize) -> Result<Vec<Self>, ()>; fn zero() -> Self; fn one() -> Self; }
macro_rules! hot { ($t:ty, $tr:ident, $z:expr, $o:expr) => { impl Hot for $t { const NAME: &'static str = stringify!($t); fn hot(n: usize, i: usize) -> Result<Vec<Self>, ()> { <$t as $tr>::gen_pred(n, i, &PredictModel::Sparse).map_err(|_| ()) } fn zero() -> Self { $z } fn one() -> Self { $o } } } }
hot!(f32, Real, 0.0, 1.0);
hot!(f64, Real, 0.0, 1.0);
hot!(Cf32, Complex, Cf32 { x: 0.0, y: 0.0 }, Cf32 { x: 1.0, y: 0.0 });
hot!(Cf64, Complex, Cf64 { x: 0.0, y: 0.0 }, Cf64 { x: 1.0, y: 0.0 });

fn hot<T: Hot>(n: usize, i: usize, st: &mut Local) -> Case {
  let r = guard(|| T::hot(n, i)).map_err(|e| format!("{} one-hot of size {} at {} panicked: {}", T::NAME, n, i, e))?;
  st.step(1);
  st.outcome((n, i.min(n), r.is_ok()));
  if i >= n { ensure!(r.is_err(), "{} one-hot of size {} at {} gave {:?}", T::NAME, n, i, r); return Ok(()) }
  let v = r.map_err(|_| format!("{} one-hot of size {} at {} failed", T::NAME, n, i))?;
  ensure!(v.len() == n && v.iter().enumerate().all(|(k, z)| *z == if k == i { T::one() } else { T::zero() }), "{} one-hot of size {} at {} is {:?}", T::NAME, n, i, v);
  Ok(())
}

fn main() {
  run("C21", &[], |r| {
    // every sequence of additions over six kinds of points; equal points included
    let top = if r.thorough { 8 } else { 6 };
    for len in 0..=top {
      r.group(&format!("additions-{}", len), 6u64.pow(len), |i, st| {
        let mut q = Pick(i);
        let kinds: Vec<(usize, u32)> = (0..len).map(|k| (q.of(6), k)).collect();
        st.state();
        additions(&kinds, st)
      });
    }
    r.group("equal-points", 4u64.pow(6), |i, st| {
      let mut q = Pick(i);
      let kinds: Vec<(usize, u32)> = (0..6).map(|_| [(0, 1), (0, 2), (2, 1), (3, 1)][q.of(4)]).collect();
      st.state();
      additions(&kinds, st)
    });
    let sizes: Vec<usize> = edges(65537);
    r.group("many", (sizes.len() * 7) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, kind) = (*q.from(&sizes), q.of(7));
      st.state();
      let mut d: Dataset<u32, u64> = Dataset::new();
      let mut want = Vec::new();
      for k in 0..n as u32 { let kk = if kind == 6 { k as usize % 6 } else { kind }; d.add_point(point(kk, k)); want.push(point(kk, k)); st.step(1); }
      judge(&d, &want, st)?;
      st.trace();
      Ok(())
    });
    // wrappers
    // every list of up to three maps over shapes with and without elements, and some longer ones
    let kinds = [[0, 0], [1, 1], [2, 3], [3, 2], [0, 3], [0, 4], [2, 0], [1, 4]];
    let mut shapes: Vec<Vec<[usize; 2]>> = vec![vec![]];
    for len in 1..=3u32 { for i in 0..kinds.len().pow(len) { let mut q = Pick(i as u64); shapes.push((0..len).map(|_| *q.from(&kinds)).collect()); } }
    shapes.extend([vec![[2, 2]; 4], vec![[1, 5], [5, 1], [1, 1], [0, 0], [1, 1]], vec![[1, 1]; 17], vec![[0, 0]; 5], vec![[2, 2]; 64], vec![[1, 2]; 65], (1..9).map(|k| [k, 9 - k]).collect(), vec![[40, 40]], vec![[1, 300], [300, 1]]]);
    let lens: Vec<usize> = (0..=if r.thorough { 64 } else { 16 }).chain(EDGE).collect();
    r.group("wrappers", (lens.len() * shapes.len()) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, s) = (*q.from(&lens), q.from(&shapes));
      let s: &[[usize; 2]] = if n == 0 && s.iter().any(|s| s[0] * s[1] > 0) { &[] } else { s };
      st.state();
      st.outcome((n, s.len()));
      wrapped(&(0..n).map(|k| k as f32 * 1.5 - 3.0).collect::<Vec<_>>(), 99.0, s, st)?;
      wrapped(&(0..n).map(|k| k as f64 * 0.1).collect::<Vec<_>>(), -1.0, s, st)?;
      wrapped(&(0..n).map(|k| Cf32 { x: k as f32, y: -0.5 }).collect::<Vec<_>>(), Cf32 { x: -1.0, y: 2.0 }, s, st)?;
      wrapped(&(0..n).map(|k| Cf64 { x: 0.25, y: k as f64 }).collect::<Vec<_>>(), Cf64 { x: -1.0, y: 2.0 }, s, st)
    });
    r.group("long-wrappers", (WIDE.len() + LONG.len()) as u64 * 4, |i, st| {
      let mut q = Pick(i);
      let n = if q.of(2) == 0 { WIDE[i as usize % WIDE.len()] } else { LONG[i as usize % LONG.len()] };
      let s: Vec<[usize; 2]> = match i % 3 { 0 => vec![[1, n], [n, 1]], 1 => vec![[2, 3]; n.min(4097)], _ => vec![[n / 2, 2], [0, 0], [3, n / 3]] };
      st.state();
      wrapped(&(0..n).map(|k| k as f32 * 1.5 - 3.0).collect::<Vec<_>>(), 99.0, &s, st)?;
      wrapped(&(0..n).map(|k| Cf64 { x: 0.25, y: k as f64 }).collect::<Vec<_>>(), Cf64 { x: -1.0, y: 2.0 }, &s, st)
    });
    // one-hot vectors
    r.group("large-one-hot", (WIDE.len() + LONG.len() + 8) as u64, |i, st| {
      let n = *EDGE[18..].iter().chain(&WIDE).chain(&LONG).nth(i as usize).unwrap();
      st.state();
      for k in [0, 1, 9, 10, 255, 256, 257, 1023, 1024, n / 2, n - 2, n - 1, n, n + 1] {
        hot::<f32>(n, k, st)?;
        hot::<f64>(n, k, st)?;
        hot::<Cf32>(n, k, st)?;
        hot::<Cf64>(n, k, st)?;
      }
      st.trace();
      Ok(())
    });
    let top = if r.thorough { 300 } else { 80 };
    r.group("one-hot", ((top + 1) * (top + 4)) as u64, |i, st| {
      let mut q = Pick(i);
      let (n, k) = (q.of(top + 1), q.of(top + 4));
      let k = if k == top + 3 { usize::MAX } else if k == top + 2 { n * 2 + 1 } else { k };
      st.state();
      hot::<f32>(n, k, st)?;
      hot::<f64>(n, k, st)?;
      hot::<Cf32>(n, k, st)?;
      hot::<Cf64>(n, k, st)?;
      st.trace();
      Ok(())
    });
  });
}
