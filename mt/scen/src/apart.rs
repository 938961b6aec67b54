//! Small programs that share nothing: each makes everything it uses.
use crate::{numbers, World};
use mc::actf::*;
use mc::archs::moderate;
use mc::cx::*;
use mc::lossf::{loss_func, CE, MSE};
use mc::num::*;
use mc::refnet::*;
use mc::trainchk::dataset;
use renplex::act::ComplexActFunc;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::CLayer;
use renplex::dataset::Dataset;
use renplex::init::{InitMethod, PredictModel};
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::math::random::{lcgf32, lcgf64, lcgi};
use renplex::math::{Complex, Real};
use std::fs::File;

pub const PROGRAMS: [&str; 10] = ["train dense", "train convolution", "initialise", "matrices", "draws", "signals", "functions", "export", "images", "query"];
/// Each program has this many steps.
pub const STEPS: usize = 3;
/// The interleavings of the steps of two programs: bit set when the second one makes the step.
pub fn interleavings() -> Vec<u32> { (0..1u32 << (2 * STEPS)).filter(|m| m.count_ones() as usize == STEPS).collect() }

type Answer = Result<Vec<f64>, String>;
type Program = Box<dyn FnMut(usize) -> Answer>;

fn fail(e: impl std::fmt::Debug) -> String { format!("{:?}", e) }
fn values<T: Num>(v: &[T], out: &mut Vec<f64>) { for z in v { let z = z.to(); out.push(z.re); out.push(z.im); } }
fn matrix<T: Num>(m: &Matrix<T>, out: &mut Vec<f64>) { out.extend(m.get_shape().iter().map(|n| *n as f64)); values(m.get_body(), out); }
fn method(k: usize, n: usize) -> InitMethod {
  match k { 0 => InitMethod::Uniform(n), 1 => InitMethod::XavierGlorotU(n), 2 => InitMethod::XavierGlorotN(n), 3 => InitMethod::Xavier(n), _ => InitMethod::HeInit(n) }
}
/// A name nobody else in this or another process uses.
fn unique(what: &str) -> String { let here = 0u8; format!("{}/{}-{}-{:p}", mc::engine::scratch(), what, std::process::id(), &here) }

fn trainer<T: Num>(net: Vec<Lay>, xs: Vec<Dat>, loss: usize, k: usize) -> Program {
  let mut made = None;
  Box::new(move |step| {
    let mut out = Vec::new();
    let points = |from: usize| -> Vec<(Dat, Dat)> { (from..from + 2).map(|p| { let x = xs[p % xs.len()].clone(); let mut t = predict(&net, &x); for (i, z) in t.v.iter_mut().enumerate() { *z = if loss == CE { if i == p % 2 { ONE } else { ZERO } } else { generic(p + k, i) }; } (x, t) }).collect() };
    if step == 0 { made = Some(build_net::<T>(&net)); }
    let n = made.as_mut().ok_or("no network")?;
    if step > 0 { n.gradient_opt(dataset::<T>(&points(step + k)), &loss_func(loss), T::of(c(0.25, 0.125 * k as f64))).map_err(fail)?; }
    for x in &xs { numbers(&n.forward(&x.io()).map_err(fail)?, &mut out); }
    if step == 2 { out.push(real::<T>(n.loss(&dataset::<T>(&points(0)), &loss_func(loss)).map_err(fail)?)); }
    Ok(out)
  })
}

fn program<T: Num>(q: usize, k: usize) -> Program {
  let m = move |p: usize| move |i: usize| moderate(p + k, i);
  // the last variant has other sizes, the first two have the same inputs
  let big = k == 3;
  let vecs = move |n: usize| -> Vec<Dat> { (0..2).map(|p| Dat::vector(generic_vec(p + 2 * (k / 2), n))).collect() };
  let maps = move |n: usize, h: usize, w: usize| -> Vec<Dat> { (0..2).map(|p| Dat::maps(n, h, w, generic_vec(p + 2 * (k / 2), n * h * w))).collect() };
  match q {
    0 => { let n = if big { 3 } else { 2 }; trainer::<T>(vec![Lay::dense(2, n, TANH, m(1)), Lay::dense(n, 2, SIGMOID, m(2))], vecs(2), if k == 2 { CE } else { MSE }, k) }
    1 => {
      let h = if big { 4 } else { 2 };
      trainer::<T>(vec![Lay::conv(1, 2, [2, 1], TANH, m(1)), Lay::pool(2, [1, 2], |i| c(0.25 + i as f64, 0.0)), Lay::Flat { n: 2, h: h - 1, w: 1 }, Lay::dense(2 * (h - 1), 2, SIGMOID, m(2))], maps(1, h, 2), if k == 2 { MSE } else { CE }, k)
    }
    2 => {
      let mut seed = [1u128, 77, 1 << 30, 5][k];
      let mut layers: Vec<CLayer<T>> = Vec::new();
      Box::new(move |step| {
        let mut out = Vec::new();
        let u = 2 + big as usize;
        for j in 0..5 {
          if step == 0 { layers.push(DenseCLayer::<T>::init(IOShape::Scalar(2), u, ComplexActFunc::None, method(j, 2 + k), &mut seed).map_err(fail)?.wrap()); }
          if step == 1 { layers.push(ConvCLayer::<T>::init(IOShape::Matrix(2), u, [1, 2], ComplexActFunc::None, method(j, 2 + k), &mut seed).map_err(fail)?.wrap()); }
        }
        if step == 2 { for (j, l) in layers.iter().enumerate() { let x = if j < 5 { Dat::vector(generic_vec(1, 2)) } else { Dat::maps(2, 1, 3, generic_vec(2, 6)) }; numbers(&l.foward(&x.io()).map_err(fail)?, &mut out); } }
        out.push(seed as f64);
        Ok(out)
      })
    }
    3 => {
      let w = 3 + big as usize;
      let row = move |p: usize, n: usize| -> Vec<T> { vec_of(&gauss_vec(p + k, n)) };
      let mut mat: Matrix<T> = Matrix::with_capacity([4, w + 1]);
      Box::new(move |step| {
        let mut out = Vec::new();
        let wide = mat.get_shape()[1];
        match step {
          0 => {
            mat.add_row(row(0, w)).map_err(fail)?;
            mat.add_mut_row(&mut row(1, w)).map_err(fail)?;
            mat.add_row(row(2, w)).map_err(fail)?;
            values(&mat.del_row(1).map_err(fail)?, &mut out);
            out.push(mat.add_row(row(3, w)).is_ok() as u8 as f64);
            let tall = mat.get_shape()[0];
            out.push(mat.add_col(&mut row(1, tall)).is_ok() as u8 as f64);
          }
          1 => {
            let kernel = Matrix::from_body(row(2, 4), [2, 2]);
            matrix(&mat.convolution(&kernel).map_err(fail)?, &mut out);
            matrix(&mat.cconvolution(&kernel).map_err(fail)?, &mut out);
            matrix(&mat.flip().map_err(fail)?, &mut out);
            matrix(&mat.clone().pad((1, 2)), &mut out);
            values(&mat.mul_slice(&row(1, wide)).map_err(fail)?, &mut out);
            values(&mat.mul_vec(row(2, wide)).map_err(fail)?, &mut out);
            values(&mat.copy_col_into_vec(1).map_err(fail)?, &mut out);
          }
          _ => {
            let f = T::of(c(0.5, k as f64));
            matrix(&mat.block_reduce(&[mat.get_shape()[0], wide], |b| b.iter().fold(T::default(), |s, z| s + *z * f)).map_err(fail)?, &mut out);
            matrix(&mat.fractional_upsampling(&[2, 3], &Matrix::from_body(row(1, 9), [3, 3])).map_err(fail)?, &mut out);
            let other = mat.clone();
            mat.add_mut(&other).map_err(fail)?;
            mat.mul_mut_scalar(f).map_err(fail)?;
            mat.add_mut_scalar(T::of(ONE)).map_err(fail)?;
            mat.div_mut_scalar(T::of(c(0.0, 2.0))).map_err(fail)?;
          }
        }
        matrix(&mat, &mut out);
        Ok(out)
      })
    }
    4 => {
      let mut seed = [0u128, 12345, (1 << 31) - 1, 1 << 100][k];
      Box::new(move |step| {
        let mut out = Vec::new();
        for j in 0..3 + step {
          out.push(lcgf32(&mut seed) as f64);
          out.push(lcgf64(&mut seed));
          out.push(lcgi(&mut seed, [10, 2, 1000, 7][k]) as f64);
          values(&[T::gen(&mut seed, 2 + j), T::gen_he(&mut seed, 2 + j), T::gen_xa(&mut seed, 2 + j), T::gen_xagu(&mut seed, 2 + j), T::gen_xagn(&mut seed, 2 + j)], &mut out);
          out.push(<f32 as Real>::gen(&mut seed, 3) as f64);
          out.push(<f64 as Real>::gen(&mut seed, 3));
        }
        out.push(seed as f64);
        Ok(out)
      })
    }
    5 => {
      let (mut a, mut b) = ([1u128, 9, 1 << 20, 4][k], [2u128, 9, 3, 1 << 30][k]);
      Box::new(move |step| {
        let mut out = Vec::new();
        let (x, y) = Dataset::<Cf32, Cf32>::signal_reconstruction(4 + big as usize + step, 1 + step % 2, 0.25 * k as f32, &mut a, &mut b);
        for d in [x, y] { for i in 0..d.get_n_points() { let (x, t) = d.get_point(i); numbers(x, &mut out); numbers(t, &mut out); } }
        out.extend([a as f64, b as f64]);
        Ok(out)
      })
    }
    6 => Box::new(move |step| {
      let mut out = Vec::new();
      let n = 3 + big as usize;
      let v: Vec<T> = vec_of(&generic_vec(k + step, n));
      for f in ACTS {
        for z in &v { values(&[z.activate(&f), z.d_activate(&f), z.d_conj_activate(&f)], &mut out); }
        let (mut x, mut y, mut z) = (v.clone(), v.clone(), v.clone());
        T::activate_mut(&mut x, &f); T::d_activate_mut(&mut y, &f); T::d_conj_activate_mut(&mut z, &f);
        for w in [x, y, z] { values(&w, &mut out); }
      }
      let t: Vec<T> = vec_of(&generic_vec(k + step + 3, n));
      for l in [MSE, CE] {
        out.push(real::<T>(T::loss(&IOType::Scalar(t.clone()), &IOType::Scalar(v.clone()), &loss_func(l)).map_err(fail)?));
        values(&T::d_loss(&IOType::Scalar(t.clone()), &IOType::Scalar(v.clone()), &loss_func(l)).map_err(fail)?, &mut out);
      }
      for z in &v { out.extend([real::<T>(z.norm()), real::<T>(z.norm_sq()), real::<T>(z.phase())]); values(&[z.conj(), *z * v[0], *z / v[1], *z - v[0]], &mut out); }
      values(&T::gen_pred(n, step, &PredictModel::Sparse).map_err(fail)?, &mut out);
      Ok(out)
    }),
    7 => {
      let mut d: Dataset<T, T> = Dataset::new();
      Box::new(move |step| {
        let path = unique("csv");
        let n = 2 + big as usize;
        let (x, t) = (generic_vec(k + step, n), generic_vec(k + step + 1, 2));
        d.add_point((IOType::Scalar(vec_of(&x)), IOType::Scalar(vec_of(&t))));
        let mut out = Vec::new();
        let r = if step == 1 { Matrix::<T>::from_body(vec_of(&generic_vec(k, 2 * n)), [2, n]).to_csv(path.clone()) } else { d.to_csv(path.clone()) };
        let bytes = std::fs::read(&path);
        let _ = std::fs::remove_file(&path);
        r.map_err(fail)?;
        out.extend(bytes.map_err(fail)?.iter().map(|b| *b as f64));
        for i in 0..d.get_n_points() { let (x, t) = d.get_point(i); numbers(x, &mut out); numbers(t, &mut out); }
        Ok(out)
      })
    }
    8 => {
      let mut files: Option<(File, File, usize)> = None;
      Box::new(move |step| {
        if step == 0 {
          let (a, b) = (unique("images"), unique("labels"));
          let pixels: Vec<u8> = std::iter::repeat(7).take(16).chain((0..4 * 784).map(|i| (i * (3 + 2 * k) + k) as u8)).collect();
          let labels: Vec<u8> = std::iter::repeat(7).take(8).chain((0..4).map(|i| ((i * 3 + k) % 10) as u8)).collect();
          std::fs::write(&a, pixels).map_err(fail)?;
          std::fs::write(&b, labels).map_err(fail)?;
          files = Some((File::open(&a).map_err(fail)?, File::open(&b).map_err(fail)?, 0));
          let _ = std::fs::remove_file(&a);
          let _ = std::fs::remove_file(&b);
        }
        let mut out = Vec::new();
        let (a, b, at) = files.as_mut().ok_or("no files")?;
        let d = Dataset::<T, T>::minist_as_complex_batch(a, b, if big && step == 0 { 2 } else { 1 }, at);
        for i in 0..d.get_n_points() { let (x, t) = d.get_point(i); numbers(x, &mut out); numbers(t, &mut out); }
        Ok(out)
      })
    }
    _ => {
      let n = 2 + big as usize;
      let ls = vec![Lay::conv(1, 2, [1, 2], CARD, m(1)), Lay::Flat { n: 2, h: 1, w: n - 1 }, Lay::dense(2 * (n - 1), 2, MODZ, m(2))];
      let net = build_net::<T>(&ls);
      let xs = maps(1, 1, n);
      Box::new(move |step| {
        let mut out = Vec::new();
        let data = dataset::<T>(&xs.iter().map(|x| (x.clone(), Dat::vector(generic_vec(step + k, 2)))).collect::<Vec<_>>());
        match step {
          0 => for x in &xs { numbers(&net.forward(&x.io()).map_err(fail)?, &mut out); },
          1 => { for y in net.collect_acts(xs[0].io()).map_err(fail)? { numbers(&y, &mut out); } numbers(&net.intercept(xs[1].io(), 1).map_err(fail)?.0, &mut out); }
          _ => { for l in [MSE, CE] { out.push(real::<T>(net.loss(&data, &loss_func(l)).map_err(fail)?)); } out.push(real::<T>(net.max_pred_test(&data))); }
        }
        Ok(out)
      })
    }
  }
}

/// Queries below `PROGRAMS.len()` run one program, the others two of them in one thread, step by step.
pub struct Apart { single: bool }
impl Apart {
  fn start(&self, q: usize, k: usize) -> Program { if self.single { program::<Cf32>(q, k) } else { program::<Cf64>(q, k) } }
}
impl World for Apart {
  #[inline(never)]
  fn ask(&self, q: usize, k: usize) -> Answer {
    let parts = parts(q, k);
    let mask = if parts.len() == 1 { 0 } else { interleavings()[pair(q).2] };
    let mut running: Vec<(Program, usize, Vec<f64>)> = parts.iter().map(|(q, k)| (self.start(*q, *k), 0, Vec::new())).collect();
    for s in 0..STEPS * parts.len() {
      let (p, at, out) = &mut running[(mask >> s & 1) as usize];
      out.extend(p(*at)?);
      *at += 1;
    }
    Ok(running.into_iter().flat_map(|r| r.2).collect())
  }
}
pub fn apart(single: bool) -> Box<dyn World> { Box::new(Apart { single }) }

/// A query for two programs whose steps are interleaved in the given way.
pub fn code(a: usize, b: usize, way: usize) -> usize { let n = PROGRAMS.len(); n + a + n * (b + n * way) }
fn pair(q: usize) -> (usize, usize, usize) { let n = PROGRAMS.len(); let q = q - n; (q % n, q / n % n, q / n / n) }
/// The programs of a query, with their variants.
pub fn parts(q: usize, k: usize) -> Vec<(usize, usize)> {
  if q < PROGRAMS.len() { return vec![(q, k)] }
  let (a, b, _) = pair(q);
  vec![(a, k % 4), (b, k / 4)]
}
pub fn title(q: usize, k: usize) -> String {
  let p: Vec<String> = parts(q, k).iter().map(|(q, k)| format!("{}({})", PROGRAMS[*q], k)).collect();
  if p.len() == 1 { p[0].clone() } else { format!("{} interleaved {}", p.join(" and "), pair(q).2) }
}
