//! C25: concurrent queries on one shared network, with a number type whose operations are
//! scheduling points.
use mc::conc::explore_all;
use mc::cx::C;
use mc::engine::*;
use mc::num::Num;
use mc::sched::{self, point};
use renplex::act::ComplexActFunc;
use renplex::err::{LossCalcError, PredicionError};
use renplex::init::PredictModel;
use renplex::input::IOType;
use renplex::math::cfloat::Cf64;
use renplex::math::matrix::Matrix;
use renplex::math::Complex;
use renplex::opt::ComplexLossFunc;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cmp::Ordering;
use std::fmt::{Display, Formatter};
use std::ops::*;

struct Alloc;
unsafe impl GlobalAlloc for Alloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { point(); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 { sched::syscall_hook(n, a, b, c, d, e, f) }

/// A complex number that lets other threads in at every operation.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
struct S(Cf64);

macro_rules! op { ($t:ident $f:ident $ta:ident $fa:ident) => {
  impl $t for S { type Output = S; fn $f(self, o: S) -> S { point(); S(self.0.$f(o.0)) } }
  impl $ta for S { fn $fa(&mut self, o: S) { point(); self.0.$fa(o.0); } }
} }
op!(Add add AddAssign add_assign);
op!(Sub sub SubAssign sub_assign);
op!(Mul mul MulAssign mul_assign);
op!(Div div DivAssign div_assign);
impl PartialOrd for S { fn partial_cmp(&self, o: &S) -> Option<Ordering> { point(); self.0.partial_cmp(&o.0) } }
impl Display for S { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }

fn plain(x: &IOType<S>) -> IOType<Cf64> {
  match x {
    IOType::Scalar(v) => IOType::Scalar(v.iter().map(|z| z.0).collect()),
    IOType::Matrix(m) => IOType::Matrix(m.iter().map(|z| Matrix::from_body(z.get_body().iter().map(|y| y.0).collect(), [z.get_shape()[0], z.get_shape()[1]])).collect()),
  }
}

impl Complex for S {
  type Precision = f64;
  fn new(re: f64, im: f64) -> Self { S(Cf64::new(re, im)) }
  fn newe(a: f64, p: f64) -> Self { S(Cf64::newe(a, p)) }
  fn usize_to_complex(n: usize) -> Self { S(Cf64::usize_to_complex(n)) }
  fn unit() -> Self { S(Cf64::unit()) }
  fn iunit() -> Self { S(Cf64::iunit()) }
  fn re(&self) -> f64 { self.0.re() }
  fn im(&self) -> f64 { self.0.im() }
  fn norm(&self) -> f64 { point(); self.0.norm() }
  fn norm_sq(&self) -> f64 { point(); self.0.norm_sq() }
  fn phase(&self) -> f64 { self.0.phase() }
  fn conj(&self) -> Self { S(self.0.conj()) }
  fn gen(s: &mut u128, n: usize) -> Self { S(Cf64::gen(s, n)) }
  fn gen_he(s: &mut u128, n: usize) -> Self { S(Cf64::gen_he(s, n)) }
  fn gen_xa(s: &mut u128, n: usize) -> Self { S(Cf64::gen_xa(s, n)) }
  fn gen_xagu(s: &mut u128, n: usize) -> Self { S(Cf64::gen_xagu(s, n)) }
  fn gen_xagn(s: &mut u128, n: usize) -> Self { S(Cf64::gen_xagn(s, n)) }
  fn gen_pred(n: usize, i: usize, m: &PredictModel) -> Result<Vec<Self>, PredicionError> { Cf64::gen_pred(n, i, m).map(|v| v.into_iter().map(S).collect()) }
  fn activate(&self, f: &ComplexActFunc) -> Self { point(); S(self.0.activate(f)) }
  fn d_activate(&self, f: &ComplexActFunc) -> Self { point(); S(self.0.d_activate(f)) }
  fn d_conj_activate(&self, f: &ComplexActFunc) -> Self { point(); S(self.0.d_conj_activate(f)) }
  fn activate_mut(v: &mut [Self], f: &ComplexActFunc) { for z in v { *z = z.activate(f); } }
  fn d_activate_mut(v: &mut [Self], f: &ComplexActFunc) { for z in v { *z = z.d_activate(f); } }
  fn d_conj_activate_mut(v: &mut [Self], f: &ComplexActFunc) { for z in v { *z = z.d_conj_activate(f); } }
  fn loss(t: &IOType<Self>, p: &IOType<Self>, f: &ComplexLossFunc) -> Result<f64, LossCalcError> { point(); Cf64::loss(&plain(t), &plain(p), f) }
  fn d_loss(t: &IOType<Self>, p: &IOType<Self>, f: &ComplexLossFunc) -> Result<Vec<Self>, LossCalcError> { point(); Cf64::d_loss(&plain(t), &plain(p), f).map(|v| v.into_iter().map(S).collect()) }
}

impl Num for S {
  const NAME: &'static str = "scheduled";
  const EPS: f64 = f64::EPSILON;
  fn of(v: C) -> Self { S(Cf64::of(v)) }
  fn to(&self) -> C { self.0.to() }
}

fn main() {
  run("C25", &["thread-safe block functions", "preemptions at operations on numbers, allocations and waits", "sequentially consistent memory"], |r| {
    explore_all::<S>(r, true);
    explore_all::<Cf64>(r, false);
  });
}
