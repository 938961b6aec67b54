//! C28: programs that share nothing, one after another and step by step in one process.
//! Used when the crate cannot be compiled so that it announces its memory accesses.
#[path = "../../../mt/scen/src/apart.rs"]
mod apart;
use apart::*;
use mc::engine::*;
use mc::ensure;
use mc::num::Num;
use mc::refnet::Dat;
use renplex::input::IOType;
use std::collections::BTreeMap;

pub trait World: Sync { fn ask(&self, q: usize, k: usize) -> Result<Vec<f64>, String>; }

pub(crate) fn numbers<T: Num>(y: &IOType<T>, out: &mut Vec<f64>) {
  let d = Dat::of(y);
  out.extend([d.n as f64, d.h as f64, d.w as f64, d.vec as u8 as f64]);
  for z in d.v { out.push(z.re); out.push(z.im); }
}

extern "C" { fn fork() -> i32; fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32; fn _exit(code: i32) -> !; }

/// The answer in a process that does nothing else.
fn alone(single: bool, q: usize, k: usize) -> Result<Vec<f64>, String> {
  let path = format!("{}/alone-{}-{}-{}", scratch(), single, q, k);
  unsafe {
    let pid = fork();
    if pid == 0 {
      let r = guard(|| crate::apart::apart(single).ask(q, k)).unwrap_or_else(Err);
      let ok = match r { Ok(v) => std::fs::write(&path, v.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect::<Vec<u8>>()).is_ok(), Err(e) => { eprintln!("{}", e); false } };
      _exit(!ok as i32)
    }
    let mut st = 0;
    while waitpid(pid, &mut st, 0) < 0 {}
    if st != 0 { return Err(format!("{} alone does not answer", title(q, k))) }
  }
  let b = std::fs::read(&path).map_err(|e| e.to_string())?;
  Ok(b.chunks(8).map(|x| f64::from_bits(u64::from_le_bytes(x.try_into().unwrap()))).collect())
}

fn main() {
  run("C28", &["one step of a program at a time"], |r| {
    let n = PROGRAMS.len();
    let ways = interleavings().len();
    let mut known: BTreeMap<(bool, usize, usize), Result<Vec<f64>, String>> = BTreeMap::new();
    for single in [false, true] { for q in 0..n { for k in 0..4 { known.insert((single, q, k), alone(single, q, k)); } } }
    let same = |single: bool, q: usize, k: usize, got: Result<Vec<f64>, String>, st: &mut Local| -> Case {
      let eps = if single { f32::EPSILON as f64 } else { f64::EPSILON };
      let mut want = Vec::new();
      for (q, k) in parts(q, k) { want.extend(known[&(single, q, k)].clone()?); }
      let got = got.map_err(|e| format!("{}: {}", title(q, k), e))?;
      ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(x, y)| (x - y).abs() <= 64.0 * eps * (1.0 + y.abs()) || x.to_bits() == y.to_bits()), "{} answers {:?}, alone {:?}", title(q, k), got, want);
      st.step(1);
      st.outcome((q, k));
      Ok(())
    };
    let ask = |single: bool, q: usize, k: usize| guard(|| apart::apart(single).ask(q, k)).unwrap_or_else(|e| Err(format!("panicked: {}", e)));
    r.group("side-by-side", (2 * n * n * ways * 16) as u64, |i, st| {
      let mut p = Pick(i);
      let (single, a, b, w, k) = (p.of(2) == 1, p.of(n), p.of(n), p.of(ways), p.of(16));
      st.state();
      same(single, code(a, b, w), k, ask(single, code(a, b, w), k), st)?;
      st.trace();
      Ok(())
    });
    r.group("after-others", (2 * n * n * n) as u64, |i, st| {
      let mut p = Pick(i);
      let (single, a, b, d) = (p.of(2) == 1, p.of(n), p.of(n), p.of(n));
      st.state();
      for (q, k) in [(a, 0), (b, 1), (d, 2), (a, 3), (a, 0)] { same(single, q, k, ask(single, q, k), st)?; }
      st.trace();
      Ok(())
    });
  });
}
