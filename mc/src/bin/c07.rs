//! C07: the linear congruential generator, on all of its states.
use mc::engine::*;
use mc::ensure;
use renplex::math::random::{lcgf32, lcgf64, lcgi};

const P: u64 = (1 << 31) - 1;
const A: u64 = 1103515245;
const B: u64 = 12345;

fn next(s: u64) -> u64 { (A * (s % P) + B) % P }
/// The state whose successor is `t`.
fn prev(t: u64, inv: u64) -> u64 { ((t + P - B % P) % P) * inv % P }
fn inverse() -> u64 {
  let (mut r, mut b, mut e) = (1u64, A % P, P - 2);
  while e > 0 { if e & 1 == 1 { r = r * b % P; } b = b * b % P; e >>= 1; }
  r
}
fn next_wide(s: u128) -> u64 { next((s % P as u128) as u64) }

/// One draw through each function from seed `s` with expected successor `n`.
fn draws(s: u128, n: u64, limit: u128) -> Case {
  let mut k = s;
  let v = lcgf32(&mut k) as f64;
  let want = n as f64 / (1u64 << 31) as f64;
  if k != n as u128 { return Err(format!("lcgf32 from seed {} leaves seed {}, expected {}", s, k, n)) }
  if !((v - want).abs() <= want * 1.2e-7) || !(0.0..=1.0).contains(&v) { return Err(format!("lcgf32 from seed {} draws {}, expected {}", s, v, want)) }
  let mut k = s;
  let v = lcgf64(&mut k);
  if k != n as u128 { return Err(format!("lcgf64 from seed {} leaves seed {}, expected {}", s, k, n)) }
  if !((v - want).abs() <= want * 1e-15) || !(0.0..=1.0).contains(&v) { return Err(format!("lcgf64 from seed {} draws {}, expected {}", s, v, want)) }
  let mut k = s;
  let v = lcgi(&mut k, limit);
  if k != n as u128 { return Err(format!("lcgi from seed {} leaves seed {}, expected {}", s, k, n)) }
  if v as u128 >= limit { return Err(format!("lcgi from seed {} with limit {} draws {}", s, limit, v)) }
  Ok(())
}

/// The index drawn when the seed becomes `t`.
fn index(t: u64, inv: u64, limit: u64) -> Result<u64, String> {
  let mut k = prev(t, inv) as u128;
  let v = lcgi(&mut k, limit as u128);
  ensure!(k == t as u128, "lcgi towards seed {} leaves seed {}", t, k);
  ensure!((v as u64) < limit, "lcgi with limit {} and new seed {} draws {}", limit, t, v);
  Ok(v as u64)
}

const LIMITS: [u64; 32] = [1, 2, 3, 4, 5, 7, 8, 10, 11, 16, 32, 100, 256, 784, 1000, 4096, 10000, 60000, 65536, 65537, 1 << 24, 1 << 30, P - 1, P, P + 1, 1 << 32, (1 << 32) + 1, 10_000_000_000, 1 << 53, (1 << 63) - 25, 1 << 63, u64::MAX];

fn main() {
  run("C07", &["values of real draws are compared up to one unit of their precision"], |r| {
    let inv = inverse();
    let chunk = 1u64 << 20;
    // all generator states
    let chunks: Vec<u64> = (0..(P + chunk - 1) / chunk).collect();
    r.group("states", chunks.len() as u64, |i, st| {
      let lo = chunks[i as usize] * chunk;
      let hi = (lo + chunk).min(P);
      for s in lo..hi {
        draws(s as u128, next(s), LIMITS[(s % 32) as usize] as u128)?;
      }
      st.states += hi - lo;
      st.traces += hi - lo;
      st.step(3 * (hi - lo));
      st.sample(|| format!("seeds {}..{}", lo, hi));
      Ok(())
    });
    // seeds outside the generator's own range: around every power of two, multiples of the
    // modulus, and the top of the type
    let mut wide: Vec<u128> = Vec::new();
    for k in 0..128u32 { for d in -40i128..=40 { wide.push((1u128 << k).wrapping_add(d as u128)); } }
    for k in 0..97u32 { for d in -3i128..=3 { wide.push(((P as u128) << k).wrapping_add(d as u128)); } }
    for k in 0..20000u128 { wide.push(u128::MAX - k); wide.push(u128::MAX / A as u128 + k - 10000); wide.push(P as u128 + k); }
    for q in 1..2000u128 { wide.push(u128::MAX / 2000 * q + q); }
    r.group("wide-seeds", wide.len() as u64, |i, st| {
      let s = wide[i as usize];
      st.state(); st.step(3); st.trace();
      st.outcome(next_wide(s));
      draws(s, next_wide(s), *Pick(i).from(&LIMITS) as u128)
    });
    // histories: every sequence of draw functions, from ordinary and huge seeds
    let d = if r.thorough { 9u32 } else { 7 };
    let starts = [0u128, 1, 12345, P as u128 - 1, P as u128, P as u128 + 1, 1 << 64, u128::MAX, 3_141_592_653_589_793_238];
    r.group("histories", 3u64.pow(d) * starts.len() as u64, |i, st| {
      let mut p = Pick(i);
      let s0 = *p.from(&starts);
      let (mut k, mut m) = (s0, s0);
      for n in 0..d {
        m = next_wide(m) as u128;
        let w = m as f64 / (1u64 << 31) as f64;
        match p.of(3) {
          0 => { let v = lcgf32(&mut k) as f64; ensure!((v - w).abs() <= w * 1.2e-7, "draw {} from {}: {}", n, s0, v); }
          1 => { let v = lcgf64(&mut k); ensure!((v - w).abs() <= w * 1e-15, "draw {} from {}: {}", n, s0, v); }
          _ => { let v = lcgi(&mut k, 10 + n as u128); ensure!((v as u128) < 10 + n as u128, "draw {} from {}: {}", n, s0, v); }
        }
        ensure!(k == m, "history {} from seed {}: after draw {} the seed is {}, expected {}", i, s0, n, k, m);
        st.step(1);
      }
      st.state(); st.trace();
      Ok(())
    });
    // index draws: range and order around every bucket boundary, and exact bucket sizes
    let top = if r.thorough { 20000 } else { 3000 };
    r.group("buckets", top, |i, st| {
      let limit = i + 1;
      let (small, large) = (P / limit, P / limit + u64::from(P % limit != 0));
      let idx = |t: u64| index(t, inv, limit);
      let mut calls = 0;
      let mut begin = 0u64;
      for j in 0..limit {
        if j % 64 == 0 { st.tick(); }
        // this bucket starts at `begin`; it must contain `small` states and end after at most `large`
        let mut probe = |t: u64| -> Result<u64, String> { calls += 1; idx(t) };
        ensure!(probe(begin)? == j, "limit {}: new seed {} does not draw index {}", limit, begin, j);
        let last = begin + small - 1;
        ensure!(last < P && probe(last)? == j, "limit {}: index {} has fewer than {} seeds", limit, j, small);
        let end = if large > small && last + 1 < P && probe(last + 1)? == j { last + 2 } else { last + 1 };
        if end < P { let v = probe(end)?; ensure!(v == j + 1, "limit {}: new seed {} draws {} after bucket {} of {} seeds", limit, end, v, j, end - begin); }
        begin = end;
      }
      ensure!(begin == P, "limit {}: buckets end at {}", limit, begin);
      st.state(); st.trace(); st.step(calls);
      Ok(())
    });
    // every state with a full count, for some limits
    let full: &[u64] = if r.thorough { &[1, 2, 3, 7, 8, 10, 16, 100, 256, 784, 4096, 60000] } else { &[8] };
    for &limit in full {
      let n = (P + chunk - 1) / chunk;
      let counts: Vec<std::sync::atomic::AtomicU64> = (0..limit).map(|_| 0.into()).collect();
      r.group(&format!("all-states-limit-{}", limit), n, |i, st| {
        let (lo, hi) = (i * chunk, ((i + 1) * chunk).min(P));
        let mut prev_v = 0;
        let mut run = 0u64;
        for t in lo..hi {
          let v = index(t, inv, limit)?;
          if t > lo && v != prev_v {
            ensure!(v > prev_v, "limit {}: index falls from {} to {} at new seed {}", limit, prev_v, v, t);
            counts[prev_v as usize].fetch_add(run, std::sync::atomic::Ordering::Relaxed);
            run = 0;
          }
          prev_v = v;
          run += 1;
        }
        counts[prev_v as usize].fetch_add(run, std::sync::atomic::Ordering::Relaxed);
        st.states += hi - lo; st.step(hi - lo); st.traces += 1;
        Ok(())
      });
      r.serial(&format!("all-states-limit-{}-law", limit), limit, |j, st| {
        let c = counts[j as usize].load(std::sync::atomic::Ordering::Relaxed);
        st.outcome(c);
        ensure!(c == P / limit || c == P / limit + 1, "limit {}: index {} is drawn by {} states", limit, j, c);
        Ok(())
      });
    }
    // large limits: sparse but regular states
    r.group("large-limits", LIMITS.len() as u64 * 4096, |i, st| {
      let mut p = Pick(i);
      let limit = *p.from(&LIMITS);
      let k = p.of(4096) as u64;
      let t = k * (P / 4096);
      for t in [t, t + 1, t + 2, P - 1 - t] {
        let v = index(t, inv, limit)?;
        let w = index((t + 1).min(P - 1), inv, limit)?;
        ensure!(w >= v, "limit {}: index falls from {} to {} after new seed {}", limit, v, w, t);
        let ideal = (t as u128 * limit as u128 / P as u128) as u64;
        ensure!(v.abs_diff(ideal) <= 1 + limit.min(64).max(limit / P * 2), "limit {}: new seed {} draws {}, far from the proportional {}", limit, t, v, ideal);
        st.step(2);
      }
      st.state(); st.trace();
      Ok(())
    });
  });
}
