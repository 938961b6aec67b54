//! C27: real draws and conversions of counts.
use mc::engine::*;
use mc::ensure;
use renplex::math::{Complex, Real};
use renplex::math::cfloat::{Cf32, Cf64};

const P: u64 = (1 << 31) - 1;
fn next(s: u128) -> u64 { (1103515245 * (s % P as u128) as u64 + 12345) % P }

/// One draw in each precision from seed `s`.
fn draw(s: u128, scale: usize) -> Case {
  let n = next(s);
  let (u, sc) = (n as f64 / (1u64 << 31) as f64, scale as f64);
  let want = (2.0 * u - 1.0) * sc;
  let mut k = s;
  let v = <f64 as Real>::gen(&mut k, scale);
  if k != n as u128 { return Err(format!("f64 draw from seed {} leaves seed {}, expected {}", s, k, n)) }
  if !((v - want).abs() <= sc * 1e-15) || v.abs() > sc { return Err(format!("f64 draw of scale {} from seed {} is {}, expected {}", scale, s, v, want)) }
  let mut k = s;
  let v = <f32 as Real>::gen(&mut k, scale);
  if k != n as u128 { return Err(format!("f32 draw from seed {} leaves seed {}, expected {}", s, k, n)) }
  if !((v as f64 - want).abs() <= sc * 5e-7) || v.abs() > scale as f32 { return Err(format!("f32 draw of scale {} from seed {} is {}, expected {}", scale, s, v, want)) }
  Ok(())
}

/// The nearest value with `bits` bits, to the even one when there are two.
fn nearest(n: u64, bits: u32) -> u128 {
  let len = 64 - n.leading_zeros();
  if len <= bits { return n as u128 }
  let cut = len - bits;
  let (head, tail, half) = ((n >> cut) as u128, n & ((1u64 << cut) - 1), 1u64 << (cut - 1));
  (head + u128::from(tail > half || (tail == half && head & 1 == 1))) << cut
}

fn counts(n: u64) -> Case {
  let a = <f64 as Real>::usize_to_real(n as usize);
  ensure!(a >= 0.0 && a as u128 == nearest(n, 53), "f64 from the count {} is {}", n, a);
  let b = <f32 as Real>::usize_to_real(n as usize);
  ensure!(b >= 0.0 && b as u128 == nearest(n, 24), "f32 from the count {} is {}", n, b);
  let z = Cf64::usize_to_complex(n as usize);
  ensure!(z.re() == a && z.im() == 0.0, "64-bit complex from the count {} is {} + {} i", n, z.re(), z.im());
  let z = Cf32::usize_to_complex(n as usize);
  ensure!(z.re() == b && z.im() == 0.0, "32-bit complex from the count {} is {} + {} i", n, z.re(), z.im());
  Ok(())
}

const SCALES: [usize; 24] = [1, 0, 2, 3, 4, 5, 7, 8, 10, 16, 100, 255, 256, 1000, 1024, 65535, 65536, 1 << 24, (1 << 24) + 1, 1 << 31, 1 << 32, 1 << 53, (1 << 63) + 1025, usize::MAX];

fn main() {
  run("C27", &["real draws are compared up to rounding of their precision"], |r| {
    let chunk = 1u64 << 18;
    // every generator state; all scales for every state in the thorough tier, one of them otherwise
    let rounds = if r.thorough { 6 } else { 1 };
    r.group("states", (P + chunk - 1) / chunk * rounds, |i, st| {
      let (lo, turn) = (i / rounds * chunk, i % rounds);
      let hi = (lo + chunk).min(P);
      for s in lo..hi {
        draw(s as u128, SCALES[((s + 4 * turn) % 24) as usize])?;
      }
      st.tick();
      st.states += hi - lo;
      st.traces += hi - lo;
      st.step(2 * (hi - lo));
      st.sample(|| format!("seeds {}..{}", lo, hi));
      st.outcome(next(lo as u128));
      Ok(())
    });
    // extreme draws with every scale
    let inv = { let (mut x, mut b, mut e) = (1u64, 1103515245 % P, P - 2); while e > 0 { if e & 1 == 1 { x = x * b % P; } b = b * b % P; e >>= 1; } x };
    let before = move |t: u64| ((t + P - 12345) % P) * inv % P;
    let mut ends: Vec<u64> = Vec::new();
    for k in 0..31 { for d in 0..3u64 { ends.push((1u64 << k) - 1 + d); ends.push(P - (1u64 << k).min(P) + d.min((1 << k) - 1)); } }
    for q in 0..4096 { ends.push(P / 4096 * q); }
    ends.retain(|t| *t < P);
    r.group("extremes", ends.len() as u64 * 24, |i, st| {
      let mut q = Pick(i);
      let (t, scale) = (*q.from(&ends), *q.from(&SCALES));
      st.state(); st.trace(); st.step(2);
      draw(before(t) as u128, scale)
    });
    // seeds outside the generator's own range
    let mut wide: Vec<u128> = Vec::new();
    for k in 0..128u32 { for d in -8i128..=8 { wide.push((1u128 << k).wrapping_add(d as u128)); } }
    for k in 0..3000u128 { wide.push(u128::MAX - k); wide.push(P as u128 + k); }
    r.group("wide-seeds", wide.len() as u64 * 24, |i, st| {
      let mut q = Pick(i);
      let (s, scale) = (*q.from(&wide), *q.from(&SCALES));
      st.state(); st.trace(); st.step(2);
      draw(s, scale)
    });
    // scales: all small ones, and around powers of two
    let mut scales: Vec<usize> = (0..3000).collect();
    for k in 11..64 { for d in [-2i64, -1, 0, 1, 2] { scales.push((1usize << k).wrapping_add(d as usize)); } }
    r.group("scales", scales.len() as u64 * 16, |i, st| {
      let mut q = Pick(i);
      let (scale, s) = (*q.from(&scales), q.of(16) as u64);
      st.state(); st.trace(); st.step(2);
      draw(before([0, 1, P - 1, P / 2, P / 2 + 1, P / 3, P / 4, P / 7 * 5][s as usize % 8].wrapping_add(s / 8) % P) as u128, scale)
    });
    // histories: draws of both precisions mixed, and repeated runs
    let d = if r.thorough { 14u32 } else { 10 };
    r.group("histories", (1u64 << d) * 6, |i, st| {
      let mut q = Pick(i);
      let s0 = [0u128, 1, 12345, P as u128 - 1, 1 << 64, u128::MAX][q.of(6)];
      let (mut k, mut m) = (s0, s0);
      for n in 0..d {
        m = next(m) as u128;
        let scale = SCALES[n as usize % 10];
        let want = (2.0 * m as f64 / (1u64 << 31) as f64 - 1.0) * scale as f64;
        let v = if q.of(2) == 0 { <f32 as Real>::gen(&mut k, scale) as f64 } else { <f64 as Real>::gen(&mut k, scale) };
        ensure!(k == m && (v - want).abs() <= scale as f64 * 5e-7, "draw {} from {}: {} and seed {}, expected {} and {}", n, s0, v, k, want, m);
        st.step(1);
      }
      st.state(); st.trace();
      Ok(())
    });
    // counts: all up to a bound, then around every power of two and every tie of the two precisions
    let bound = if r.thorough { 1u64 << 33 } else { 1 << 28 };
    r.group("counts", bound / chunk, |i, st| {
      for n in i * chunk..(i + 1) * chunk { counts(n)?; }
      st.tick();
      st.states += chunk; st.traces += chunk; st.step(4 * chunk);
      Ok(())
    });
    r.group("large-counts", 64 * 64 * 2, |i, st| {
      let mut q = Pick(i);
      let (a, b, neg) = (1u64 << q.of(64), 1u64 << q.of(64), q.of(2) == 1);
      let mid = if neg { a.wrapping_sub(b) } else { a.wrapping_add(b) };
      for d in -70i64..=70 { for n in [mid.wrapping_add(d as u64), (mid ^ 0x5555_5555_5555_5555).wrapping_add(d as u64), mid.wrapping_mul(3).wrapping_add(d as u64)] { counts(n)?; st.step(4); } }
      st.state(); st.trace();
      Ok(())
    });
    r.group("unit", 1, |_, st| {
      st.state(); st.trace(); st.step(4);
      ensure!(<f32 as Real>::unit() == 1.0 && <f64 as Real>::unit() == 1.0, "the real unit is {} or {}", <f32 as Real>::unit(), <f64 as Real>::unit());
      Ok(())
    });
  });
}
