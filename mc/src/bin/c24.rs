//! C24: exporting matrices and data sets to comma separated files.
use mc::engine::*;
use mc::ensure;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use std::cell::Cell;
use std::fmt::Display;

// ---- the operating system's answer to write() is chosen by the check ------------------------

extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }

#[derive(Clone, Copy)]
struct Device { armed: bool, room: usize, most: usize, done: usize, calls: usize, refused: usize, errno: i32, once: usize, create: i32 }
const REAL: Device = Device { armed: false, room: usize::MAX, most: usize::MAX, done: 0, calls: 0, refused: 0, errno: 28, once: usize::MAX, create: 0 };
thread_local! { static DEVICE: Cell<Device> = const { Cell::new(REAL) }; }

/// How many of `n` bytes the device takes; None when it is full.
fn grant(fd: i32, n: usize) -> Option<usize> {
  DEVICE.try_with(|d| {
    let mut v = d.get();
    if !v.armed || fd <= 2 || n == 0 { return Some(n) }
    v.calls += 1;
    let left = v.room - v.done.min(v.room);
    let k = if v.calls - 1 == v.once { 0 } else { n.min(left).min(v.most) };
    if k == 0 { v.refused += 1; }
    d.set(v);
    if k == 0 { None } else { Some(k) }
  }).unwrap_or(Some(n))
}
fn count(fd: i32, k: i64) -> isize {
  let _ = DEVICE.try_with(|d| { let mut v = d.get(); if v.armed && fd > 2 && k > 0 { v.done += k as usize; d.set(v); } });
  k as isize
}
fn full() -> isize { unsafe { *__errno_location() = DEVICE.try_with(|d| d.get().errno).unwrap_or(28); } -1 }

/// These replace the functions of the C library for this program, the standard library included.
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
  match grant(fd, n) { None => full(), Some(k) => count(fd, syscall(1, fd as i64, buf, k)) }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, off: i64) -> isize {
  match grant(fd, n) { None => full(), Some(k) => count(fd, syscall(18, fd as i64, buf, k, off)) }
}
#[repr(C)]
pub struct Part { base: *const u8, len: usize }
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, parts: *const Part, n: i32) -> isize {
  let armed = DEVICE.try_with(|d| d.get().armed).unwrap_or(false);
  if !armed || fd <= 2 { return syscall(20, fd as i64, parts, n as i64) as isize }
  for i in 0..n as usize { let p = &*parts.add(i); if p.len > 0 { return write(fd, p.base, p.len) } }
  0
}

/// Opening a file for writing.
fn refuse(flags: i32) -> bool {
  DEVICE.try_with(|d| { let mut v = d.get(); if !v.armed || v.create == 0 || flags & 3 == 0 { return false } v.refused += 1; d.set(v); unsafe { *__errno_location() = v.create; } true }).unwrap_or(false)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 { if refuse(flags) { -1 } else { answer(syscall(2, path, flags as i64, mode as i64)) } }
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 { if refuse(flags) { -1 } else { answer(syscall(257, dir as i64, path, flags as i64, mode as i64)) } }
fn answer(v: i64) -> i32 { v as i32 }

fn on_device<R>(d: Device, f: impl FnOnce() -> R) -> (Result<R, String>, Device) {
  DEVICE.with(|x| x.set(Device { armed: true, ..d }));
  let r = guard(f);
  let after = DEVICE.with(|x| x.replace(REAL));
  (r, after)
}

// ---- values ----------------------------------------------------------------------------------

trait Cell2: Display + Copy + Send + Sync + 'static {
  const TY: &'static str;
  fn value(k: usize) -> Self;
  /// Whether the text of one field gives the value back.
  fn same(&self, text: &str) -> bool;
}
const F64S: [f64; 22] = [0.0, 1.0, -1.0, 0.1, -0.1, 1.0 / 3.0, 2.5e-7, 1e16, 1e17, -1.2345678901234567e-5, 123456789.0, 16777217.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 0.30000000000000004, 1e300, -1e-300, 9007199254740993.0, 4.35];
const F32S: [f32; 20] = [0.0, 1.0, -1.0, 0.1, -0.1, 1.0 / 3.0, 2.5e-7, 1e10, 1e17, -1.2345678e-5, 123456789.0, 16777217.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::EPSILON, 0.3, 8388609.0, 4.35];
impl Cell2 for f64 { const TY: &'static str = "f64"; fn value(k: usize) -> Self { F64S[k % 22] } fn same(&self, t: &str) -> bool { t.trim().parse::<f64>() == Ok(*self) } }
impl Cell2 for f32 { const TY: &'static str = "f32"; fn value(k: usize) -> Self { F32S[k % 20] } fn same(&self, t: &str) -> bool { t.trim().parse::<f32>() == Ok(*self) } }
impl Cell2 for i64 { const TY: &'static str = "i64"; fn value(k: usize) -> Self { [0, 1, -1, 7, i64::MAX, i64::MIN, 1000000][k % 7] } fn same(&self, t: &str) -> bool { t.trim().parse::<i64>() == Ok(*self) } }
/// The two numbers of a complex field, however they are decorated.
fn parts(t: &str) -> Vec<String> {
  let plain: String = t.chars().map(|c| if c.is_ascii_digit() || "+-.eE".contains(c) { c } else { ' ' }).collect();
  let mut out: Vec<String> = Vec::new();
  for w in plain.split_whitespace() {
    let b: Vec<char> = w.chars().collect();
    let mut cur = String::new();
    for (i, ch) in b.iter().enumerate() {
      if (*ch == '+' || *ch == '-') && i > 0 && !"eE".contains(b[i - 1]) && !cur.is_empty() { out.push(std::mem::take(&mut cur)); }
      cur.push(*ch);
    }
    if cur.chars().any(|c| c.is_ascii_digit()) { out.push(cur); }
  }
  out
}
impl Cell2 for Cf64 {
  const TY: &'static str = "Cf64";
  fn value(k: usize) -> Self { Cf64 { x: f64::value(k), y: f64::value(k * 5 + 3) } }
  fn same(&self, t: &str) -> bool { let p = parts(t); p.len() == 2 && p[0].parse::<f64>() == Ok(self.x) && p[1].parse::<f64>() == Ok(self.y) }
}
impl Cell2 for Cf32 {
  const TY: &'static str = "Cf32";
  fn value(k: usize) -> Self { Cf32 { x: f32::value(k), y: f32::value(k * 7 + 3) } }
  fn same(&self, t: &str) -> bool { let p = parts(t); p.len() == 2 && p[0].parse::<f32>() == Ok(self.x) && p[1].parse::<f32>() == Ok(self.y) }
}

// ---- what is exported ------------------------------------------------------------------------

/// A table with its rows, and the call that exports it.
struct Job<T> { rows: Vec<Vec<T>>, what: String, source: Source<T> }
enum Source<T> { Mat(Matrix<T>), Set(Dataset<T, T>) }

impl<T: Cell2> Job<T> {
  fn matrix(r: usize, c: usize, off: usize) -> Job<T> {
    let rows: Vec<Vec<T>> = (0..r).map(|i| (0..c).map(|j| T::value(off + i * c + j)).collect()).collect();
    let m = Matrix::from_body(rows.concat(), [r, c]);
    Job { rows, what: format!("{}x{} matrix of {}", r, c, T::TY), source: Source::Mat(m) }
  }
  /// A matrix that has been edited.
  fn edited(r: usize, c: usize, how: usize) -> Job<T> {
    let mut m = match how % 2 { 0 => Matrix::with_capacity([r, c]), _ => Matrix::with_capacity([r + 2, c + 1]) };
    for i in 0..r { m.add_row((0..c).map(|j| T::value(i * c + j)).collect()).ok(); }
    if how / 2 % 2 == 1 { m.add_col(&mut (0..r).map(|i| T::value(i + 9)).collect()).ok(); }
    if how / 4 % 2 == 1 { m.del_row(0).ok(); }
    let rows = m.get_body().chunks(m.get_shape()[1].max(1)).map(|x| x.to_vec()).collect();
    Job { rows, what: format!("{}x{} matrix of {} edited in way {}", r, c, T::TY, how), source: Source::Mat(m) }
  }
  /// Points with inputs and targets of the given lengths, one entry per point.
  fn set(lens: &[(usize, usize)], off: usize) -> Job<T> {
    let mut d = Dataset::new();
    let mut rows = Vec::new();
    let mut k = off;
    let mut take = |n: usize| -> Vec<T> { k += n; (k - n..k).map(T::value).collect() };
    for (a, b) in lens {
      let (x, t) = (take(*a), take(*b));
      rows.push([x.clone(), t.clone()].concat());
      d.add_point((IOType::Scalar(x), IOType::Scalar(t)));
    }
    Job { rows, what: format!("{} points {:?} of {}", lens.len(), lens, T::TY), source: Source::Set(d) }
  }
  fn export(&self, path: &str) -> std::io::Result<()> {
    match &self.source { Source::Mat(m) => m.to_csv(path.to_string()), Source::Set(d) => d.to_csv(path.to_string()) }
  }
  /// The file must hold the table.
  fn holds(&self, text: &[u8]) -> Case {
    let text = std::str::from_utf8(text).map_err(|_| format!("{}: the file is not text", self.what))?;
    let mut lines: Vec<&str> = text.split('\n').collect();
    if lines.last() == Some(&"") { lines.pop(); }
    ensure!(lines.len() == self.rows.len(), "{}: the file has {} lines, not {}: {:?}", self.what, lines.len(), self.rows.len(), text);
    for (i, (l, row)) in lines.iter().zip(&self.rows).enumerate() {
      let l = l.trim_end_matches('\r');
      let mut f: Vec<&str> = l.split(',').collect();
      if f.len() == row.len() + 1 && f.last().map(|x| x.trim()) == Some("") { f.pop(); }
      ensure!(f.len() == row.len(), "{}: line {} has {} fields, not {}: {:?}", self.what, i, f.len(), row.len(), l);
      for (j, (t, v)) in f.iter().zip(row).enumerate() { ensure!(v.same(t), "{}: field {} of line {} is {:?}, the value is {}", self.what, j, i, t, v); }
    }
    Ok(())
  }
  fn normal(&self, path: &str, st: &mut Local) -> Result<Vec<u8>, String> {
    let r = guard(|| self.export(path)).map_err(|e| format!("{}: panicked: {}", self.what, e))?;
    st.step(1);
    r.map_err(|e| format!("{}: export failed: {}", self.what, e))?;
    let text = std::fs::read(path).map_err(|e| format!("{}: no file after the export: {}", self.what, e))?;
    self.holds(&text)?;
    st.outcome(hash(&text));
    st.trace();
    Ok(text)
  }
  /// Every earlier content.
  fn overwrites(&self, path: &str, st: &mut Local) -> Case {
    std::fs::remove_file(path).ok();
    let text = self.normal(path, st)?;
    let big = vec![b'7'; text.len() * 2 + 100];
    for (k, old) in [&b""[..], &big, &text, &text[..text.len() / 2], b"1,2,3\n", &[text.clone(), b"\n9,9\n".to_vec()].concat()].iter().enumerate() {
      std::fs::write(path, old).expect("scratch file");
      let now = self.normal(path, st).map_err(|e| format!("over earlier content {}: {}", k, e))?;
      ensure!(now == text, "{}: the file depends on its earlier content {}", self.what, k);
    }
    std::fs::remove_file(path).ok();
    Ok(())
  }
  /// The device becomes full after `room` bytes, and takes at most `most` at a time.
  fn device(&self, path: &str, text: &[u8], room: usize, most: usize, errno: i32, st: &mut Local) -> Case { self.faulty(path, text, Device { room, most, errno, ..REAL }, st).map(|_| ()) }
  fn faulty(&self, path: &str, text: &[u8], dev: Device, st: &mut Local) -> Result<Device, String> {
    let (room, most) = (dev.room, dev.most);
    std::fs::remove_file(path).ok();
    let (r, d) = on_device(dev, || self.export(path));
    st.step(1);
    st.trace();
    let r = r.map_err(|e| format!("{}: with room for {} bytes: panicked: {}", self.what, room, e))?;
    let now = std::fs::read(path).unwrap_or_default();
    std::fs::remove_file(path).ok();
    st.outcome((d.done, d.refused > 0, r.is_ok()));
    match r {
      Ok(()) => {
        ensure!(d.refused == 0 || now == text, "{}: {} of {} bytes could be written (at most {} at a time) and the export reported success", self.what, d.done, text.len(), most);
        self.holds(&now).map_err(|e| format!("writing at most {} bytes at a time, room for {}: {}", most, room, e))?;
      }
      Err(e) => {
        ensure!(d.refused > 0, "{}: all writes worked (at most {} bytes at a time) and the export failed: {}", self.what, most, e);
      }
    }
    Ok(d)
  }
  /// One write call fails and the others work; every way in which writing and creating can fail.
  fn refusals(&self, path: &str, st: &mut Local) -> Case {
    std::fs::remove_file(path).ok();
    let text = self.normal(path, st)?;
    let seen = on_device(REAL, || self.export(path)).1;
    if seen.done < text.len() { return Ok(()) }
    for once in 0..seen.calls { for errno in [28, 5, 11] { self.faulty(path, &text, Device { once, errno, ..REAL }, st)?; } st.tick(); }
    for errno in (1..=133).filter(|e| *e != 4) {
      for room in [0, 1, text.len() / 2, text.len() - 1] { self.device(path, &text, room, usize::MAX, errno, st)?; }
      for k in [0, seen.calls / 2, seen.calls - 1] { self.faulty(path, &text, Device { once: k, errno, ..REAL }, st)?; }
      let (r, d) = on_device(Device { create: errno, ..REAL }, || self.export(path));
      let r = r.map_err(|e| format!("{}: the file cannot be created (error {}): panicked: {}", self.what, errno, e))?;
      st.step(1);
      ensure!(d.refused == 0 || r.is_err(), "{}: the file could not be created (error {}) and the export reported success", self.what, errno);
      st.tick();
    }
    Ok(())
  }
  fn faults(&self, path: &str, st: &mut Local) -> Case {
    std::fs::remove_file(path).ok();
    let text = self.normal(path, st)?;
    let seen = on_device(REAL, || self.export(path)).1;
    // written where the check does not see it: only the whole file can be judged
    if seen.done < text.len() { return Ok(()) }
    for room in 0..=text.len() { self.device(path, &text, room, usize::MAX, [28, 5, 27, 122][room % 4], st)?; st.tick(); }
    for most in [1usize, 2, 3, 5, 17] { self.device(path, &text, usize::MAX, most, 28, st)?; }
    for room in (0..=text.len()).step_by(3) { self.device(path, &text, room, 1 + room % 7, 28, st)?; }
    Ok(())
  }
}

fn shapes<T: Cell2>(r: &Run, dir: &str) {
  let top = if r.thorough { 12 } else { 7 };
  r.group(&format!("matrices-{}", T::TY), (top * top * 4) as u64, |i, st| {
    let mut q = Pick(i);
    let (a, b, off) = (1 + q.of(top), 1 + q.of(top), q.of(4) * 5);
    st.state();
    st.sample(|| format!("{}x{} matrix of {}", a, b, T::TY));
    Job::<T>::matrix(a, b, off).overwrites(&format!("{}/m{}-{}", dir, T::TY, i), st)
  });
  r.group(&format!("edited-{}", T::TY), 4 * 4 * 8, |i, st| {
    let mut q = Pick(i);
    let (a, b, how) = (2 + q.of(4), 1 + q.of(4), q.of(8));
    st.state();
    Job::<T>::edited(a, b, how).overwrites(&format!("{}/e{}-{}", dir, T::TY, i), st)
  });
  r.group(&format!("large-matrices-{}", T::TY), 12, |i, st| {
    let n = [16usize, 33, 64, 100, 257, 1025][i as usize % 6];
    st.state();
    let j = if i < 6 { Job::<T>::matrix(n, 3, i as usize) } else { Job::<T>::matrix(2, n, i as usize) };
    j.overwrites(&format!("{}/l{}-{}", dir, T::TY, i), st)
  });
  // points: all input lengths and target lengths, different ones in one set as well
  r.group(&format!("sets-{}", T::TY), 5 * (4 * 4) * (4 * 4), |i, st| {
    let mut q = Pick(i);
    let n = q.of(5);
    let (a, b) = ((1 + q.of(4), q.of(4)), (1 + q.of(4), q.of(4)));
    let lens: Vec<(usize, usize)> = (0..n).map(|k| if k % 2 == 0 { a } else { b }).collect();
    st.state();
    Job::<T>::set(&lens, i as usize).overwrites(&format!("{}/s{}-{}", dir, T::TY, i), st)
  });
  r.group(&format!("large-sets-{}", T::TY), 18, |i, st| {
    let n = [16usize, 33, 64, 100, 257, 1025][i as usize % 6];
    st.state();
    let lens = match i / 6 { 0 => vec![(2, 1); n], 1 => vec![(n, 1); 2], _ => vec![(1, n); 2] };
    Job::<T>::set(&lens, i as usize).overwrites(&format!("{}/t{}-{}", dir, T::TY, i), st)
  });
  // the device is full after every number of bytes
  let side = if r.thorough { 5 } else { 3 };
  r.group(&format!("full-matrix-{}", T::TY), (side * side) as u64 * 3, |i, st| {
    let mut q = Pick(i);
    let (a, b, off) = (1 + q.of(side), 1 + q.of(side), q.of(3) * 7);
    st.state();
    Job::<T>::matrix(a, b, off).faults(&format!("{}/fm{}-{}", dir, T::TY, i), st)
  });
  r.group(&format!("full-set-{}", T::TY), 3 * 9 * 2, |i, st| {
    let mut q = Pick(i);
    let (n, a, b, off) = (1 + q.of(3), 1 + q.of(3), q.of(3), q.of(2) * 11);
    st.state();
    Job::<T>::set(&vec![(a, b); n], off).faults(&format!("{}/fs{}-{}", dir, T::TY, i), st)
  });
  r.group(&format!("refused-{}", T::TY), 2 * 3 * 3, |i, st| {
    let mut q = Pick(i);
    let (kind, a, b) = (q.of(2), 1 + q.of(3), 1 + q.of(3));
    st.state();
    let j = if kind == 0 { Job::<T>::matrix(a, b, 3) } else { Job::<T>::set(&vec![(a, b - 1); 3], 5) };
    j.refusals(&format!("{}/rf{}-{}", dir, T::TY, i), st)
  });
  // files that cannot be created; when the export finds a way, by renaming for instance, the file has to be right
  r.group(&format!("uncreatable-{}", T::TY), 9 * 2, |i, st| {
    let own = format!("{}/u{}-{}", dir, T::TY, i);
    let p = match i / 2 {
      0 => format!("{}-missing/file", own),
      1 => dir.to_string(),
      2 => format!("{}/", dir),
      3 => String::new(),
      4 => format!("{}-{}", own, "x".repeat(300)),
      5 => { std::fs::write(&own, "x").expect("scratch file"); format!("{}/file", own) }
      6 => "bad\0name".into(),
      k => {
        std::os::unix::fs::symlink(if k == 7 { "/dev/full" } else { &own }, &own).expect("scratch link");
        own
      }
    };
    st.state();
    let j = if i % 2 == 0 { Job::<T>::matrix(2, 2, 0) } else { Job::<T>::set(&[(2, 1), (1, 1)], 0) };
    let got = guard(|| j.export(&p)).map_err(|e| format!("{} to {:?}: panicked: {}", j.what, p, e))?;
    st.step(1);
    st.trace();
    if got.is_ok() {
      ensure!(std::fs::metadata(&p).is_ok_and(|m| m.is_file()), "{}: the export to {:?} reported success", j.what, p);
      j.holds(&std::fs::read(&p).unwrap_or_default()).map_err(|e| format!("{:?}: {}", p, e))?;
    }
    Ok(())
  });
}

/// Files larger than the usual buffers: full near the ends of buffers, near the end and at equal distances.
fn large<T: Cell2>(r: &Run, dir: &str) {
  let step = if r.thorough { 61 } else { 997 };
  for (k, (a, b)) in [(20usize, 60usize), (2, 600), (700, 1)].into_iter().enumerate() {
    for set in [false, true] {
      let j = if set { Job::<T>::set(&vec![(b, 2); a], k) } else { Job::<T>::matrix(a, b, k) };
      let path = format!("{}/probe{}", dir, T::TY);
      let text = match guard(|| j.export(&path)) { Ok(Ok(())) => std::fs::read(&path).unwrap_or_default(), _ => vec![] };
      let n = text.len();
      let rooms: Vec<usize> = (0..=n).filter(|x| x % step == 0 || n - x < 40 || [4096, 8192].iter().any(|m| (x + 3) % m < 7)).collect();
      let name = format!("full-large-{}-{}{}", T::TY, k, if set { "s" } else { "m" });
      let seen = on_device(REAL, || j.export(&path)).1.done;
      std::fs::remove_file(&path).ok();
      r.group(&name, rooms.len() as u64, |i, st| {
        let p = format!("{}/{}-{}", dir, name, i);
        st.state();
        j.normal(&p, st)?;
        if seen < n { return Ok(()) }
        let room = rooms[i as usize];
        j.device(&p, &text, room, usize::MAX, 28, st)?;
        j.device(&p, &text, usize::MAX, 1 + room % 4099, 28, st)
      });
    }
  }
}

fn main() {
  run("C24", &["finite numbers", "matrices with columns; points with vectors as input and target and at least one input value", "errors of the device appear in write calls"], |r| {
    let dir = scratch();
    // the replacement of write() is effective
    let (n, d) = on_device(Device { room: 3, ..REAL }, || std::fs::write(format!("{}/self", dir), "12345").is_err());
    if n != Ok(true) || d.done != 3 { eprintln!("ERROR writes cannot be made to fail"); std::process::exit(2) }
    let (n, d) = on_device(Device { create: 13, ..REAL }, || std::fs::write(format!("{}/self", dir), "12345").map_err(|e| e.raw_os_error()));
    if n != Ok(Err(Some(13))) || d.refused != 1 { eprintln!("ERROR creating cannot be made to fail"); std::process::exit(2) }
    // no rows, no points
    r.serial("empty", 3, |i, st| {
      st.state();
      let p = format!("{}/empty", dir);
      match i { 0 => Job::<f64>::set(&[], 0).overwrites(&p, st), 1 => Job::<Cf32>::set(&[], 0).overwrites(&p, st), _ => Job { rows: vec![], what: "matrix without rows".into(), source: Source::Mat(Matrix::<f64>::new()) }.overwrites(&p, st) }
    });
    shapes::<f64>(r, &dir);
    shapes::<f32>(r, &dir);
    shapes::<Cf64>(r, &dir);
    shapes::<Cf32>(r, &dir);
    shapes::<i64>(r, &dir);
    large::<i64>(r, &dir);
    large::<f32>(r, &dir);
    large::<Cf32>(r, &dir);
  });
}
