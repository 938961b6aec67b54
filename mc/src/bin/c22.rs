//! C22: reading image files in batches.
use mc::cx::*;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use std::cell::RefCell;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::AsRawFd;

const PIX: usize = 784;
const MARK: usize = 60000;

// ---- the operating system's answer to read() is chosen by the check -------------------------

extern "C" { fn syscall(n: i64, ...) -> i64; fn lseek(fd: i32, off: i64, whence: i32) -> i64; fn __errno_location() -> *mut i32; }

/// Offsets a read of the file does not cross, the most bytes it returns, and which read is refused with which error.
#[derive(Clone, Default)]
struct Split { at: Vec<u64>, most: usize, fail: Option<(u32, i32)> }

thread_local! { static CALLS: RefCell<std::collections::BTreeMap<i32, u32>> = const { RefCell::new(std::collections::BTreeMap::new()) }; }
thread_local! { static PLAN: RefCell<Vec<(i32, Split)>> = const { RefCell::new(Vec::new()) }; }

/// Replaces the C library's read for this program, the standard library included.
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
  let (mut n, mut refuse) = (n, 0);
  let _ = PLAN.try_with(|p| if let Ok(p) = p.try_borrow() {
    if let Some((_, s)) = p.iter().find(|x| x.0 == fd) {
      let pos = lseek(fd, 0, 1) as u64;
      if let Some(c) = s.at.iter().filter(|c| **c > pos).min() { n = n.min((*c - pos) as usize); }
      if s.most > 0 { n = n.min(s.most); }
      if let Some((k, e)) = s.fail {
        let c = CALLS.with(|c| { let mut c = c.borrow_mut(); let m = c.entry(fd).or_insert(0); *m += 1; *m });
        if c == k + 1 { refuse = e; }
      }
    }
  });
  if refuse != 0 { *__errno_location() = refuse; return -1 }
  syscall(0, fd as i64, buf, n) as isize
}

// ---- files -----------------------------------------------------------------------------------

fn pixel(image: usize, i: usize) -> u8 { ((image * 37 + i * 11 + (i / 28) * 5 + image * image) % 256) as u8 }
fn label(image: usize) -> u8 { ((image * 7 + 3) % 10) as u8 }

/// The two files with `n` images, cut to the given lengths, and what they hold.
struct Pair { images: String, labels: String, whole: usize, pix: Box<dyn Fn(usize, usize) -> u8 + Sync>, lab: Box<dyn Fn(usize) -> u8 + Sync> }

fn pair(dir: &str, name: &str, n: usize, cut_images: usize, cut_labels: usize) -> Pair { content(dir, name, n, cut_images, cut_labels, Box::new(pixel), Box::new(label)) }
fn content(dir: &str, name: &str, n: usize, cut_images: usize, cut_labels: usize, pix: Box<dyn Fn(usize, usize) -> u8 + Sync>, lab: Box<dyn Fn(usize) -> u8 + Sync>) -> Pair {
  let mut a: Vec<u8> = vec![0, 0, 8, 3, 0, 0, 0, n as u8, 0, 0, 0, 28, 0, 0, 0, 28];
  let mut b: Vec<u8> = vec![0, 0, 8, 1, 0, 0, 0, n as u8];
  for k in 0..n { a.extend((0..PIX).map(|i| pix(k, i))); b.push(lab(k)); }
  a.truncate(cut_images);
  b.truncate(cut_labels);
  let whole = (a.len().saturating_sub(16) / PIX).min(b.len().saturating_sub(8));
  let p = Pair { images: format!("{}/{}-i", dir, name), labels: format!("{}/{}-l", dir, name), whole, pix, lab };
  std::fs::write(&p.images, a).expect("scratch file");
  std::fs::write(&p.labels, b).expect("scratch file");
  p
}
const ALL: usize = usize::MAX;

fn drop_pair(p: &Pair) { std::fs::remove_file(&p.images).ok(); std::fs::remove_file(&p.labels).ok(); }

trait Reader: El + PartialEq { fn batch(a: &mut File, b: &mut File, n: usize, at: &mut usize) -> Dataset<Self, Self>; }
impl Reader for f32 { fn batch(a: &mut File, b: &mut File, n: usize, at: &mut usize) -> Dataset<f32, f32> { Dataset::<f32, f32>::minist_as_batch(a, b, n, at) } }
impl Reader for f64 { fn batch(a: &mut File, b: &mut File, n: usize, at: &mut usize) -> Dataset<f64, f64> { Dataset::<f64, f64>::minist_as_batch(a, b, n, at) } }
impl Reader for Cf32 { fn batch(a: &mut File, b: &mut File, n: usize, at: &mut usize) -> Dataset<Cf32, Cf32> { Dataset::<Cf32, Cf32>::minist_as_complex_batch(a, b, n, at) } }
impl Reader for Cf64 { fn batch(a: &mut File, b: &mut File, n: usize, at: &mut usize) -> Dataset<Cf64, Cf64> { Dataset::<Cf64, Cf64>::minist_as_complex_batch(a, b, n, at) } }

/// One delivered point must be image `k` of the file.
fn point<T: Reader>(d: &Dataset<T, T>, i: usize, k: usize, pix: &dyn Fn(usize, usize) -> u8, lab: &dyn Fn(usize) -> u8) -> Case {
  let (x, t) = d.get_point(i);
  let m = match x { IOType::Matrix(m) if m.len() == 1 => &m[0], _ => return Err(format!("{}: point {} is not one feature map", T::TY, k)) };
  ensure!(m.get_shape() == [28, 28], "{}: image {} has shape {:?}", T::TY, k, m.get_shape());
  for (j, z) in m.get_body().iter().enumerate() {
    let want = pix(k, j) as f64 / 255.0;
    ensure!((z.un() - c(want, 0.0)).abs() <= 2.0 * T::ULP, "{}: pixel {} of image {} is {}, stored is {}/255", T::TY, j, k, z.un(), pix(k, j));
  }
  let t = match t { IOType::Scalar(v) => v, _ => return Err(format!("{}: target {} is not a vector", T::TY, k)) };
  ensure!(t.len() == 10 && t.iter().enumerate().all(|(j, z)| z.un() == if j == lab(k) as usize { ONE } else { ZERO }), "{}: the target of image {} with label {} is {:?}", T::TY, k, lab(k), t.iter().map(|z| z.un()).collect::<Vec<_>>());
  Ok(())
}

/// Reads the pair with the given batch sizes; returns the caller's positions after each call.
fn session<T: Reader>(p: &Pair, sizes: &[usize], si: &Split, sl: &Split, what: &str, st: &mut Local) -> Result<Vec<usize>, String> {
  let (mut a, mut b) = (File::open(&p.images).expect("scratch file"), File::open(&p.labels).expect("scratch file"));
  let mut at = 0usize;
  let mut next = 0;
  let mut track = Vec::new();
  for (n, size) in sizes.iter().enumerate() {
    let (fa, fb) = (a.as_raw_fd(), b.as_raw_fd());
    if n == 0 { CALLS.with(|c| c.borrow_mut().clear()); }
    PLAN.with(|q| *q.borrow_mut() = vec![(fa, si.clone()), (fb, sl.clone())]);
    let r = guard(|| T::batch(&mut a, &mut b, *size, &mut at));
    PLAN.with(|q| q.borrow_mut().clear());
    let d = r.map_err(|e| format!("{} {}: batch {} of sizes {:?} panicked: {}", T::TY, what, n, sizes, e))?;
    st.step(1);
    let want = (*size).min(p.whole - next);
    ensure!(d.get_n_points() == want, "{} {}: batch {} of sizes {:?} has {} points, {} of {} images were left", T::TY, what, n, sizes, d.get_n_points(), p.whole - next, p.whole);
    for i in 0..want { point(&d, i, next + i, &p.pix, &p.lab).map_err(|e| format!("{}, batch {} of sizes {:?}: {}", what, n, sizes, e))?; }
    next += want;
    track.push(at);
    st.outcome((n, want, at));
  }
  Ok(track)
}

fn everyone(p: &Pair, sizes: &[usize], si: &Split, sl: &Split, what: &str, st: &mut Local) -> Case {
  let a = session::<f32>(p, sizes, si, sl, what, st)?;
  let b = session::<f64>(p, sizes, si, sl, what, st)?;
  let c = session::<Cf32>(p, sizes, si, sl, what, st)?;
  let d = session::<Cf64>(p, sizes, si, sl, what, st)?;
  ensure!(a == b && b == c && c == d, "{}: the caller's positions with batches {:?} are {:?} {:?} (real) and {:?} {:?} (complex)", what, sizes, a, b, c, d);
  st.trace();
  Ok(())
}
fn two(p: &Pair, sizes: &[usize], si: &Split, sl: &Split, what: &str, st: &mut Local) -> Case {
  let b = session::<f32>(p, sizes, si, sl, what, st)?;
  let d = session::<Cf64>(p, sizes, si, sl, what, st)?;
  ensure!(b == d, "{}: the caller's positions with batches {:?} are {:?} (real) and {:?} (complex)", what, sizes, b, d);
  st.trace();
  Ok(())
}

/// Two files around the mark, mostly holes: `total` images of which the last ones are set.
struct Long { images: String, labels: String, total: usize }
fn long_pixel(k: usize, j: usize) -> u8 { if k + 12 < MARK { 0 } else { pixel(k, j) } }
fn long_label(k: usize) -> u8 { if k + 12 < MARK { 0 } else { label(k) } }
fn long(dir: &str, total: usize) -> Long {
  let l = Long { images: format!("{}/long-i{}", dir, total), labels: format!("{}/long-l{}", dir, total), total };
  let (mut a, mut b) = (File::create(&l.images).expect("scratch file"), File::create(&l.labels).expect("scratch file"));
  a.set_len((16 + PIX * total) as u64).expect("sparse file");
  b.set_len((8 + total) as u64).expect("sparse file");
  for k in (MARK - 12)..total {
    a.seek(SeekFrom::Start((16 + PIX * k) as u64)).expect("seek");
    a.write_all(&(0..PIX).map(|j| long_pixel(k, j)).collect::<Vec<u8>>()).expect("write");
    b.seek(SeekFrom::Start((8 + k) as u64)).expect("seek");
    b.write_all(&[long_label(k)]).expect("write");
  }
  l
}

/// Continues at image `start`, as a caller who has read everything before.
fn around<T: Reader>(l: &Long, start: usize, sizes: &[usize], st: &mut Local) -> Result<Vec<usize>, String> {
  let (mut a, mut b) = (File::open(&l.images).expect("scratch file"), File::open(&l.labels).expect("scratch file"));
  let mut at = 0usize;
  if start > 0 {
    a.seek(SeekFrom::Start((16 + PIX * start) as u64)).expect("seek");
    b.seek(SeekFrom::Start((8 + start) as u64)).expect("seek");
    at = 8 + start;
  }
  let mut next = start;
  let mut track = Vec::new();
  for (n, size) in sizes.iter().enumerate() {
    let d = guard(|| T::batch(&mut a, &mut b, *size, &mut at)).map_err(|e| format!("{}: batch {} of {:?} from image {} panicked: {}", T::TY, n, sizes, start, e))?;
    st.step(1);
    let left = l.total - next;
    let mut want = (*size).min(left);
    if next < MARK { want = want.min(MARK - next); }
    let got = d.get_n_points();
    // a batch may end early at the mark, and only there
    let all = (*size).min(left);
    ensure!(got == want || got == all, "{}: batch {} of {:?} from image {} has {} points", T::TY, n, sizes, start, got);
    for i in 0..got { if next + i + 13 > MARK || i < 2 { point(&d, i, next + i, &long_pixel, &long_label).map_err(|e| format!("batch {} of {:?} from image {}: {}", n, sizes, start, e))?; } }
    next += got;
    track.push(at);
    st.outcome((next, at));
    st.tick();
  }
  Ok(track)
}

fn main() {
  run("C22", &["labels 0 to 9", "the files do not change while they are read", "a refused read makes the call fail or is repeated"], |r| {
    let dir = scratch();
    let none = Split::default();
    // the replacement of read() is effective
    {
      let p = pair(&dir, "self", 1, ALL, ALL);
      let mut f = File::open(&p.images).unwrap();
      let s = Split { at: vec![5], most: 0, fail: None };
      PLAN.with(|q| *q.borrow_mut() = vec![(f.as_raw_fd(), s)]);
      let n = f.read(&mut [0u8; 100]).unwrap();
      PLAN.with(|q| q.borrow_mut().clear());
      if n != 5 { eprintln!("ERROR reads cannot be split"); std::process::exit(2) }
      drop_pair(&p);
    }
    // all ways to ask for the images
    let ask = [0usize, 1, 2, 3, 5];
    let top = if r.thorough { 6 } else { 4 };
    for n in 0..=5 {
      let p = pair(&dir, &format!("p{}", n), n, ALL, ALL);
      r.group(&format!("batches-{}", n), 5u64.pow(top), |i, st| {
        let mut q = Pick(i);
        let sizes: Vec<usize> = (0..top).map(|_| *q.from(&ask)).collect();
        st.state();
        st.sample(|| format!("{} images in {:?}", n, sizes));
        if r.thorough && i % 5 != 0 { two(&p, &sizes, &none, &none, &format!("{} images", n), st) } else { everyone(&p, &sizes, &none, &none, &format!("{} images", n), st) }
      });
      drop_pair(&p);
    }
    // larger files, all equal batches
    for n in [16usize, 17, 33, 64, 100, 257] {
      let p = pair(&dir, &format!("q{}", n), n, ALL, ALL);
      let bs: Vec<usize> = (1..n + 4).filter(|b| n <= 100 || *b < 5 || *b > n - 3 || b % 16 < 2 || r.thorough).collect();
      r.group(&format!("many-{}", n), bs.len() as u64, |i, st| {
        let b = bs[i as usize];
        st.state();
        let sizes = vec![b; n / b + 2];
        everyone(&p, &sizes, &none, &none, &format!("{} images", n), st)
      });
      drop_pair(&p);
    }
    // every label at every place, every pixel value at every place
    r.group("labels", 1000 * 3, |i, st| {
      let mut q = Pick(i);
      let (ls, a) = ([q.of(10) as u8, q.of(10) as u8, q.of(10) as u8], q.of(3));
      let p = content(&dir, &format!("lab{}", i), 3, ALL, ALL, Box::new(pixel), Box::new(move |k| ls[k]));
      st.state();
      let a: &[usize] = [&[1, 1, 1, 1][..], &[2, 2], &[3, 1]][a];
      let v = two(&p, a, &none, &none, &format!("labels {:?}", ls), st);
      drop_pair(&p);
      v
    });
    r.group("pixels", 256 * 4, |i, st| {
      let mut q = Pick(i);
      let (v, mode) = (q.of(256), q.of(4));
      let p = content(&dir, &format!("pix{}", i), 3, ALL, ALL, Box::new(move |k, j| match mode { 0 => v, 1 => v + j, 2 => if j % 28 == v % 28 { 255 } else { 0 }, _ => if j == (v * 3 + k) % PIX || j == PIX - 1 { v } else { 1 } } as u8), Box::new(move |k| ((v + k) % 10) as u8));
      st.state();
      let v = everyone(&p, &[1, 3, 1], &none, &none, &format!("pixel values {} in pattern {}", v, mode), st);
      drop_pair(&p);
      v
    });
    // every single short read of the image file
    let n = 2;
    let p = pair(&dir, "s", n, ALL, ALL);
    let len = 16 + PIX * n;
    let asks: [&[usize]; 4] = [&[1, 1, 1], &[2, 1], &[5, 1], &[0, 1, 1, 1]];
    r.group("short-image-read", (len * asks.len()) as u64, |i, st| {
      let mut q = Pick(i);
      let (a, s) = (*q.from(&asks), q.of(len));
      st.state();
      let s = Split { at: vec![s as u64 + 1], most: 0, fail: None };
      two(&p, a, &s, &none, &format!("2 images, read of the image file split at byte {}", s.at[0]), st)
    });
    r.group("short-label-read", (10 * asks.len()) as u64, |i, st| {
      let mut q = Pick(i);
      let (a, s) = (*q.from(&asks), q.of(10));
      st.state();
      let s = Split { at: vec![s as u64 + 1], most: 0, fail: None };
      everyone(&p, a, &none, &s, &format!("2 images, read of the label file split at byte {}", s.at[0]), st)
    });
    // two short reads; the second anywhere behind the first
    let step = if r.thorough { 7 } else { 61 };
    let marks: Vec<u64> = (1..len as u64).step_by(step).chain([15, 16, 17, 16 + 783, 16 + 784, 16 + 785, len as u64 - 1]).collect();
    r.group("two-short-reads", (marks.len() * marks.len()) as u64, |i, st| {
      let mut q = Pick(i);
      let (x, y) = (*q.from(&marks), *q.from(&marks));
      if x >= y { return Ok(()) }
      st.state();
      let s = Split { at: vec![x, y], most: 0, fail: None };
      two(&p, &[2, 1], &s, &Split { at: vec![y % 10], most: 0, fail: None }, &format!("2 images, reads split at bytes {} and {}", x, y), st)
    });
    // no read returns more than a few bytes
    let most: Vec<usize> = if r.thorough { (1..=1600).collect() } else { (1..=40).chain([100, 391, 392, 393, 782, 783, 784, 785, 1000, 1568]).collect() };
    r.group("small-reads", (most.len() * asks.len()) as u64, |i, st| {
      let mut q = Pick(i);
      let (m, a) = (*q.from(&most), *q.from(&asks));
      st.state();
      let s = Split { at: vec![], most: m, fail: None };
      two(&p, a, &s, &s, &format!("2 images, reads of at most {} bytes", m), st)
    });
    drop_pair(&p);
    // every truncation of the image file, of the label file, and of both
    r.group("truncated-images", (len + 1) as u64, |i, st| {
      let p = pair(&dir, &format!("ti{}", i), n, i as usize, ALL);
      st.state();
      let what = format!("2 images, image file of {} bytes", i);
      let v = two(&p, &[1, 1, 1, 2], &none, &none, &what, st).and_then(|_| two(&p, &[3, 1], &none, &none, &what, st)).and_then(|_| two(&p, &[0, 2, 2], &none, &none, &what, st));
      drop_pair(&p);
      v
    });
    let cuts: Vec<usize> = (0..=20).chain([16 + 783, 16 + 784, 16 + 785, len - 1, len]).collect();
    r.group("truncated-labels", (cuts.len() * 11 * 5) as u64, |i, st| {
      let mut q = Pick(i);
      let (ci, cl, a) = (*q.from(&cuts), q.of(11), q.of(5));
      let p = pair(&dir, &format!("tl{}", i), n, ci, cl);
      st.state();
      let a: &[usize] = [&[1, 1, 1][..], &[2, 1], &[5, 1, 1], &[0, 1, 2], &[1, 4, 0, 1]][a];
      let v = everyone(&p, a, &none, &none, &format!("2 images, image file of {} bytes, label file of {} bytes", ci, cl), st);
      drop_pair(&p);
      v
    });
    // one refused read, of either file, with every error: the call fails or delivers all the same
    let p = pair(&dir, "f", 3, ALL, ALL);
    r.group("refused", 133 * 2 * 9 * asks.len() as u64, |i, st| {
      let mut q = Pick(i);
      let (errno, file, k, a) = (1 + q.of(133) as i32, q.of(2), q.of(9) as u32, *q.from(&asks));
      st.state();
      let s = Split { fail: Some((k, errno)), ..Split::default() };
      let (si, sl) = if file == 0 { (&s, &none) } else { (&none, &s) };
      let what = format!("3 images, read {} of the {} file refused with error {}", k + 1, ["image", "label"][file], errno);
      for v in [session::<f64>(&p, a, si, sl, &what, st), session::<Cf32>(&p, a, si, sl, &what, st)] {
        match v { Err(e) if !e.contains("panicked") => return Err(e), Err(_) => st.outcome("fails"), Ok(t) => st.outcome(t) }
      }
      st.trace();
      Ok(())
    });
    drop_pair(&p);
    // truncated and with short reads
    r.group("truncated-and-short", (25 * 30) as u64, |i, st| {
      let mut q = Pick(i);
      let (ci, m) = (len - 1 - q.of(25) * 60, 1 + q.of(30) * 33);
      let p = pair(&dir, &format!("tm{}", i), n, ci, ALL);
      st.state();
      let s = Split { at: vec![], most: m, fail: None };
      let v = two(&p, &[1, 1, 1], &s, &s, &format!("2 images, image file of {} bytes, reads of at most {} bytes", ci, m), st);
      drop_pair(&p);
      v
    });
    // the 60000-image mark
    let totals = [MARK - 3, MARK - 1, MARK, MARK + 1, MARK + 4];
    let longs: Vec<Long> = totals.iter().map(|t| long(&dir, *t)).collect();
    let starts: Vec<usize> = vec![MARK - 9, MARK - 5, MARK - 4, MARK - 2, MARK - 1];
    r.group("mark", (longs.len() * starts.len()) as u64 * 6u64.pow(3), |i, st| {
      let mut q = Pick(i);
      let (l, s) = (q.from(&longs), *q.from(&starts));
      let sizes: Vec<usize> = (0..3).map(|_| [0, 1, 2, 4, 5, 12][q.of(6)]).collect();
      if s > l.total { return Ok(()) }
      st.state();
      let a = around::<f32>(l, s, &sizes, st)?;
      let b = around::<Cf32>(l, s, &sizes, st)?;
      ensure!(a == b, "from image {} with batches {:?} the positions are {:?} (real) and {:?} (complex)", s, sizes, a, b);
      st.trace();
      Ok(())
    });
    // from the beginning through the mark
    let rounds: &[usize] = if r.thorough { &[1000, 999, 7000, 60000, 60001, 20000] } else { &[6000, 7000] };
    r.group_on("through-the-mark", (rounds.len() * 2) as u64, 2, |i, st| {
      let b = rounds[i as usize / 2];
      let sizes = vec![b; MARK / b + 3];
      st.state();
      st.trace();
      if i % 2 == 0 { around::<f32>(&longs[4], 0, &sizes, st)?; } else { around::<Cf32>(&longs[4], 0, &sizes, st)?; }
      Ok(())
    });
  });
}
