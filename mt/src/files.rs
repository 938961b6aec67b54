//! Files are shared between threads too: an operation on a file is announced as an access to a word
//! that stands for its name.
use crate::exec::{named, raw, scheduled};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

extern "C" { fn __errno_location() -> *mut i32; }
unsafe fn ret(r: i64) -> i64 { if (-4095..0).contains(&r) { *__errno_location() = -r as i32; -1 } else { r } }

const FILES: usize = 1 << 12;
/// What stands for the file behind each descriptor.
static NAME: [AtomicU64; FILES] = [const { AtomicU64::new(0) }; FILES];

/// A number for a name; the number of this process may be part of the name.
unsafe fn number(path: *const u8) -> u64 {
  let mut digits = [0u8; 20];
  let mut len = 0;
  let mut pid = raw(39, 0, 0, 0, 0, 0, 0) as u64;
  while pid > 0 { digits[len] = b'0' + (pid % 10) as u8; len += 1; pid /= 10; }
  let mut h = 0xcbf2_9ce4_8422_2325u64;
  let mut i = 0;
  while *path.add(i) != 0 {
    let mut k = 0;
    while k < len && *path.add(i + k) == digits[len - 1 - k] { k += 1; }
    let c = if k == len { i += len; 1 } else { i += 1; *path.add(i - 1) };
    h = (h ^ c as u64).wrapping_mul(0x100_0000_01b3);
  }
  h % (1 << 40) + 1
}
unsafe fn touch(n: u64, write: bool) { if n > 0 { named(n, write) } }
fn of(fd: i32) -> u64 { if (0..FILES as i32).contains(&fd) { NAME[fd as usize].load(SeqCst) } else { 0 } }

unsafe fn opened(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
  if !scheduled() { return ret(raw(257, dir as i64, path as i64, flags as i64, mode as i64, 0, 0)) as i32 }
  let n = number(path);
  touch(n, flags & 0o1103 != 0);
  let fd = ret(raw(257, dir as i64, path as i64, flags as i64, mode as i64, 0, 0)) as i32;
  if (0..FILES as i32).contains(&fd) { NAME[fd as usize].store(n, SeqCst); }
  fd
}
#[no_mangle] pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 { opened(-100, path, flags | 0o100000, mode) }
#[no_mangle] pub unsafe extern "C" fn openat(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 { opened(dir, path, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat64(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 { opened(dir, path, flags | 0o100000, mode) }
#[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 { if (0..FILES as i32).contains(&fd) { NAME[fd as usize].store(0, SeqCst); } ret(raw(3, fd as i64, 0, 0, 0, 0, 0)) as i32 }

macro_rules! on_fd { ($($n:ident $k:expr, $w:expr, ($($a:ident: $t:ty),*);)*) => { $(
  #[no_mangle] pub unsafe extern "C" fn $n(fd: i32, $($a: $t),*) -> isize { touch(of(fd), $w); let mut v = [0i64; 5]; let mut _k = 0; $(v[_k] = $a as i64; _k += 1;)* ret(raw($k, fd as i64, v[0], v[1], v[2], v[3], v[4])) as isize }
)* } }
on_fd! {
  read 0, false, (p: *mut u8, n: usize);
  write 1, true, (p: *const u8, n: usize);
  pread64 17, false, (p: *mut u8, n: usize, at: i64);
  pwrite64 18, true, (p: *const u8, n: usize, at: i64);
  readv 19, false, (p: *const u8, n: i32);
  writev 20, true, (p: *const u8, n: i32);
  ftruncate64 77, true, (n: i64);
}
#[no_mangle] pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 { if scheduled() { touch(number(a), true); touch(number(b), true); } ret(raw(82, a as i64, b as i64, 0, 0, 0, 0)) as i32 }
#[no_mangle] pub unsafe extern "C" fn unlink(a: *const u8) -> i32 { if scheduled() { touch(number(a), true); } ret(raw(87, a as i64, 0, 0, 0, 0, 0)) as i32 }
