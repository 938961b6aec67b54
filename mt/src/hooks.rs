//! The announcements of the instrumented code: one function per kind of memory access.
use crate::exec::{atomic, barrier, plain, range};
use std::sync::atomic::*;
use std::sync::atomic::Ordering::SeqCst;

macro_rules! nothing { ($($n:ident($($a:ident: $t:ty),*))*) => { $(#[no_mangle] pub unsafe extern "C" fn $n($(_: $t),*) {})* } }
nothing! {
  __tsan_init() __tsan_func_entry(p: *mut u8) __tsan_func_exit() __tsan_ignore_thread_begin() __tsan_ignore_thread_end()
  __tsan_vptr_read(p: *mut u8) __tsan_vptr_update(p: *mut u8, v: *mut u8) __tsan_atomic_signal_fence(o: i32)
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) { barrier(); fence(SeqCst) }

macro_rules! acc { ($($n:ident $m:ident $k:expr, $w:expr;)*) => { $(
  #[no_mangle] pub unsafe extern "C" fn $n(p: usize) { plain(p, $k, $w) }
  #[no_mangle] pub unsafe extern "C" fn $m(p: usize, _: usize) { plain(p, $k, $w) }
)* } }
acc! {
  __tsan_read1 __tsan_read1_pc 1, false; __tsan_read2 __tsan_read2_pc 2, false; __tsan_read4 __tsan_read4_pc 4, false; __tsan_read8 __tsan_read8_pc 8, false; __tsan_read16 __tsan_read16_pc 16, false;
  __tsan_write1 __tsan_write1_pc 1, true; __tsan_write2 __tsan_write2_pc 2, true; __tsan_write4 __tsan_write4_pc 4, true; __tsan_write8 __tsan_write8_pc 8, true; __tsan_write16 __tsan_write16_pc 16, true;
  __tsan_unaligned_read2 __tsan_unaligned_read2_pc 2, false; __tsan_unaligned_read4 __tsan_unaligned_read4_pc 4, false; __tsan_unaligned_read8 __tsan_unaligned_read8_pc 8, false; __tsan_unaligned_read16 __tsan_unaligned_read16_pc 16, false;
  __tsan_unaligned_write2 __tsan_unaligned_write2_pc 2, true; __tsan_unaligned_write4 __tsan_unaligned_write4_pc 4, true; __tsan_unaligned_write8 __tsan_unaligned_write8_pc 8, true; __tsan_unaligned_write16 __tsan_unaligned_write16_pc 16, true;
  __tsan_read_write1 __tsan_read_write1_pc 1, true; __tsan_read_write2 __tsan_read_write2_pc 2, true; __tsan_read_write4 __tsan_read_write4_pc 4, true; __tsan_read_write8 __tsan_read_write8_pc 8, true; __tsan_read_write16 __tsan_read_write16_pc 16, true;
  __tsan_unaligned_read_write2 __tsan_unaligned_read_write2_pc 2, true; __tsan_unaligned_read_write4 __tsan_unaligned_read_write4_pc 4, true; __tsan_unaligned_read_write8 __tsan_unaligned_read_write8_pc 8, true; __tsan_unaligned_read_write16 __tsan_unaligned_read_write16_pc 16, true;
  __tsan_volatile_read1 __tsan_volatile_read1_pc 1, false; __tsan_volatile_read2 __tsan_volatile_read2_pc 2, false; __tsan_volatile_read4 __tsan_volatile_read4_pc 4, false; __tsan_volatile_read8 __tsan_volatile_read8_pc 8, false; __tsan_volatile_read16 __tsan_volatile_read16_pc 16, false;
  __tsan_volatile_write1 __tsan_volatile_write1_pc 1, true; __tsan_volatile_write2 __tsan_volatile_write2_pc 2, true; __tsan_volatile_write4 __tsan_volatile_write4_pc 4, true; __tsan_volatile_write8 __tsan_volatile_write8_pc 8, true; __tsan_volatile_write16 __tsan_volatile_write16_pc 16, true;
}
#[no_mangle] pub unsafe extern "C" fn __tsan_read_range(p: usize, n: usize) { range(p, n, false) }
#[no_mangle] pub unsafe extern "C" fn __tsan_write_range(p: usize, n: usize) { range(p, n, true) }

extern "C" {
  fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
  fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
  fn memset(d: *mut u8, v: i32, n: usize) -> *mut u8;
}
#[no_mangle] pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { range(s as usize, n, false); range(d as usize, n, true); memcpy(d, s, n) }
#[no_mangle] pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { range(s as usize, n, false); range(d as usize, n, true); memmove(d, s, n) }
#[no_mangle] pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 { range(d as usize, n, true); memset(d, v, n) }

macro_rules! at { ($($u:ty, $a:ty, $ld:ident $st:ident $xc:ident $ad:ident $sb:ident $an:ident $or:ident $xo:ident $na:ident $cs:ident $cw:ident $cv:ident;)*) => { $(
  #[no_mangle] pub unsafe extern "C" fn $ld(p: *const $a, _: i32) -> $u { atomic(p as usize, false); (*p).load(SeqCst) }
  #[no_mangle] pub unsafe extern "C" fn $st(p: *const $a, v: $u, _: i32) { atomic(p as usize, true); (*p).store(v, SeqCst) }
  #[no_mangle] pub unsafe extern "C" fn $xc(p: *const $a, v: $u, _: i32) -> $u { atomic(p as usize, true); (*p).swap(v, SeqCst) }
  #[no_mangle] pub unsafe extern "C" fn $ad(p: *const $a, v: $u, _: i32) -> $u { atomic(p as usize, true); (*p).fetch_add(v, SeqCst) }
  #[no_mangle] pub unsafe extern "C" fn $sb(p: *const $a, v: $u, _: i32) -> $u { atomic(p as usize, true); (*p).fetch_sub(v, SeqCst) }
  #[no_mangle] pub unsafe extern "C" fn $an(p: *const $a, v: $u, _: i32) -> $u { atomic(p as usize, true); (*p).fetch_and(v, SeqCst) }
  #[no_mangle] pub unsafe extern "C" fn $or(p: *const $a, v: $u, _: i32) -> $u { atomic(p as usize, true); (*p).fetch_or(v, SeqCst) }
  #[no_mangle] pub unsafe extern "C" fn $xo(p: *const $a, v: $u, _: i32) -> $u { atomic(p as usize, true); (*p).fetch_xor(v, SeqCst) }
  #[no_mangle] pub unsafe extern "C" fn $na(p: *const $a, v: $u, _: i32) -> $u { atomic(p as usize, true); (*p).fetch_nand(v, SeqCst) }
  #[no_mangle] pub unsafe extern "C" fn $cs(p: *const $a, e: *mut $u, v: $u, _: i32, _: i32) -> i32 { atomic(p as usize, true); match (*p).compare_exchange(*e, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *e = x; 0 } } }
  #[no_mangle] pub unsafe extern "C" fn $cw(p: *const $a, e: *mut $u, v: $u, _: i32, _: i32) -> i32 { atomic(p as usize, true); match (*p).compare_exchange(*e, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *e = x; 0 } } }
  #[no_mangle] pub unsafe extern "C" fn $cv(p: *const $a, e: $u, v: $u, _: i32, _: i32) -> $u { atomic(p as usize, true); match (*p).compare_exchange(e, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x } }
)* } }
at! {
  u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
  u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
  u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
  u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
}
