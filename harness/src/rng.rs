//! Observation point for the system's random source: the library draws its randomness with the
//! getrandom system call, through libc's `syscall` or `getrandom`, which these definitions take
//! the place of.
use std::cell::{Cell, RefCell};

thread_local! {
  static COUNT: Cell<usize> = Cell::new(0);
  static FAIL: Cell<usize> = Cell::new(0);
  static GIVEN: RefCell<Vec<u8>> = RefCell::new(Vec::new());
  static FEED: RefCell<Option<(Vec<u8>, Vec<u8>)>> = RefCell::new(None);
}

/// Starts counting; what the standard library wants for its hash maps is drawn before.
pub fn reset() {
  std::hint::black_box(std::collections::HashMap::<u8, u8>::new());
  COUNT.with(|c| c.set(0));
  GIVEN.with(|g| g.borrow_mut().clear());
}
/// another account from now on; the one so far
pub fn swap(x: (usize, Vec<u8>)) -> (usize, Vec<u8>) {
  (COUNT.with(|c| c.replace(x.0)), GIVEN.with(|g| std::mem::replace(&mut *g.borrow_mut(), x.1)))
}
/// what was given since then
pub fn given() -> Vec<u8> {
  GIVEN.with(|g| g.borrow().clone())
}
/// from now on whatever is given begins and ends with these bytes
pub fn feed(x: Option<(Vec<u8>, Vec<u8>)>) {
  FEED.with(|f| *f.borrow_mut() = x);
}
pub fn count() -> usize {
  COUNT.with(|c| c.get())
}
/// lets the n-th request from now on fail, and all after it, until reset with 0
pub fn fail(n: usize) {
  FAIL.with(|c| c.set(n));
}

#[cfg(target_arch = "x86_64")]
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  if n == libc::SYS_getrandom {
    crate::gate::GATE.point();
    let left = FAIL.try_with(|c| c.get()).unwrap_or(0);
    if left > 0 {
      if left == 1 {
        *libc::__errno_location() = libc::EIO;
        return -1;
      }
      let _ = FAIL.try_with(|c| c.set(left - 1));
    }
  }
  let r: i64;
  std::arch::asm!(
    "syscall",
    inlateout("rax") n => r,
    in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
    lateout("rcx") _, lateout("r11") _,
    options(nostack)
  );
  if r < 0 && r > -4096 {
    *libc::__errno_location() = -r as i32;
    return -1;
  }
  if n == libc::SYS_getrandom && r > 0 {
    let _ = COUNT.try_with(|c| c.set(c.get() + r as usize));
    let got = std::slice::from_raw_parts_mut(a as *mut u8, r as usize);
    let _ = FEED.try_with(|f| {
      if let Ok(Some((head, tail))) = f.try_borrow().as_deref() {
        if head.len() + tail.len() <= got.len() {
          got[..head.len()].copy_from_slice(head);
          let n = got.len() - tail.len();
          got[n..].copy_from_slice(tail);
        }
      }
    });
    let _ = GIVEN.try_with(|g| {
      if let Ok(mut g) = g.try_borrow_mut() {
        if g.len() < 4096 {
          g.extend_from_slice(got);
        }
      }
    });
    crate::gate::GATE.point();
  }
  r
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  raw(n, a, b, c, d, e, f)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut libc::c_void, n: usize, flags: u32) -> isize {
  raw(libc::SYS_getrandom, b as i64, n as i64, flags as i64, 0, 0, 0) as isize
}
