//! Global allocator which keeps account of every block: what a call leaves allocated,
//! which older blocks it frees and whether blocks go back with the layout they came with.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Copy)]
struct Slot {
  ptr: usize,
  size: usize,
  align: usize,
  epoch: usize
}

const SLOTS: usize = 1 << 16;
const TOMB: usize = 1;

struct Table(UnsafeCell<*mut Slot>);
unsafe impl Sync for Table {}
static TABLE: Table = Table(UnsafeCell::new(std::ptr::null_mut()));
static LOCK: AtomicBool = AtomicBool::new(false);
static ON: AtomicBool = AtomicBool::new(false);
/// tag of the blocks allocated now; 0 outside of measured calls
static EPOCH: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static FREED: AtomicUsize = AtomicUsize::new(0);
static MIS: AtomicUsize = AtomicUsize::new(0);
static MIS_ALL: AtomicUsize = AtomicUsize::new(0);

pub struct Ledger;

fn locked<R>(f: impl FnOnce(*mut Slot) -> R) -> R {
  while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
    std::hint::spin_loop();
  }
  let r = f(unsafe { *TABLE.0.get() });
  LOCK.store(false, SeqCst);
  r
}

fn hash(p: usize) -> usize {
  (p >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20
}

unsafe fn add(t: *mut Slot, ptr: usize, l: Layout) {
  let mut i = hash(ptr) % SLOTS;
  for _ in 0..SLOTS {
    let s = &mut *t.add(i);
    if s.ptr == 0 || s.ptr == TOMB {
      *s = Slot { ptr, size: l.size(), align: l.align(), epoch: EPOCH.load(SeqCst) };
      return;
    }
    i = (i + 1) % SLOTS;
  }
}

unsafe fn take(t: *mut Slot, ptr: usize) -> Option<Slot> {
  let mut i = hash(ptr) % SLOTS;
  for _ in 0..SLOTS {
    let s = &mut *t.add(i);
    if s.ptr == ptr {
      let r = *s;
      let next = &*t.add((i + 1) % SLOTS);
      s.ptr = if next.ptr == 0 { 0 } else { TOMB };
      return Some(r);
    }
    if s.ptr == 0 {
      return None;
    }
    i = (i + 1) % SLOTS;
  }
  None
}

unsafe impl GlobalAlloc for Ledger {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let p = System.alloc(l);
    if ON.load(SeqCst) && !p.is_null() {
      locked(|t| add(t, p as usize, l));
    }
    p
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    let p = System.alloc_zeroed(l);
    if ON.load(SeqCst) && !p.is_null() {
      locked(|t| add(t, p as usize, l));
    }
    p
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    crate::wipe::on_dealloc(p, l.size());
    if !ON.load(SeqCst) {
      return System.dealloc(p, l);
    }
    let e = EPOCH.load(SeqCst);
    match locked(|t| take(t, p as usize)) {
      Some(s) => {
        if s.size != l.size() || s.align != l.align() {
          MIS.fetch_add(1, SeqCst);
          MIS_ALL.fetch_add(1, SeqCst);
        }
        if e != 0 && s.epoch != e {
          FREED.fetch_add(1, SeqCst);
        }
        System.dealloc(p, Layout::from_size_align_unchecked(s.size, s.align));
      }
      None => {
        // never allocated, or freed before: keep it away from the allocator
        MIS.fetch_add(1, SeqCst);
        MIS_ALL.fetch_add(1, SeqCst);
      }
    }
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
    let n = Layout::from_size_align_unchecked(size, l.align());
    let q = self.alloc(n);
    if !q.is_null() {
      std::ptr::copy_nonoverlapping(p, q, l.size().min(size));
      self.dealloc(p, l);
    }
    q
  }
}

/// Call first thing in main: from then on every block is known (older ones count as unknown,
/// so nothing allocated before may be freed after).
pub fn start() {
  unsafe {
    let t = libc::mmap(
      std::ptr::null_mut(),
      SLOTS * std::mem::size_of::<Slot>(),
      libc::PROT_READ | libc::PROT_WRITE,
      libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
      -1,
      0
    );
    *TABLE.0.get() = t as *mut Slot;
  }
  ON.store(true, SeqCst);
}

pub struct Account {
  pub new: usize,
  pub freed: usize,
  pub mis: usize
}

/// Runs f and accounts for it.
pub fn measured<R>(f: impl FnOnce() -> R) -> (R, Account) {
  let e = NEXT.fetch_add(1, SeqCst) + 1;
  FREED.store(0, SeqCst);
  MIS.store(0, SeqCst);
  EPOCH.store(e, SeqCst);
  let r = f();
  EPOCH.store(0, SeqCst);
  let (freed, mis) = (FREED.load(SeqCst), MIS.load(SeqCst));
  let new = count(|s| s.epoch == e);
  (r, Account { new, freed, mis })
}

fn count(p: impl Fn(&Slot) -> bool) -> usize {
  locked(|t| {
    if t.is_null() {
      return 0;
    }
    let all = unsafe { std::slice::from_raw_parts(t, SLOTS) };
    all.iter().filter(|s| s.ptr > TOMB && p(s)).count()
  })
}

/// Blocks of measured calls which are still alive.
pub fn live() -> usize {
  count(|s| s.epoch != 0)
}
pub fn mismatches() -> usize {
  MIS_ALL.load(SeqCst)
}
