//! Holds threads at the points where the code under test calls back (networks, keys, paths, random
//! bytes) and lets them go on in a given order.
use std::cell::Cell;
use std::collections::{BTreeSet, VecDeque};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

thread_local! {
  static ME: Cell<usize> = Cell::new(usize::MAX);
}
struct State {
  order: VecDeque<usize>,
  running: BTreeSet<usize>, // neither held nor done
  missed: usize             // turns given up: whose they were did not come, being blocked elsewhere
}
pub struct Gate {
  state: Mutex<State>,
  cv: Condvar
}
pub static GATE: Gate = Gate {
  state: Mutex::new(State { order: VecDeque::new(), running: BTreeSet::new(), missed: 0 }),
  cv: Condvar::new()
};
impl Gate {
  fn lock(&self) -> MutexGuard<State> {
    self.state.lock().unwrap_or_else(|e| e.into_inner())
  }
  pub fn set(&self, order: VecDeque<usize>, n: usize) {
    *self.lock() = State { order, running: (0..n).collect(), missed: 0 };
  }
  /// gives up the schedule; how many turns were missed
  pub fn clear(&self) -> usize {
    let mut g = self.lock();
    g.order.clear();
    g.missed
  }
  pub fn enter(&self, me: usize) {
    ME.with(|m| m.set(me));
    self.point();
  }
  pub fn leave(&self) {
    let me = ME.with(|m| m.replace(usize::MAX));
    let mut g = self.lock();
    g.running.remove(&me);
    g.order.retain(|t| *t != me);
    self.cv.notify_all();
  }
  pub fn point(&self) {
    let me = match ME.try_with(|m| m.get()) {
      Ok(m) if m != usize::MAX => m,
      _ => return
    };
    let mut g = self.lock();
    g.running.remove(&me);
    self.cv.notify_all();
    while g.order.contains(&me) {
      if g.order[0] == me && g.running.is_empty() {
        g.order.pop_front();
        break;
      }
      let (h, t) = self.cv.wait_timeout(g, Duration::from_millis(80)).unwrap_or_else(|e| e.into_inner());
      g = h;
      if t.timed_out() {
        // someone waits for what a held thread has: let this one pass
        g.missed += 1;
        if g.order.front() == Some(&me) {
          g.order.pop_front();
          break;
        }
        if !g.order.is_empty() && g.running.contains(&g.order[0]) {
          g.order.pop_front();
        }
      }
    }
    g.running.insert(me);
    self.cv.notify_all();
  }
}
