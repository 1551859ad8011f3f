//! Where secrets lived: memory of dropped entropies and seeds (C20).
use crate::util::*;
use bip39::{dictionary, Entropy, Seed, Type};
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::mem::MaybeUninit;

thread_local! {
  static WATCH: Cell<(*const u8, usize)> = Cell::new((std::ptr::null(), 0));
  static FOUND: Cell<usize> = Cell::new(0);
  /// where the secret lies, and the places of it that still hold its bytes (as bits)
  static AT: Cell<usize> = Cell::new(0);
  static KEPT: Cell<u64> = Cell::new(0);
  /// the object that holds the secret as it was before it was dropped: where, how long, what
  static BEFORE: Cell<(usize, usize, *const u8)> = Cell::new((0, 0, std::ptr::null()));
}

/// Bytes of the object besides the secret's own, as they were while it lived: unused parts of an
/// object hold whatever was copied along when it was moved, and are not the secret's memory.
fn stale(mem: *const u8) -> bool {
  let (base, len, bytes) = BEFORE.try_with(|b| b.get()).unwrap_or((0, 0, std::ptr::null()));
  let (m, at, n) = (mem as usize, AT.with(|a| a.get()), WATCH.with(|w| w.get().1));
  m >= base && m < base + len && !(m >= at && m < at + n) && unsafe { std::ptr::read_volatile(mem) == *bytes.add(m - base) }
}

fn place_of<T>(x: &T) -> (*const u8, usize) {
  (x as *const T as *const u8, std::mem::size_of::<T>())
}

fn snapshot(base: *const u8, len: usize) -> Vec<u8> {
  (0..len).map(|i| unsafe { std::ptr::read_volatile(base.add(i)) }).collect()
}

/// which of the secret's places in memory still hold their bytes
fn kept(mem: *const u8, secret: *const u8, n: usize) -> u64 {
  (0..n).fold(0, |b, i| unsafe { b | ((std::ptr::read_volatile(mem.add(i)) == *secret.add(i)) as u64) << i })
}

/// longest run of the secret's bytes in a piece of memory
fn longest(mem: *const u8, len: usize, secret: *const u8, n: usize) -> usize {
  let (m, s) = (|i: usize| unsafe { std::ptr::read_volatile(mem.add(i)) }, |j: usize| unsafe { *secret.add(j) });
  let mut best = 0;
  for i in 0..len {
    for j in 0..n {
      let mut k = 0;
      while i + k < len && j + k < n && m(i + k) == s(j + k) && !stale(unsafe { mem.add(i + k) }) {
        k += 1;
      }
      best = best.max(k);
    }
  }
  best
}

pub fn on_dealloc(p: *mut u8, size: usize) {
  let _ = WATCH.try_with(|w| {
    let (s, n) = w.get();
    if n > 0 {
      let l = longest(p, size, s, n);
      let _ = FOUND.try_with(|f| f.set(f.get().max(l)));
      let at = AT.with(|a| a.get());
      if at >= p as usize && at + n <= p as usize + size {
        let _ = KEPT.try_with(|k| k.set(k.get() | kept(at as *const u8, s, n)));
      }
    }
  });
}

/// Runs f; blocks given back meanwhile are searched for the secret, which lies at a known place,
/// and then the memory of the object itself.
fn watching(secret: &[u8], at: *const u8, object: (*const u8, usize), live: bool, f: impl FnOnce()) -> (usize, u64) {
  let before = snapshot(object.0, object.1);
  BEFORE.with(|b| b.set((object.0 as usize, object.1, before.as_ptr())));
  FOUND.with(|c| c.set(0));
  KEPT.with(|c| c.set(0));
  AT.with(|c| c.set(at as usize));
  WATCH.with(|c| c.set((secret.as_ptr(), secret.len())));
  f();
  if live {
    on_dealloc(object.0 as *mut u8, object.1);
  }
  WATCH.with(|c| c.set((std::ptr::null(), 0)));
  BEFORE.with(|b| b.set((0, 0, std::ptr::null())));
  (FOUND.with(|c| c.get()), KEPT.with(|c| c.get()))
}

/// Runs f while a panic unwinds.
fn unwinding(f: impl FnOnce()) {
  struct Later<F: FnOnce()>(Option<F>);
  impl<F: FnOnce()> Drop for Later<F> {
    fn drop(&mut self) {
      (self.0.take().unwrap())()
    }
  }
  let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    let _later = Later(Some(f));
    std::panic::resume_unwind(Box::new(()));
  }));
}

enum Any {
  E(Entropy),
  S(Seed)
}
impl Any {
  /// A secret made of these bytes - or of others, where the bytes only say how.
  fn new(kind: &str, how: &str, b: &[u8]) -> Self {
    fn of<T: Default + AsMut<[u8]>>(b: &[u8]) -> T {
      let mut a = T::default();
      a.as_mut().copy_from_slice(b);
      a
    }
    match (kind, how) {
      ("ent", "slice") => Any::E(Entropy::from_slice(b).unwrap()),
      ("ent", "gen") => {
        Any::E(Entropy::generate(Type::from_entropy_size(b.len() * 8).unwrap(), |x| x.copy_from_slice(b)))
      }
      ("ent", "words") => {
        let words = Entropy::from_slice(b).unwrap().to_mnemonics();
        Any::E(Entropy::from_mnemonics(&words).unwrap())
      }
      ("ent", "lit") => Any::E(match b.len() {
        12 => Entropy::Entropy9(of(b)),
        16 => Entropy::Entropy12(of(b)),
        20 => Entropy::Entropy15(of(b)),
        24 => Entropy::Entropy18(of(b)),
        28 => Entropy::Entropy21(of(b)),
        _ => Entropy::Entropy24(of(b))
      }),
      ("seed", "bytes") => {
        let mut a = [0u8; 64];
        a.copy_from_slice(b);
        Any::S(Seed::from_bytes(a))
      }
      ("seed", "slice") => Any::S(Seed::from_slice(b).unwrap()),
      ("seed", "phrase") => {
        let words = Entropy::from_slice(&b[..16]).unwrap().to_mnemonics();
        Any::S(Seed::from_mnemonic_string(&words.to_string(&dictionary::ENGLISH), &b[16..]))
      }
      k => panic!("script: secret {:?}", k)
    }
  }
  fn copy(&self) -> Self {
    match self {
      Any::E(e) => Any::E(e.clone()),
      Any::S(s) => Any::S(Seed::from_slice(s.as_ref()).unwrap())
    }
  }
  fn bytes(&self) -> &[u8] {
    match self {
      Any::E(e) => e.as_ref(),
      Any::S(s) => s.as_ref()
    }
  }
}

enum Held {
  Boxed(Box<Any>),
  BoxE(Box<Entropy>),
  BoxS(Box<Seed>),
  Vec(Vec<Any>),
  Place(Box<MaybeUninit<Any>>)
}
struct Copy {
  place: String,
  secret: Vec<u8>,
  held: Option<Held>
}

#[derive(Default)]
pub struct Secrets {
  all: BTreeMap<String, Copy>
}

impl Secrets {
  fn hold(any: Any, place: &str) -> Held {
    match (place, any) {
      ("box", a) => Held::Boxed(Box::new(a)),
      ("own", Any::E(e)) => Held::BoxE(Box::new(e)),
      ("own", Any::S(s)) => Held::BoxS(Box::new(s)),
      ("vec", a) => Held::Vec(vec![a]),
      ("place", a) => {
        let mut m: Box<MaybeUninit<Any>> = Box::new(MaybeUninit::uninit());
        unsafe { m.as_mut_ptr().write(a) };
        Held::Place(m)
      }
      (p, _) => panic!("script: place {}", p)
    }
  }
  fn view(c: &Copy) -> &[u8] {
    match c.held.as_ref().unwrap() {
      Held::Boxed(b) => b.bytes(),
      Held::BoxE(e) => e.as_ref(),
      Held::BoxS(s) => s.as_ref(),
      Held::Vec(v) => v[0].bytes(),
      Held::Place(m) => unsafe { (*m.as_ptr()).bytes() }
    }
  }

  pub fn run(&mut self, op: &str, a: &A) -> Option<Value> {
    match op {
      "wipe.new" => {
        let secret = a.b("b");
        let how = a.0["how"].as_str().unwrap_or(if a.s("kind") == "ent" { "slice" } else { "bytes" });
        let any = Any::new(a.s("kind"), how, &secret);
        let secret = if how == "phrase" { any.bytes().to_vec() } else { secret };
        let held = Some(Self::hold(any, a.s("place")));
        self.all.insert(a.s("o").into(), Copy { place: a.s("place").into(), secret, held });
        Some(json!({}))
      }
      "wipe.clone" => {
        let from = &self.all[a.s("from")];
        let copy = match from.held.as_ref().unwrap() {
          Held::Boxed(b) => b.copy(),
          Held::BoxE(e) => Any::E((**e).clone()),
          Held::BoxS(s) => Any::S(Seed::from_slice(s.as_ref().as_ref()).unwrap()),
          Held::Vec(v) => v[0].copy(),
          Held::Place(m) => unsafe { (*m.as_ptr()).copy() }
        };
        let c = Copy { place: a.s("place").into(), secret: from.secret.clone(), held: Some(Self::hold(copy, a.s("place"))) };
        self.all.insert(a.s("o").into(), c);
        Some(json!({}))
      }
      "wipe.read" => {
        let c = &self.all[a.s("o")];
        let shown = match c.held.as_ref().unwrap() {
          Held::BoxE(e) => format!("{} {:?} {}", e, e, e.to_mnemonics().as_ref().len()),
          Held::BoxS(s) => format!("{} {:?}", s, s),
          _ => hx(Self::view(c))
        };
        Some(json!({"same": shown.starts_with(&hx(&c.secret))}))
      }
      "wipe.drop" => {
        let mut c = self.all.remove(a.s("o")).expect("script: secret");
        let at = Self::view(&c).as_ptr();
        let held = c.held.take().unwrap();
        let unwind = a.flag("unwind");
        let object = match &held {
          Held::Boxed(b) => place_of(&**b),
          Held::BoxE(e) => place_of(&**e),
          Held::BoxS(s) => place_of(&**s),
          Held::Vec(v) => place_of(&v[0]),
          Held::Place(m) => place_of(&**m)
        };
        struct Sent<T>(T);
        unsafe impl<T> Send for Sent<T> {}
        let all = Sent((held, at, object));
        let secret = &c.secret;
        let run = move || {
          let all = all;
          let Sent((held, at, object)) = all;
          match held {
            Held::Place(mut m) => watching(secret, at, object, true, || {
              let mut go = || unsafe { std::ptr::drop_in_place(m.as_mut_ptr()) };
              if unwind {
                unwinding(go)
              } else {
                go()
              }
            }),
            h => watching(secret, at, object, false, || if unwind { unwinding(|| drop(h)) } else { drop(h) })
          }
        };
        // by the thread that made it, or by another
        let (left, kept) = if a.flag("thread") { std::thread::scope(|s| s.spawn(run).join().expect("script: thread")) } else { run() };
        let intact: Vec<bool> = self.all.values().map(|c| Self::view(c) == &c.secret[..]).collect();
        let class = format!("{} {}{}{}", c.secret.len(), c.place, if a.flag("unwind") { " unwinding" } else { "" }, if a.flag("thread") { " elsewhere" } else { "" });
        Some(json!({"left": left, "class": class, "kept": bits(kept, &c.secret), "intact": intact}))
      }
      "wipe.dead" => {
        let secret = a.b("b");
        let mut seen = Seen { at: 0, size: 0, own: 0, bytes: [0; 512] };
        let mut snap = [0u8; 512];
        match a.s("kind") {
          "ent" => live_entropy(&secret, &mut seen),
          _ => live_seed(&secret, &mut seen)
        }
        let size = seen.size.min(512);
        unsafe {
          for i in 0..size {
            snap[i] = std::ptr::read_volatile((seen.at as *const u8).add(i));
          }
        }
        // a secret kept elsewhere than in the object itself is looked for where blocks are given back
        let inside = seen.own + secret.len() <= size;
        let place = if inside { snap.as_ptr() as usize + seen.own } else { 0 };
        AT.with(|c| c.set(place));
        WATCH.with(|c| c.set((secret.as_ptr(), if inside { secret.len() } else { 0 })));
        BEFORE.with(|b| b.set((snap.as_ptr() as usize, size, seen.bytes.as_ptr())));
        let left = longest(snap.as_ptr(), size, secret.as_ptr(), secret.len());
        WATCH.with(|c| c.set((std::ptr::null(), 0)));
        BEFORE.with(|b| b.set((0, 0, std::ptr::null())));
        let kept = if inside { kept(place as *const u8, secret.as_ptr(), secret.len()) } else { 0 };
        let class = format!("{} on the stack", secret.len());
        Some(json!({"left": left, "class": class, "kept": bits(kept, &secret)}))
      }
      _ => None
    }
  }
}

/// places of nonzero bytes among those kept
fn bits(kept: u64, secret: &[u8]) -> Vec<usize> {
  (0..secret.len()).filter(|i| kept >> i & 1 == 1 && secret[*i] != 0).collect()
}

struct Seen {
  at: usize,
  size: usize,
  own: usize,
  bytes: [u8; 512]
}
impl Seen {
  fn look<T>(&mut self, x: &T, secret: *const u8) {
    let (at, size) = place_of(x);
    self.at = at as usize;
    self.size = size;
    self.own = (secret as usize).wrapping_sub(self.at).min(1 << 20);
    for i in 0..size.min(512) {
      self.bytes[i] = unsafe { std::ptr::read_volatile(at.add(i)) };
    }
  }
}

#[inline(never)]
fn live_entropy(b: &[u8], seen: &mut Seen) {
  let e = Entropy::from_slice(b).unwrap();
  let e = std::hint::black_box(&e);
  seen.look(e, e.as_ref().as_ptr());
}
#[inline(never)]
fn live_seed(b: &[u8], seen: &mut Seen) {
  let s = Seed::from_slice(b).unwrap();
  let s = std::hint::black_box(&s);
  seen.look(s, s.as_ref().as_ptr());
}
