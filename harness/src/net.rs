//! The harness's own networks, and path objects.
use crate::gate::GATE;
use keychain::{Key, KeyError, KeyFactory, KeyPath, Network, SeedSize};
use std::cell::RefCell;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

thread_local! {
  /// what is to be done inside of a callback, and how many callbacks are let go by before
  static INSIDE: RefCell<Option<(usize, Box<dyn FnOnce()>)>> = RefCell::new(None);
}
pub fn inside(x: Option<(usize, Box<dyn FnOnce()>)>) -> bool {
  INSIDE.with(|i| std::mem::replace(&mut *i.borrow_mut(), x)).is_some()
}
/// in a callback
fn point() {
  let now = INSIDE.with(|i| {
    let mut i = i.borrow_mut();
    match i.take() {
      Some((0, f)) => Some(f),
      Some((n, f)) => {
        *i = Some((n - 1, f));
        None
      }
      None => None
    }
  });
  if let Some(f) = now {
    f()
  }
  GATE.point();
}

/// A path; asked for the component `boom` (of 1 to 5) it panics.
#[derive(Clone, Copy)]
pub struct Path(pub [u32; 5], pub usize);
impl Path {
  fn part(&self, i: usize) -> u32 {
    point();
    if self.1 == i + 1 {
      panic!("path");
    }
    self.0[i]
  }
}
impl KeyPath for Path {
  fn purpose(&self) -> u32 {
    self.part(0)
  }
  fn coin(&self) -> u32 {
    self.part(1)
  }
  fn account(&self) -> u32 {
    self.part(2)
  }
  fn change(&self) -> u32 {
    self.part(3)
  }
  fn address(&self) -> u32 {
    self.part(4)
  }
}
pub fn comps(p: &dyn KeyPath) -> [u32; 5] {
  [p.purpose(), p.coin(), p.account(), p.change(), p.address()]
}
fn bytes(p: &dyn KeyPath) -> Vec<u8> {
  let mut v = Vec::new();
  for c in comps(p).iter() {
    v.extend_from_slice(&c.to_be_bytes());
  }
  v
}

/// Threads inside of callbacks wait for each other a moment, so that calls really overlap.
pub struct Meet {
  state: Mutex<(usize, usize)>, // expected, arrived
  cv: Condvar
}
impl Meet {
  pub const fn new() -> Self {
    Meet { state: Mutex::new((0, 0)), cv: Condvar::new() }
  }
  pub fn expect(&self, n: usize) {
    *self.state.lock().unwrap_or_else(|e| e.into_inner()) = (n, 0);
  }
  pub fn here(&self) {
    let mut g = self.state.lock().unwrap_or_else(|e| e.into_inner());
    if g.0 < 2 {
      return;
    }
    g.1 += 1;
    let goal = (g.1 + g.0 - 1) / g.0 * g.0; // the round this arrival belongs to
    self.cv.notify_all();
    let end = Instant::now() + Duration::from_millis(30);
    while g.1 < goal && g.0 >= 2 {
      let now = Instant::now();
      if now >= end {
        break;
      }
      g = self.cv.wait_timeout(g, end - now).unwrap_or_else(|e| e.into_inner()).0;
    }
  }
}
pub static MEET: Meet = Meet::new();

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
  Std,
  Echo,
  Empty,
  BadKey,
  BadLoad,
  Panicky
}
pub fn kind(s: &str) -> Kind {
  match s {
    "std" => Kind::Std,
    "echo" => Kind::Echo,
    "empty" => Kind::Empty,
    "badkey" => Kind::BadKey,
    "badload" => Kind::BadLoad,
    "panicky" => Kind::Panicky,
    _ => panic!("script: kind {}", s)
  }
}

pub struct Own {
  pub net: u32,
  pub min: usize,
  pub max: usize,
  pub kind: Kind
}
struct OwnKey {
  net: u32,
  data: Vec<u8>
}

impl KeyFactory for Own {
  fn network(&self) -> Network {
    point();
    Network(self.net)
  }
  fn seed_size(&self) -> SeedSize {
    SeedSize { min: self.min, max: self.max }
  }
  fn key_from_data(&self, data: &[u8]) -> Result<Box<dyn Key>, KeyError> {
    MEET.here();
    point();
    match self.kind {
      Kind::BadLoad => return Err(KeyError::InvalidKeySize(3, 4)),
      Kind::Panicky => panic!("load"),
      Kind::Empty => {}
      _ => {
        if data.len() != 12 || data[..4] != self.net.to_be_bytes() {
          return Err(KeyError::InvalidKeySize(data.len(), 12));
        }
      }
    }
    Ok(Box::new(OwnKey { net: self.net, data: data.to_vec() }))
  }
  fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> {
    MEET.here();
    point();
    match self.kind {
      Kind::Empty => Ok(Vec::new()),
      Kind::BadKey => Err(KeyError::InvalidKeySize(1, 2)),
      Kind::Panicky => panic!("key"),
      _ => {
        let mut v = self.net.to_be_bytes().to_vec();
        v.extend(seed.iter().take(8));
        Ok(v)
      }
    }
  }
}
impl Key for OwnKey {
  fn network(&self) -> Network {
    point();
    Network(self.net)
  }
  fn pub_key(&self, path: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
    let mut v = self.data.clone();
    v.extend(bytes(path));
    Ok(v)
  }
  fn sign(&self, data: &[u8], path: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
    MEET.here();
    point();
    let mut v = self.pub_key(path)?;
    v.extend_from_slice(data);
    Ok(v)
  }
  fn verify(&self, data: &[u8], signature: &[u8], path: &dyn KeyPath) -> Result<bool, KeyError> {
    Ok(self.sign(data, path)? == signature)
  }
}

/// Standard factories wrapped so that their callbacks meet too.
pub struct StdNet(pub Box<dyn KeyFactory>, pub usize, pub usize);
impl KeyFactory for StdNet {
  fn network(&self) -> Network {
    point();
    self.0.network()
  }
  fn seed_size(&self) -> SeedSize {
    SeedSize { min: self.1, max: self.2 }
  }
  fn key_from_data(&self, data: &[u8]) -> Result<Box<dyn Key>, KeyError> {
    point();
    self.0.key_from_data(data)
  }
  fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> {
    MEET.here();
    point();
    self.0.key_data_from_seed(seed)
  }
}
pub fn std_factory(net: u32) -> Box<dyn KeyFactory> {
  use keychain::networks::{bitcoin, cardano, ethereum};
  match net {
    0x8000_0000 => Box::new(bitcoin::KeyFactory::new()),
    0x8000_003c => Box::new(ethereum::KeyFactory::new()),
    0x8000_0717 => Box::new(cardano::KeyFactory::new()),
    _ => panic!("script: standard network {:x}", net)
  }
}
