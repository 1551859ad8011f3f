//! Runs a script of calls (one JSON object per line) against the real code and records what
//! happened: driver SCRIPT OUT [--ledger] [--hide]
mod calls;
mod capi;
mod gate;
mod ledger;
mod net;
mod rng;
mod util;
mod wipe;
mod world;

use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::{Arc, Mutex};
use util::*;
use world::{Cell, World};

#[global_allocator]
static ALLOC: ledger::Ledger = ledger::Ledger;

type Refs = Arc<Mutex<HashMap<String, Vec<u8>>>>;

const N: &str = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
const L: &str = "edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010";

/// Applies the transformations of {"ref": name, ...} to recorded bytes.
fn transform(v: &Map<String, Value>, mut b: Vec<u8>) -> Vec<u8> {
  let n = |k: &str| v.get(k).and_then(|x| x.as_u64()).map(|x| x as usize);
  if let Some(bit) = n("flip") {
    if !b.is_empty() {
      let bit = bit % (8 * b.len());
      b[bit / 8] ^= 0x80 >> (bit % 8);
    }
  }
  if let Some(x) = v.get("set").and_then(|x| x.as_array()) {
    let i = x[0].as_u64().unwrap() as usize;
    if i < b.len() {
      b[i] = x[1].as_u64().unwrap() as u8;
    }
  }
  if let Some(x) = v.get("put").and_then(|x| x.as_array()) {
    let (i, p) = (x[0].as_u64().unwrap() as usize, unhx(x[1].as_str().unwrap()));
    for (k, c) in p.iter().enumerate() {
      if i + k < b.len() {
        b[i + k] = *c;
      }
    }
  }
  if v.contains_key("twin") && b.len() >= 64 {
    let (n, mut borrow) = (unhx(N), 0i32);
    for i in (0..32).rev() {
      let d = n[i] as i32 - b[32 + i] as i32 - borrow;
      borrow = (d < 0) as i32;
      b[32 + i] = (d & 255) as u8;
    }
  }
  if v.contains_key("plusl") && b.len() >= 64 {
    let (l, mut carry) = (unhx(L), 0u32);
    for i in 0..32 {
      let s = b[32 + i] as u32 + l[i] as u32 + carry;
      b[32 + i] = s as u8;
      carry = s >> 8;
    }
  }
  if let Some(x) = n("xorlast") {
    if let Some(l) = b.last_mut() {
      *l ^= x as u8;
    }
  }
  if let Some(k) = n("cutl") {
    b = b.split_off(k.min(b.len()));
  }
  if let Some(k) = n("cut") {
    let k = b.len().saturating_sub(k);
    b.truncate(k);
  }
  if let Some(k) = n("len") {
    b.resize(k, 0);
  }
  if let Some(x) = v.get("app").and_then(|x| x.as_str()) {
    b.extend(unhx(x));
  }
  if let Some(x) = v.get("pre").and_then(|x| x.as_str()) {
    let mut p = unhx(x);
    p.extend(b);
    b = p;
  }
  b
}

fn resolve(line: &Value, refs: &Refs) -> Value {
  let mut m = Map::new();
  for (k, v) in line.as_object().expect("script: object") {
    let x = match v {
      Value::Object(o) if o.contains_key("ref") => {
        let name = o["ref"].as_str().unwrap();
        let b = refs.lock().unwrap().get(name).cloned();
        // nothing was made under that name: any bytes do
        json!(hx(&transform(o, b.unwrap_or_default())))
      }
      v => v.clone()
    };
    m.insert(k.clone(), x);
  }
  Value::Object(m)
}

struct Driver {
  w: Cell,
  refs: Refs,
  c: capi::CWorld,
  secrets: wipe::Secrets,
  out: std::fs::File
}

/// Calls on handles that do not exist, because the call that should have made them failed, are left out.
fn ready(ev: &Value, w: &Cell) -> bool {
  let w = w.lock().unwrap();
  let op = ev["op"].as_str().unwrap_or("");
  let has = |k: &str, f: &dyn Fn(&str) -> bool| ev.get(k).and_then(|x| x.as_str()).map_or(true, |n| f(n));
  (op == "mgr.new" || has("id", &|n| w.mgrs.contains_key(n)))
    && has("in", &|n| w.store.contains_key(n))
    && (!op.starts_with("kc.") || has("kc", &|n| w.kcs.contains_key(n)))
}

/// A call through Rust with everything it records.
fn rust_call(ev: &Value, w: &Cell, refs: &Refs) -> (Value, Out) {
  let a = A(ev);
  let op = a.s("op");
  let fail = ev.get("rf").and_then(|x| x.as_u64());
  rng::reset();
  if let Some(n) = fail {
    rng::fail(n as usize);
  }
  if ev.get("feed").is_some() {
    rng::feed(Some((a.b("feed"), a.b("feedt"))));
  }
  let out = calls::run(op, &a).or_else(|| world::run(op, &a, w)).unwrap_or_else(|| panic!("script: op {}", op));
  let (os, rb) = (rng::count(), rng::given());
  rng::fail(0);
  rng::feed(None);
  let mut m = ev.as_object().unwrap().clone();
  let r = out.json();
  for k in ["b", "t", "s", "pt", "d"].iter() {
    if let Some(x) = r.get(*k).and_then(|x| x.as_str()) {
      let name = ev.get("as").or(ev.get("out")).and_then(|x| x.as_str());
      if let Some(n) = name {
        refs.lock().unwrap().insert(n.into(), unhx(x));
      }
      break;
    }
  }
  if op == "put" {
    refs.lock().unwrap().insert(a.s("out").into(), a.b("b"));
  }
  m.insert("r".into(), r);
  m.insert("os".into(), json!(os));
  if os > 0 {
    m.insert("rb".into(), json!(hx(&rb)));
  }
  (Value::Object(m), out)
}

impl Driver {
  fn emit(&mut self, v: &Value) {
    let mut s = serde_json::to_string(v).unwrap();
    s.push('\n');
    self.out.write_all(s.as_bytes()).unwrap();
  }

  fn line(&mut self, script: &Value) {
    let ev = resolve(script, &self.refs);
    let a = A(&ev);
    let op = a.s("op").to_owned();
    if op.starts_with("c.") {
      if op == "c.bad" && !ready(&ev, &self.w) {
        return;
      }
      return self.c_line(&op, &ev);
    }
    if op.starts_with("wipe.") {
      let r = self.secrets.run(&op, &a).expect("script: wipe");
      let mut m = ev.as_object().unwrap().clone();
      for (k, v) in r.as_object().unwrap() {
        m.insert(k.clone(), v.clone());
      }
      m.insert("r".into(), json!({"k": "ok"}));
      return self.emit(&Value::Object(m));
    }
    if op == "reset" {
      *self.w.lock().unwrap() = World::default();
      self.refs.lock().unwrap().clear();
      return self.emit(&json!({"op": "reset", "r": {"k": "ok"}}));
    }
    if op == "par" {
      return self.par(&ev);
    }
    if op == "nest" {
      return self.nest(&ev);
    }
    if op == "sched" {
      return self.sched(&ev);
    }
    if op == "many" {
      return self.many(&ev);
    }
    if !ready(&ev, &self.w) {
      return;
    }
    let (mut ev2, out) = rust_call(&ev, &self.w, &self.refs);
    if a.flag("viac") {
      let data = ev.get("in").and_then(|x| x.as_str()).and_then(|n| {
        self.w.lock().unwrap().store.get(n).cloned()
      });
      ev2.as_object_mut().unwrap().remove("viac");
      rng::reset();
      if let Some(c) = self.c.call(&op, &a, data.as_ref().map(|d| &d[..]), &out) {
        let m = ev2.as_object_mut().unwrap();
        let os = m["os"].as_u64().unwrap() as usize + rng::count();
        m.insert("os".into(), json!(os));
        let rb = format!("{}{}", m.get("rb").and_then(|x| x.as_str()).unwrap_or(""), hx(&rng::given()));
        m.insert("rb".into(), json!(rb));
        m.insert("cx".into(), c);
        let shown = match out {
          Out::Err(_, s) => s,
          _ => String::new()
        };
        m.insert("rm".into(), json!(hx(shown.as_bytes())));
      }
    }
    self.emit(&ev2);
  }

  fn c_line(&mut self, op: &str, ev: &Value) {
    let a = A(ev);
    match op {
      "c.del" => {
        if self.c.has_obj(a.s("obj")) {
          let c = self.c.delete(a.s("obj"));
          self.emit(&json!({"op": "c.del", "obj": a.s("obj"), "cx": c, "r": {"k": "ok"}}));
        }
      }
      "c.delall" => {
        let mut names = self.c.live_objs();
        let key = a.n("order") as u64;
        names.sort_by_key(|n| {
          n.bytes().fold(key, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3).rotate_left(17))
        });
        if let Some(part) = ev.get("part").and_then(|x| x.as_u64()) {
          names.retain(|n| !n.starts_with("m:") && !n.starts_with("k:"));
          names.truncate(part as usize);
        }
        for n in names {
          let c = self.c.delete(&n);
          self.emit(&json!({"op": "c.del", "obj": n, "cx": c, "r": {"k": "ok"}}));
        }
      }
      "c.null" => {
        let c = self.c.delete_null(a.s("kind"));
        self.emit(&json!({"op": "c.null", "kind": a.s("kind"), "cx": c, "r": {"k": "ok"}}));
      }
      "c.bad" => {
        let data = ev.get("in").and_then(|x| x.as_str()).and_then(|n| {
          self.w.lock().unwrap().store.get(n).cloned()
        });
        let c = self.c.bad(&a, data.as_ref().map(|d| &d[..]).unwrap_or(&[1; 70]));
        let mut m = ev.as_object().unwrap().clone();
        m.insert("cx".into(), c);
        m.insert("r".into(), json!({"k": "ok"}));
        self.emit(&Value::Object(m));
      }
      "c.hide" => capi::CWorld::hide(),
      "c.end" => {
        let c = self.c.end();
        self.emit(&json!({"op": "c.end", "cx": c, "r": {"k": "ok"}}));
      }
      _ => panic!("script: op {}", op)
    }
  }

  /// One call made over and over, by several threads: what all of them returned, in one event.
  fn many(&mut self, ev: &Value) {
    let a = A(ev);
    let (n, threads, what) = (a.n("n"), a.n("threads"), a.s("what"));
    if !ready(ev, &self.w) {
      return;
    }
    let m = self.w.lock().unwrap().mgr(&a);
    let m = &m;
    let all: Vec<(Vec<Value>, Option<Out>, usize)> = std::thread::scope(|s| {
      let hs: Vec<_> = (0..threads)
        .map(|_| {
          s.spawn(move || {
            let a = A(ev);
            let (mut vs, mut bad) = (Vec::new(), None);
            rng::reset();
            for _ in 0..n / threads {
              let out = match what {
                "gen" => {
                  call(|| res(m.0.generate_mnemonic(world::opt_lang(&a)), |t| json!({"b": hx(t.as_bytes())})))
                }
                "seed" => {
                  let (seed, pw) = (a.b("seed"), a.t("pw"));
                  call(|| res(m.0.keychain_data_from_seed(&seed, &pw), |b| json!({"b": hx(&b)})))
                }
                w => panic!("script: many {}", w)
              };
              match out {
                Out::Ok(v) => vs.push(v["b"].clone()),
                other => {
                  bad = Some(other);
                  break;
                }
              }
            }
            (vs, bad, rng::count())
          })
        })
        .collect();
      hs.into_iter().map(|h| h.join().expect("script: thread")).collect()
    });
    let (mut bs, mut r, mut os) = (Vec::new(), None, 0);
    for (vs, bad, c) in all {
      bs.extend(vs);
      os += c;
      r = r.or(bad.map(|b| b.json()));
    }
    let mut e = ev.as_object().unwrap().clone();
    e.insert("r".into(), r.unwrap_or_else(|| json!({"k": "ok", "bs": bs})));
    e.insert("os".into(), json!(os));
    self.emit(&Value::Object(e));
  }

  /// Runs a call, and others inside of one of its callbacks.
  fn nest(&mut self, ev: &Value) {
    let outer = resolve(&ev["outer"], &self.refs);
    if !ready(&outer, &self.w) {
      return;
    }
    let made = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
    let (w, refs, to) = (&self.w as *const Cell as usize, self.refs.clone(), made.clone());
    let inner = A(ev).list("inner").clone();
    let go = Box::new(move || {
      let w = unsafe { &*(w as *const Cell) };
      let so_far = rng::swap((0, Vec::new()));
      for line in inner.iter() {
        let ev = resolve(line, &refs);
        if ready(&ev, w) {
          to.borrow_mut().push(rust_call(&ev, w, &refs).0);
        }
      }
      rng::swap(so_far);
    });
    net::inside(Some((A(ev).n("at"), go)));
    let e = rust_call(&outer, &self.w, &self.refs).0;
    net::inside(None);
    let all: Vec<Value> = made.borrow_mut().drain(..).collect();
    for e in all {
      self.emit(&e);
    }
    self.emit(&e);
  }

  /// Runs the threads' calls with the order in which they pass the points where they can be held.
  fn sched(&mut self, ev: &Value) {
    let threads = A(ev).list("threads").clone();
    let order = A(ev).list("order").iter().map(|x| x.as_u64().expect("script: order") as usize).collect();
    gate::GATE.set(order, threads.len());
    let (w, refs) = (&self.w, &self.refs);
    let all: Vec<Vec<Value>> = std::thread::scope(|s| {
      let hs: Vec<_> = threads
        .iter()
        .enumerate()
        .map(|(i, t)| {
          s.spawn(move || {
            rng::reset();
            gate::GATE.enter(i);
            let mut evs: Vec<Value> = Vec::new();
            for line in t.as_array().expect("script: thread").iter() {
              let ev = resolve(line, refs);
              if ready(&ev, w) {
                let (mut e, _) = rust_call(&ev, w, refs);
                e.as_object_mut().unwrap().insert("th".into(), json!(i));
                evs.push(e);
              }
            }
            gate::GATE.leave();
            evs
          })
        })
        .collect();
      hs.into_iter().map(|h| h.join().expect("script: thread")).collect()
    });
    let missed = gate::GATE.clear();
    if std::env::var("DRIVER_PANICS").is_ok() {
      eprintln!("missed {}", missed);
    }
    for evs in all {
      for e in evs {
        self.emit(&e);
      }
    }
  }

  /// Runs the threads' calls side by side. With "times" every thread goes through its calls that often;
  /// of the later rounds only outcomes that differ from those of the first are recorded (so only calls
  /// whose outcome is determined belong there, and all of them must be ready).
  fn par(&mut self, ev: &Value) {
    let threads = A(ev).list("threads").clone();
    let times = ev.get("times").and_then(|x| x.as_u64()).unwrap_or(1);
    net::MEET.expect(threads.len());
    let w = &self.w;
    let refs = &self.refs;
    let start = std::sync::Barrier::new(threads.len());
    let start = &start;
    let all: Vec<Vec<Value>> = std::thread::scope(|s| {
      let hs: Vec<_> = threads
        .iter()
        .enumerate()
        .map(|(i, t)| {
          s.spawn(move || {
            start.wait();
            let mut evs: Vec<Value> = Vec::new();
            let mut others = Vec::new();
            for k in 0..times {
              for (j, line) in t.as_array().expect("script: thread").iter().enumerate() {
                let ev = resolve(line, refs);
                if !ready(&ev, w) {
                  continue;
                }
                let (mut e, _) = rust_call(&ev, w, refs);
                e.as_object_mut().unwrap().insert("th".into(), json!(i));
                if k == 0 {
                  evs.push(e);
                } else if evs[j]["r"] != e["r"] && others.len() < 3 {
                  others.push(e);
                }
              }
            }
            evs.append(&mut others);
            evs
          })
        })
        .collect();
      hs.into_iter().map(|h| h.join().expect("script: thread")).collect()
    });
    net::MEET.expect(0);
    for evs in all {
      for e in evs {
        self.emit(&e);
      }
    }
  }
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if args.iter().any(|a| a == "--ledger") {
    ledger::start();
  }
  std::panic::set_hook(Box::new(|i| {
    let s = i.payload().downcast_ref::<String>().map(|s| &s[..]).or(i.payload().downcast_ref::<&str>().map(|s| *s));
    if s.map_or(false, |s| s.starts_with("script:")) {
      eprintln!("{} at {:?}", s.unwrap(), i.location());
      std::process::exit(3);
    }
    if std::env::var("DRIVER_PANICS").is_ok() {
      eprintln!("{}", i);
    }
  }));
  let script = std::fs::File::open(&args[1]).expect("script");
  let out = std::fs::File::create(&args[2]).expect("out");
  let mut d = Driver {
    w: Mutex::new(World::default()),
    refs: Arc::new(Mutex::new(HashMap::new())),
    c: Default::default(),
    secrets: Default::default(),
    out
  };
  capi::CWorld::init();
  // which line is being executed, for the one who finds the process dead
  let pos = std::fs::File::create(format!("{}.pos", args[2])).expect("pos");
  for (n, line) in std::io::BufReader::new(script).lines().enumerate() {
    let line = line.expect("script");
    std::os::unix::fs::FileExt::write_all_at(&pos, format!("{:010}", n).as_bytes(), 0).expect("pos");
    d.line(&serde_json::from_str(&line).expect("script: JSON"));
  }
}
