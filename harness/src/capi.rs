//! The same calls through the C interface, as a C client would make them: own declarations of
//! the ABI, outputs prefilled with a pattern, inputs right before an unmapped page.
use crate::calls::{lang, path_of};
use crate::ledger;
use crate::util::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::ffi::c_void;
use std::os::raw::c_char;

extern crate rust_keychain;

#[repr(C)]
#[derive(Clone, Copy)]
struct Data {
  ptr: *const u8,
  len: usize
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Error {
  code: i32,
  message: *const c_char
}
#[repr(C)]
#[derive(Clone, Copy)]
struct BackupElem {
  network: u32,
  data: Data
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Backup {
  ptr: *const BackupElem,
  count: usize
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Handle(*mut c_void);
#[repr(C)]
#[derive(Clone, Copy)]
struct Mnem {
  mnemonic: *const c_char,
  language: i32
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Nets {
  ptr: *const u32,
  count: usize
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Net(u32);
#[repr(C)]
#[derive(Clone, Copy)]
struct KeyPath([u32; 5]);
type Str = *const c_char;

#[allow(improper_ctypes)]
extern "C" {
  fn NETWORK_BITCOIN() -> Net;
  fn NETWORK_CARDANO() -> Net;
  fn NETWORK_ETHEREUM() -> Net;
  fn delete_data(data: *mut Data);
  fn delete_error(error: *mut Error);
  fn delete_key_backup(backup: *mut Backup);
  fn delete_keychain(keychain: *mut Handle);
  fn delete_keychain_manager(manager: *mut Handle);
  fn delete_mnemonic_info(info: *mut Mnem);
  fn delete_networks(networks: *mut Nets);
  fn delete_string(ptr: Str);
  fn keychain_init_library();
  fn keychain_manager_add_network(m: *const Handle, d: *const u8, n: usize, pw: Str, net: Net, out: *mut Data, e: *mut Error) -> bool;
  fn keychain_manager_change_password(m: *const Handle, d: *const u8, n: usize, old: Str, new: Str, out: *mut Data, e: *mut Error) -> bool;
  fn keychain_manager_generate_mnemonic(m: *const Handle, l: i32, out: *mut Str, e: *mut Error) -> bool;
  fn keychain_manager_get_keys_data(m: *const Handle, d: *const u8, n: usize, pw: Str, out: *mut Backup, e: *mut Error) -> bool;
  fn keychain_manager_has_network(m: *const Handle, net: Net, out: *mut u8, e: *mut Error) -> bool;
  fn keychain_manager_keychain_data_from_mnemonic(m: *const Handle, t: Str, pw: Str, l: i32, out: *mut Data, e: *mut Error) -> bool;
  fn keychain_manager_keychain_data_from_seed(m: *const Handle, s: *const u8, n: usize, pw: Str, out: *mut Data, e: *mut Error) -> bool;
  fn keychain_manager_keychain_from_data(m: *const Handle, d: *const u8, n: usize, pw: Str, out: *mut Handle, e: *mut Error) -> bool;
  fn keychain_manager_new(m: *mut Handle, e: *mut Error) -> bool;
  fn keychain_manager_retrieve_mnemonic(m: *const Handle, d: *const u8, n: usize, pw: Str, out: *mut Mnem, e: *mut Error) -> bool;
  fn keychain_networks(k: *const Handle, out: *mut Nets, e: *mut Error) -> bool;
  fn keychain_pub_key(k: *const Handle, net: Net, p: KeyPath, out: *mut Data, e: *mut Error) -> bool;
  fn keychain_sign(k: *const Handle, net: Net, d: *const u8, n: usize, p: KeyPath, out: *mut Data, e: *mut Error) -> bool;
  fn keychain_verify(k: *const Handle, net: Net, d: *const u8, n: usize, s: *const u8, sn: usize, p: KeyPath, out: *mut u8, e: *mut Error) -> bool;
  fn keypath_bitcoin_new_bip44(t: bool, a: u32, c: u32, d: u32, out: *mut KeyPath, e: *mut Error) -> bool;
  fn keypath_bitcoin_new_bip49(t: bool, a: u32, c: u32, d: u32, out: *mut KeyPath, e: *mut Error) -> bool;
  fn keypath_bitcoin_new_bip84(t: bool, a: u32, c: u32, d: u32, out: *mut KeyPath, e: *mut Error) -> bool;
  fn keypath_cardano_new(a: u32, c: u32, d: u32, out: *mut KeyPath, e: *mut Error) -> bool;
  fn keypath_ethereum_new(a: u32, out: *mut KeyPath, e: *mut Error) -> bool;
  fn keypath_ethereum_new_metamask(a: u32, out: *mut KeyPath, e: *mut Error) -> bool;
  fn keypath_from_string(s: Str, out: *mut KeyPath, e: *mut Error) -> bool;
}

const LANG_NAMES: [&str; 8] =
  ["English", "French", "Japanese", "Korean", "ChineseSimplified", "ChineseTraditional", "Italian", "Spanish"];

/// Input bytes which end where the next page begins, and that page cannot be touched.
struct Guarded {
  base: *mut u8,
  total: usize,
  ptr: *mut u8,
  copy: Vec<u8>,
  null: bool
}
impl Guarded {
  fn new(b: &[u8]) -> Self {
    let page = 4096;
    let body = (b.len() + page - 1) / page * page + page;
    let total = body + page;
    unsafe {
      let base = libc::mmap(
        std::ptr::null_mut(),
        total,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
        -1,
        0
      ) as *mut u8;
      libc::mprotect(base.add(body) as *mut _, page, libc::PROT_NONE);
      let ptr = base.add(body - b.len());
      std::ptr::copy_nonoverlapping(b.as_ptr(), ptr, b.len());
      Guarded { base, total, ptr, copy: b.to_vec(), null: b.is_empty() }
    }
  }
  fn text(t: &[u8]) -> Self {
    let mut v = t.to_vec();
    v.push(0);
    Self::new(&v)
  }
  /// empty data comes as a null pointer
  fn p(&self) -> *const u8 {
    if self.null {
      std::ptr::null()
    } else {
      self.ptr
    }
  }
  fn s(&self) -> Str {
    self.ptr as Str
  }
  fn n(&self) -> usize {
    self.copy.len()
  }
  fn changed(&self) -> bool {
    unsafe { std::slice::from_raw_parts(self.ptr, self.copy.len()) != &self.copy[..] }
  }
}
impl Drop for Guarded {
  fn drop(&mut self) {
    unsafe {
      libc::munmap(self.base as *mut _, self.total);
    }
  }
}

const FILL: u8 = 0xA5;
fn blank<T: Copy>() -> T {
  unsafe {
    let mut v = std::mem::MaybeUninit::<T>::uninit();
    std::ptr::write_bytes(v.as_mut_ptr() as *mut u8, FILL, std::mem::size_of::<T>());
    v.assume_init()
  }
}
/// An output parameter; bytes, since moving a structure about need not preserve its padding.
#[repr(C, align(16))]
struct Slot([u8; 64]);
impl Slot {
  fn new() -> Self {
    Slot([FILL; 64])
  }
  fn at<T>(&mut self) -> *mut T {
    self.0.as_mut_ptr() as *mut T
  }
  fn written(&self) -> bool {
    self.0.iter().any(|b| *b != FILL)
  }
  /// written past the end of what belongs there
  fn beyond<T>(&self) -> bool {
    self.0[std::mem::size_of::<T>()..].iter().any(|b| *b != FILL)
  }
}
unsafe fn bytes_of(d: &Data) -> Vec<u8> {
  if d.len == 0 {
    Vec::new()
  } else {
    std::slice::from_raw_parts(d.ptr, d.len).to_vec()
  }
}
unsafe fn text_of(s: Str) -> Vec<u8> {
  std::ffi::CStr::from_ptr(s).to_bytes().to_vec()
}

#[derive(Clone, Copy)]
enum Obj {
  Mgr(Handle),
  Kc(Handle),
  Data(Data),
  Str(Str),
  Nets(Nets),
  Backup(Backup),
  Mnem(Mnem),
  Err(Error)
}

/// What a call gave back through its result parameter.
struct Got {
  val: Value,
  obj: Option<Obj>,
  bytes: Option<Vec<u8>>
}
impl Got {
  fn plain(val: Value) -> Self {
    Got { val, obj: None, bytes: None }
  }
}

#[derive(Default)]
pub struct CWorld {
  mgrs: BTreeMap<String, Handle>,
  kcs: BTreeMap<String, Handle>,
  store: BTreeMap<String, Vec<u8>>,
  objs: BTreeMap<String, Obj>,
  line: usize
}

/// Makes the call with blank outputs and reports on it.
fn make<T: Copy>(
  inputs: &[&Guarded], f: impl Fn(*mut T, *mut Error) -> bool, get: impl FnOnce(&T) -> Got
) -> (Map<String, Value>, Option<Got>, Option<Error>) {
  let (mut out, mut err) = (Slot::new(), Slot::new());
  let (po, pe) = (out.at::<T>(), err.at::<Error>());
  let (ret, acc) = ledger::measured(|| f(po, pe));
  let mut c = Map::new();
  c.insert("ret".into(), json!(ret));
  c.insert("outw".into(), json!(out.written()));
  c.insert("errw".into(), json!(err.written()));
  c.insert("new".into(), json!(acc.new));
  c.insert("freed".into(), json!(acc.freed));
  c.insert("mis".into(), json!(acc.mis));
  c.insert("inmod".into(), json!(inputs.iter().any(|g| g.changed()) || out.beyond::<T>() || err.beyond::<Error>()));
  let got = if ret && out.written() { Some(get(unsafe { &*po })) } else { None };
  let err = if !ret && err.written() { Some(unsafe { *pe }) } else { None };
  (c, got, err)
}

fn ok(v: Value) -> Value {
  Out::Ok(v).json()
}

impl CWorld {
  pub fn init() {
    // the library may set up things on its first panic
    let _ = std::panic::catch_unwind(|| panic!("warm up"));
    unsafe {
      let h = Handle(std::ptr::null_mut());
      let (mut o, mut e): (Nets, Error) = (blank(), blank());
      if !keychain_networks(&h, &mut o, &mut e) {
        delete_error(&mut e);
      }
    }
  }
  pub fn hide() {
    unsafe { keychain_init_library() }
  }

  fn data(&self, a: &A, rust: &[u8]) -> Guarded {
    Guarded::new(self.store.get(a.s("in")).map(|v| &v[..]).unwrap_or(rust))
  }
  fn data_got(&self, d: &Data) -> Got {
    let b = unsafe { bytes_of(d) };
    Got { val: ok(json!({"b": hx(&b)})), obj: Some(Obj::Data(*d)), bytes: Some(b) }
  }

  /// The call through C: its record and its object, or None when it has no C form here.
  pub fn call(&mut self, op: &str, a: &A, rust_data: Option<&[u8]>, rust: &Out) -> Option<Value> {
    self.line += 1;
    if op == "put" {
      self.store.remove(a.s("out"));
      return None;
    }
    let txt = |k: &str| Guarded::text(&a.b(k));
    let plain = |b: &[u8]| Guarded::new(b);
    let m = || self.mgrs.get(a.s("id")).cloned();
    let k = || self.kcs.get(a.s("kc")).cloned();
    let lg = || if a.flag("nolang") { 0 } else { lang(a.s("lang")) as i32 };
    let path = || KeyPath(path_of(a, "p").0);
    let (mut c, got, err) = match op {
      "mgr.new" => {
        if a.s("how") != "all" {
          return None;
        }
        make(&[], |o, e| unsafe { keychain_manager_new(o, e) }, |h: &Handle| Got {
          val: ok(json!({})),
          obj: Some(Obj::Mgr(*h)),
          bytes: None
        })
      }
      "mgr.has" => {
        let (h, net) = (m()?, Net(a.u("net")));
        self.flag(&[], &|o, e| unsafe { keychain_manager_has_network(&h, net, o, e) })
      }
      "net.all" => {
        let v = unsafe { [NETWORK_BITCOIN().0, NETWORK_CARDANO().0, NETWORK_ETHEREUM().0] };
        let mut c = Map::new();
        for (x, y) in [("ret", true), ("outw", true), ("errw", false), ("inmod", false)].iter() {
          c.insert((*x).into(), json!(*y));
        }
        for x in ["new", "freed", "mis"].iter() {
          c.insert((*x).into(), json!(0));
        }
        let v: Vec<String> = v.iter().map(|x| u8x(*x)).collect();
        (c, Some(Got::plain(ok(json!({ "nets": v })))), None)
      }
      "mgr.gen" => {
        let (h, l) = (m()?, lg());
        make(&[], |o, e| unsafe { keychain_manager_generate_mnemonic(&h, l, o, e) }, |s: &Str| Got {
          val: ok(json!({"t": hx(&unsafe { text_of(*s) })})),
          obj: Some(Obj::Str(*s)),
          bytes: None
        })
      }
      "mgr.seed" => {
        let (h, s, pw) = (m()?, plain(&a.b("seed")), txt("pw"));
        make(
          &[&s, &pw],
          |o, e| unsafe { keychain_manager_keychain_data_from_seed(&h, s.p(), s.n(), pw.s(), o, e) },
          |d| self.data_got(d)
        )
      }
      "mgr.mnem" => {
        let (h, t, pw, l) = (m()?, txt("t"), txt("pw"), lg());
        make(
          &[&t, &pw],
          |o, e| unsafe { keychain_manager_keychain_data_from_mnemonic(&h, t.s(), pw.s(), l, o, e) },
          |d| self.data_got(d)
        )
      }
      "mgr.chpw" => {
        let (h, d, x, y) = (m()?, self.data(a, rust_data.unwrap()), txt("pw"), txt("npw"));
        make(
          &[&d, &x, &y],
          |o, e| unsafe { keychain_manager_change_password(&h, d.p(), d.n(), x.s(), y.s(), o, e) },
          |d| self.data_got(d)
        )
      }
      "mgr.add" => {
        let (h, d, x, net) = (m()?, self.data(a, rust_data.unwrap()), txt("pw"), Net(a.u("net")));
        make(
          &[&d, &x],
          |o, e| unsafe { keychain_manager_add_network(&h, d.p(), d.n(), x.s(), net, o, e) },
          |d| self.data_got(d)
        )
      }
      "mgr.open" => {
        let (h, d, x) = (m()?, self.data(a, rust_data.unwrap()), txt("pw"));
        let (c, got, err) = make(
          &[&d, &x],
          |o, e| unsafe { keychain_manager_keychain_from_data(&h, d.p(), d.n(), x.s(), o, e) },
          |h: &Handle| Got { val: json!({}), obj: Some(Obj::Kc(*h)), bytes: None }
        );
        let got = got.map(|mut g| {
          if let Some(Obj::Kc(h)) = g.obj {
            let (mut o, mut e): (Nets, Error) = (blank(), blank());
            unsafe {
              g.val = if keychain_networks(&h, &mut o, &mut e) {
                let v = ok(json!({"nets": nets_of(&o)}));
                delete_networks(&mut o);
                v
              } else {
                delete_error(&mut e);
                json!({"k": "err", "e": "keychain_networks"})
              };
            }
          }
          g
        });
        (c, got, err)
      }
      "mgr.keys" => {
        let (h, d, x) = (m()?, self.data(a, rust_data.unwrap()), txt("pw"));
        make(
          &[&d, &x],
          |o, e| unsafe { keychain_manager_get_keys_data(&h, d.p(), d.n(), x.s(), o, e) },
          |b: &Backup| {
            let v = if b.count == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(b.ptr, b.count) } };
            let keys: Vec<Value> =
              v.iter().map(|x| json!({"n": u8x(x.network), "b": hx(&unsafe { bytes_of(&x.data) })})).collect();
            Got { val: ok(json!({ "keys": keys })), obj: Some(Obj::Backup(*b)), bytes: None }
          }
        )
      }
      "mgr.retr" => {
        let (h, d, x) = (m()?, self.data(a, rust_data.unwrap()), txt("pw"));
        make(
          &[&d, &x],
          |o, e| unsafe { keychain_manager_retrieve_mnemonic(&h, d.p(), d.n(), x.s(), o, e) },
          |i: &Mnem| {
            let l = LANG_NAMES.get(i.language as usize).cloned().unwrap_or("none");
            Got {
              val: ok(json!({"t": hx(&unsafe { text_of(i.mnemonic) }), "lang": l})),
              obj: Some(Obj::Mnem(*i)),
              bytes: None
            }
          }
        )
      }
      "kc.nets" => {
        let h = k()?;
        make(&[], |o, e| unsafe { keychain_networks(&h, o, e) }, |n: &Nets| Got {
          val: ok(json!({"nets": nets_of(n)})),
          obj: Some(Obj::Nets(*n)),
          bytes: None
        })
      }
      "kc.pub" => {
        let (h, net, p) = (k()?, Net(a.u("net")), path());
        make(&[], |o, e| unsafe { keychain_pub_key(&h, net, p, o, e) }, |d| self.data_got(d))
      }
      "kc.sign" => {
        let (h, net, p, msg) = (k()?, Net(a.u("net")), path(), plain(&a.b("m")));
        make(&[&msg], |o, e| unsafe { keychain_sign(&h, net, msg.p(), msg.n(), p, o, e) }, |d| self.data_got(d))
      }
      "kc.verify" => {
        let (h, net, p, msg, s) = (k()?, Net(a.u("net")), path(), plain(&a.b("m")), plain(&a.b("s")));
        self.flag(&[&msg, &s], &|o, e| unsafe {
          keychain_verify(&h, net, msg.p(), msg.n(), s.p(), s.n(), p, o, e)
        })
      }
      "kp.parse" => {
        if a.b("t").contains(&0) {
          return None;
        }
        let t = txt("t");
        make(&[&t], |o, e| unsafe { keypath_from_string(t.s(), o, e) }, |p: &KeyPath| path_got(p, rust))
      }
      "kp.make" => {
        let (t, x, ch, ad) = (a.flag("testnet"), a.u("a"), a.u("c"), a.u("d"));
        let f = a.s("fn").to_owned();
        make(
          &[],
          |o, e| unsafe {
            match &f[..] {
              "btc44" => keypath_bitcoin_new_bip44(t, x, ch, ad, o, e),
              "btc49" => keypath_bitcoin_new_bip49(t, x, ch, ad, o, e),
              "btc84" => keypath_bitcoin_new_bip84(t, x, ch, ad, o, e),
              "eth" => keypath_ethereum_new(x, o, e),
              "ethmm" => keypath_ethereum_new_metamask(x, o, e),
              _ => keypath_cardano_new(x, ch, ad, o, e)
            }
          },
          |p: &KeyPath| path_got(p, rust)
        )
      }
      _ => return None
    };
    let (obj, name) = match &got {
      Some(Got { obj: Some(o), .. }) => {
        let name = match op {
          "mgr.new" => format!("m:{}", a.s("id")),
          "mgr.open" => format!("k:{}", a.s("kc")),
          _ => self.name(a, "o")
        };
        (Some(*o), name)
      }
      _ => (None, String::new())
    };
    c.insert("empty".into(), json!(obj.map_or(false, |o| needs_nothing(&o))));
    c.insert("obj".into(), json!(name.clone()));
    if let Some(o) = obj {
      match o {
        Obj::Mgr(h) => drop(self.mgrs.insert(a.s("id").into(), h)),
        Obj::Kc(h) => drop(self.kcs.insert(a.s("kc").into(), h)),
        _ => {}
      }
      self.objs.insert(name, o);
    }
    let val = match got {
      Some(g) => {
        if let (Some(b), Some(out)) = (g.bytes, a.0["out"].as_str()) {
          self.store.insert(out.into(), b);
        }
        g.val
      }
      None => json!({"k": "err", "e": ""})
    };
    c.insert("val".into(), val);
    self.note_error(a, &mut c, &err);
    Some(Value::Object(c))
  }

  /// The script's name for what comes out, or a number.
  fn name(&self, a: &A, kind: &str) -> String {
    a.0["h"].as_str().map_or_else(|| format!("{}{}", kind, self.line), |h| h.to_owned())
  }

  fn note_error(&mut self, a: &A, c: &mut Map<String, Value>, err: &Option<Error>) {
    if let Some(err) = err {
      let name = self.name(a, "e");
      c.insert("code".into(), json!(err.code));
      c.insert("msg".into(), json!(hx(&unsafe { text_of(err.message) })));
      c.insert("err".into(), json!(name));
      self.objs.insert(name, Obj::Err(*err));
    } else {
      c.insert("code".into(), json!(-2));
      c.insert("msg".into(), json!(""));
      c.insert("err".into(), json!(""));
    }
  }

  /// A call with a boolean result: made with either prefill, to see whether it is written.
  fn flag(
    &self, inputs: &[&Guarded], f: &dyn Fn(*mut u8, *mut Error) -> bool
  ) -> (Map<String, Value>, Option<Got>, Option<Error>) {
    let (mut c, got, err) = make(inputs, |o: *mut u8, e| {
      unsafe { *o = 0 };
      f(o, e)
    }, |b: &u8| Got::plain(json!(*b)));
    let first = got.map(|g| g.val);
    let mut o = 1u8;
    let mut e = Slot::new();
    let again = f(&mut o, e.at());
    if !again && e.written() {
      unsafe { delete_error(&mut *e.at::<Error>()) };
    }
    // on failure the first run left the prefill (0) behind
    let ret = c["ret"] == json!(true);
    let wrote = if ret { first == Some(json!(o)) } else { o != 1 || again };
    c.insert("outw".into(), json!(wrote));
    let got = if ret && wrote && o < 2 { Some(Got::plain(ok(json!({"v": o == 1})))) } else { None };
    (c, got, err)
  }

  pub fn live_objs(&self) -> Vec<String> {
    self.objs.keys().cloned().collect()
  }
  pub fn has_obj(&self, name: &str) -> bool {
    self.objs.contains_key(name)
  }

  /// Gives an object back; tries again when its handle was cleared.
  pub fn delete(&mut self, name: &str) -> Value {
    let mut o = self.objs.remove(name).expect("script: object");
    self.mgrs.retain(|k, _| format!("m:{}", k) != name);
    self.kcs.retain(|k, _| format!("k:{}", k) != name);
    let (_, acc) = ledger::measured(|| unsafe { delete_obj(&mut o) });
    let cleared = match o {
      Obj::Str(_) => true, // passed by value
      _ => needs_clearing(&o)
    };
    let again = if cleared && !is_str(&o) {
      let (_, b) = ledger::measured(|| unsafe { delete_obj(&mut o) });
      b.freed + b.new + b.mis
    } else {
      0
    };
    json!({"freed": acc.freed, "new": acc.new, "mis": acc.mis, "again": again, "cleared": cleared})
  }

  /// Deletes a null object of every kind.
  pub fn delete_null(&mut self, kind: &str) -> Value {
    use std::ptr::{null, null_mut};
    let mut o = match kind {
      "mgr" => Obj::Mgr(Handle(null_mut())),
      "kc" => Obj::Kc(Handle(null_mut())),
      "data" => Obj::Data(Data { ptr: null(), len: 5 }),
      "str" => Obj::Str(null()),
      "nets" => Obj::Nets(Nets { ptr: null(), count: 3 }),
      "backup" => Obj::Backup(Backup { ptr: null(), count: 3 }),
      "mnem" => Obj::Mnem(Mnem { mnemonic: null(), language: 1 }),
      "err" => Obj::Err(Error { code: 3, message: null() }),
      _ => panic!("script: kind {}", kind)
    };
    let (_, acc) = ledger::measured(|| unsafe { delete_obj(&mut o) });
    json!({"freed": acc.freed, "new": acc.new, "mis": acc.mis, "cleared": is_str(&o) || needs_clearing(&o)})
  }

  /// Calls with a null handle or a text that is not UTF-8.
  pub fn bad(&mut self, a: &A, rust_data: &[u8]) -> Value {
    self.line += 1;
    let bad = Guarded::text(b"\xff\xfea");
    // everything else about the call is fine
    let good = Guarded::text(&a.b("pw"));
    let phrase = Guarded::text(
      b"abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"
    );
    let d = if a.s("call") == "mgr.seed" { Guarded::new(&[7; 64]) } else { Guarded::new(rust_data) };
    let null = Handle(std::ptr::null_mut());
    let (h, t, x) = if a.s("how") == "null" {
      (null, &good, &good)
    } else {
      (self.mgrs.get(a.s("id")).cloned().unwrap_or(null), &bad, &good)
    };
    let net = Net(0x8000_0000);
    let p = KeyPath([0x8000_002c, 0x8000_0000, 0x8000_0000, 0, 0]);
    let none = |_: &Data| Got::plain(json!({}));
    let ins = [&bad, &good, &d];
    let (mut c, _, err) = unsafe {
      match a.s("call") {
        "mgr.has" => make(&ins, |o: *mut u8, e| keychain_manager_has_network(&h, net, o, e), |_| Got::plain(json!({}))),
        "mgr.gen" => make(&ins, |o: *mut Str, e| keychain_manager_generate_mnemonic(&h, 0, o, e), |_| Got::plain(json!({}))),
        "mgr.seed" => make(&ins, |o, e| keychain_manager_keychain_data_from_seed(&h, d.p(), d.n(), t.s(), o, e), none),
        "mgr.mnem" => make(&ins, |o, e| keychain_manager_keychain_data_from_mnemonic(&h, if h.0.is_null() { phrase.s() } else { t.s() }, x.s(), 0, o, e), none),
        "mgr.mnem.pw" => make(&ins, |o, e| keychain_manager_keychain_data_from_mnemonic(&h, phrase.s(), t.s(), 0, o, e), none),
        "mgr.open" => make(&ins, |o: *mut Handle, e| keychain_manager_keychain_from_data(&h, d.p(), d.n(), t.s(), o, e), |_| Got::plain(json!({}))),
        "mgr.add" => make(&ins, |o, e| keychain_manager_add_network(&h, d.p(), d.n(), t.s(), net, o, e), none),
        "mgr.chpw" => make(&ins, |o, e| keychain_manager_change_password(&h, d.p(), d.n(), t.s(), x.s(), o, e), none),
        "mgr.chpw.new" => make(&ins, |o, e| keychain_manager_change_password(&h, d.p(), d.n(), x.s(), t.s(), o, e), none),
        "mgr.keys" => make(&ins, |o: *mut Backup, e| keychain_manager_get_keys_data(&h, d.p(), d.n(), t.s(), o, e), |_| Got::plain(json!({}))),
        "mgr.retr" => make(&ins, |o: *mut Mnem, e| keychain_manager_retrieve_mnemonic(&h, d.p(), d.n(), t.s(), o, e), |_| Got::plain(json!({}))),
        "kc.nets" => make(&ins, |o: *mut Nets, e| keychain_networks(&null, o, e), |_| Got::plain(json!({}))),
        "kc.pub" => make(&ins, |o, e| keychain_pub_key(&null, net, p, o, e), none),
        "kc.sign" => make(&ins, |o, e| keychain_sign(&null, net, d.p(), d.n(), p, o, e), none),
        "kc.verify" => make(&ins, |o: *mut u8, e| keychain_verify(&null, net, d.p(), d.n(), d.p(), d.n(), p, o, e), |_| Got::plain(json!({}))),
        "kp.parse" => make(&ins, |o: *mut KeyPath, e| keypath_from_string(bad.s(), o, e), |_| Got::plain(json!({}))),
        x => panic!("script: bad call {}", x)
      }
    };
    self.note_error(a, &mut c, &err);
    Value::Object(c)
  }

  pub fn end(&self) -> Value {
    json!({"live": ledger::live(), "mis": ledger::mismatches()})
  }
}

fn path_got(p: &KeyPath, rust: &Out) -> Got {
  // the text forms have no C counterpart: they are Rust's
  let mut v = rust.json();
  v["k"] = json!("ok");
  v["p"] = json!(p.0.iter().map(|c| u8x(*c)).collect::<Vec<_>>());
  Got::plain(v)
}
fn nets_of(n: &Nets) -> Vec<String> {
  let v = if n.count == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(n.ptr, n.count) } };
  v.iter().map(|x| u8x(*x)).collect()
}
fn is_str(o: &Obj) -> bool {
  match o {
    Obj::Str(_) => true,
    _ => false
  }
}
/// whether the handle is cleared
fn needs_clearing(o: &Obj) -> bool {
  match o {
    Obj::Mgr(h) | Obj::Kc(h) => h.0.is_null(),
    Obj::Data(d) => d.ptr.is_null(),
    Obj::Str(s) => s.is_null(),
    Obj::Nets(n) => n.ptr.is_null(),
    Obj::Backup(b) => b.ptr.is_null(),
    Obj::Mnem(m) => m.mnemonic.is_null(),
    Obj::Err(e) => e.message.is_null()
  }
}
/// objects without content have no block behind them
fn needs_nothing(o: &Obj) -> bool {
  match o {
    Obj::Data(d) => d.len == 0,
    Obj::Nets(n) => n.count == 0,
    Obj::Backup(b) => b.count == 0,
    _ => false
  }
}
unsafe fn delete_obj(o: &mut Obj) {
  match o {
    Obj::Mgr(h) => delete_keychain_manager(h),
    Obj::Kc(h) => delete_keychain(h),
    Obj::Data(d) => delete_data(d),
    Obj::Str(s) => delete_string(*s),
    Obj::Nets(n) => delete_networks(n),
    Obj::Backup(b) => delete_key_backup(b),
    Obj::Mnem(m) => delete_mnemonic_info(m),
    Obj::Err(e) => delete_error(e)
  }
}
