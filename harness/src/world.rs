//! Managers, keychain data and keychains under handles, driven through Rust.
use crate::calls::{lang, lang_name, path_of};
use crate::net::{kind, std_factory, Kind, Own, StdNet};
use crate::util::*;
use keychain::{KeyFactory, Keychain, KeychainManager, Language, Network};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// The library does not mark its types as shareable between threads, but its C interface
/// shares them all the same.
pub struct Shared<T>(pub T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

#[derive(Clone, Default)]
pub struct World {
  pub mgrs: HashMap<String, Arc<Shared<KeychainManager>>>,
  pub store: HashMap<String, Arc<Vec<u8>>>,
  pub kcs: HashMap<String, Arc<Shared<Keychain>>>
}
pub type Cell = Mutex<World>;

impl World {
  pub fn mgr(&self, a: &A) -> Arc<Shared<KeychainManager>> {
    self.mgrs.get(a.s("id")).unwrap_or_else(|| panic!("script: manager {}", a.0)).clone()
  }
  pub fn data(&self, a: &A) -> Arc<Vec<u8>> {
    self.store.get(a.s("in")).unwrap_or_else(|| panic!("script: data {}", a.0)).clone()
  }
  pub fn kc(&self, a: &A) -> Arc<Shared<Keychain>> {
    self.kcs.get(a.s("kc")).unwrap_or_else(|| panic!("script: keychain {}", a.0)).clone()
  }
}

/// language argument: absent stands for the default
pub fn opt_lang(a: &A) -> Option<Language> {
  if a.flag("nolang") {
    None
  } else {
    Some(lang(a.s("lang")))
  }
}

pub fn new_manager(a: &A) -> Result<KeychainManager, keychain::Error> {
  match a.s("how") {
    "all" => KeychainManager::new(),
    "nets" => {
      let nets: Vec<Network> = a.us("nets").into_iter().map(Network).collect();
      KeychainManager::with_networks(&nets)
    }
    "facts" => {
      let fs: Vec<Box<dyn KeyFactory>> = a
        .list("f")
        .iter()
        .map(|v| -> Box<dyn KeyFactory> {
          let f = A(v);
          let (net, min, max) = (f.u("net"), f.n("min"), f.n("max"));
          match kind(f.s("kind")) {
            Kind::Std => Box::new(StdNet(std_factory(net), min, max)),
            kind => Box::new(Own { net, min, max, kind })
          }
        })
        .collect();
      KeychainManager::with_factories(fs)
    }
    h => panic!("script: how {}", h)
  }
}

fn nets(v: Vec<Network>) -> Value {
  json!(v.into_iter().map(|n| u8x(n.0)).collect::<Vec<_>>())
}

/// Runs the call; what it makes goes into the world under the handle asked for.
pub fn run(op: &str, a: &A, w: &Cell) -> Option<Out> {
  let look = || w.lock().unwrap().clone();
  let put = |b: Vec<u8>| {
    let h = hx(&b);
    w.lock().unwrap().store.insert(a.s("out").to_owned(), Arc::new(b));
    json!({ "b": h })
  };
  let out = match op {
    "mgr.new" => call(|| {
      res(new_manager(a), |m| {
        w.lock().unwrap().mgrs.insert(a.s("id").to_owned(), Arc::new(Shared(m)));
        json!({})
      })
    }),
    "mgr.has" => {
      let m = look().mgr(a);
      call(|| Out::Ok(json!({"v": m.0.has_network(&Network(a.u("net")))})))
    }
    "mgr.fac" => {
      let m = look().mgr(a);
      call(|| {
        Out::Ok(match m.0.get_key_factory(&Network(a.u("net"))) {
          None => json!({"has": false}),
          Some(f) => {
            let s = f.seed_size();
            json!({"has": true, "net": u8x(f.network().0), "min": s.min, "max": s.max,
                   "minw": s.min_words(), "maxw": s.max_words()})
          }
        })
      })
    }
    "mgr.gen" => {
      let m = look().mgr(a);
      call(|| res(m.0.generate_mnemonic(opt_lang(a)), |t| json!({"t": hx(t.as_bytes())})))
    }
    "mgr.seed" => {
      let m = look().mgr(a);
      let (seed, pw) = (a.b("seed"), a.t("pw"));
      call(|| res(m.0.keychain_data_from_seed(&seed, &pw), put))
    }
    "mgr.mnem" => {
      let m = look().mgr(a);
      let (t, pw) = (a.t("t"), a.t("pw"));
      call(|| res(m.0.keychain_data_from_mnemonic(&t, &pw, opt_lang(a)), put))
    }
    "mgr.chpw" => {
      let (m, d) = (look().mgr(a), look().data(a));
      let (pw, npw) = (a.t("pw"), a.t("npw"));
      call(|| res(m.0.change_password(&d, &pw, &npw), put))
    }
    "mgr.add" => {
      let (m, d) = (look().mgr(a), look().data(a));
      let pw = a.t("pw");
      call(|| res(m.0.add_network(&d, &pw, Network(a.u("net"))), put))
    }
    "mgr.open" => {
      let (m, d) = (look().mgr(a), look().data(a));
      let pw = a.t("pw");
      call(|| {
        res(m.0.keychain_from_data(&d, &pw), |k| {
          let n = nets(k.networks());
          w.lock().unwrap().kcs.insert(a.s("kc").to_owned(), Arc::new(Shared(k)));
          json!({ "nets": n })
        })
      })
    }
    "mgr.keys" => {
      let (m, d) = (look().mgr(a), look().data(a));
      let pw = a.t("pw");
      call(|| {
        res(m.0.get_keys_data(&d, &pw), |v| {
          json!({"keys": v.iter().map(|(n, b)| json!({"n": u8x(n.0), "b": hx(b)})).collect::<Vec<_>>()})
        })
      })
    }
    "mgr.retr" => {
      let (m, d) = (look().mgr(a), look().data(a));
      let pw = a.t("pw");
      call(|| {
        res(m.0.retrieve_mnemonic(&d, &pw), |(t, l)| json!({"t": hx(t.as_bytes()), "lang": lang_name(l)}))
      })
    }
    "put" => {
      w.lock().unwrap().store.insert(a.s("out").to_owned(), Arc::new(a.b("b")));
      Out::Ok(json!({}))
    }
    "kc.nets" => {
      let k = look().kc(a);
      call(|| Out::Ok(json!({"nets": nets(k.0.networks())})))
    }
    "kc.has" => {
      let k = look().kc(a);
      call(|| Out::Ok(json!({"v": k.0.has_network(&Network(a.u("net")))})))
    }
    "kc.pub" => {
      let k = look().kc(a);
      let p = path_of(a, "p");
      call(|| res(k.0.pub_key(&Network(a.u("net")), &p), |b| json!({"b": hx(&b)})))
    }
    "kc.sign" => {
      let k = look().kc(a);
      let (p, m) = (path_of(a, "p"), a.b("m"));
      call(|| res(k.0.sign(&Network(a.u("net")), &m, &p), |b| json!({"b": hx(&b)})))
    }
    "kc.verify" => {
      let k = look().kc(a);
      let (p, m, s) = (path_of(a, "p"), a.b("m"), a.b("s"));
      call(|| res(k.0.verify(&Network(a.u("net")), &m, &s, &p), |v| json!({ "v": v })))
    }
    _ => return None
  };
  Some(out)
}
