//! Calls which keep no state.
use crate::net::{comps, Path};
use crate::util::*;
use bip39::dictionary::{DefaultDictionary, Language as Dict};
use bip39::util::{bits, hex};
use bip39::{Entropy, MnemonicIndex, MnemonicString, Mnemonics, Seed, Type};
use keychain::{crypt, GenericKeyPath, Language, Network};
use secp256k1_bip32::XPrv;
use serde_json::{json, Value};
use std::cell::RefCell;

pub const LANGS: [(&str, Language); 8] = [
  ("English", Language::English),
  ("French", Language::French),
  ("Japanese", Language::Japanese),
  ("Korean", Language::Korean),
  ("ChineseSimplified", Language::ChineseSimplified),
  ("ChineseTraditional", Language::ChineseTraditional),
  ("Italian", Language::Italian),
  ("Spanish", Language::Spanish)
];
pub fn lang(s: &str) -> Language {
  LANGS.iter().find(|x| x.0 == s).unwrap_or_else(|| panic!("script: language {}", s)).1
}
pub fn lang_name(l: Language) -> &'static str {
  LANGS.iter().find(|x| x.1 == l).unwrap().0
}
fn dict(a: &A) -> &'static DefaultDictionary {
  lang(a.s("lang")).to_dict()
}
fn words(m: &Mnemonics) -> Vec<u16> {
  m.as_ref().iter().map(|i| i.0).collect()
}

/// Entropy source with bytes of our choice: counting, so that every byte drawn is different
/// from the 255 before, or fixed.
pub struct Given {
  next: RefCell<u8>,
  pub drawn: RefCell<Vec<u8>>
}
impl Given {
  pub fn new(start: u8) -> Self {
    Given { next: RefCell::new(start), drawn: RefCell::new(Vec::new()) }
  }
}
impl keychain::Entropy for Given {
  fn fill_bytes(&self, into: &mut [u8]) {
    for b in into.iter_mut() {
      *b = *self.next.borrow();
      *self.next.borrow_mut() = b.wrapping_add(1);
      self.drawn.borrow_mut().push(*b);
    }
  }
}

fn type_info(t: Type) -> Value {
  json!({"words": t.mnemonic_count(), "bits": t.to_key_size(), "cs": t.checksum_size_bits(), "t": t.to_string()})
}

pub fn make_path(a: &A) -> Result<[u32; 5], keychain::Error> {
  use keychain::networks::{bitcoin, cardano, ethereum};
  let (t, x, c, d) = (a.flag("testnet"), a.u("a"), a.u("c"), a.u("d"));
  let e = |e| keychain::Error::from(e);
  match a.s("fn") {
    "btc44" => bitcoin::KeyPath::bip44(t, x, c, d).map(|p| comps(&p)).map_err(e),
    "btc49" => bitcoin::KeyPath::bip49(t, x, c, d).map(|p| comps(&p)).map_err(e),
    "btc84" => bitcoin::KeyPath::bip84(t, x, c, d).map(|p| comps(&p)).map_err(e),
    "eth" => ethereum::KeyPath::new(x).map(|p| comps(&p)).map_err(e),
    "ethmm" => ethereum::KeyPath::new_metamask(x).map(|p| comps(&p)).map_err(e),
    "ada" => cardano::KeyPath::new(x, c, d).map(|p| comps(&p)).map_err(e),
    f => panic!("script: constructor {}", f)
  }
}
/// Key path errors are shown without the wrapping the C interface needs.
fn path_err(e: keychain::Error) -> Out {
  let d = canon(&format!("{:?}", e));
  let inner = match e {
    keychain::Error::KeyPathError(ref x) => canon(&format!("{:?}", x)),
    _ => d
  };
  Out::Err(inner, format!("{}", e))
}
fn path_json(p: &[u32; 5]) -> Value {
  json!(p.iter().map(|c| u8x(*c)).collect::<Vec<_>>())
}

pub fn run(op: &str, a: &A) -> Option<Out> {
  let ok = Out::Ok;
  let out = match op {
    "ent.from" => call(|| {
      let b = a.b("b");
      res(Entropy::from_slice(&b), |e| {
        let m = e.to_mnemonics();
        json!({"w": words(&m), "cs": e.checksum(), "b": hx(e.as_ref()), "n": e.get_type().mnemonic_count()})
      })
    }),
    "words.ent" => call(|| {
      let ws: Result<Vec<MnemonicIndex>, bip39::Error> =
        a.list("w").iter().map(|v| MnemonicIndex::new(v.as_u64().unwrap() as u16)).collect();
      res(
        ws.and_then(Mnemonics::from_mnemonics).and_then(|m| Entropy::from_mnemonics(&m)),
        |e| json!({"b": hx(e.as_ref())})
      )
    }),
    "phrase.make" => call(|| {
      let m = Entropy::from_slice(&a.b("b")).unwrap().to_mnemonics();
      ok(json!({"t": hx(m.to_string(dict(a)).as_bytes())}))
    }),
    "phrase.parse" => call(|| {
      let t = a.t("t");
      res(Mnemonics::from_string(dict(a), &t), |m| {
        json!({"w": words(&m), "t": hx(m.to_string(dict(a)).as_bytes())})
      })
    }),
    "phrase.seed" => call(|| {
      let pass = a.b("pass");
      res(MnemonicString::new(dict(a), a.t("t")), |s| {
        json!({"b": hx(Seed::from_mnemonic_string(&s, &pass).as_ref())})
      })
    }),
    "seed.from" => call(|| res(Seed::from_slice(&a.b("b")), |s| json!({"b": hx(s.as_ref())}))),
    "type.words" => call(|| res(Type::from_word_count(a.n("n")), type_info)),
    "type.bits" => call(|| res(Type::from_entropy_size(a.n("n")), type_info)),
    "type.str" => call(|| res(a.t("t").parse::<Type>(), type_info)),
    "dict.word" => call(|| {
      res(dict(a).lookup_word(MnemonicIndex(a.n("i") as u16)), |w| json!({"t": hx(w.as_bytes())}))
    }),
    "dict.index" => call(|| res(dict(a).lookup_mnemonic(&a.t("t")), |i| json!({"i": i.0}))),
    "dict.info" => call(|| {
      let d = dict(a);
      let n = (0..4096u32).filter(|i| d.lookup_word(MnemonicIndex(*i as u16)).is_ok()).count();
      ok(json!({"name": d.name(), "sep": hx(d.separator().as_bytes()), "count": n}))
    }),
    "dict.all" => call(|| {
      let w: Vec<String> =
        (0..2048).map(|i| hx(dict(a).lookup_word(MnemonicIndex(i)).unwrap().as_bytes())).collect();
      ok(json!({"words": w}))
    }),
    "ent.gen" => call(|| {
      let t = Type::from_word_count(a.n("n")).unwrap();
      let fill = a.b("fill");
      let e = Entropy::generate(t, |b| b.copy_from_slice(&fill));
      ok(json!({"b": hx(e.as_ref())}))
    }),
    "bits.write" => call(|| {
      let mut w = bits::BitWriterBy11::new();
      for v in a.list("v") {
        w.write(v.as_u64().unwrap() as u16);
      }
      ok(json!({"b": hx(&w.to_bytes())}))
    }),
    "bits.read" => call(|| {
      let b = a.b("b");
      let mut r = bits::BitReaderBy11::new(&b);
      let (mut v, mut s) = (Vec::new(), vec![r.size()]);
      while r.size() > 0 && v.len() <= b.len() {
        v.push(r.read());
        s.push(r.size());
      }
      ok(json!({"v": v, "s": s}))
    }),
    "hex.enc" => call(|| ok(json!({"t": hx(hex::encode(&a.b("b")).as_bytes())}))),
    "hex.dec" => call(|| res(hex::decode(&a.t("t")), |b| json!({"b": hx(&b)}))),

    "xprv.seed" => call(|| {
      let s = Seed::from_slice(&a.b("seed")).unwrap();
      res(XPrv::from_seed(&s), |k| json!({"d": hx(&k.serialize()), "p": hx(&k.public().serialize())}))
    }),
    "xprv.load" => call(|| {
      res(XPrv::from_data(&a.b("d")), |k| {
        let p = k.public();
        json!({"d": hx(&k.serialize()), "p": hx(&p.serialize()), "pc": hx(&p.serialize_compressed()),
               "h": hx(&p.sha256()), "hc": hx(&p.compressed_sha256())})
      })
    }),
    "xprv.derive" => call(|| {
      let mut chain = Vec::new();
      let mut k = XPrv::from_data(&a.b("d"));
      for i in a.us("path") {
        k = k.and_then(|k| k.derive(i));
        if let Ok(ref k) = k {
          chain.push(hx(&k.serialize()));
        }
      }
      res(k, |_| json!({ "chain": chain }))
    }),
    "xprv.sign" => call(|| {
      res(XPrv::from_data(&a.b("d")).and_then(|k| k.sign(&a.b("m"))), |s| json!({"s": hx(&s)}))
    }),
    "xprv.verify" => call(|| {
      res(
        XPrv::from_data(&a.b("d")).and_then(|k| k.public().verify(&a.b("m"), &a.b("s"))),
        |v| json!({ "v": v })
      )
    }),

    "kp.parse" => call(|| match GenericKeyPath::from(&a.t("t")) {
      Err(e) => path_err(e.into()),
      Ok(p) => {
        let t = p.to_string();
        let q = GenericKeyPath::from(&t);
        let (p2, t2) = match q {
          Ok(q) => (path_json(&comps(&q)), q.to_string()),
          Err(e) => (json!([]), format!("{:?}", e))
        };
        ok(json!({"p": path_json(&comps(&p)), "t": hx(t.as_bytes()), "p2": p2, "t2": hx(t2.as_bytes())}))
      }
    }),
    "kp.make" => call(|| match make_path(a) {
      Err(e) => path_err(e),
      Ok(p) => ok(json!({ "p": path_json(&p) }))
    }),

    "seal" => call(|| {
      let (pw, pt) = (a.t("pw"), a.b("pt"));
      if a.flag("custom") {
        let g = Given::new(a.n("start") as u8);
        let b = crypt::encrypt(&pt, &pw, &g);
        let dr = hx(&g.drawn.borrow());
        ok(json!({"b": hx(&b), "dr": dr}))
      } else {
        ok(json!({"b": hx(&crypt::encrypt(&pt, &pw, &keychain::OsEntropy::new())), "dr": ""}))
      }
    }),
    "open" => call(|| res(crypt::decrypt(&a.b("b"), &a.t("pw")), |p| json!({"pt": hx(&p)}))),

    "net.all" => call(|| ok(json!({"nets": Network::all().iter().map(|n| u8x(n.0)).collect::<Vec<_>>()}))),
    "fac.key" => call(|| {
      let f = crate::net::std_factory(a.u("net"));
      res(f.key_data_from_seed(&a.b("seed")), |b| json!({"b": hx(&b)}))
    }),
    "fac.load" => call(|| {
      let f = crate::net::std_factory(a.u("net"));
      res(f.key_from_data(&a.b("b")), |k| json!({"net": u8x(k.network().0)}))
    }),
    _ => return None
  };
  Some(out)
}

pub fn path_of(a: &A, k: &str) -> Path {
  let v = a.us(k);
  Path([v[0], v[1], v[2], v[3], v[4]], a.0["boom"].as_u64().unwrap_or(0) as usize)
}
