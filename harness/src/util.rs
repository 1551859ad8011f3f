use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn hx(b: &[u8]) -> String {
  let mut s = String::with_capacity(b.len() * 2);
  for x in b {
    s.push(std::char::from_digit((x >> 4) as u32, 16).unwrap());
    s.push(std::char::from_digit((x & 15) as u32, 16).unwrap());
  }
  s
}
pub fn unhx(s: &str) -> Vec<u8> {
  (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("script: hex")).collect()
}
pub fn u8x(n: u32) -> String {
  format!("{:08x}", n)
}

pub struct A<'a>(pub &'a Value);
impl<'a> A<'a> {
  pub fn s(&self, k: &str) -> &'a str {
    self.0[k].as_str().unwrap_or_else(|| panic!("script: {} in {}", k, self.0))
  }
  pub fn b(&self, k: &str) -> Vec<u8> {
    unhx(self.s(k))
  }
  pub fn t(&self, k: &str) -> String {
    String::from_utf8(self.b(k)).expect("script: text")
  }
  pub fn n(&self, k: &str) -> usize {
    self.0[k].as_u64().unwrap_or_else(|| panic!("script: {} in {}", k, self.0)) as usize
  }
  pub fn u(&self, k: &str) -> u32 {
    u32::from_str_radix(self.s(k), 16).expect("script: u32")
  }
  pub fn flag(&self, k: &str) -> bool {
    self.0[k].as_bool().unwrap_or(false)
  }
  pub fn list(&self, k: &str) -> &'a Vec<Value> {
    self.0[k].as_array().unwrap_or_else(|| panic!("script: {} in {}", k, self.0))
  }
  pub fn us(&self, k: &str) -> Vec<u32> {
    self.list(k).iter().map(|v| u32::from_str_radix(v.as_str().unwrap(), 16).unwrap()).collect()
  }
}

/// Outcome of a call: its value's fields, or its error as canonical text and as shown.
pub enum Out {
  Ok(Value),
  Err(String, String),
  Panic
}
impl Out {
  pub fn json(&self) -> Value {
    match self {
      Out::Ok(v) => {
        let mut m = Map::new();
        m.insert("k".into(), json!("ok"));
        if let Value::Object(o) = v {
          for (k, x) in o {
            m.insert(k.clone(), x.clone());
          }
        }
        Value::Object(m)
      }
      Out::Err(e, _) => json!({"k": "err", "e": e}),
      Out::Panic => json!({"k": "panic"})
    }
  }
}
pub fn call<F: FnOnce() -> Out>(f: F) -> Out {
  catch_unwind(AssertUnwindSafe(f)).unwrap_or(Out::Panic)
}
pub fn res<T, E: std::fmt::Debug + std::fmt::Display>(r: Result<T, E>, f: impl FnOnce(T) -> Value) -> Out {
  match r {
    Ok(v) => Out::Ok(f(v)),
    Err(e) => Out::Err(canon(&format!("{:?}", e)), format!("{}", e))
  }
}

/// Debug text of an error in canonical form: no blanks, string literals as x<hex>,
/// without the details of number parsing and JSON errors.
pub fn canon(d: &str) -> String {
  let c: Vec<char> = d.chars().collect();
  let mut out = String::new();
  let mut i = 0;
  while i < c.len() {
    if c[i] == '"' {
      let mut s = String::new();
      i += 1;
      while i < c.len() && c[i] != '"' {
        if c[i] == '\\' {
          i += 1;
          match c[i] {
            'n' => s.push('\n'),
            'r' => s.push('\r'),
            't' => s.push('\t'),
            '0' => s.push('\0'),
            'u' => {
              i += 2;
              let mut v = 0;
              while c[i] != '}' {
                v = v * 16 + c[i].to_digit(16).unwrap();
                i += 1;
              }
              s.push(std::char::from_u32(v).unwrap());
            }
            x => s.push(x)
          }
        } else {
          s.push(c[i]);
        }
        i += 1;
      }
      out.push('x');
      out.push_str(&hx(s.as_bytes()));
    } else if !c[i].is_whitespace() {
      out.push(c[i]);
    }
    i += 1;
  }
  if out.starts_with("ParseErrorAtIndex(") {
    if let Some(p) = out.find(',') {
      out.truncate(p);
      out.push(')');
    }
  }
  if out.starts_with("DataError") {
    out.truncate(9);
  }
  out
}
