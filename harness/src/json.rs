//! JSON text, written by hand: the harness has no dependency but the library.

pub fn s(t: &str) -> String {
  let mut o = String::with_capacity(t.len() + 2);
  o.push('"');
  for c in t.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (' '..='~').contains(&c) => o.push(c),
      c => {
        // plain ASCII, whatever the locale of the reader: UTF-16 units
        for u in c.encode_utf16(&mut [0; 2]) {
          o.push_str(&format!("\\u{u:04x}"))
        }
      }
    }
  }
  o.push('"');
  o
}

pub fn list(items: Vec<String>) -> String {
  format!("[{}]", items.join(","))
}

pub fn opt(x: Option<String>) -> String {
  list(x.into_iter().collect())
}

pub fn obj(fields: Vec<(&str, String)>) -> String {
  let v: Vec<_> = fields.into_iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
  format!("{{{}}}", v.join(","))
}

pub fn digest(t: &str) -> String {
  // two independent 64-bit hashes of the whole text
  let (mut a, mut b) = (0xcbf29ce484222325u64, 0x9e3779b97f4a7c15u64);
  for x in t.bytes() {
    a = (a ^ x as u64).wrapping_mul(0x100000001b3);
    b = (b.rotate_left(7) ^ x as u64).wrapping_mul(0xff51afd7ed558ccd);
  }
  format!("\"{a:016x}{b:016x}\"")
}
