//! Runs the library on texts and records what it did, one JSON line per text.

mod hist;
mod json;
mod probe;
mod project;
#[cfg(dbml_verif)]
mod relq;

use dbml_rs::ast::*;
use dbml_rs::{parse_dbml, parse_dbml_unchecked};
use json::*;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// An error of either parse: its text, its place and its printed form.
macro_rules! err_parts {
  ($e:expr) => {{
    let e = $e;
    let dbg = format!("{:?}", e);
    let (a, b) = crate::err_range(&format!("{:?}", e.location));
    // variants are told apart by their debug form: the rule type has no public name
    let v = format!("{:?}", e.variant);
    let custom = v.starts_with("CustomError");
    let msg = e.variant.message().to_string();
    crate::Fault { dbg, a, b, custom, msg, shown: format!("{e}") }
  }};
}
pub(crate) use err_parts;

pub struct Fault {
  pub dbg: String,
  pub a: usize,
  pub b: usize,
  pub custom: bool,
  pub msg: String,
  pub shown: String,
}

pub fn err_range(loc: &str) -> (usize, usize) {
  let n: Vec<usize> = loc
    .split(|c: char| !c.is_ascii_digit())
    .filter(|x| !x.is_empty())
    .map(|x| x.parse().unwrap())
    .collect();
  match n.len() {
    1 => (n[0], n[0]),
    _ => (n[0], n[1]),
  }
}

fn fault(f: &Fault, off: &project::Offsets) -> String {
  obj(vec![
    ("s", off.at(f.a).to_string()),
    ("e", off.at(f.b).to_string()),
    ("custom", f.custom.to_string()),
    ("msg", s(&f.msg)),
    ("shown", (f.shown.len() > 0).to_string()),
  ])
}

fn positions<T>(all: &[TopLevelBlock], got: Vec<&T>, of: impl Fn(&TopLevelBlock) -> Option<*const T>) -> String {
  list(
    got
      .into_iter()
      .map(|g| {
        all
          .iter()
          .position(|b| of(b) == Some(g as *const T))
          .map(|k| k as i64 + 1)
          .unwrap_or(0)
          .to_string()
      })
      .collect(),
  )
}

/// Which parts of a tree are recorded.
#[derive(Clone, Copy)]
struct What {
  tree: bool,
  content: bool,
  spans: bool,
}

fn tree(t: &SchemaBlock, text: &str, off: &project::Offsets, what: What) -> Vec<(&'static str, String)> {
  let b = &t.blocks;
  vec![
    (
      "blocks",
      list(
        b.iter()
          .map(|x| {
            let mut f = vec![];
            if what.content {
              f.push(("c", project::content(x)));
            }
            if what.spans {
              f.push(("s", project::Spans::new(off).block(x)));
            }
            f.push(("k", s(project::kind(x))));
            obj(f)
          })
          .collect(),
      ),
    ),
    (
      "span",
      list(vec![
        off.at(t.span_range.start).to_string(),
        off.at(t.span_range.end).to_string(),
      ]),
    ),
    ("input", (t.input == text).to_string()),
    (
      "acc",
      obj(vec![
        (
          "project",
          positions(b, t.projects(), |x| match x {
            TopLevelBlock::Project(p) => Some(p as *const _),
            _ => None,
          }),
        ),
        (
          "table",
          positions(b, t.tables(), |x| match x {
            TopLevelBlock::Table(p) => Some(p as *const _),
            _ => None,
          }),
        ),
        (
          "group",
          positions(b, t.table_groups(), |x| match x {
            TopLevelBlock::TableGroup(p) => Some(p as *const _),
            _ => None,
          }),
        ),
        (
          "ref",
          positions(b, t.refs(), |x| match x {
            TopLevelBlock::Ref(p) => Some(p as *const _),
            _ => None,
          }),
        ),
        (
          "enum",
          positions(b, t.enums(), |x| match x {
            TopLevelBlock::Enum(p) => Some(p as *const _),
            _ => None,
          }),
        ),
      ]),
    ),
  ]
}

/// Both parses of one text.
fn record(id: &str, text: &str, what: What) -> String {
  let off = project::Offsets::new(text);
  let mut dig_u = String::new();
  let u = catch_unwind(AssertUnwindSafe(|| match parse_dbml_unchecked(text) {
    Ok(t) => {
      let d = digest(&format!("ok {t:?}"));
      let mut f = vec![("st", s("ok")), ("dig", d.clone())];
      if what.tree {
        f.extend(tree(&t, text, &off, what));
      }
      (obj(f), d)
    }
    Err(e) => {
      let f = err_parts!(e);
      let d = digest(&format!("err {}", f.dbg));
      (obj(vec![("st", s("err")), ("dig", d.clone()), ("err", fault(&f, &off))]), d)
    }
  }));
  let u = match u {
    Ok((x, d)) => {
      dig_u = d;
      x
    }
    Err(_) => obj(vec![("st", s("panic"))]),
  };
  let _ = dig_u;
  let c = catch_unwind(AssertUnwindSafe(|| match parse_dbml(text) {
    Ok(t) => obj(vec![("st", s("ok")), ("dig", digest(&format!("ok {t:?}")))]),
    Err(e) => {
      let f = err_parts!(e);
      obj(vec![
        ("st", s("err")),
        ("dig", digest(&format!("err {}", f.dbg))),
        ("err", fault(&f, &off)),
      ])
    }
  }))
  .unwrap_or_else(|_| obj(vec![("st", s("panic"))]));
  // positions (1-based, UTF-16) of the second halves of surrogate pairs
  let mut low = vec![];
  let mut n = 0usize;
  for ch in text.chars() {
    n += ch.len_utf16();
    if ch.len_utf16() == 2 {
      low.push(n.to_string());
    }
  }
  obj(vec![
    ("id", s(id)),
    ("txt", s(text)),
    ("low", list(low)),
    ("u", u),
    ("c", c),
  ])
}

/// Texts framed as "ID LEN\n<LEN bytes>\n".
pub fn frames(data: &[u8]) -> Vec<(String, String)> {
  let mut out = vec![];
  let mut i = 0;
  while i < data.len() {
    let j = i + data[i..].iter().position(|b| *b == b'\n').expect("frame header");
    let head = std::str::from_utf8(&data[i..j]).expect("frame header");
    let (id, len) = head.split_once(' ').expect("frame header");
    let len: usize = len.parse().expect("frame length");
    let text = std::str::from_utf8(&data[j + 1..j + 1 + len]).expect("UTF-8").to_string();
    out.push((id.to_string(), text));
    i = j + 1 + len + 1;
  }
  out
}

fn what(mode: &str) -> What {
  What {
    tree: mode != "outcome",
    content: mode == "run" || mode == "content",
    spans: mode == "run" || mode == "spans",
  }
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let mode = args.get(1).map(|x| x.as_str()).unwrap_or("run");
  std::panic::set_hook(Box::new(|_| {}));
  let mut data = vec![];
  std::io::stdin().read_to_end(&mut data).unwrap();
  match mode {
    "run" | "content" | "spans" | "outcome" => run(frames(&data), what(mode), args.get(2).map(|x| x.parse().unwrap()).unwrap_or(20)),
    "hist" => hist::run(frames(&data), &args[2..]),
    "soak" => hist::soak(frames(&data), &args[2..]),
    "probe" => probe::run(frames(&data)),
    #[cfg(dbml_verif)]
    "relq" => relq::run(frames(&data)),
    _ => {
      eprintln!("unknown mode {mode}");
      std::process::exit(2)
    }
  }
}

/// One line per text, in order. A text that takes longer than `limit` seconds ends the process with
/// code 3 after a line saying so; the driver goes on behind it.
fn run(docs: Vec<(String, String)>, what: What, limit: u64) {
  static STARTED: AtomicU64 = AtomicU64::new(0);
  static CURRENT: Mutex<String> = Mutex::new(String::new());
  let t0 = Instant::now();
  std::thread::spawn(move || loop {
    std::thread::sleep(Duration::from_millis(200));
    let b = STARTED.load(Ordering::SeqCst);
    if b != 0 && t0.elapsed().as_millis() as u64 > b + limit * 1000 {
      let cur = CURRENT.lock().unwrap();
      println!("{cur}");
      std::io::stdout().flush().unwrap();
      std::process::exit(3);
    }
  });
  let work = move || {
    for (id, text) in docs {
      *CURRENT.lock().unwrap() = obj(vec![
        ("id", s(&id)),
        ("txt", s(&text)),
        ("low", "[]".into()),
        ("u", obj(vec![("st", s("hang"))])),
        ("c", obj(vec![("st", s("hang"))])),
      ]);
      STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
      let line = record(&id, &text, what);
      STARTED.store(0, Ordering::SeqCst);
      println!("{line}");
    }
    std::io::stdout().flush().unwrap();
  };
  // the stack a program's spawned threads get by default
  std::thread::Builder::new()
    .stack_size(2 << 20)
    .spawn(work)
    .unwrap()
    .join()
    .unwrap();
}
