//! Histories: the same texts parsed again and again, by several threads at once,
//! each call recorded with a digest of all that it returned.

use crate::json::*;
use crate::err_parts;
use dbml_rs::{parse_dbml, parse_dbml_unchecked};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier};

fn call(text: &str, checked: bool) -> String {
  catch_unwind(AssertUnwindSafe(|| {
    let r = if checked { parse_dbml(text) } else { parse_dbml_unchecked(text) };
    match r {
      Ok(t) => digest(&format!("ok {t:?}")),
      Err(e) => {
        let f = err_parts!(e);
        digest(&format!("err {} {}", f.dbg, f.shown))
      }
    }
  }))
  .unwrap_or_else(|_| s("panic"))
}

struct Rng(u64);
impl Rng {
  fn next(&mut self, n: usize) -> usize {
    self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    ((self.0 >> 33) as usize) % n
  }
}

/// args: threads, calls per thread, seed
pub fn run(docs: Vec<(String, String)>, args: &[String]) {
  let n: usize = args[0].parse().unwrap();
  let calls: usize = args[1].parse().unwrap();
  let seed: u64 = args[2].parse().unwrap();
  let docs = Arc::new(docs);
  let emit = |p: usize, ev: Vec<(usize, bool, String)>| {
    for (k, (d, checked, r)) in ev.into_iter().enumerate() {
      println!(
        "{}",
        obj(vec![
          ("p", p.to_string()),
          ("n", (k + 1).to_string()),
          ("doc", s(&docs[d].0)),
          ("api", s(if checked { "checked" } else { "unchecked" })),
          ("res", r),
        ])
      );
    }
  };
  // alone, in order; backwards; every text twice in a row
  let mut ev = vec![];
  for d in 0..docs.len() {
    for checked in [false, true] {
      ev.push((d, checked, call(&docs[d].1, checked)));
    }
  }
  for d in (0..docs.len()).rev() {
    for checked in [true, false, true] {
      ev.push((d, checked, call(&docs[d].1, checked)));
    }
  }
  emit(0, ev);
  // at once
  let bar = Arc::new(Barrier::new(n));
  let hs: Vec<_> = (0..n)
    .map(|p| {
      let (docs, bar) = (docs.clone(), bar.clone());
      std::thread::spawn(move || {
        let mut r = Rng(seed.wrapping_mul(1000003).wrapping_add(p as u64));
        let mut ev = vec![];
        bar.wait();
        for _ in 0..calls {
          let d = r.next(docs.len());
          let checked = r.next(2) == 0;
          // a copy at another address: the text alone counts
          let copy = format!("{}{}", "x".repeat(r.next(9)), docs[d].1);
          let cut = copy.len() - docs[d].1.len();
          ev.push((d, checked, call(&copy[cut..], checked)));
        }
        ev
      })
    })
    .collect();
  for (p, h) in hs.into_iter().enumerate() {
    match h.join() {
      Ok(ev) => emit(p + 1, ev),
      Err(_) => std::process::exit(4),
    }
  }
}

/// A long life: the same texts in the same process over and over. A call is recorded when it is the first of its
/// kind or returned something else than the one before it; the others are counted.
/// args: rounds
pub fn soak(docs: Vec<(String, String)>, args: &[String]) {
  let rounds: usize = args[0].parse().unwrap();
  let mut last: Vec<[String; 2]> = vec![[String::new(), String::new()]; docs.len()];
  let mut told = vec![[0usize; 2]; docs.len()];
  let mut calls = 0usize;
  for round in 0..rounds {
    for k in 0..docs.len() {
      let d = if round % 2 == 0 { k } else { docs.len() - 1 - k };
      for checked in [round % 3 == 0, round % 3 != 0] {
        let r = call(&docs[d].1, checked);
        calls += 1;
        let c = checked as usize;
        if last[d][c] != r && told[d][c] < 5 {
          told[d][c] += 1;
          println!(
            "{}",
            obj(vec![
              ("p", "0".to_string()),
              ("n", calls.to_string()),
              ("doc", s(&docs[d].0)),
              ("api", s(if checked { "checked" } else { "unchecked" })),
              ("res", r.clone()),
            ])
          );
        }
        last[d][c] = r;
      }
    }
  }
  println!("{}", obj(vec![("calls", calls.to_string())]));
}
