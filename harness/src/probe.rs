//! The public text forms: what is read from a text, what is printed.

use crate::json::*;
use dbml_rs::ast::*;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

fn dbg<T: Debug, E>(r: Result<T, E>) -> String {
  opt(r.ok().map(|x| s(&format!("{x:?}"))))
}
fn shown(v: Value) -> String {
  opt(Some(s(&v.to_string())))
}

pub fn run(docs: Vec<(String, String)>) {
  for (kind, t) in docs {
    let out = catch_unwind(AssertUnwindSafe(|| match kind.as_str() {
      "type" => dbg(ColumnTypeName::from_str(&t)),
      "relation" => dbg(Relation::from_str(&t)),
      "action" => dbg(ReferentialAction::from_str(&t)),
      "action-print" => opt(ReferentialAction::from_str(&t).ok().map(|a| s(&a.to_string()))),
      "index" => dbg(IndexesType::from_str(&t)),
      "db" => opt(DatabaseType::from_str(&t).ok().map(|d| {
        s(&match d {
          DatabaseType::PostgreSQL => "P".to_string(),
          DatabaseType::Unknown(x) => format!("U:{x}"),
        })
      })),
      "value" => dbg(Value::from_str(&t)),
      "print-str" => shown(Value::String(t.clone())),
      "print-enum" => shown(Value::Enum(t.clone())),
      "print-hex" => shown(Value::HexColor(t.clone())),
      "print-expr" => shown(Value::Expr(t.clone())),
      "print-int" => shown(Value::Integer(t.parse().unwrap())),
      "print-dec" => shown(Value::Decimal(t.parse().unwrap())),
      "print-bool" => shown(Value::Bool(t == "true")),
      "print-null" => shown(Value::Null),
      _ => panic!(),
    }))
    .unwrap_or_else(|_| "[\"#panic\"]".to_string());
    println!("{}", obj(vec![("kind", s(&kind)), ("txt", s(&t)), ("out", out)]));
  }
}
