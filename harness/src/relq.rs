//! The relation query, through the verification hook of the library.

use crate::json::*;
use crate::project::{ref_ident, Offsets};
use dbml_rs::ast::*;
use dbml_rs::{parse_dbml_unchecked, verif_table_refs};
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! refs {
  ($v:expr, $off:expr) => {
    list(
      $v.iter()
        .map(|r| {
          obj(vec![
            ("s", $off.at(r.span_range.start).to_string()),
            (
              "rel",
              s(match r.rel {
                Relation::Undef => "?",
                Relation::One2One => "-",
                Relation::One2Many => "<",
                Relation::Many2One => ">",
                Relation::Many2Many => "<>",
              }),
            ),
            ("lhs", ref_ident(&r.lhs)),
            ("rhs", ref_ident(&r.rhs)),
          ])
        })
        .collect(),
    )
  };
}

fn query(t: &SchemaBlock, q: &TableIdent, off: &Offsets) -> String {
  let id = vec![
    ("schema", opt(q.schema.as_ref().map(|x| s(&x.to_string)))),
    ("name", s(&q.name.to_string)),
  ];
  let r = catch_unwind(AssertUnwindSafe(|| match verif_table_refs(t, q) {
    Ok(r) => obj(vec![
      ("st", s("ok")),
      ("to", refs!(r.ref_to, off)),
      ("by", refs!(r.ref_by, off)),
      ("self", refs!(r.ref_self, off)),
    ]),
    Err(_) => obj(vec![("st", s("err"))]),
  }))
  .unwrap_or_else(|_| obj(vec![("st", s("panic"))]));
  let mut f = id;
  f.push(("res", r));
  obj(f)
}

pub fn run(docs: Vec<(String, String)>) {
  for (id, text) in docs {
    let off = Offsets::new(&text);
    let mut queries = vec![];
    let st = match catch_unwind(AssertUnwindSafe(|| parse_dbml_unchecked(&text))) {
      Ok(Ok(t)) => {
        for tb in t.tables() {
          queries.push(query(&t, &tb.ident, &off));
          // the same table, spelled the other way
          let mut q = tb.ident.clone();
          q.alias = None;
          q.schema = match q.schema.as_ref().map(|x| x.to_string.as_str()) {
            None => Some(Ident { to_string: "public".into(), raw: "public".into(), ..Default::default() }),
            Some("public") => None,
            Some(_) => continue,
          };
          queries.push(query(&t, &q, &off));
        }
        // a table that is not there
        let mut q = TableIdent::default();
        q.name.to_string = "no such table".into();
        queries.push(query(&t, &q, &off));
        "ok"
      }
      Ok(Err(_)) => "err",
      Err(_) => "panic",
    };
    println!(
      "{}",
      obj(vec![
        ("id", s(&id)),
        ("txt", s(&text)),
        ("low", "[]".into()),
        ("st", s(st)),
        ("q", list(queries)),
      ])
    );
  }
}
