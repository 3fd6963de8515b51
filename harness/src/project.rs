//! Projects a tree onto what the specification speaks about: its content
//! and its spans, block by block, in the shapes of Tree.tla.

use crate::json::*;
use dbml_rs::ast::*;
use std::ops::Range;

pub fn value(v: &Value) -> String {
  let (t, x) = match v {
    Value::Enum(x) => ("enum", x.clone()),
    Value::String(x) => ("str", x.clone()),
    Value::Integer(x) => ("int", x.to_string()),
    Value::Decimal(x) => ("dec", format!("{x}")),
    Value::Bool(x) => ("bool", x.to_string()),
    Value::HexColor(x) => ("hex", x.clone()),
    Value::Expr(x) => ("expr", x.clone()),
    Value::Null => ("null", "null".to_string()),
  };
  obj(vec![("t", s(t)), ("v", s(&x))])
}

fn name(i: &Ident) -> String {
  s(&i.to_string)
}
fn oname(i: &Option<Ident>) -> String {
  opt(i.as_ref().map(name))
}
fn ostr(i: &Option<String>) -> String {
  opt(i.as_ref().map(|x| s(x)))
}
fn ovalue(v: &Option<Value>) -> String {
  opt(v.as_ref().map(value))
}
fn attrs(a: &[Attribute]) -> String {
  list(
    a.iter()
      .map(|a| {
        obj(vec![
          ("k", name(&a.key)),
          ("v", opt(a.value.as_ref().map(|l| value(&l.value)))),
        ])
      })
      .collect(),
  )
}
fn note(n: &Option<NoteBlock>) -> String {
  opt(n.as_ref().map(|n| value(&n.value.value)))
}
fn rel(r: &Relation) -> String {
  s(match r {
    Relation::Undef => "?",
    Relation::One2One => "-",
    Relation::One2Many => "<",
    Relation::Many2One => ">",
    Relation::Many2Many => "<>",
  })
}
pub fn ref_ident(r: &RefIdent) -> String {
  obj(vec![
    ("schema", oname(&r.schema)),
    ("table", name(&r.table)),
    ("cols", list(r.compositions.iter().map(name).collect())),
  ])
}
fn inline(r: &RefInline) -> String {
  obj(vec![("rel", rel(&r.rel)), ("rhs", ref_ident(&r.rhs))])
}
fn col_set(x: &ColumnSettings) -> String {
  obj(vec![
    ("attrs", attrs(&x.attributes)),
    ("pk", x.is_pk.to_string()),
    ("uq", x.is_unique.to_string()),
    (
      "null",
      s(match x.nullable {
        None => "",
        Some(Nullable::Null) => "null",
        Some(Nullable::NotNull) => "not null",
      }),
    ),
    ("inc", x.is_incremental.to_string()),
    ("note", ostr(&x.note)),
    ("def", ovalue(&x.default)),
    ("refs", list(x.refs.iter().map(inline).collect())),
  ])
}
fn type_name(t: &ColumnTypeName) -> String {
  match t {
    ColumnTypeName::Raw(x) => s(x),
    other => s(&format!("#{other:?}")),
  }
}
fn col(c: &TableColumn) -> String {
  let t = &c.r#type;
  obj(vec![
    ("name", name(&c.name)),
    (
      "type",
      obj(vec![
        ("raw", s(&t.raw)),
        ("name", type_name(&t.type_name)),
        ("args", list(t.args.iter().map(value).collect())),
        (
          "arr",
          list(
            t.arrays
              .iter()
              .map(|a| s(&a.map(|n| n.to_string()).unwrap_or_default()))
              .collect(),
          ),
        ),
      ]),
    ),
    ("set", opt(c.settings.as_ref().map(col_set))),
  ])
}
fn index_def(d: &IndexesDef) -> String {
  obj(vec![
    (
      "cols",
      list(
        d.cols
          .iter()
          .map(|c| match c {
            IndexesColumnType::String(i) => obj(vec![("t", s("col")), ("v", name(i))]),
            IndexesColumnType::Expr(l) => obj(vec![
              ("t", s("expr")),
              (
                "v",
                match &l.value {
                  Value::String(x) | Value::Expr(x) => s(x),
                  other => s(&format!("#{other:?}")),
                },
              ),
            ]),
          })
          .collect(),
      ),
    ),
    (
      "set",
      opt(d.settings.as_ref().map(|x| {
        obj(vec![
          ("attrs", attrs(&x.attributes)),
          ("pk", x.is_pk.to_string()),
          ("uq", x.is_unique.to_string()),
          (
            "type",
            opt(x.r#type.as_ref().map(|t| {
              s(match t {
                IndexesType::BTree => "btree",
                IndexesType::Gin => "gin",
                IndexesType::Gist => "gist",
                IndexesType::Hash => "hash",
              })
            })),
          ),
          ("name", ostr(&x.name)),
          ("note", ostr(&x.note)),
        ])
      })),
    ),
  ])
}
fn action(a: &Option<ReferentialAction>) -> String {
  opt(a.as_ref().map(|a| {
    s(match a {
      ReferentialAction::NoAction => "no action",
      ReferentialAction::Cascade => "cascade",
      ReferentialAction::Restrict => "restrict",
      ReferentialAction::SetNull => "set null",
      ReferentialAction::SetDefault => "set default",
    })
  }))
}

pub fn content(b: &TopLevelBlock) -> String {
  match b {
    TopLevelBlock::Table(t) => obj(vec![
      ("k", s("table")),
      ("schema", oname(&t.ident.schema)),
      ("name", name(&t.ident.name)),
      ("alias", oname(&t.ident.alias)),
      ("set", opt(t.settings.as_ref().map(|x| attrs(&x.attributes)))),
      ("cols", list(t.cols.iter().map(col).collect())),
      ("note", note(&t.note)),
      (
        "idx",
        opt(t
          .indexes
          .as_ref()
          .map(|x| list(x.defs.iter().map(index_def).collect()))),
      ),
    ]),
    TopLevelBlock::Enum(e) => obj(vec![
      ("k", s("enum")),
      ("schema", oname(&e.ident.schema)),
      ("name", name(&e.ident.name)),
      (
        "vals",
        list(
          e.values
            .iter()
            .map(|v| {
              obj(vec![
                ("v", name(&v.value)),
                (
                  "set",
                  opt(v.settings.as_ref().map(|x| {
                    obj(vec![("attrs", attrs(&x.attributes)), ("note", ostr(&x.note))])
                  })),
                ),
              ])
            })
            .collect(),
        ),
      ),
    ]),
    TopLevelBlock::Ref(r) => obj(vec![
      ("k", s("ref")),
      ("name", oname(&r.name)),
      ("rel", rel(&r.rel)),
      ("lhs", ref_ident(&r.lhs)),
      ("rhs", ref_ident(&r.rhs)),
      (
        "set",
        opt(r.settings.as_ref().map(|x| {
          obj(vec![
            ("attrs", attrs(&x.attributes)),
            ("upd", action(&x.on_update)),
            ("del", action(&x.on_delete)),
          ])
        })),
      ),
    ]),
    TopLevelBlock::TableGroup(g) => obj(vec![
      ("k", s("group")),
      ("name", name(&g.ident)),
      ("set", opt(g.settings.as_ref().map(|x| attrs(&x.attributes)))),
      ("note", note(&g.note)),
      (
        "items",
        list(
          g.items
            .iter()
            .map(|i| obj(vec![("schema", oname(&i.schema)), ("name", name(&i.ident_alias))]))
            .collect(),
        ),
      ),
    ]),
    TopLevelBlock::Project(p) => obj(vec![
      ("k", s("project")),
      ("name", name(&p.ident)),
      ("note", note(&p.note)),
      (
        "db",
        opt(p.database_type.as_ref().map(|d| {
          s(&match d {
            DatabaseType::PostgreSQL => "P".to_string(),
            DatabaseType::Unknown(x) => format!("U:{x}"),
          })
        })),
      ),
      (
        "props",
        list(
          p.properties
            .iter()
            .map(|x| obj(vec![("k", name(&x.key)), ("v", value(&x.value.value))]))
            .collect(),
        ),
      ),
    ]),
    TopLevelBlock::Note(n) => obj(vec![("k", s("note")), ("val", value(&n.value.value))]),
  }
}

/// Byte offsets to offsets in UTF-16 units (those of TLC strings); -1 inside a character or outside.
pub struct Offsets {
  map: Vec<i64>,
}
impl Offsets {
  pub fn new(t: &str) -> Self {
    let mut map = vec![-1; t.len() + 1];
    let mut u = 0i64;
    for (i, c) in t.char_indices() {
      map[i] = u;
      u += c.len_utf16() as i64;
    }
    map[t.len()] = u;
    Offsets { map }
  }
  pub fn at(&self, b: usize) -> i64 {
    self.map.get(b).copied().unwrap_or(-1)
  }
}

/// The spans of a block in the order of Spans in Tree.tla.
pub struct Spans<'a> {
  off: &'a Offsets,
  out: Vec<(i64, i64, Option<String>, Option<usize>)>,
}
impl<'a> Spans<'a> {
  pub fn new(off: &'a Offsets) -> Self {
    Spans { off, out: vec![] }
  }
  fn put(&mut self, r: &Range<usize>, raw: Option<&str>, up: Option<usize>) -> Option<usize> {
    self.out.push((
      self.off.at(r.start),
      self.off.at(r.end),
      raw.map(|x| x.to_string()),
      up,
    ));
    Some(self.out.len() - 1)
  }
  fn ident(&mut self, i: &Ident, up: Option<usize>) {
    self.put(&i.span_range, Some(&i.raw), up);
  }
  fn lit(&mut self, l: &Literal, up: Option<usize>) {
    self.put(&l.span_range, Some(&l.raw), up);
  }
  fn attrs(&mut self, a: &[Attribute], up: Option<usize>) {
    for a in a {
      let h = self.put(&a.span_range, None, up);
      self.ident(&a.key, h);
      if let Some(v) = &a.value {
        self.lit(v, h)
      }
    }
  }
  fn note(&mut self, n: &NoteBlock, up: Option<usize>) {
    let h = self.put(&n.span_range, None, up);
    self.lit(&n.value, h);
  }
  fn ref_ident(&mut self, r: &RefIdent, up: Option<usize>) {
    let h = self.put(&r.span_range, None, up);
    if let Some(x) = &r.schema {
      self.ident(x, h)
    }
    self.ident(&r.table, h);
    for c in &r.compositions {
      self.ident(c, h)
    }
  }
  pub fn block(mut self, b: &TopLevelBlock) -> String {
    match b {
      TopLevelBlock::Table(t) => {
        let h = self.put(&t.span_range, None, None);
        let d = self.put(&t.ident.span_range, None, h);
        if let Some(x) = &t.ident.schema {
          self.ident(x, d)
        }
        self.ident(&t.ident.name, d);
        if let Some(x) = &t.ident.alias {
          self.ident(x, h)
        }
        for c in &t.cols {
          let ch = self.put(&c.span_range, None, h);
          self.ident(&c.name, ch);
          self.put(&c.r#type.span_range, Some(&c.r#type.raw), ch);
          if let Some(x) = &c.settings {
            let sh = self.put(&x.span_range, None, ch);
            self.attrs(&x.attributes, sh);
            for r in &x.refs {
              let rh = self.put(&r.span_range, None, sh);
              self.ref_ident(&r.rhs, rh);
            }
          }
        }
        if let Some(n) = &t.note {
          self.note(n, h)
        }
        if let Some(x) = &t.indexes {
          let ih = self.put(&x.span_range, None, h);
          for d in &x.defs {
            let dh = self.put(&d.span_range, None, ih);
            for c in &d.cols {
              match c {
                IndexesColumnType::String(i) => self.ident(i, dh),
                IndexesColumnType::Expr(l) => self.lit(l, dh),
              }
            }
            if let Some(x) = &d.settings {
              let sh = self.put(&x.span_range, None, dh);
              self.attrs(&x.attributes, sh);
            }
          }
        }
        if let Some(x) = &t.settings {
          let sh = self.put(&x.span_range, None, h);
          self.attrs(&x.attributes, sh);
        }
      }
      TopLevelBlock::Enum(e) => {
        let h = self.put(&e.span_range, None, None);
        let d = self.put(&e.ident.span_range, None, h);
        if let Some(x) = &e.ident.schema {
          self.ident(x, d)
        }
        self.ident(&e.ident.name, d);
        for v in &e.values {
          let vh = self.put(&v.span_range, None, h);
          self.ident(&v.value, vh);
          if let Some(x) = &v.settings {
            let sh = self.put(&x.span_range, None, vh);
            self.attrs(&x.attributes, sh);
          }
        }
      }
      TopLevelBlock::Ref(r) => {
        if let Some(x) = &r.name {
          self.ident(x, None)
        }
        let h = self.put(&r.span_range, None, None);
        self.ref_ident(&r.lhs, h);
        self.ref_ident(&r.rhs, h);
        if let Some(x) = &r.settings {
          let sh = self.put(&x.span_range, None, h);
          self.attrs(&x.attributes, sh);
        }
      }
      TopLevelBlock::TableGroup(g) => {
        let h = self.put(&g.span_range, None, None);
        self.ident(&g.ident, h);
        if let Some(n) = &g.note {
          self.note(n, h)
        }
        for i in &g.items {
          let ih = self.put(&i.span_range, None, h);
          if let Some(x) = &i.schema {
            self.ident(x, ih)
          }
          self.ident(&i.ident_alias, ih);
        }
        if let Some(x) = &g.settings {
          let sh = self.put(&x.span_range, None, h);
          self.attrs(&x.attributes, sh);
        }
      }
      TopLevelBlock::Project(p) => {
        let h = self.put(&p.span_range, None, None);
        self.ident(&p.ident, h);
        if let Some(n) = &p.note {
          self.note(n, h)
        }
        for x in &p.properties {
          let ph = self.put(&x.span_range, None, h);
          self.ident(&x.key, ph);
          self.lit(&x.value, ph);
        }
      }
      TopLevelBlock::Note(n) => self.note(n, None),
    }
    list(
      self
        .out
        .iter()
        .enumerate()
        .map(|(k, (a, b, raw, up))| {
          obj(vec![
            ("s", a.to_string()),
            ("e", b.to_string()),
            ("raw", opt(raw.as_ref().map(|x| s(x)))),
            ("up", up.map(|p| k - p).unwrap_or(0).to_string()),
          ])
        })
        .collect(),
    )
  }
}

pub fn kind(b: &TopLevelBlock) -> &'static str {
  match b {
    TopLevelBlock::Project(_) => "project",
    TopLevelBlock::Table(_) => "table",
    TopLevelBlock::TableGroup(_) => "group",
    TopLevelBlock::Ref(_) => "ref",
    TopLevelBlock::Enum(_) => "enum",
    TopLevelBlock::Note(_) => "note",
  }
}
