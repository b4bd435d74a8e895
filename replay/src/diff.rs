//! Compares the tree the crate built with the expected one and names the property each difference breaks; checks that
//! spans are well formed and raw texts are the slices at their spans.
use crate::model::*;
use std::collections::BTreeMap;

pub type Viol = (&'static str, String);

/// the element may be followed by blanks and comments up to the next token
pub struct Tol { pub next: BTreeMap<usize, usize>, pub len: usize }
impl Tol {
  pub fn same(&self, exp: Sp, act: Sp) -> bool {
    exp.s == act.s && act.e >= exp.e && act.e <= self.next.get(&exp.e).copied().unwrap_or(exp.e).max(exp.e)
  }
}
pub struct D<'a> { pub tol: &'a Tol, pub out: Vec<Viol>, pub path: Vec<String> }
macro_rules! at { ($d:expr, $n:expr, $b:expr) => {{ $d.path.push($n.to_string()); $b; $d.path.pop(); }} }
impl<'a> D<'a> {
  fn v(&mut self, p: &'static str, what: String) { let w = format!("{}: {}", self.path.join("."), what); self.out.push((p, w)) }
  fn vs(&mut self, ps: &[&'static str], what: String) { for p in ps { self.v(p, what.clone()) } }
  fn sp(&mut self, e: Sp, a: Sp) { if !self.tol.same(e, a) { self.v("C02", format!("span {}..{} instead of {}..{}", a.s, a.e, e.s, e.e)) } }
  fn eq<T: PartialEq + std::fmt::Debug>(&mut self, ps: &[&'static str], n: &str, e: &T, a: &T) { if e != a { at!(self, n, self.vs(ps, format!("{a:?} instead of {e:?}"))) } }
  fn id(&mut self, ps: &[&'static str], n: &str, e: &Id, a: &Id) { at!(self, n, { self.sp(e.sp, a.sp); self.eq(ps, "name", &e.name, &a.name) }) }
  fn oid(&mut self, ps: &[&'static str], n: &str, e: &Option<Id>, a: &Option<Id>) {
    match (e, a) { (None, None) => (), (Some(e), Some(a)) => self.id(ps, n, e, a), _ => at!(self, n, self.vs(ps, format!("{:?} instead of {:?}", a.as_ref().map(|x| &x.name), e.as_ref().map(|x| &x.name)))) }
  }
  fn lit(&mut self, ps: &[&'static str], e: &Lit, a: &Lit) { self.sp(e.sp, a.sp); self.val(ps, &e.val, &a.val) }
  fn val(&mut self, ps: &[&'static str], e: &Val, a: &Val) { if !same(e, a) { self.vs(ps, format!("{a:?} instead of {e:?}")) } }
  fn len<T, U>(&mut self, ps: &[&'static str], n: &str, e: &[T], a: &[U]) -> bool { if e.len() != a.len() { at!(self, n, self.vs(ps, format!("{} elements instead of {}", a.len(), e.len()))); false } else { true } }
  fn attrs(&mut self, e: &[Attr], a: &[Attr]) {
    if !self.len(&["C03", "C06"], "attributes", e, a) { return }
    for (i, (x, y)) in e.iter().zip(a).enumerate() {
      at!(self, format!("attributes[{i}]"), {
        self.sp(x.sp, y.sp);
        if x.key.name != y.key.name && e.iter().any(|k| k.key.name == y.key.name) { self.v("C03", "out of order".into()) }
        self.id(&["C06"], "key", &x.key, &y.key);
        match (&x.val, &y.val) { (None, None) => (), (Some(e), Some(a)) => at!(self, "value", self.lit(&["C05", "C06"], e, a)), (e, a) => self.vs(&["C06"], format!("value {a:?} instead of {e:?}")) }
      })
    }
  }
  fn osettings(&mut self, n: &str, e: &Option<Settings>, a: &Option<Settings>) {
    match (e, a) { (None, None) => (), (Some(e), Some(a)) => at!(self, n, { self.sp(e.sp, a.sp); self.attrs(&e.attrs, &a.attrs) }), _ => at!(self, n, self.vs(&["C03", "C06"], "settings present in only one".into())) }
  }
  fn onote(&mut self, e: &Option<Note>, a: &Option<Note>) {
    match (e, a) { (None, None) => (), (Some(e), Some(a)) => at!(self, "note", { self.sp(e.sp, a.sp); self.lit(&["C05"], &e.val, &a.val) }), _ => self.vs(&["C03"], "note present in only one".into()) }
  }
  fn refid(&mut self, n: &str, e: &RefId, a: &RefId) {
    let ps = &["C04", "C07"];
    at!(self, n, {
      self.sp(e.sp, a.sp);
      self.oid(ps, "schema", &e.schema, &a.schema);
      self.id(ps, "table", &e.table, &a.table);
      if self.len(&["C04", "C07", "C03"], "columns", &e.cols, &a.cols) { for (i, (x, y)) in e.cols.iter().zip(&a.cols).enumerate() { self.id(ps, &format!("columns[{i}]"), x, y) } }
    })
  }
  fn col(&mut self, e: &Col, a: &Col) {
    self.sp(e.sp, a.sp);
    self.id(&["C04"], "name", &e.name, &a.name);
    at!(self, "type", {
      self.sp(e.ty.sp, a.ty.sp);
      self.eq(&["C08"], "raw", &e.ty.raw, &a.ty.raw);
      self.eq(&["C08"], "name", &e.ty.name, &a.ty.name);
      if self.len(&["C08"], "args", &e.ty.args, &a.ty.args) { for (i, (x, y)) in e.ty.args.iter().zip(&a.ty.args).enumerate() { at!(self, format!("args[{i}]"), self.val(&["C05", "C08"], x, y)) } }
      self.eq(&["C08"], "arrays", &e.ty.arrays, &a.ty.arrays)
    });
    match (&e.settings, &a.settings) {
      (None, None) => (),
      (Some(e), Some(a)) => at!(self, "settings", {
        self.sp(e.sp, a.sp);
        self.attrs(&e.attrs, &a.attrs);
        let p = &["C06"];
        self.eq(p, "is_pk", &e.pk, &a.pk);
        self.eq(p, "is_unique", &e.unique, &a.unique);
        self.eq(p, "nullable(null?)", &e.nullable, &a.nullable);
        self.eq(p, "is_incremental", &e.incr, &a.incr);
        self.eq(p, "note", &e.note, &a.note);
        match (&e.default, &a.default) { (None, None) => (), (Some(e), Some(a)) => at!(self, "default", self.val(&["C05", "C06"], e, a)), (e, a) => self.vs(p, format!("default {a:?} instead of {e:?}")) }
        if self.len(&["C03", "C07"], "refs", &e.refs, &a.refs) { for (i, (x, y)) in e.refs.iter().zip(&a.refs).enumerate() { at!(self, format!("refs[{i}]"), { self.sp(x.sp, y.sp); self.eq(&["C07"], "rel", &x.rel, &y.rel); self.refid("rhs", &x.rhs, &y.rhs) }) } }
      }),
      _ => self.vs(&["C03", "C06"], "column settings present in only one".into()),
    }
  }
  pub fn doc(&mut self, e: &Doc, a: &Doc) {
    at!(self, "schema", self.sp(e.sp, a.sp));
    let kind = |b: &Block| match b { Block::Project(_) => "project", Block::Table(_) => "table", Block::Group(_) => "table group", Block::Note(_) => "note", Block::Ref(_) => "ref", Block::Enum(_) => "enum" };
    let (ke, ka): (Vec<_>, Vec<_>) = (e.blocks.iter().map(kind).collect(), a.blocks.iter().map(kind).collect());
    if ke != ka { self.v("C03", format!("blocks {ka:?} instead of {ke:?}")); return }
    for (i, (x, y)) in e.blocks.iter().zip(&a.blocks).enumerate() {
      at!(self, format!("blocks[{i}]"), match (x, y) {
        (Block::Note(x), Block::Note(y)) => { self.sp(x.sp, y.sp); self.lit(&["C05"], &x.val, &y.val) }
        (Block::Project(x), Block::Project(y)) => {
          self.sp(x.sp, y.sp);
          self.id(&["C04"], "ident", &x.ident, &y.ident);
          self.attrs(&x.props, &y.props);
          self.eq(&["C06", "C23"], "database_type", &x.db, &y.db);
          self.onote(&x.note, &y.note)
        }
        (Block::Enum(x), Block::Enum(y)) => {
          self.sp(x.sp, y.sp); self.sp(x.isp, y.isp);
          self.oid(&["C04"], "schema", &x.schema, &y.schema);
          self.id(&["C04"], "name", &x.name, &y.name);
          if self.len(&["C03"], "values", &x.values, &y.values) {
            for (i, (x, y)) in x.values.iter().zip(&y.values).enumerate() {
              at!(self, format!("values[{i}]"), {
                self.sp(x.sp, y.sp);
                self.id(&["C03", "C04"], "value", &x.value, &y.value);
                self.osettings("settings", &x.settings.as_ref().map(|s| s.0.clone()), &y.settings.as_ref().map(|s| s.0.clone()));
                self.eq(&["C06"], "note", &x.settings.as_ref().and_then(|s| s.1.clone()), &y.settings.as_ref().and_then(|s| s.1.clone()))
              })
            }
          }
        }
        (Block::Group(x), Block::Group(y)) => {
          self.sp(x.sp, y.sp);
          self.id(&["C04"], "ident", &x.ident, &y.ident);
          self.onote(&x.note, &y.note);
          self.osettings("settings", &x.settings, &y.settings);
          if self.len(&["C03"], "items", &x.items, &y.items) {
            for (i, (x, y)) in x.items.iter().zip(&y.items).enumerate() { at!(self, format!("items[{i}]"), { self.sp(x.sp, y.sp); self.oid(&["C04"], "schema", &x.schema, &y.schema); self.id(&["C03", "C04"], "name", &x.name, &y.name) }) }
          }
        }
        (Block::Ref(x), Block::Ref(y)) => {
          self.sp(x.sp, y.sp);
          self.oid(&["C04"], "name", &x.name, &y.name);
          self.eq(&["C07"], "rel", &x.rel, &y.rel);
          self.refid("lhs", &x.lhs, &y.lhs);
          self.refid("rhs", &x.rhs, &y.rhs);
          match (&x.settings, &y.settings) {
            (None, None) => (),
            (Some(x), Some(y)) => at!(self, "settings", { self.sp(x.sp, y.sp); self.attrs(&x.attrs, &y.attrs); self.eq(&["C06"], "on_update", &x.upd, &y.upd); self.eq(&["C06"], "on_delete", &x.del, &y.del) }),
            _ => self.vs(&["C03", "C06"], "ref settings present in only one".into()),
          }
        }
        (Block::Table(x), Block::Table(y)) => {
          self.sp(x.sp, y.sp); self.sp(x.isp, y.isp);
          self.oid(&["C04"], "schema", &x.schema, &y.schema);
          self.id(&["C04"], "name", &x.name, &y.name);
          self.oid(&["C04"], "alias", &x.alias, &y.alias);
          self.onote(&x.note, &y.note);
          self.osettings("settings", &x.settings, &y.settings);
          if self.len(&["C03"], "cols", &x.cols, &y.cols) { for (i, (x, y)) in x.cols.iter().zip(&y.cols).enumerate() { at!(self, format!("cols[{i}]"), self.col(x, y)) } }
          match (&x.indexes, &y.indexes) {
            (None, None) => (),
            (Some(x), Some(y)) => at!(self, "indexes", {
              self.sp(x.sp, y.sp);
              if self.len(&["C03"], "defs", &x.defs, &y.defs) {
                for (i, (x, y)) in x.defs.iter().zip(&y.defs).enumerate() {
                  at!(self, format!("defs[{i}]"), {
                    self.sp(x.sp, y.sp);
                    if self.len(&["C03"], "cols", &x.cols, &y.cols) {
                      for (i, (x, y)) in x.cols.iter().zip(&y.cols).enumerate() {
                        at!(self, format!("cols[{i}]"), match (x, y) {
                          (IxCol::Name(x), IxCol::Name(y)) => self.id(&["C03", "C04"], "name", x, y),
                          (IxCol::Expr(x), IxCol::Expr(y)) => self.lit(&["C03", "C05"], x, y),
                          _ => self.v("C03", "column and expression confused".into()),
                        })
                      }
                    }
                    match (&x.settings, &y.settings) {
                      (None, None) => (),
                      (Some(x), Some(y)) => at!(self, "settings", {
                        self.sp(x.sp, y.sp);
                        self.attrs(&x.attrs, &y.attrs);
                        let p = &["C06"];
                        self.eq(p, "type", &x.ty, &y.ty); self.eq(p, "is_unique", &x.unique, &y.unique); self.eq(p, "is_pk", &x.pk, &y.pk); self.eq(p, "note", &x.note, &y.note); self.eq(p, "name", &x.name, &y.name)
                      }),
                      _ => self.vs(&["C03", "C06"], "index settings present in only one".into()),
                    }
                  })
                }
              }
            }),
            _ => self.v("C03", "indexes present in only one".into()),
          }
        }
        _ => unreachable!(),
      })
    }
  }
}
fn same(a: &Val, b: &Val) -> bool { match (a, b) { (Val::Dec(x), Val::Dec(y)) => x.to_bits() == y.to_bits(), _ => a == b } }

/// spans are ranges on character boundaries inside the parent; raw texts are the slices
pub struct W<'a> { pub input: &'a str, pub out: Vec<Viol> }
impl<'a> W<'a> {
  fn sp(&mut self, what: &str, p: Sp, s: Sp) -> bool {
    let ok = s.s <= s.e && s.e <= self.input.len() && self.input.is_char_boundary(s.s) && self.input.is_char_boundary(s.e);
    if !ok { self.out.push(("C02", format!("{what}: span {}..{} is not a range of the input", s.s, s.e))) }
    else if s.s < p.s || s.e > p.e { self.out.push(("C02", format!("{what}: span {}..{} is outside {}..{}", s.s, s.e, p.s, p.e))) }
    ok
  }
  fn raw(&mut self, what: &str, p: Sp, s: Sp, raw: &str) {
    if self.sp(what, p, s) && &self.input[s.s..s.e] != raw { self.out.push(("C02", format!("{what}: raw text {raw:?} is not the slice {:?}", &self.input[s.s..s.e]))) }
  }
  fn id(&mut self, w: &str, p: Sp, x: &Id) { self.raw(w, p, x.sp, &x.raw) }
  fn attrs(&mut self, p: Sp, v: &[Attr]) { for a in v { self.sp("attribute", p, a.sp); self.id("attribute key", a.sp, &a.key); if let Some(v) = &a.val { self.raw("attribute value", a.sp, v.sp, &v.raw) } } }
  fn note(&mut self, p: Sp, n: &Option<Note>) { if let Some(n) = n { self.sp("note", p, n.sp); self.raw("note value", n.sp, n.val.sp, &n.val.raw) } }
  fn refid(&mut self, p: Sp, r: &RefId) { self.sp("ref endpoint", p, r.sp); for i in r.schema.iter().chain([&r.table]).chain(&r.cols) { self.id("ref endpoint name", r.sp, i) } }
  pub fn doc(&mut self, d: &Doc) {
    let all = Sp { s: 0, e: self.input.len() };
    self.sp("document", all, d.sp);
    let mut last = 0;
    for b in &d.blocks {
      let bs = match b { Block::Project(x) => x.sp, Block::Table(x) => x.sp, Block::Group(x) => x.sp, Block::Note(x) => x.sp, Block::Ref(x) => x.sp, Block::Enum(x) => x.sp };
      self.sp("block", d.sp, bs);
      if bs.s < last { self.out.push(("C03", format!("block at {}..{} is out of source order", bs.s, bs.e))) }
      last = bs.e;
      match b {
        Block::Note(n) => self.note(d.sp, &Some(n.clone())),
        Block::Project(x) => { self.id("project name", x.sp, &x.ident); self.attrs(x.sp, &x.props); self.note(x.sp, &x.note) }
        Block::Enum(x) => {
          self.sp("enum name", x.sp, x.isp);
          for i in x.schema.iter().chain([&x.name]) { self.id("enum name", x.isp, i) }
          for v in &x.values { self.sp("enum value", x.sp, v.sp); self.id("enum value", v.sp, &v.value); if let Some((s, _)) = &v.settings { self.sp("enum settings", v.sp, s.sp); self.attrs(s.sp, &s.attrs) } }
        }
        Block::Group(x) => {
          self.id("group name", x.sp, &x.ident); self.note(x.sp, &x.note);
          if let Some(s) = &x.settings { self.sp("group settings", x.sp, s.sp); self.attrs(s.sp, &s.attrs) }
          for i in &x.items { self.sp("group item", x.sp, i.sp); for k in i.schema.iter().chain([&i.name]) { self.id("group item", i.sp, k) } }
        }
        Block::Ref(x) => {
          // the optional name of a ref stands before the statement the span covers
          if let Some(n) = &x.name { self.id("ref name", d.sp, n) }
          self.refid(x.sp, &x.lhs); self.refid(x.sp, &x.rhs);
          if let Some(s) = &x.settings { self.sp("ref settings", x.sp, s.sp); self.attrs(s.sp, &s.attrs) }
        }
        Block::Table(x) => {
          self.sp("table name", x.sp, x.isp);
          for i in x.schema.iter().chain([&x.name]) { self.id("table name", x.isp, i) }
          for i in &x.alias { self.id("table alias", x.sp, i) }
          self.note(x.sp, &x.note);
          if let Some(s) = &x.settings { self.sp("table settings", x.sp, s.sp); self.attrs(s.sp, &s.attrs) }
          for c in &x.cols {
            self.sp("column", x.sp, c.sp); self.id("column name", c.sp, &c.name); self.raw("column type", c.sp, c.ty.sp, &c.ty.raw);
            if let Some(s) = &c.settings { self.sp("column settings", c.sp, s.sp); self.attrs(s.sp, &s.attrs); for r in &s.refs { self.sp("inline ref", s.sp, r.sp); self.refid(r.sp, &r.rhs) } }
          }
          if let Some(ix) = &x.indexes {
            self.sp("indexes", x.sp, ix.sp);
            for d in &ix.defs {
              self.sp("index", ix.sp, d.sp);
              for c in &d.cols { match c { IxCol::Name(i) => self.id("index column", d.sp, i), IxCol::Expr(l) => self.raw("index expression", d.sp, l.sp, &l.raw) } }
              if let Some(s) = &d.settings { self.sp("index settings", d.sp, s.sp); self.attrs(s.sp, &s.attrs) }
            }
          }
        }
      }
    }
  }
}
