//! Random documents: a plan is drawn first (mostly rule-abiding, with a set rate of broken rules), then written out as
//! text with random spelling, layout and comments while the expected tree is completed with spans and raw texts.
use crate::model::*;
use crate::oracle::{self, BUILTIN};
use std::collections::BTreeMap;

pub struct Rng(pub u64);
impl Rng {
  pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
  pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
  pub fn p(&mut self, x: f64) -> bool { ((self.next() >> 11) as f64) / ((1u64 << 53) as f64) < x }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
  pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
}

fn id(s: impl Into<String>) -> Id { Id { name: s.into(), ..Default::default() } }
fn lit(val: Val) -> Lit { Lit { sp: Sp::default(), raw: String::new(), val } }
fn attr(k: &str, val: Option<Lit>) -> Attr { Attr { sp: Sp::default(), key: id(k), val } }
const Z: Sp = Sp { s: 0, e: 0 };

const TNAMES: &[&str] = &["users", "orders", "A", "a", "b", "items", "users_x", "Users", "order items", "ünï", "a.b", "public", "x1", "it's", "T", "", "users ", "x\t"];
const SCHEMAS: &[&str] = &["public", "s1", "core", "Public", "a", "my schema"];
const CNAMES: &[&str] = &["id", "name", "a", "b", "c", "user_id", "ID", "two words", "größe", "note", "indexes", "x.y", "d", "e", "", "id "];
const ENAMES: &[&str] = &["status", "kind", "Color", "a", "job status", "e1", "kind "];
const VALUES: &[&str] = &["on", "off", "red", "null", "true", "12", "half done", "On", "1.5", "#fff", "ß", "now()", "on "];
const STRS: &[&str] = &["", "x", "abc", "it's", "a\"b", "// not a comment", "/* nor this */", "ünïcödé", "日本語", "line1\nline2", "a  b ", "tab\tinside", "[pk]", "a]b", "''", "back`tick", "\\n", "\\", "don\\'t", "a''b", "trail ", "end\n", "{}", "a,b", "1", "12345", "ab", "abcd", "\u{a0}nbsp", "e\u{301}", "🦀x", "true", "null", "public"];
const WORDS: &[&str] = &["cascade", "foo", "no action", "set null", "btree", "a b c", "x_1", "Tr", "nullable", "truely", "falsey", "true_", "z9", "true1", "TRUE", "True", "FALSE", "Null", "NULL", "null1", "false_x", "nullX"];
const KEYS: &[&str] = &["headercolor", "foo", "bar baz", "pk2", "note2", "Null", "PK", "Unique", "primary  key2", "x", "notnull", "default2", "increments", "types", "Default", "updates", "unique index", "name2", "ref2x"];
/// settings the crate knows, in another case: other keys
const OTHER_CASE: &[&str] = &["DEFAULT", "Default", "NOTE", "Note", "NOT NULL", "Not null", "NULL", "UNIQUE", "Unique", "PRIMARY KEY", "Primary key", "PK", "Pk", "INCREMENT", "Increment", "TYPE", "Type", "NAME", "Name", "UPDATE", "Update", "DELETE", "Delete"];

pub struct G { pub r: Rng, pub bad: f64, pub tn: Vec<&'static str>, pub sn: Vec<&'static str>, pub cn: Vec<&'static str>, pub en: Vec<&'static str> }
impl G {
  /// keep an element that breaks a rule
  fn keep(&mut self) -> bool { let p = if self.bad > 0.0 { 0.15 } else { 0.0 }; self.r.p(p) }
  fn b(&mut self) -> bool { let p = self.bad; self.r.p(p) }
  fn num(&mut self) -> Lit {
    let ints = ["0", "1", "7", "007", "2", "3", "10", "255", "32767", "32768", "65536", "2147483647", "2147483648", "4294967296", "9007199254740993", "9223372036854775807", "123456789"];
    let decs = ["0.0", "1.5", "10.", "0.1", "00.50", "123456789012345678901234567890.5", "3.14159", "9223372036854775808.0", "0.30000000000000004", "1.0"];
    if self.r.p(0.7) { let s = if self.r.p(0.3) { (self.r.next() % 100000).to_string() } else { self.r.pick(&ints).to_string() }; Lit { sp: Z, val: Val::Int(s.parse().unwrap()), raw: s } }
    else { let s = if self.r.p(0.3) { format!("{}.{}", self.r.next() % 1000, self.r.next() % 100000) } else { self.r.pick(&decs).to_string() }; Lit { sp: Z, val: Val::Dec(s.parse().unwrap()), raw: s } }
  }
  fn string(&mut self) -> String {
    if self.r.p(0.8) { self.r.pick(STRS).to_string() } else { let n = self.r.below(8); (0..n).map(|i| { let c = *self.r.pick(&['a', 'B', '1', ' ', 'é', '"', '/', '*', '-', '\n', ',', ']', '}', '`', '#']); if i == 0 && (c == ' ' || c == '\n') { 'q' } else { c } }).collect() }
  }
  fn expr(&mut self) -> String { self.r.pick(&["now()", "id*2", "lower(name)", "", "a + 'b'", "\"x\"", "f(1,2)", "/*c*/ x", "//x", "a\n  + b", "case when 'x' then 1 end", "x ", "a\n", "\u{a0}"]).to_string() }
  fn value(&mut self) -> Lit {
    match self.r.below(8) {
      0 | 1 => lit(Val::Str(self.string())),
      2 => { let e = self.expr(); lit(Val::Expr(e)) }
      3 => { let b = self.r.p(0.5); lit(Val::Bool(b)) }
      4 => lit(Val::Null),
      5 => { let h = self.r.pick(&["#fff", "#3498DB", "#000000", "#AbC", "#123", "#a1B2c3"]).to_string(); lit(Val::Hex(h)) }
      _ => self.num(),
    }
  }
  fn any_value(&mut self) -> Lit { if self.r.p(0.3) { let w = self.r.pick(WORDS).to_string(); lit(Val::Enum(w)) } else { self.value() } }
  fn extra_attrs(&mut self, v: &mut Vec<Attr>, p: f64) {
    while self.r.p(p) {
      let k = (if self.r.p(0.4) { self.r.pick(OTHER_CASE) } else { self.r.pick(KEYS) }).to_string().replace("  ", " ");
      if v.iter().any(|a| a.key.name == k) && !self.b() { continue }
      let val = if self.r.p(0.6) { Some(self.any_value()) } else { None };
      let i = self.r.range(0, v.len());
      v.insert(i, attr(&k, val));
    }
    if !v.is_empty() && self.b() { let a = self.r.pick(v).clone(); let i = self.r.range(0, v.len()); v.insert(i, a); }
  }
  fn settings(&mut self, p: f64) -> Option<Settings> {
    if !self.r.p(p) { return None }
    let mut attrs = vec![];
    self.extra_attrs(&mut attrs, 0.6);
    Some(Settings { sp: Z, attrs })
  }
  fn note(&mut self, p: f64) -> Option<Note> { if self.r.p(p) { let s = self.string(); Some(Note { sp: Z, val: lit(Val::Str(s)) }) } else { None } }
  fn coltype(&mut self, enums: &[(Option<String>, String, Vec<String>)]) -> ColType {
    let mut name;
    if self.r.p(0.5) { name = self.r.pick(&["int", "int", "integer", "int4", "varchar", "bool", "smallint"]).to_string() }
    else if self.r.p(0.6) { name = self.r.pick(BUILTIN).0.to_string() }
    else if !enums.is_empty() && self.r.p(0.8) {
      let e = self.r.pick(enums).clone();
      let en = if self.r.p(0.04) { "mood_x".into() } else { e.1.clone() };
      if !plain_spaced(&en) { name = "mood".into() } else {
        name = match e.0.as_deref() { None => if self.r.p(0.3) { format!("public.{en}") } else { en }, Some("public") => if self.r.p(0.5) { en } else { format!("public.{en}") }, Some(s) => if s.contains('.') { en } else { format!("{s}.{en}") } };
      }
    } else { name = self.r.pick(&["mood", "Integer", "INT", "s1.mood", "intx", "in", "public.int", "decimals", "varchars", "core.kind"]).to_string() }
    if self.b() { name = format!("a.{name}"); }
    let b = oracle::builtin(&name);
    let n = match b { Some("VarChar" | "Char" | "Time" | "Timestamp" | "Timetz" | "Timestamptz" | "Bit" | "Varbit") => if self.r.p(0.6) { 1 } else { 0 }, Some("Decimal") => if self.r.p(0.6) { 2 } else { 0 }, Some(_) => 0, None => if self.r.p(0.2) { self.r.range(0, 3) } else { 0 } };
    let n = if self.b() { self.r.range(0, 3) } else { n };
    let args = (0..n).map(|_| if b.is_none() || self.b() { self.value().val } else { Val::Int(self.r.range(0, 6) as i64) }).collect();
    let arrays = if self.r.p(0.12) { (0..self.r.range(1, 3)).map(|_| if self.r.p(0.5) { None } else { Some(*self.r.pick(&[0u32, 1, 3, 10, 255, 65536, u32::MAX])) }).collect() } else { vec![] };
    ColType { sp: Z, raw: String::new(), name, args, arrays }
  }
  fn default_for(&mut self, ty: &ColType, null: bool, enums: &[(Option<String>, String, Vec<String>)]) -> Option<Lit> {
    let b = oracle::builtin(&ty.name);
    if self.b() { return Some(self.any_value()) }
    Some(match b {
      None => {
        let e = enums.iter().find(|e| ty.name == e.1 || ty.name == format!("{}.{}", e.0.as_deref().unwrap_or("public"), e.1))?;
        if e.2.is_empty() { return None }
        let v = self.r.pick(&e.2).clone();
        match v.as_str() { "null" if null => lit(Val::Null), "12" => Lit { sp: Z, raw: "012".into(), val: Val::Int(12) }, "1.5" => Lit { sp: Z, raw: "1.50".into(), val: Val::Dec(1.5) }, "#fff" => lit(Val::Hex(v)), "now()" => lit(Val::Expr(v)), _ if plain_spaced(&v) && self.r.p(0.4) && !["null", "true"].contains(&v.as_str()) => lit(Val::Enum(v)), _ => lit(Val::Str(v)) }
      }
      Some(t) => {
        if null && self.r.p(0.3) { return Some(lit(Val::Null)) }
        let first = match ty.args.first() { Some(Val::Int(n)) => Some((*n).clamp(0, 40) as usize), _ => None };
        let off = if self.b() || self.r.p(0.02) { 1 } else { 0 };
        match t {
          "Bool" => { let x = self.r.p(0.5); lit(Val::Bool(x)) }
          "Char" | "Bit" | "VarChar" | "Varbit" if first.is_some() => { let n = if t == "Char" || t == "Bit" || self.r.p(0.4) { first.unwrap() } else { self.r.range(0, first.unwrap()) }; let c = *self.r.pick(&["a", "é", "日", "0"]); lit(Val::Str(c.repeat(n + off))) }
          "SmallInt" => { let s = ["32767", "0", "12", "032767"][self.r.below(4)]; let s = if off == 1 { "32768" } else { s }; Lit { sp: Z, raw: s.into(), val: Val::Int(s.parse().unwrap()) } }
          "Integer" => { let s = ["2147483647", "0", "32768", "5"][self.r.below(4)]; let s = if off == 1 { "2147483648" } else { s }; Lit { sp: Z, raw: s.into(), val: Val::Int(s.parse().unwrap()) } }
          _ => loop { let v = self.any_value(); if !matches!(v.val, Val::Bool(_) | Val::Null) { break v } },
        }
      }
    })
  }
  fn colsettings(&mut self, ty: &ColType, pk_free: bool, enums: &[(Option<String>, String, Vec<String>)]) -> Option<ColSettings> {
    if self.r.p(0.35) { return None }
    let mut attrs = vec![];
    let pk = (pk_free && ty.arrays.is_empty() && self.r.p(0.35)) || self.b();
    let null = if self.r.p(0.3) { Some(!pk && self.r.p(0.5) || self.b()) } else { None };
    if pk { attrs.push(attr(if self.r.p(0.5) { "pk" } else { "primary key" }, None)) }
    if pk && self.r.p(0.04) { attrs.push(attr(if self.r.p(0.5) { "pk" } else { "primary key" }, None)) }
    match null { Some(true) => attrs.push(attr("null", None)), Some(false) => attrs.push(attr("not null", None)), None => () }
    if self.b() { attrs.push(attr(if self.r.p(0.5) { "null" } else { "not null" }, None)) }
    if self.r.p(0.25) { attrs.push(attr("unique", None)) }
    if self.r.p(0.15) { attrs.push(attr("increment", None)) }
    if self.r.p(0.35) { if let Some(l) = self.default_for(ty, null == Some(true), enums) { attrs.push(attr("default", Some(l))) } }
    if self.r.p(0.02) && !attrs.iter().any(|a| a.key.name == "default") { attrs.push(attr("default", None)) }
    if self.r.p(0.15) { let v = if self.r.p(0.7) { lit(Val::Str(self.string())) } else { self.any_value() }; attrs.push(attr("note", Some(v))) }
    for i in (1..attrs.len()).rev() { let j = self.r.below(i + 1); attrs.swap(i, j) }
    self.extra_attrs(&mut attrs, 0.15);
    Some(col_settings(attrs))
  }
  fn table_ref(&mut self, ts: &[Table], i: usize) -> (Option<Id>, Id) {
    let t = &ts[i];
    if let Some(a) = &t.alias { if self.r.p(0.4) { return (None, id(a.name.clone())) } }
    match &t.schema { None => (if self.r.p(0.25) { Some(id("public")) } else { None }, id(t.name.name.clone())), Some(s) if s.name == "public" && self.r.p(0.5) => (None, id(t.name.name.clone())), Some(s) => (Some(id(s.name.clone())), id(t.name.name.clone())) }
  }
  fn cols_of(&mut self, t: &Table, n: usize) -> Vec<Id> {
    let mut v: Vec<Id> = vec![];
    for _ in 0..n { let c = id(if t.cols.is_empty() || self.b() { self.r.pick(&self.cn).to_string() } else { self.r.pick(&t.cols).name.name.clone() }); if v.iter().any(|x| x.name == c.name) && !self.b() { continue } v.push(c) }
    if v.is_empty() { v.push(id("id")) }
    v
  }
  /// a pair of endpoints that has a chance to agree
  fn endpoints(&mut self, ts: &[Table], fixed: Option<(usize, usize)>) -> (usize, Vec<Id>, usize, Vec<Id>) {
    for _ in 0..12 {
      let (a, b) = (fixed.map(|f| f.0).unwrap_or_else(|| self.r.below(ts.len())), self.r.below(ts.len()));
      if fixed.is_none() && self.r.p(0.35) {
        // aim at a composite key
        let defs: Vec<IxDef> = ts[b].indexes.iter().flat_map(|x| x.defs.clone()).filter(|d| d.cols.len() > 1 && d.settings.as_ref().is_some_and(|s| s.pk || s.unique) && d.cols.iter().any(|c| matches!(c, IxCol::Name(_)))).collect();
        if !defs.is_empty() {
          let d = self.r.pick(&defs).clone();
          let some = d.cols.iter().find_map(|c| match c { IxCol::Name(i) => Some(i.name.clone()), _ => None }).unwrap();
          let mut rc: Vec<Id> = d.cols.iter().map(|c| match c { IxCol::Name(i) => id(i.name.clone()), _ => id(some.clone()) }).collect();
          if self.r.p(0.4) { rc.reverse() }
          let mut lc = vec![];
          for c in &rc { if let Some(tc) = ts[b].cols.iter().find(|x| x.name.name == c.name) { if let Some(m) = ts[a].cols.iter().find(|x| x.ty == tc.ty && (self.r.p(0.1) || !lc.iter().any(|l: &Id| l.name == x.name.name))) { lc.push(id(m.name.name.clone())) } } }
          if lc.len() == rc.len() { return (a, lc, b, rc) }
        }
      }
      let n = if fixed.is_some() { 1 } else { *self.r.pick(&[1, 1, 1, 2, 2, 3]) };
      let lc = match fixed { Some((t, c)) => vec![id(ts[t].cols[c].name.name.clone())], None => self.cols_of(&ts[a], n) };
      let n = if fixed.is_some() && self.b() { 2 } else { lc.len() };
      let rc = self.cols_of(&ts[b], n);
      let ty = |t: &Table, c: &Id| t.cols.iter().find(|x| x.name.name == c.name).map(|c| (oracle::builtin(&c.ty.name).map(|s| s.to_string()).unwrap_or(c.ty.name.clone()), format!("{:?}{:?}", c.ty.args, c.ty.arrays)));
      if lc.len() == rc.len() && lc.iter().zip(&rc).all(|(x, y)| ty(&ts[a], x).is_some() && ty(&ts[a], x) == ty(&ts[b], y)) || self.b() { return (a, lc, b, rc) }
    }
    (0, vec![id("id")], 0, vec![id("id")])
  }
  fn relation(&mut self) -> Rel { *self.r.pick(&[Rel::OO, Rel::OM, Rel::MO, Rel::MO, Rel::OM, Rel::MM]) }

  pub fn plan(&mut self) -> Doc {
    let mut d = Doc::default();
    // names come from a few per document, so that they meet
    fn sub(r: &mut Rng, v: &[&'static str], n: usize) -> Vec<&'static str> { let mut o = vec![]; while o.len() < n.min(v.len()) { let x = *r.pick(v); if !o.contains(&x) { o.push(x) } } o }
    let n = self.r.range(2, 6); self.tn = sub(&mut self.r, TNAMES, n);
    let n = self.r.range(1, 3); self.sn = sub(&mut self.r, SCHEMAS, n);
    let n = self.r.range(3, 6); self.cn = sub(&mut self.r, CNAMES, n);
    let n = self.r.range(1, 3); self.en = sub(&mut self.r, ENAMES, n);
    if self.r.p(0.6) { self.sn.push("public") }
    if self.r.p(0.3) { let t = self.tn[0]; self.sn.push(t); self.en.push(t) }
    let schema = |g: &mut G| if g.r.p(0.6) { None } else { Some(g.r.pick(&g.sn).to_string()) };
    // enums
    let mut enums: Vec<(Option<String>, String, Vec<String>)> = vec![];
    for _ in 0..self.r.below(4) {
      let (s, n) = (schema(self), self.r.pick(&self.en).to_string());
      if enums.iter().any(|e| e.0.as_deref().unwrap_or("public") == s.as_deref().unwrap_or("public") && e.1 == n) && !self.b() { continue }
      let mut vs = vec![];
      for _ in 0..self.r.range(0, 4) { let v = self.r.pick(VALUES).to_string(); if !vs.contains(&v) || self.b() { vs.push(v) } }
      let values = vs.iter().map(|v| EnumVal { sp: Z, value: id(v.clone()), settings: if self.r.p(0.3) { let mut a = vec![]; if self.r.p(0.5) { let v = self.any_value(); a.push(attr("note", if self.r.p(0.9) { Some(v) } else { None })) } self.extra_attrs(&mut a, 0.2); let note = last(&a, "note").and_then(|v| v.val.as_ref().map(|l| oracle::text(&l.val))); Some((Settings { sp: Z, attrs: a }, note)) } else { None } }).collect();
      d.blocks.push(Block::Enum(Enum { sp: Z, isp: Z, schema: s.clone().map(id), name: id(n.clone()), values }));
      enums.push((s, n, vs));
    }
    // tables
    let mut ts: Vec<Table> = vec![];
    let nt = *self.r.pick(&[1, 1, 2, 2, 2, 3, 3, 4]);
    for _ in 0..nt {
      let (s, n) = (schema(self), self.r.pick(&self.tn).to_string());
      let t = Table { sp: Z, isp: Z, name: id(n), schema: s.map(id), alias: None, cols: vec![], note: self.note(0.15), indexes: None, settings: self.settings(0.2) };
      if ts.iter().any(|o| oracle::tkey(o) == oracle::tkey(&t)) && !self.b() { continue }
      let mut t = t;
      if self.r.p(0.4) { let a = self.r.pick(&self.tn).to_string(); if !ts.iter().any(|o| o.alias.as_ref().is_some_and(|x| x.name == a)) || self.b() { t.alias = Some(id(a)) } }
      let lo = if self.r.p(0.05) { 0 } else { 1 };
      for _ in 0..self.r.range(lo, 4) {
        let n = self.r.pick(&self.cn).to_string();
        if t.cols.iter().any(|c| c.name.name == n) && !self.b() { continue }
        let all: Vec<ColType> = ts.iter().flat_map(|t| &t.cols).chain(&t.cols).map(|c| c.ty.clone()).collect();
        let ty = if !all.is_empty() && self.r.p(0.35) { let mut y = self.r.pick(&all).clone(); if self.r.p(0.15) { self.nudge_type(&mut y) } y } else { self.coltype(&enums) };
        let pk_free = !t.cols.iter().any(|c| c.settings.as_ref().is_some_and(|s| s.pk));
        let settings = self.colsettings(&ty, pk_free, &enums);
        t.cols.push(Col { sp: Z, name: id(n), ty, settings });
      }
      if self.r.p(0.45) {
        t.indexes = Some(Indexes { sp: Z, defs: vec![] });
        for _ in 0..self.r.below(4) {
          let n = if self.b() { 0 } else { *self.r.pick(&[1, 1, 2, 2, 3]) };
          let prev: Vec<Vec<IxCol>> = t.indexes.iter().flat_map(|x| x.defs.iter().map(|d| d.cols.clone())).chain(t.cols.iter().map(|c| vec![IxCol::Name(id(c.name.name.clone()))])).collect();
          let cols: Vec<IxCol> = if n == 0 { vec![] } else if !prev.is_empty() && self.r.p(0.4) {
            // close to an earlier one
            let mut v = (if prev.iter().all(|p| p.is_empty()) { vec![IxCol::Name(id("id"))] } else { loop { let v = self.r.pick(&prev).clone(); if !v.is_empty() { break v } } });
            match self.r.below(5) { 0 => v.reverse(), 1 => { let x = self.r.pick(&v).clone(); v.push(x) } 2 => { if v.len() > 1 { v.pop(); } } 3 => { let e = self.expr(); let i = self.r.below(v.len()); v[i] = IxCol::Expr(lit(Val::Str(e))) } _ => () }
            v
          } else { self.cols_of(&t, n).into_iter().map(|c| if self.r.p(0.12) { let e = self.expr(); IxCol::Expr(lit(Val::Str(e))) } else { IxCol::Name(c) }).collect() };
          let settings = if self.r.p(0.75) {
            let mut a = vec![];
            let k = self.r.below(5);
            if k == 0 || self.b() { a.push(attr("pk", None)) }
            if k == 1 || k == 2 || self.b() { a.push(attr("unique", None)) }
            if k == 3 || self.b() { let ty = self.r.pick(&["btree", "hash", "gin", "gist"]).to_string(); a.push(attr("type", Some(if self.r.p(0.8) { lit(Val::Enum(ty)) } else { lit(Val::Str(ty)) }))) }
            if self.r.p(0.2) { let v = self.any_value(); a.push(attr("name", Some(v))) }
            if self.r.p(0.2) { let v = self.any_value(); a.push(attr("note", Some(v))) }
            self.extra_attrs(&mut a, 0.15);
            Some(ix_settings(a))
          } else { None };
          t.indexes.as_mut().unwrap().defs.push(IxDef { sp: Z, cols, settings });
          let probe = |t: &Table| { let mut x = Doc { sp: Z, blocks: vec![Block::Table(t.clone())] }; oracle::broken(&mut_raws(&mut x)).iter().any(|b| b.prop == "C16" || b.msg == "Duplicate primary key") };
          if probe(&t) && !self.keep() { t.indexes.as_mut().unwrap().defs.pop(); }
        }
      }
      ts.push(t);
    }
    // inline refs
    let broken_by = |ts: &[Table], refs: &[Ref]| {
      let x = Doc { sp: Z, blocks: ts.iter().cloned().map(Block::Table).chain(refs.iter().cloned().map(Block::Ref)).collect() };
      oracle::broken(&x).iter().any(|b| ["C19", "C20", "C21"].contains(&b.prop))
    };
    let mut refs: Vec<Ref> = vec![];
    for _ in 0..self.r.below(7) {
      if ts.is_empty() { break }
      for _try in 0..6 {
        if self.r.p(0.4) {
          let t = self.r.below(ts.len());
          if ts[t].cols.is_empty() { continue }
          let c = self.r.below(ts[t].cols.len());
          let (_, _, b, rc) = self.endpoints(&ts, Some((t, c)));
          let (s, n) = self.table_ref(&ts, b);
          let r = RefInline { sp: Z, rel: self.relation(), rhs: RefId { sp: Z, schema: s, table: n, cols: rc } };
          if ts[t].cols[c].settings.is_none() { ts[t].cols[c].settings = Some(col_settings(vec![])) }
          ts[t].cols[c].settings.as_mut().unwrap().refs.push(r);
          if broken_by(&ts, &refs) && !self.keep() { ts[t].cols[c].settings.as_mut().unwrap().refs.pop(); continue }
        } else {
          let (a, lc, b, rc) = self.endpoints(&ts, None);
          let ((ls, ln), (rs, rn)) = (self.table_ref(&ts, a), self.table_ref(&ts, b));
          let (mut l, mut r) = (RefId { sp: Z, schema: ls, table: ln, cols: lc }, RefId { sp: Z, schema: rs, table: rn, cols: rc });
          if self.r.p(0.4) { std::mem::swap(&mut l, &mut r) }
          if self.b() { l.table = id(self.r.pick(&self.tn).to_string()) }
          if self.b() { r.schema = schema(self).map(id) }
          if self.b() { l.cols.push(id("id")) }
          let settings = if self.r.p(0.3) {
            let mut a = vec![];
            let acts = ["no action", "cascade", "restrict", "set null", "set default"];
            for k in ["delete", "update"] { if self.r.p(0.5) { let v = if self.r.p(0.85) { lit(Val::Enum(self.r.pick(&acts).to_string())) } else { self.value() }; a.push(attr(k, if self.r.p(0.95) { Some(v) } else { None })) } }
            self.extra_attrs(&mut a, 0.2);
            Some(ref_settings(a))
          } else { None };
          refs.push(Ref { sp: Z, name: if self.r.p(0.3) { Some(id(self.r.pick(&self.tn).to_string())) } else { None }, rel: self.relation(), lhs: l, rhs: r, settings });
          if broken_by(&ts, &refs) && !self.keep() { refs.pop(); continue }
        }
        break;
      }
    }
    // table groups
    let mut gnames: Vec<String> = vec![];
    for _ in 0..self.r.below(3) {
      let n = self.r.pick(&self.tn).to_string();
      if gnames.contains(&n) && !self.keep() { continue }
      gnames.push(n.clone());
      let mut items: Vec<Item> = vec![];
      let mut seen = vec![];
      for _ in 0..self.r.below(4) {
        if ts.is_empty() { break }
        let i = self.r.below(ts.len());
        if seen.contains(&i) && !self.keep() { continue }
        seen.push(i);
        let (s, n) = self.table_ref(&ts, i);
        items.push(if self.b() { Item { sp: Z, schema: schema(self).map(id), name: id(self.r.pick(&self.tn).to_string()) } } else { Item { sp: Z, schema: s, name: n } });
      }
      let g = Group { sp: Z, ident: id(n), note: self.note(0.2), items, settings: self.settings(0.3) };
      let x = Doc { sp: Z, blocks: ts.iter().cloned().map(Block::Table).chain([Block::Group(g.clone())]).collect() };
      if oracle::broken(&x).iter().any(|b| b.prop == "C14") && !self.keep() { continue }
      d.blocks.push(Block::Group(g));
    }
    d.blocks.extend(ts.into_iter().map(Block::Table));
    d.blocks.extend(refs.into_iter().map(Block::Ref));
    if self.r.p(0.2) { let s = self.string(); d.blocks.push(Block::Note(Note { sp: Z, val: lit(Val::Str(s)) })) }
    let n = if self.b() { *self.r.pick(&[0, 2]) } else { 1 };
    for _ in 0..n {
      let mut props = vec![];
      if self.r.p(0.5) { let s = self.r.pick(&["PostgreSQL", "PostgreSQL", "MySQL", "postgresql", "Postgres", ""]).to_string(); props.push(attr("database_type", Some(if self.r.p(0.9) { lit(Val::Str(s)) } else { self.any_value() }))) }
      while self.r.p(0.45) { let k = self.r.pick(KEYS).to_string().replace("  ", " "); if props.iter().any(|a| a.key.name == k) && !self.b() { continue } let v = self.any_value(); props.push(attr(&k, Some(v))) }
      let db = props.iter().rev().filter(|a| a.key.name == "database_type").find_map(|a| match &a.val { Some(Lit { val: Val::Str(s), .. }) => Some(if s == "PostgreSQL" { "<PostgreSQL>".to_string() } else { s.clone() }), _ => None });
      d.blocks.push(Block::Project(Project { sp: Z, ident: id(self.r.pick(&self.tn).to_string()), props, db, note: self.note(0.3) }));
    }
    for i in (1..d.blocks.len()).rev() { let j = self.r.below(i + 1); d.blocks.swap(i, j) }
    d
  }
}
impl G {
  fn nudge_type(&mut self, y: &mut ColType) {
    match self.r.below(8) {
      0 | 1 if !y.arrays.is_empty() => { let i = self.r.below(y.arrays.len()); y.arrays[i] = *self.r.pick(&[None, Some(0), Some(1), Some(2), Some(3)]) }
      2 => { y.arrays.push(None) }
      3 => { y.arrays.pop(); }
      4 if !y.args.is_empty() => { let i = self.r.below(y.args.len()); y.args[i] = match &y.args[i] { Val::Int(n) if self.r.p(0.7) => Val::Int(if self.r.p(0.5) { n.saturating_add(1) } else { (n - 1).max(0) }), _ => self.value().val } }
      5 => { y.args.pop(); }
      6 => { let v = if self.r.p(0.6) { Val::Int(self.r.range(0, 6) as i64) } else { self.value().val }; y.args.push(v) }
      _ => { if y.arrays.len() > 1 { y.arrays.reverse() } else { y.name = if self.r.p(0.5) { self.r.pick(BUILTIN).0.to_string() } else { format!("public.{}", y.name.rsplit('.').next().unwrap()) } } }
    }
  }
  fn nudge_name(&mut self, i: &mut Id, pool: &[String]) {
    i.name = match self.r.below(8) { 0 => i.name.to_uppercase(), 1 => i.name.to_lowercase(), 2 => String::new(), 3 => "public".into(), _ if !pool.is_empty() => self.r.pick(pool).clone(), _ => "id".into() }
  }
  fn nudge_attrs(&mut self, a: &mut Vec<Attr>, keys: &[&str]) {
    match self.r.below(6) {
      0 if !a.is_empty() => { let i = self.r.below(a.len()); a.remove(i); }
      1 if !a.is_empty() => { let x = self.r.pick(a).clone(); let i = self.r.range(0, a.len()); a.insert(i, x) }
      2 if !a.is_empty() => { let i = self.r.below(a.len()); if a[i].val.is_some() || self.r.p(0.2) { let v = self.any_value(); a[i].val = Some(v) } }
      3 if !a.is_empty() && self.r.p(0.3) => { let i = self.r.below(a.len()); a[i].val = None }
      _ => { let k = *self.r.pick(keys); let v = match k { "default" | "note" | "name" => Some(self.any_value()), "type" => Some(lit(Val::Enum(self.r.pick(&["btree", "hash", "gin", "gist"]).to_string()))), "update" | "delete" => Some(lit(Val::Enum(self.r.pick(&["cascade", "no action", "set null"]).to_string()))), _ => None }; let i = self.r.range(0, a.len()); a.insert(i, attr(k, v)) }
    }
    // an unknown index type or action is no tree at all
    for x in a.iter_mut() {
      let ok: &[&str] = match x.key.name.as_str() { "type" => &["btree", "hash", "gin", "gist"], "update" | "delete" => &["no action", "cascade", "restrict", "set null", "set default"], _ => continue };
      let bad = match &x.val { Some(l) => { let t = oracle::text(&l.val); if x.key.name == "type" { !ok.contains(&t.as_str()) } else { matches!(l.val, Val::Enum(_)) && !ok.contains(&t.as_str()) } } None => false };
      if bad { x.val = Some(lit(Val::Enum(ok[0].to_string()))) }
    }
  }
  /// one small change to a document, mostly one that follows the rules
  pub fn nudge(&mut self, d: &mut Doc) {
    let cols: Vec<String> = d.blocks.iter().flat_map(|b| match b { Block::Table(t) => t.cols.iter().map(|c| c.name.name.clone()).collect(), _ => vec![] }).collect();
    let tabs: Vec<String> = d.blocks.iter().flat_map(|b| match b { Block::Table(t) => t.alias.iter().map(|a| a.name.clone()).chain([t.name.name.clone()]).collect(), _ => vec![] }).collect();
    let pools: Vec<Option<Id>> = d.blocks.iter().filter_map(|b| match b { Block::Table(t) => Some(t.schema.clone()), Block::Enum(e) => Some(e.schema.clone()), _ => None }).chain([None, Some(id("public"))]).collect();
    if d.blocks.is_empty() { return }
    if self.r.p(0.06) { let b = self.r.pick(&d.blocks).clone(); let i = self.r.range(0, d.blocks.len()); d.blocks.insert(i, b); return }
    if self.r.p(0.03) { let i = self.r.below(d.blocks.len()); d.blocks.remove(i); return }
    if self.r.p(0.1) {
      // the same ref once more, written the other way round
      let mut rs: Vec<Ref> = d.blocks.iter().flat_map(|b| match b { Block::Ref(r) => vec![r.clone()], Block::Table(t) => t.cols.iter().flat_map(|c| c.settings.iter().flat_map(|s| s.refs.clone()).map(|r| Ref { sp: Z, name: None, rel: r.rel, lhs: RefId { sp: Z, schema: t.schema.clone(), table: t.name.clone(), cols: vec![c.name.clone()] }, rhs: r.rhs, settings: None }).collect::<Vec<_>>()).collect(), _ => vec![] }).collect();
      if !rs.is_empty() {
        let i = self.r.below(rs.len()); let mut r = rs.remove(i); r.name = None;
        if self.r.p(0.6) { std::mem::swap(&mut r.lhs, &mut r.rhs); r.rel = match r.rel { Rel::OM => Rel::MO, Rel::MO => Rel::OM, x => x } }
        if self.r.p(0.3) { r.rel = self.relation() }
        if self.r.p(0.3) { r.lhs.cols.reverse(); r.rhs.cols.reverse() }
        if self.r.p(0.2) { r.rhs.cols.reverse() }
        let i = self.r.range(0, d.blocks.len()); d.blocks.insert(i, Block::Ref(r));
        return
      }
    }
    let i = self.r.below(d.blocks.len());
    let mut b = d.blocks[i].clone();
    match &mut b {
      Block::Project(p) => self.nudge_attrs_prop(&mut p.props),
      Block::Note(_) => (),
      Block::Enum(e) => match self.r.below(5) {
        0 => e.schema = self.r.pick(&pools).clone(),
        1 if !e.values.is_empty() => { let j = self.r.below(e.values.len()); let pool: Vec<String> = e.values.iter().map(|v| v.value.name.clone()).collect(); self.nudge_name(&mut e.values[j].value, &pool) }
        2 if !e.values.is_empty() => { let j = self.r.below(e.values.len()); e.values.remove(j); }
        3 if !e.values.is_empty() => { let j = self.r.below(e.values.len()); if let Some(s) = &mut e.values[j].settings { self.nudge_attrs(&mut s.0.attrs, &["note", "foo"]); s.1 = last(&s.0.attrs, "note").and_then(|v| v.val.as_ref().map(|l| oracle::text(&l.val))) } }
        _ => { let pool = self.en.iter().map(|x| x.to_string()).collect::<Vec<_>>(); self.nudge_name(&mut e.name, &pool) }
      },
      Block::Group(g) => match self.r.below(4) {
        0 if !g.items.is_empty() => { let j = self.r.below(g.items.len()); self.nudge_name(&mut g.items[j].name, &tabs) }
        1 if !g.items.is_empty() => { let j = self.r.below(g.items.len()); g.items[j].schema = self.r.pick(&pools).clone() }
        2 => { let t = if tabs.is_empty() { "x".into() } else { self.r.pick(&tabs).clone() }; let s = self.r.pick(&pools).clone(); g.items.push(Item { sp: Z, schema: s, name: id(t) }) }
        _ => if let Some(s) = &mut g.settings { self.nudge_attrs(&mut s.attrs, &["foo", "note"]) },
      },
      Block::Ref(r) => match self.r.below(8) {
        0 => r.rel = self.relation(),
        1 => std::mem::swap(&mut r.lhs, &mut r.rhs),
        2 => { let e = if self.r.p(0.5) { &mut r.lhs } else { &mut r.rhs }; let j = self.r.below(e.cols.len()); self.nudge_name(&mut e.cols[j], &cols) }
        3 => { let e = if self.r.p(0.5) { &mut r.lhs } else { &mut r.rhs }; self.nudge_name(&mut e.table, &tabs) }
        4 => { let e = if self.r.p(0.5) { &mut r.lhs } else { &mut r.rhs }; e.schema = self.r.pick(&pools).clone() }
        5 => { let e = if self.r.p(0.5) { &mut r.lhs } else { &mut r.rhs }; e.cols.reverse() }
        6 => { let (x, y) = (self.r.pick(&r.lhs.cols).clone(), self.r.pick(&r.rhs.cols).clone()); r.lhs.cols.push(x); if self.r.p(0.7) { r.rhs.cols.push(y) } }
        _ => { let mut a = r.settings.as_ref().map(|s| s.attrs.clone()).unwrap_or_default(); self.nudge_attrs(&mut a, &["update", "delete", "foo"]); if !a.is_empty() { r.settings = Some(ref_settings(a)) } }
      },
      Block::Table(t) => match self.r.below(10) {
        0 => { self.nudge_name(&mut t.name, &tabs) }
        1 => t.schema = self.r.pick(&pools).clone(),
        2 => { let mut a = t.alias.take().unwrap_or(id("al")); self.nudge_name(&mut a, &tabs); t.alias = Some(a) }
        3 => if let Some(s) = &mut t.settings { self.nudge_attrs(&mut s.attrs, &["foo", "headercolor"]) },
        4 | 5 | 6 if t.indexes.as_ref().is_some_and(|x| !x.defs.is_empty()) => {
          let x = t.indexes.as_mut().unwrap();
          let j = self.r.below(x.defs.len());
          match self.r.below(6) {
            0 => { let e = x.defs[j].clone(); let k = self.r.range(0, x.defs.len()); x.defs.insert(k, e) }
            1 => x.defs[j].cols.reverse(),
            2 if !x.defs[j].cols.is_empty() => { let k = self.r.below(x.defs[j].cols.len()); if self.r.p(0.3) { x.defs[j].cols.remove(k); } else if let IxCol::Name(n) = &mut x.defs[j].cols[k] { self.nudge_name(n, &cols) } else { let e = self.expr(); x.defs[j].cols[k] = IxCol::Expr(lit(Val::Str(e))) } }
            3 if !x.defs[j].cols.is_empty() => { let c = self.r.pick(&x.defs[j].cols).clone(); x.defs[j].cols.push(c) }
            _ => { let mut a = x.defs[j].settings.as_ref().map(|s| s.attrs.clone()).unwrap_or_default(); self.nudge_attrs(&mut a, &["pk", "unique", "type", "note", "name"]); if !a.is_empty() { x.defs[j].settings = Some(ix_settings(a)) } }
          }
        }
        _ if !t.cols.is_empty() => {
          let j = self.r.below(t.cols.len());
          let c = &mut t.cols[j];
          match self.r.below(6) {
            0 => self.nudge_name(&mut c.name, &cols),
            1 | 2 => self.nudge_type(&mut c.ty),
            3 if c.settings.as_ref().is_some_and(|s| !s.refs.is_empty()) => { let v = &mut c.settings.as_mut().unwrap().refs; let k = self.r.below(v.len()); match self.r.below(5) { 0 => v[k].rel = self.relation(), 1 => self.nudge_name(&mut v[k].rhs.table, &tabs), 2 => v[k].rhs.schema = self.r.pick(&pools).clone(), 3 => { let x = v[k].clone(); v.push(x) } _ => { let m = self.r.below(v[k].rhs.cols.len()); self.nudge_name(&mut v[k].rhs.cols[m], &cols) } } }
            _ => { let (mut a, refs) = c.settings.take().map(|s| (s.attrs, s.refs)).unwrap_or_default(); self.nudge_attrs(&mut a, &["pk", "primary key", "unique", "null", "not null", "increment", "default", "note"]); if !(a.is_empty() && refs.is_empty()) { let mut s = col_settings(a); s.refs = refs; c.settings = Some(s) } }
          }
        }
        _ => (),
      },
    }
    d.blocks[i] = b;
  }
  fn nudge_attrs_prop(&mut self, a: &mut Vec<Attr>) {
    if a.is_empty() { return }
    // database_type is derived from the properties; only others are touched
    let j = self.r.below(a.len());
    if a[j].key.name == "database_type" { return }
    let mut x = a[j].clone(); let v = self.any_value(); x.val = Some(v); let i = self.r.range(0, a.len()); a.insert(i, x)
  }
}
fn mut_raws(x: &mut Doc) -> Doc {
  let mut d = x.clone();
  for b in &mut d.blocks { if let Block::Table(t) = b { for e in t.indexes.iter_mut().flat_map(|x| &mut x.defs) { for c in &mut e.cols { if let IxCol::Expr(l) = c { l.raw = format!("`{}`", oracle::text(&l.val)) } } } } }
  d
}
fn last<'a>(v: &'a [Attr], k: &str) -> Option<&'a Attr> { v.iter().rev().find(|a| a.key.name == k) }
/// what the attributes of a column mean
pub fn col_settings(attrs: Vec<Attr>) -> ColSettings {
  let has = |k: &str| attrs.iter().any(|a| a.key.name == k);
  let v = |k: &str| last(&attrs, k).and_then(|a| a.val.clone());
  ColSettings { sp: Z, pk: has("pk") || has("primary key"), unique: has("unique"), nullable: attrs.iter().rev().find_map(|a| match a.key.name.as_str() { "null" => Some(true), "not null" => Some(false), _ => None }), incr: has("increment"), note: v("note").map(|l| oracle::text(&l.val)), default: v("default").map(|l| l.val), refs: vec![], attrs }
}
pub fn ix_settings(attrs: Vec<Attr>) -> IxSettings {
  let has = |k: &str| attrs.iter().any(|a| a.key.name == k);
  let v = |k: &str| last(&attrs, k).and_then(|a| a.val.as_ref()).map(|l| oracle::text(&l.val));
  IxSettings { sp: Z, pk: has("pk"), unique: has("unique"), ty: v("type"), note: v("note"), name: v("name"), attrs }
}
pub fn ref_settings(attrs: Vec<Attr>) -> RefSettings {
  let v = |k: &str| last(&attrs, k).and_then(|a| a.val.as_ref()).and_then(|l| match &l.val { Val::Enum(s) => Some(s.clone()), _ => None });
  RefSettings { sp: Z, upd: v("update"), del: v("delete"), attrs }
}
/// fits the grammar's bare word
pub fn plain(s: &str) -> bool { s.starts_with(|c: char| c.is_ascii_alphabetic()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') }
/// fits the grammar's bare words separated by single spaces
pub fn plain_spaced(s: &str) -> bool { s.starts_with(|c: char| c.is_ascii_alphabetic()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == ' ') && !s.contains("  ") && !s.ends_with(' ') }

// ------------------------------------------------------------------------------------------------ writing it out
#[derive(PartialEq, Clone, Copy)]
enum Prev { Punct, Word, Spaced }
pub struct Emit<'a> {
  pub out: String, pub r: &'a mut Rng, pub noise: f64, pub next: BTreeMap<usize, usize>, pub regions: Vec<(usize, usize, &'static str)>,
  prev: Prev, last_end: usize, gap: bool,
  /// an error the parser has to report: property, message of the error if it is a fixed one
  pub broke: Option<(&'static str, Sp)>, pub break_p: f64,
}
impl<'a> Emit<'a> {
  pub fn new(r: &'a mut Rng, noise: f64, break_p: f64) -> Self { Emit { out: String::new(), r, noise, next: BTreeMap::new(), regions: vec![], prev: Prev::Punct, last_end: 0, gap: false, broke: None, break_p } }
  fn blank(&mut self) -> &'static str { *self.r.pick(&[" ", " ", "  ", "\n", "\t", "\n  ", "\r\n", " \n\n ", "\r"]) }
  fn comment(&mut self) {
    let body = *self.r.pick(&["", " hello", " it's", " \"q", " Table x { id int }", "*", " ]", "/", " é日", " `", " [pk]", "'''", " ref: > a.b"]);
    if self.r.p(0.5) { self.out.push_str("//"); self.out.push_str(body); self.out.push_str(if self.r.p(0.85) { "\n" } else if self.r.p(0.5) { "\r\n" } else { "\r" }) } else { self.out.push_str("/*"); self.out.push_str(body); if self.r.p(0.2) { self.out.push_str("\nx // y") } self.out.push_str("*/") }
  }
  fn sep(&mut self, must: bool, spaced: bool) {
    let at = self.out.len();
    if spaced { let s = if self.r.p(0.5) { "\n" } else { "  " }; self.out.push_str(s) } else if must { let b = self.blank(); self.out.push_str(b) } else if self.r.p(0.5) { let b = self.blank(); self.out.push_str(b) }
    while self.r.p(self.noise) { if self.r.p(0.5) { self.comment() } else { let b = self.blank(); self.out.push_str(b) } }
    let _ = at;
  }
  fn tok(&mut self, t: &str, kind: Prev) -> Sp {
    let p0 = t.chars().next().map(|c| "[](){},:.<>-".contains(c)).unwrap_or(false) && self.prev != Prev::Spaced || self.prev == Prev::Punct;
    let wordish = t.chars().next().is_some_and(|c| c.is_ascii_alphanumeric() || c == '_');
    let must = self.gap || !p0;
    let spaced = self.prev == Prev::Spaced && wordish;
    let force = self.prev == Prev::Spaced && !"]},:".contains(t.chars().next().unwrap_or('x'));
    self.sep(must && !(self.prev == Prev::Spaced && !force), spaced);
    self.gap = false;
    let s = self.out.len();
    self.next.insert(self.last_end, s);
    self.out.push_str(t);
    self.prev = kind;
    self.last_end = self.out.len();
    Sp { s, e: self.out.len() }
  }
  fn p(&mut self, t: &str) -> Sp { self.tok(t, Prev::Punct) }
  fn kw(&mut self, t: &str, space: bool) -> Sp {
    let t: String = match self.r.below(6) { 0 => t.to_lowercase(), 1 => t.to_uppercase(), 2 => t.chars().map(|c| if self.r.p(0.5) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(), _ => t.to_string() };
    let sp = self.tok(&t, Prev::Word);
    if space { self.out.push(' '); self.prev = Prev::Punct; }
    sp
  }
  fn region(&mut self, s: usize, p: &'static str) { let e = self.out.len(); self.regions.push((s, e, p)) }
  fn lead(&mut self) -> &'static str { if self.r.p(self.noise * 0.5) { *self.r.pick(&[" ", "  ", "\t", "\n ", "\r\n"]) } else { "" } }
  fn dq(&mut self, s: &str) -> String { format!("\"{}{}\"", self.lead(), s) }
  fn ident(&mut self, i: &mut Id) { self.ident_p(i, "C04") }
  fn ident_p(&mut self, i: &mut Id, prop: &'static str) {
    let t = if plain(&i.name) && self.r.p(0.8) { i.name.clone() } else { let n = i.name.clone(); self.dq(&n) };
    i.sp = self.tok(&t, Prev::Word);
    i.raw = t;
    self.region(i.sp.s, prop);
  }
  fn dotted(&mut self, s: &mut Option<Id>, n: &mut Id) -> Sp {
    let mut st = None;
    if let Some(x) = s { self.ident(x); st = Some(x.sp.s); self.p("."); }
    self.ident(n);
    Sp { s: st.unwrap_or(n.sp.s), e: n.sp.e }
  }
  fn strtext(&mut self, s: &str, dq: bool) -> String {
    let mut forms = vec![];
    if !s.contains('\'') { forms.extend([1, 1, 1]) }
    if !s.contains("'''") && !s.ends_with('\'') { forms.push(3) }
    if dq && !s.contains('"') { forms.push(2) }
    let l = self.lead();
    match forms.get(self.r.below(forms.len())) {
      Some(1) => if s.is_empty() && !l.is_empty() { format!("'{l}'") } else { format!("'{l}{s}'") },
      Some(2) => format!("\"{l}{s}\""),
      _ => format!("'''{l}{s}'''"),
    }
  }
  /// some strings have no written form; they are replaced first
  fn fix(&mut self, v: &mut Val, dq: bool) {
    match v {
      Val::Str(s) => if s.contains('\'') && (s.contains("'''") || s.ends_with('\'')) && !(dq && !s.contains('"')) { *s = s.replace('\'', "q") },
      _ => (),
    }
  }
  fn valtext(&mut self, v: &Val, raw: &str, dq: bool) -> String {
    match v {
      Val::Str(s) => self.strtext(s, dq),
      Val::Expr(s) => format!("`{}{}`", self.lead(), s),
      Val::Enum(s) | Val::Hex(s) => s.clone(),
      Val::Bool(b) => b.to_string(),
      Val::Null => "null".into(),
      Val::Int(i) => if raw.is_empty() { if self.r.p(0.1) { format!("0{i}") } else { i.to_string() } } else { raw.to_string() },
      Val::Dec(f) => if raw.is_empty() { let s = format!("{f}"); if s.contains('.') { s } else { format!("{s}.0") } } else { raw.to_string() },
    }
  }
  fn overflow(&mut self, small: bool) -> Option<String> {
    if self.broke.is_none() && self.r.p(self.break_p) { Some(if small { self.r.pick(&["4294967296", "99999999999", "18446744073709551616"]).to_string() } else { self.r.pick(&["9223372036854775808", "18446744073709551616", "99999999999999999999999"]).to_string() }) } else { None }
  }
  fn literal(&mut self, l: &mut Lit, dq: bool) {
    self.fix(&mut l.val, dq);
    let mut t = self.valtext(&l.val, &l.raw, dq);
    let mut brk = false;
    if let Val::Int(_) = l.val { if let Some(x) = self.overflow(false) { t = x; brk = true } }
    l.sp = self.tok(&t, if matches!(l.val, Val::Enum(_)) { Prev::Spaced } else { Prev::Word });
    l.raw = t;
    if brk { self.broke = Some(("C05", l.sp)) }
    self.region(l.sp.s, "C05");
  }
  fn attr(&mut self, a: &mut Attr, is_prop: bool) {
    let t = a.key.name.clone();
    a.key.sp = self.tok(&t, Prev::Spaced);
    a.key.raw = t;
    if let Some(l) = &mut a.val { self.p(":"); self.literal(l, !is_prop); a.sp = Sp { s: a.key.sp.s, e: l.sp.e } } else { a.sp = a.key.sp }
    self.region(a.sp.s, "C06");
  }
  fn attrs(&mut self, v: &mut Vec<Attr>) -> Sp {
    let s = self.p("[").s;
    for (i, a) in v.iter_mut().enumerate() { if i > 0 { self.p(","); } self.attr(a, false) }
    let e = self.p("]").e;
    self.region(s, "C06");
    Sp { s, e }
  }
  fn note(&mut self, n: &mut Note) {
    let s = self.kw("Note", false).s;
    self.fix(&mut n.val.val, false);
    if self.r.p(0.6) { self.p(":"); self.literal(&mut n.val, false); n.sp = Sp { s, e: n.val.sp.e } } else { self.p("{"); self.literal(&mut n.val, false); let e = self.p("}").e; n.sp = Sp { s, e } }
    self.region(s, "C03");
  }
  fn notes(&mut self, n: &mut Option<Note>, extra: bool) {
    if let Some(n) = n { if extra && self.r.p(0.06) { let mut d = Note { sp: Z, val: lit(Val::Str("first".into())) }; self.note(&mut d) } self.note(n) }
  }
  fn refid(&mut self, r: &mut RefId) {
    let sp = self.dotted(&mut r.schema, &mut r.table);
    self.p(".");
    let e;
    if r.cols.len() == 1 && self.r.p(0.8) { self.ident(&mut r.cols[0]); e = r.cols[0].sp.e } else {
      self.p("(");
      for i in 0..r.cols.len() { if i > 0 { self.p(","); } self.ident(&mut r.cols[i]) }
      e = self.p(")").e;
    }
    r.sp = Sp { s: sp.s, e };
    self.region(sp.s, "C07");
  }
  fn rel(&mut self, r: Rel) { let t = match r { Rel::OO => "-", Rel::OM => "<", Rel::MO => ">", Rel::MM => "<>", Rel::Undef => unreachable!() }; self.tok(t, Prev::Punct); self.region(self.out.len() - t.len(), "C07") }
  fn inline(&mut self, r: &mut RefInline) {
    let s = self.tok("ref", Prev::Word).s;
    self.p(":");
    self.rel(r.rel);
    self.refid(&mut r.rhs);
    r.sp = Sp { s, e: r.rhs.sp.e };
    self.region(s, "C07");
  }
  fn coltype(&mut self, t: &mut ColType) {
    let mut s = String::new();
    let (schema, base) = match t.name.split_once('.') { Some((a, b)) => (Some(a.to_string()), b.to_string()), None => (None, t.name.clone()) };
    // a second dot can only stand in the schema
    let (schema, base) = match t.name.rsplit_once('.') { Some((a, b)) => (Some(a.to_string()), b.to_string()), None => (schema, base) };
    if let Some(x) = &schema { if plain(x) && self.r.p(0.8) { s.push_str(x) } else { let q = self.dq(x); s.push_str(&q) } s.push('.') }
    let quoted = !plain(&base) || self.r.p(0.15);
    let mut tail = String::new();
    let mut brk = None;
    if !t.args.is_empty() || self.r.p(0.02) {
      tail.push('(');
      for i in 0..t.args.len() {
        if i > 0 { tail.push(',') }
        let mut v = t.args[i].clone();
        if let Val::Str(x) = &mut v { if quoted { *x = x.replace('"', "q") } }
        if let Val::Expr(x) = &mut v { if quoted { *x = x.replace('"', "q") } }
        self.fix(&mut v, false);
        let mut x = self.valtext(&v, "", false);
        if let Val::Int(_) = v { if let Some(y) = self.overflow(false) { x = y; brk = Some("C05"); self.broke = Some(("C05", Z)) } }
        if let Val::Dec(_) = v { v = Val::Dec(x.parse().unwrap()) }
        t.args[i] = v;
        tail.push_str(&x);
      }
      tail.push(')');
    }
    let arr: Vec<String> = t.arrays.iter().map(|a| match a { None => "[]".to_string(), Some(n) => format!("[{}{n}]", if self.r.p(0.1) { "0" } else { "" }) }).collect();
    let mut arr = arr;
    for (i, a) in t.arrays.iter().enumerate() { if a.is_some() { if let Some(y) = self.overflow(true) { arr[i] = format!("[{y}]"); brk = Some("C05"); self.broke = Some(("C05", Z)) } } }
    if quoted {
      let k = self.r.range(0, arr.len());
      s.push_str(&format!("\"{base}{tail}{}\"{}", arr[..k].concat(), arr[k..].concat()));
    } else { s.push_str(&format!("{base}{tail}{}", arr.concat())) }
    self.gap = true;
    t.sp = self.tok(&s, Prev::Word);
    t.raw = s;
    if let Some(p) = brk { self.broke = Some((p, t.sp)) }
    self.region(t.sp.s, "C08");
  }
  fn col(&mut self, c: &mut Col) {
    self.ident(&mut c.name);
    self.coltype(&mut c.ty);
    let mut e = c.ty.sp.e;
    if let Some(s) = &mut c.settings {
      if s.attrs.is_empty() && s.refs.is_empty() { self.gap = true }
      let st = self.p("[").s;
      let (mut i, mut j, mut first) = (0, 0, true);
      while i < s.attrs.len() || j < s.refs.len() {
        if !first { self.p(","); }
        first = false;
        if j < s.refs.len() && (i == s.attrs.len() || self.r.p(0.5)) { self.inline(&mut s.refs[j]); j += 1 } else { self.attr(&mut s.attrs[i], false); i += 1 }
      }
      // the literals may have been replaced by ones that can be written
      let fresh = col_settings(s.attrs.clone());
      s.note = fresh.note; s.default = fresh.default;
      e = self.p("]").e;
      s.sp = Sp { s: st, e };
      self.region(st, "C06");
    }
    c.sp = Sp { s: c.name.sp.s, e };
    self.region(c.sp.s, "C03");
  }
  fn bad_word(&mut self, a: &mut Vec<Attr>, key: &[&str], bad: &str) -> bool {
    if self.broke.is_none() && self.r.p(self.break_p * 3.0) { for x in a.iter_mut() { if key.contains(&x.key.name.as_str()) && matches!(x.val, Some(Lit { val: Val::Enum(_), .. })) { x.val = Some(lit(Val::Enum(bad.into()))); return true } } }
    false
  }
  fn indexes(&mut self, x: &mut Indexes) {
    self.kw("Indexes", false);
    let s = self.p("{").s;
    for d in &mut x.defs {
      let st;
      let mut e;
      let multi = d.cols.len() != 1 || self.r.p(0.3);
      let mut first = None;
      if multi { first = Some(self.p("(").s) }
      e = 0;
      for (i, c) in d.cols.iter_mut().enumerate() {
        if i > 0 { self.p(","); }
        let sp = match c {
          IxCol::Name(n) => { self.ident(n); n.sp }
          IxCol::Expr(l) => { let t = match &l.val { Val::Str(s) => format!("`{s}`"), _ => unreachable!() }; l.sp = self.tok(&t, Prev::Word); l.raw = t; self.region(l.sp.s, "C05"); l.sp }
        };
        if first.is_none() { first = Some(sp.s) }
        e = sp.e;
      }
      st = first.unwrap();
      if multi { e = self.p(")").e }
      if let Some(s) = &mut d.settings {
        let brk = self.bad_word(&mut s.attrs, &["type"], *["btrees", "Btree", "hash x", "none"].get(st % 4).unwrap());
        s.sp = self.attrs(&mut s.attrs);
        let fresh = ix_settings(s.attrs.clone());
        s.note = fresh.note; s.name = fresh.name; s.ty = fresh.ty;
        if brk { self.broke = Some(("C06", s.sp)) }
        e = s.sp.e;
      }
      d.sp = Sp { s: st, e };
      self.region(st, "C03");
    }
    let e = self.p("}").e;
    x.sp = Sp { s, e };
    self.region(s, "C03");
  }
  pub fn doc(&mut self, d: &mut Doc) {
    if self.r.p(0.3) { self.sep(false, false) }
    for b in &mut d.blocks {
      let start;
      match b {
        Block::Note(n) => { self.note(n); start = n.sp.s }
        Block::Project(x) => {
          let s = self.kw("Project", true).s; start = s;
          self.ident(&mut x.ident);
          self.p("{");
          let at = self.r.range(0, x.props.len());
          for i in 0..=x.props.len() { if i == at { self.notes(&mut x.note, true) } if i < x.props.len() { self.attr(&mut x.props[i], true) } }
          x.db = x.props.iter().rev().filter(|a| a.key.name == "database_type").find_map(|a| match &a.val { Some(Lit { val: Val::Str(s), .. }) => Some(if s == "PostgreSQL" { "<PostgreSQL>".to_string() } else { s.clone() }), _ => None });
          let e = self.p("}").e;
          x.sp = Sp { s, e };
        }
        Block::Enum(x) => {
          let s = self.kw("Enum", true).s; start = s;
          x.isp = self.dotted(&mut x.schema, &mut x.name);
          self.p("{");
          for v in &mut x.values {
            self.ident(&mut v.value);
            let mut e = v.value.sp.e;
            if let Some((st, note)) = &mut v.settings { st.sp = self.attrs(&mut st.attrs); *note = last(&st.attrs, "note").and_then(|a| a.val.as_ref()).map(|l| oracle::text(&l.val)); e = st.sp.e }
            v.sp = Sp { s: v.value.sp.s, e };
          }
          let e = self.p("}").e;
          x.sp = Sp { s, e };
        }
        Block::Group(x) => {
          let s = self.kw("TableGroup", true).s; start = s;
          self.ident(&mut x.ident);
          if let Some(st) = &mut x.settings { st.sp = self.attrs(&mut st.attrs) }
          self.p("{");
          let at = self.r.range(0, x.items.len());
          for i in 0..=x.items.len() { if i == at { self.notes(&mut x.note, true) } if i < x.items.len() { let it = &mut x.items[i]; it.sp = self.dotted(&mut it.schema, &mut it.name); self.region(it.sp.s, "C03") } }
          let e = self.p("}").e;
          x.sp = Sp { s, e };
        }
        Block::Ref(x) => {
          let s = self.kw("Ref", false).s; start = s;
          if let Some(n) = &mut x.name { self.ident(n) }
          let short = self.r.p(0.7);
          self.p(if short { ":" } else { "{" });
          self.refid(&mut x.lhs);
          self.rel(x.rel);
          self.refid(&mut x.rhs);
          let mut e = x.rhs.sp.e;
          if let Some(st) = &mut x.settings {
            let brk = self.bad_word(&mut st.attrs, &["delete", "update"], *["cascades", "Cascade", "set  null", "setnull"].get(e % 4).unwrap_or(&"x"));
            if brk { for a in &mut st.attrs { if let Some(Lit { val: Val::Enum(v), .. }) = &mut a.val { *v = v.replace("  ", " x ") } } }
            st.sp = self.attrs(&mut st.attrs);
            let fresh = ref_settings(st.attrs.clone());
            st.upd = fresh.upd; st.del = fresh.del;
            if brk { self.broke = Some(("C06", st.sp)) }
            e = st.sp.e;
          }
          x.sp = Sp { s: x.lhs.sp.s, e };
          if !short { self.p("}"); }
        }
        Block::Table(x) => {
          let s = self.kw("Table", true).s; start = s;
          x.isp = self.dotted(&mut x.schema, &mut x.name);
          if let Some(a) = &mut x.alias { self.gap = true; self.kw("as", true); self.ident(a) }
          if let Some(st) = &mut x.settings { st.sp = self.attrs(&mut st.attrs) }
          self.p("{");
          let (n, ix) = (self.r.range(0, x.cols.len()), self.r.range(0, x.cols.len()));
          for i in 0..=x.cols.len() {
            if i == n { self.notes(&mut x.note, true) }
            if i == ix { if let Some(d) = &mut x.indexes { if self.r.p(0.05) { let mut dummy = Indexes { sp: Z, defs: vec![] }; self.indexes(&mut dummy) } self.indexes(d) } }
            if i < x.cols.len() { self.col(&mut x.cols[i]) }
          }
          let e = self.p("}").e;
          x.sp = Sp { s, e };
        }
      }
      self.prev = Prev::Word;
      self.region(start, "C03");
    }
    if self.r.p(0.5) { self.sep(false, false) }
    self.next.insert(self.last_end, self.out.len());
    d.sp = Sp { s: 0, e: self.out.len() };
  }
}
