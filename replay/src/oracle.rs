//! The rules of an acceptable document, written from the property statements: every way the document breaks one, with
//! the message that names the rule and the place of the offender.
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Broken { pub prop: &'static str, pub msg: String, pub sp: Sp }
pub type Key = (String, String);

pub const BUILTIN: &[(&str, &str)] = &[
  ("bit", "Bit"), ("varbit", "Varbit"), ("bit varying", "Varbit"), ("char", "Char"), ("character", "Char"), ("varchar", "VarChar"),
  ("character varying", "VarChar"), ("box", "Box"), ("cidr", "Cidr"), ("circle", "Circle"), ("inet", "Inet"), ("line", "Line"),
  ("lseg", "LineSegment"), ("macaddr", "MacAddr"), ("macaddr8", "MacAddr8"), ("money", "Money"), ("path", "Path"),
  ("pg_lsn", "PGLongSequenceNumber"), ("pg_snapshot", "PGSnapshot"), ("point", "Point"), ("polygon", "Polygon"), ("tsquery", "TSQuery"),
  ("tsvector", "TSVector"), ("smallserial", "SmallSerial"), ("serial2", "SmallSerial"), ("serial", "Serial"), ("serial4", "Serial"),
  ("bigserial", "BigSerial"), ("serial8", "BigSerial"), ("smallint", "SmallInt"), ("int2", "SmallInt"), ("integer", "Integer"),
  ("int", "Integer"), ("int4", "Integer"), ("bigint", "BigInt"), ("int8", "BigInt"), ("real", "Real"), ("float4", "Real"),
  ("double precision", "DoublePrecision"), ("float8", "DoublePrecision"), ("bool", "Bool"), ("boolean", "Bool"), ("bytea", "ByteArray"),
  ("date", "Date"), ("text", "Text"), ("time", "Time"), ("time without time zone", "Time"), ("timetz", "Timetz"),
  ("time with time zone", "Timetz"), ("timestamp", "Timestamp"), ("timestamp without time zone", "Timestamp"),
  ("timestamptz", "Timestamptz"), ("timestamp with time zone", "Timestamptz"), ("uuid", "Uuid"), ("json", "Json"), ("jsonb", "Jsonb"),
  ("decimal", "Decimal"), ("numeric", "Decimal"), ("xml", "Xml"),
];
pub fn builtin(s: &str) -> Option<&'static str> { BUILTIN.iter().find(|b| b.0 == s).map(|b| b.1) }
/// how many arguments a built-in type takes
fn arity(t: &str) -> usize {
  match t { "VarChar" | "Char" | "Time" | "Timestamp" | "Timetz" | "Timestamptz" | "Bit" | "Varbit" => 1, "Decimal" => 2, _ => 0 }
}
pub fn text(v: &Val) -> String {
  match v { Val::Enum(s) | Val::Str(s) | Val::Hex(s) | Val::Expr(s) => s.clone(), Val::Int(i) => i.to_string(), Val::Dec(f) => f.to_string(), Val::Bool(b) => b.to_string(), Val::Null => "null".into() }
}
fn sch(x: &Option<Id>) -> String { x.as_ref().map(|i| i.name.clone()).unwrap_or_else(|| "public".into()) }
pub fn tkey(t: &Table) -> Key { (sch(&t.schema), t.name.name.clone()) }
fn ekey(t: &Enum) -> Key { (sch(&t.schema), t.name.name.clone()) }

/// indexes of the elements whose key appeared before
fn repeats<K: Ord>(it: impl IntoIterator<Item = K>) -> Vec<usize> {
  let mut seen = BTreeSet::new();
  it.into_iter().enumerate().filter_map(|(i, k)| if seen.insert(k) { None } else { Some(i) }).collect()
}

pub struct Names { pub alias: BTreeMap<String, Key> }
pub fn names(d: &Doc) -> Names {
  let mut alias = BTreeMap::new();
  for t in d.tables() { if let Some(a) = &t.alias { alias.entry(a.name.clone()).or_insert(tkey(t)); } }
  Names { alias }
}
pub fn resolve(n: &Names, r: &RefId) -> Key {
  if r.schema.is_none() { if let Some(k) = n.alias.get(&r.table.name) { return k.clone(); } }
  (sch(&r.schema), r.table.name.clone())
}

/// A ref, block or inline, with everything resolved.
#[derive(Clone, Debug)]
pub struct R { pub sp: Sp, pub rel: Rel, pub l: Key, pub r: Key, pub lc: Vec<Id>, pub rc: Vec<Id>, pub lsp: Sp, pub rsp: Sp, pub lid: Option<RefId>, pub rid: RefId, pub attrs: Vec<Attr> }
pub fn all_refs(d: &Doc) -> Vec<R> {
  let n = names(d);
  let mut out = vec![];
  for r in d.refs() {
    out.push(R { sp: r.sp, rel: r.rel, l: resolve(&n, &r.lhs), r: resolve(&n, &r.rhs), lc: r.lhs.cols.clone(), rc: r.rhs.cols.clone(), lsp: r.lhs.sp, rsp: r.rhs.sp, lid: Some(r.lhs.clone()), rid: r.rhs.clone(), attrs: r.settings.as_ref().map(|s| s.attrs.clone()).unwrap_or_default() });
  }
  for t in d.tables() {
    for c in &t.cols {
      for r in c.settings.iter().flat_map(|s| &s.refs) {
        out.push(R { sp: r.sp, rel: r.rel, l: tkey(t), r: resolve(&n, &r.rhs), lc: vec![c.name.clone()], rc: r.rhs.cols.clone(), lsp: r.sp, rsp: r.rhs.sp, lid: None, rid: r.rhs.clone(), attrs: vec![] });
      }
    }
  }
  out
}

pub fn broken(d: &Doc) -> Vec<Broken> {
  let mut o: Vec<Broken> = vec![];
  macro_rules! bad { ($p:expr, $m:expr, $s:expr) => { o.push(Broken { prop: $p, msg: $m.to_string(), sp: $s }) } }
  macro_rules! attrs { ($v:expr) => { for i in repeats($v.iter().map(|a| a.key.name.clone())) { bad!("C13", "Duplicate attribute key", $v[i].sp) } } }
  let (projects, tables, enums, groups) = (d.projects(), d.tables(), d.enums(), d.groups());
  // C10
  if projects.is_empty() { bad!("C10", "Project setting not found", d.sp) }
  if projects.len() > 1 { bad!("C10", "Duplicate project setting", d.sp) }
  for p in &projects { for i in repeats(p.props.iter().map(|a| a.key.name.clone())) { bad!("C10", "Duplicate property key", p.props[i].sp) } }
  // C11, C12
  for i in repeats(tables.iter().map(|t| tkey(t))) { bad!("C11", "Duplicate table name", tables[i].isp) }
  for t in &tables { for i in repeats(t.cols.iter().map(|c| c.name.name.clone())) { bad!("C11", "Duplicate column name", t.cols[i].sp) } }
  let al: Vec<&Id> = tables.iter().filter_map(|t| t.alias.as_ref()).collect();
  for i in repeats(al.iter().map(|a| a.name.clone())) { bad!("C11", "Duplicate alias", al[i].sp) }
  for i in repeats(enums.iter().map(|t| ekey(t))) { bad!("C12", "Duplicate enum name", enums[i].isp) }
  for e in &enums { for i in repeats(e.values.iter().map(|v| v.value.name.clone())) { bad!("C12", "Duplicate enum value", e.values[i].sp) } }
  // C13
  for t in &tables {
    if let Some(s) = &t.settings { attrs!(s.attrs) }
    for c in &t.cols { if let Some(s) = &c.settings { attrs!(s.attrs) } }
    for x in t.indexes.iter().flat_map(|x| &x.defs) { if let Some(s) = &x.settings { attrs!(s.attrs) } }
  }
  for e in &enums { for v in &e.values { if let Some((s, _)) = &v.settings { attrs!(s.attrs) } } }
  for g in &groups { if let Some(s) = &g.settings { attrs!(s.attrs) } }
  for r in d.refs() { if let Some(s) = &r.settings { attrs!(s.attrs) } }
  // C14
  let tkeys: BTreeMap<Key, &Table> = tables.iter().rev().map(|t| (tkey(t), *t)).collect();
  let ekeys: BTreeMap<Key, &Enum> = enums.iter().rev().map(|t| (ekey(t), *t)).collect();
  let n = names(d);
  for i in repeats(groups.iter().map(|g| g.ident.name.clone())) { bad!("C14", "Duplicate table group name", groups[i].ident.sp) }
  for g in &groups {
    let mut seen = BTreeSet::new();
    for it in &g.items {
      let k = match &it.schema {
        Some(s) => Some((s.name.clone(), it.name.name.clone())).filter(|k| tkeys.contains_key(k)),
        None => n.alias.get(&it.name.name).cloned().or_else(|| Some(("public".to_string(), it.name.name.clone())).filter(|k| tkeys.contains_key(k))),
      };
      match k { None => bad!("C14", "Table not found", it.sp), Some(k) => if !seen.insert(k) { bad!("C14", "Duplicate table group item", it.sp) } }
    }
  }
  // C15, C16
  for t in &tables {
    let mut have_pk = false;
    let mut uniq: Vec<BTreeSet<String>> = vec![];
    for c in &t.cols {
      if let Some(s) = &c.settings {
        let has = |k: &str| s.attrs.iter().any(|a| a.key.name == k);
        if s.pk {
          if have_pk { bad!("C15", "Duplicate primary key", c.sp) }
          have_pk = true;
          if s.nullable == Some(true) { bad!("C15", "Nullable primary key: a nullable primary is not allowed", c.sp) }
          if !c.ty.arrays.is_empty() { bad!("C15", "Array primary key: an array with primary is not allowed", c.sp) }
        }
        if has("null") && has("not null") { bad!("C15", "Conflict nullable setting: 'null' and 'not null' must not appear within the same setting", s.sp) }
        if s.unique { uniq.push([c.name.name.clone()].into()) }
      }
    }
    if let Some(ixs) = &t.indexes {
      let mut listed: Vec<(Vec<String>, Option<String>)> = vec![];
      for x in &ixs.defs {
        let keys: Vec<String> = x.cols.iter().map(|c| match c { IxCol::Name(i) => i.name.clone(), IxCol::Expr(l) => l.raw.clone() }).collect();
        let set: BTreeSet<String> = keys.iter().cloned().collect();
        if keys.is_empty() { bad!("C16", "Empty indexes block", ixs.sp) }
        for c in &x.cols { if let IxCol::Name(i) = c { if !t.cols.iter().any(|c| c.name.name == i.name) { bad!("C16", "Column not found", i.sp) } } }
        match &x.settings {
          Some(s) => {
            if s.pk as u8 + s.unique as u8 + s.ty.is_some() as u8 > 1 { bad!("C16", "Invalid indexes setting: can specify either 'pk', 'unique', or 'type' within a setting", s.sp) }
            if s.pk { if have_pk { bad!("C15", "Duplicate primary key", x.sp) } have_pk = true; }
            if s.unique { if uniq.contains(&set) { bad!("C16", "Duplicate unique key", x.sp) } uniq.push(set); }
            if s.ty.is_some() { if listed.iter().any(|l| l.0 == keys && l.1 == s.ty) { bad!("C16", "Duplicate index key", x.sp) } listed.push((keys, s.ty.clone())); }
          }
          None => { if listed.iter().any(|l| l.0 == keys) { bad!("C16", "Duplicate index key", x.sp) } listed.push((keys, None)); }
        }
      }
    }
  }
  // C17, C18
  let schema_known = |s: &str| tkeys.keys().any(|k| k.0 == s) || ekeys.keys().any(|k| k.0 == s);
  for t in &tables {
    for c in &t.cols {
      let ty = &c.ty;
      let b = builtin(&ty.name);
      let default = c.settings.as_ref().and_then(|s| s.default.as_ref());
      let dsp = || c.settings.as_ref().and_then(|s| s.attrs.iter().find(|a| a.key.name == "default")).and_then(|a| a.val.as_ref()).map(|v| v.sp).unwrap_or_default();
      if let Some(b) = b {
        if !ty.args.is_empty() {
          if ty.args.len() != arity(b) { bad!("C17", format!("Invalid data type arguments: '{}' requires only {} argument(s)", ty.name, arity(b)), ty.sp) }
          if ty.args.iter().any(|a| !matches!(a, Val::Int(_))) { bad!("C17", "Invalid argument value: the value for the argument is not integer", ty.sp) }
        }
      } else {
        let parts: Vec<&str> = ty.name.split('.').collect();
        if parts.len() > 2 { bad!("C18", "Invalid enum", ty.sp) }
        else if let Some(v) = default {
          let k = if parts.len() == 2 { (parts[0].to_string(), parts[1].to_string()) } else { ("public".to_string(), parts[0].to_string()) };
          if !schema_known(&k.0) { bad!("C18", "Schema not found", ty.sp) }
          else { match ekeys.get(&k) {
            None => bad!("C18", "Enum not found", ty.sp),
            Some(e) => if !e.values.iter().any(|x| x.value.name == text(v)) { bad!("C18", "Enum value not found", dsp()) }
          } }
        }
      }
      let invalid = |v: String| format!("Invalid default value: the defualt value '{}' is not associated with '{}'", v, ty.raw);
      let first = match ty.args.first() { Some(Val::Int(n)) => Some(*n), _ => None };
      match default {
        Some(Val::Str(s)) => {
          let n = s.chars().count() as i64;
          match (b, first) {
            (Some("Bit" | "Char"), Some(len)) if n != len => bad!("C18", invalid(s.clone()), dsp()),
            (Some("Varbit" | "VarChar"), Some(len)) if n > len => bad!("C18", invalid(s.clone()), dsp()),
            _ => (),
          }
        }
        Some(Val::Int(i)) => {
          let ok = match b { Some("SmallInt") => (-32768..=32767).contains(i), Some("Integer") => (-2147483648..=2147483647).contains(i), _ => true };
          if !ok { bad!("C18", format!("Data type exceeded: the default value exceeds the maximum value of '{}'", ty.raw), dsp()) }
        }
        Some(Val::Bool(v)) => if b != Some("Bool") { bad!("C18", invalid(v.to_string()), dsp()) },
        Some(Val::Null) => if c.settings.as_ref().and_then(|s| s.nullable) != Some(true) { bad!("C18", "Default null in non-nullable: the default value cannot be null in non-nullable field", dsp()) },
        _ => (),
      }
    }
  }
  // C19, C20, C21
  let refs = all_refs(d);
  for r in &refs {
    let composite = r.lc.len().max(r.rc.len()) >= 2;
    if r.lc.len() != r.rc.len() { bad!("C19", "Mismatched composite foreign key", r.sp) }
    let mut sides: Vec<Option<&Table>> = vec![];
    for (k, cols, id) in [(&r.l, &r.lc, r.lid.as_ref()), (&r.r, &r.rc, Some(&r.rid))] {
      let t = tkeys.get(k).copied();
      if let (None, Some(id)) = (t, id) {
        if !schema_known(&k.0) { bad!("C19", "Schema not found", id.schema.as_ref().map(|s| s.sp).unwrap_or(id.table.sp)) } else { bad!("C19", "Table not found", id.table.sp) }
      }
      if let Some(t) = t { for c in cols { if !t.cols.iter().any(|x| x.name.name == c.name) { bad!("C19", "Column not found", c.sp) } } }
      sides.push(t);
    }
    let (Some(lt), Some(rt)) = (sides[0], sides[1]) else { continue };
    if r.lc.len() == r.rc.len() {
      for (a, b) in r.lc.iter().zip(&r.rc) {
        let (Some(ca), Some(cb)) = (lt.cols.iter().find(|c| c.name.name == a.name), rt.cols.iter().find(|c| c.name.name == b.name)) else { continue };
        let norm = |t: &ColType| match builtin(&t.name) { Some(b) => format!("!{b}"), None => if t.name.contains('.') { t.name.clone() } else { format!("public.{}", t.name) } };
        if norm(&ca.ty) != norm(&cb.ty) || ca.ty.args != cb.ty.args || ca.ty.arrays != cb.ty.arrays {
          bad!("C19", format!("Mismatched foreign key type: '{}': '{}' (left) and '{}': '{}' (right) are incompatible", a.name, ca.ty.raw, b.name, cb.ty.raw), r.sp)
        }
      }
    }
    let key = |t: &Table, cols: &Vec<Id>| {
      let marked = cols.len() == 1 && t.cols.iter().find(|c| c.name.name == cols[0].name).and_then(|c| c.settings.as_ref()).is_some_and(|s| s.pk || s.unique);
      let set: BTreeSet<&str> = cols.iter().map(|c| c.name.as_str()).collect();
      marked || t.indexes.iter().flat_map(|x| &x.defs).any(|x| {
        x.settings.as_ref().is_some_and(|s| s.pk || s.unique) && x.cols.len() == cols.len()
          && x.cols.iter().all(|c| matches!(c, IxCol::Name(_)))
          && x.cols.iter().map(|c| match c { IxCol::Name(i) => i.name.as_str(), IxCol::Expr(_) => "" }).collect::<BTreeSet<_>>() == set
      })
    };
    let (lk, rk) = (key(lt, &r.lc), key(rt, &r.rc));
    let pick = |s: &str, c: &str| format!("Invalid foreign key: {}", if composite { c } else { s });
    let neither = pick("the referenced column is neither a primary key or a unique key", "the referenced column is neither a composite primary key or a composite unique key");
    match r.rel {
      Rel::OM if !lk => bad!("C20", neither, r.lsp),
      Rel::MO if !rk => bad!("C20", neither, r.rsp),
      Rel::OO if !lk && !rk => bad!("C20", pick("either side of the one-to-one relation must be a primary key or a unique key", "either side of the composite one-to-one relation must be a composite primary key or a composite unique key"), r.sp),
      Rel::MM if !lk || !rk => bad!("C20", pick("both sides of the many-to-many relation must be a primary key or a unique key", "both sides of the composite many-to-many relation must be either a composite primary key or a composite unique key"), r.sp),
      _ => (),
    }
  }
  type End = (Key, BTreeSet<String>);
  let end = |k: &Key, c: &Vec<Id>| -> End { (k.clone(), c.iter().map(|i| i.name.clone()).collect()) };
  for (i, a) in refs.iter().enumerate() {
    let fk = |r: &R| match r.rel { Rel::MO => Some(end(&r.l, &r.lc)), Rel::OM => Some(end(&r.r, &r.rc)), _ => None };
    let clash = refs.iter().enumerate().any(|(j, b)| {
      i != j && match (a.rel, b.rel) {
        (Rel::OO, Rel::OO) | (Rel::MM, Rel::MM) => [end(&a.l, &a.lc), end(&a.r, &a.rc)].iter().all(|x| [end(&b.l, &b.lc), end(&b.r, &b.rc)].contains(x)),
        _ => fk(a).is_some() && fk(a) == fk(b),
      }
    });
    if clash { bad!("C21", "Conflict relation", a.sp) }
  }
  o
}
