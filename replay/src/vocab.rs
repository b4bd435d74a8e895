//! The keyword vocabularies, spelled out.
use crate::oracle::BUILTIN;
use dbml_rs::ast::*;
use std::str::FromStr;

pub fn check() -> Vec<(&'static str, String, String)> {
  let mut out = vec![];
  let mut bad = |w: &str, s: String| out.push(("C23", s, w.to_string()));
  let rel = [("<", Relation::One2Many), (">", Relation::Many2One), ("-", Relation::One2One), ("<>", Relation::Many2Many)];
  let act = ["no action", "cascade", "restrict", "set null", "set default"];
  let act_name = ["NoAction", "Cascade", "Restrict", "SetNull", "SetDefault"];
  let ix = [("btree", "BTree"), ("gin", "Gin"), ("gist", "Gist"), ("hash", "Hash")];
  let lit = [("true", Value::Bool(true)), ("false", Value::Bool(false)), ("null", Value::Null)];
  // every word of every vocabulary, and words near them, go through every conversion
  let mut words: Vec<String> = vec![];
  for w in BUILTIN.iter().map(|b| b.0).chain(rel.iter().map(|r| r.0)).chain(act).chain(ix.iter().map(|i| i.0)).chain(lit.iter().map(|l| l.0)).chain(["PostgreSQL", "MySQL", "postgresql", "Postgres", "", "><", "<<", "--", "->", "=", "enum", "string", "number", "float", "double", "tinyint", "nvarchar", "datetime", "blob", "btree2", "rtree", "brin", "spgist", "noaction", "no_action", "setnull", "delete", "yes", "no", "none", "NULL", "int16", "int3", "serial1", "float2", "year", "interval", "hstore", "varchar2", "timestamp with zone", "time zone", "clob", "bits", "character var"]) {
    words.push(w.to_string());
    words.push(w.to_uppercase());
    words.push(format!("{w} "));
    words.push(format!(" {w}"));
    words.push(format!("{w}s"));
    words.push(w.replace(' ', ""));
    words.push(w.replace(' ', "_"));
    words.push(w.replace(' ', "  "));
    let mut c = w.chars();
    if let Some(f) = c.next() { words.push(f.to_uppercase().collect::<String>() + c.as_str()); words.push(w[..w.len() - w.chars().last().unwrap().len_utf8()].to_string()); words.push(c.as_str().to_string()); }
  }
  for w in &words {
    let got = ColumnTypeName::from_str(w).ok().map(|t| format!("{t:?}"));
    let exp = BUILTIN.iter().find(|b| b.0 == w).map(|b| b.1.to_string());
    if got != exp { bad(w, format!("column type {w:?} is {got:?} instead of {exp:?}")) }
    let got = Relation::from_str(w).ok();
    let exp = rel.iter().find(|b| b.0 == w).map(|b| b.1.clone());
    if got != exp { bad(w, format!("relation {w:?} is {got:?} instead of {exp:?}")) }
    let got = ReferentialAction::from_str(w).ok();
    let i = act.iter().position(|b| b == w);
    if got.as_ref().map(|t| format!("{t:?}")) != i.map(|i| act_name[i].to_string()) { bad(w, format!("referential action {w:?} is {got:?}")) }
    if let Some(g) = got { if &g.to_string() != w { bad(w, format!("referential action {w:?} is written back as {:?}", g.to_string())) } }
    let got = IndexesType::from_str(w).ok().map(|t| format!("{t:?}"));
    if got != ix.iter().find(|b| b.0 == w).map(|b| b.1.to_string()) { bad(w, format!("index type {w:?} is {got:?}")) }
    let got = Value::from_str(w).ok();
    if got != lit.iter().find(|b| b.0 == w).map(|b| b.1.clone()) { bad(w, format!("literal word {w:?} is {got:?}")) }
    let got = format!("{:?}", DatabaseType::from_str(w));
    let exp = if w == "PostgreSQL" { "Ok(PostgreSQL)".to_string() } else { format!("Ok(Unknown({w:?}))") };
    if got != exp { bad(w, format!("database type {w:?} is {got} instead of {exp}")) }
    for (v, n) in [(Value::Enum(w.clone()), "Enum"), (Value::String(w.clone()), "String"), (Value::HexColor(w.clone()), "HexColor"), (Value::Expr(w.clone()), "Expr")] {
      if &v.to_string() != w { bad(w, format!("text of {n}({w:?}) is {:?}", v.to_string())) }
    }
  }
  for (v, t) in [(Value::Bool(true), "true"), (Value::Bool(false), "false"), (Value::Null, "null"), (Value::Integer(0), "0"), (Value::Integer(-5), "-5"), (Value::Integer(i64::MAX), "9223372036854775807"), (Value::Integer(i64::MIN), "-9223372036854775808"), (Value::Decimal(1.5), "1.5"), (Value::Decimal(0.1), "0.1"), (Value::Decimal(10.0), "10")] {
    if v.to_string() != t { bad(t, format!("text of {v:?} is {:?}", v.to_string())) }
  }
  out
}
