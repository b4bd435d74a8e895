//! Runs the text the proofs are about (extracted from /repo by vx, without its contracts) beside the crate itself, and the
//! grammar functions beside pest's parser, on given documents. Bounded: it shows agreement on these documents only.
extern crate alloc;
#[macro_use]
#[allow(dead_code)]
mod rt;
#[allow(warnings)]
mod lowered { include!(concat!(env!("EXVAL_RUN"))); }
#[allow(warnings)]
mod gram { include!(concat!(env!("EXVAL_RUN"), ".gram")); }
mod peg;

use dbml_rs::verif_hooks as real;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// everything the crate computes for a text
fn crate_side(t: &str) -> Vec<(&'static str, String)> {
  let mut v = vec![];
  let u = dbml_rs::parse_dbml_unchecked(t);
  v.push(("parse_dbml_unchecked", format!("{u:?}")));
  v.push(("parse_dbml", format!("{:?}", dbml_rs::parse_dbml(t))));
  if let Ok(u) = &u {
    v.push(("accessors", format!("{:?}", (u.projects(), u.tables(), u.table_groups(), u.refs(), u.enums()))));
    let a = real::analyze(u);
    v.push(("analyze", format!("{a:?}")));
    if let Ok(a) = &a { for t in u.tables() { v.push(("get_table_refs", format!("{:?}", real::get_table_refs(&t.ident, a)))) } }
  }
  v
}
fn extracted_side(t: &str) -> Vec<(&'static str, String)> {
  let mut v = vec![];
  let u = lowered::parse(t);
  v.push(("parse_dbml_unchecked", format!("{u:?}")));
  v.push(("parse_dbml", format!("{:?}", lowered::parse_dbml(t))));
  if let Ok(u) = &u {
    v.push(("accessors", format!("{:?}", (u.projects(), u.tables(), u.table_groups(), u.refs(), u.enums()))));
    let a = lowered::analyze(u);
    v.push(("analyze", format!("{a:?}")));
    if let Ok(a) = &a { for t in u.tables() { v.push(("get_table_refs", format!("{:?}", lowered::get_table_refs(&t.ident, a)))) } }
  }
  v
}
fn what(p: Box<dyn std::any::Any + Send>) -> String { p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into()) }
fn run(f: impl Fn() -> Vec<(&'static str, String)>) -> Result<Vec<(&'static str, String)>, String> { catch_unwind(AssertUnwindSafe(f)).map_err(what) }
fn jstr(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
  o.push('"');
  o
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let get = |k: &str, d: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string());
  let raw = std::fs::read(get("--docs", "")).unwrap();
  let mut docs: Vec<String> = vec![];
  let mut i = 0;
  while i + 4 <= raw.len() { let n = u32::from_le_bytes(raw[i..i + 4].try_into().unwrap()) as usize; docs.push(String::from_utf8(raw[i + 4..i + 4 + n].to_vec()).unwrap()); i += 4 + n; }
  let end = Instant::now() + Duration::from_millis(get("--ms", "10000").parse().unwrap());
  if std::env::var("EXVAL_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); }
  let next = Mutex::new(0usize);
  // texts, accepted ones, model assertions, disagreements
  let tot = Mutex::new((0u64, 0u64, 0u64, Vec::<(String, String, String)>::new()));
  std::thread::scope(|sc| for _ in 0..get("--threads", "4").parse::<usize>().unwrap() {
    std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(sc, || loop {
      let k = { let mut n = next.lock().unwrap(); *n += 1; *n - 1 };
      if k >= docs.len() || Instant::now() > end { return }
      let t = &docs[k];
      rt::CHECKED.with(|c| c.set(0));
      let mut bad: Vec<(&str, String)> = vec![];
      let (a, b) = (run(|| crate_side(t)), run(|| extracted_side(t)));
      let ok = matches!(&a, Ok(v) if v.len() > 3);
      match (a, b) {
        (Ok(a), Ok(b)) => { if a.len() != b.len() { bad.push(("extraction", "another number of results".into())) } for (x, y) in a.iter().zip(&b) { if x != y { let at = x.1.bytes().zip(y.1.bytes()).take_while(|(p, q)| p == q).count(); let cut = |s: &str| s.get(at.saturating_sub(40)..(at + 80).min(s.len())).unwrap_or("").to_string(); bad.push(("extraction", format!("{}: the crate gives ..{}.., the extracted text ..{}..", x.0, cut(&x.1), cut(&y.1)))); break } } }
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => bad.push((if e.starts_with("MODEL") { "model" } else { "extraction" }, format!("the extracted text panics: {e}"))),
        (Err(e), Ok(_)) => bad.push(("extraction", format!("only the crate panics: {e}"))),
      }
      if gram::ON {
        let g = catch_unwind(AssertUnwindSafe(|| {
          let s = rt::Text::new(t);
          let m = gram::m_schema(&s, 0);
          match rt::DBMLParser::parse(peg::Rule::schema, t) {
            Ok(mut p) => if !m.ok { Some("pest accepts, the grammar functions do not") } else if m.ns != vec![rt::tree(&p.next().unwrap())] { Some("pest and the grammar functions give different trees") } else { None },
            Err(_) => if m.ok { Some("the grammar functions accept, pest does not") } else { None },
          }
        }));
        match g { Ok(None) => {} Ok(Some(w)) => bad.push(("grammar", w.into())), Err(e) => bad.push(("grammar", what(e))) }
      }
      let mut tt = tot.lock().unwrap();
      tt.0 += 1; tt.1 += ok as u64; tt.2 += rt::CHECKED.with(|c| c.get());
      for (w, s) in bad { tt.3.push((w.into(), s, t.clone())) }
    }).unwrap();
  });
  let t = tot.lock().unwrap();
  let count = |w: &str| t.3.iter().filter(|b| b.0 == w).count();
  let mut s = format!("{{\"texts\": {}, \"parsed\": {}, \"model_assertions\": {}, \"grammar\": {}, \"disagreements\": {{\"extraction\": {}, \"model\": {}, \"grammar\": {}}},\n\"first\": [", t.0, t.1, t.2, gram::ON, count("extraction"), count("model"), count("grammar"));
  let mut first: Vec<&(String, String, String)> = t.3.iter().collect();
  first.sort_by_key(|b| b.2.len());
  s += &first.iter().take(3).map(|b| format!("{{\"kind\": {}, \"what\": {}, \"text\": {}}}", jstr(&b.0), jstr(&b.1), jstr(&b.2))).collect::<Vec<_>>().join(",\n");
  s += "]}\n";
  std::fs::write(get("--out", "/dev/stdout"), s).unwrap();
}
