//! Bounded search for a failing input on the real crate. Used to replay a failed proof obligation on the running code
//! and to cover what the proofs assume (the grammar, error texts, the standard library).
mod diff;
mod gen;
mod model;
mod oracle;
mod vocab;

use dbml_rs::{parse_dbml, parse_dbml_unchecked, verif_hooks};
use diff::{Tol, Viol};
use model::*;
use oracle::Broken;
use pest::error::{ErrorVariant, InputLocation, LineColLocation};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Expect { pub doc: Doc, pub tol: Tol, pub regions: Vec<(usize, usize, &'static str)>, pub broke: Option<(&'static str, Sp)> }
#[derive(Default)]
pub struct Stats { pub accepted: u64, pub rejected: BTreeMap<String, u64>, pub unparsable: u64, pub exercised: BTreeMap<&'static str, u64> }

fn loc<R: pest::RuleType>(e: &pest::error::Error<R>) -> Sp { match e.location { InputLocation::Pos(p) => Sp { s: p, e: p }, InputLocation::Span((s, e)) => Sp { s, e } } }
fn custom<R: pest::RuleType>(e: &pest::error::Error<R>) -> Option<String> { match &e.variant { ErrorVariant::CustomError { message } => Some(message.clone()), _ => None } }
fn linecol(input: &str, at: usize) -> (usize, usize) {
  let b = &input[..at];
  let l = b.matches('\n').count() + 1;
  (l, b.rsplit('\n').next().unwrap_or("").chars().count() + 1)
}

/// everything one text can show
fn check(input: &str, expect: Option<&Expect>, st: &mut Stats) -> Vec<Viol> {
  let mut out: Vec<Viol> = vec![];
  // a panic of the comparison itself shows nothing about the crate: what was found before it counts
  if catch_unwind(AssertUnwindSafe(|| compare(input, expect, st, &mut out))).is_err() { *st.exercised.entry("comparison panicked").or_default() += 1 }
  out
}
fn compare(input: &str, expect: Option<&Expect>, st: &mut Stats, out: &mut Vec<Viol>) {
  let un = match catch_unwind(AssertUnwindSafe(|| parse_dbml_unchecked(input))) { Ok(r) => r, Err(p) => { out.push(("C01", format!("parse_dbml_unchecked panics: {}", what(&p)))); return } };
  let ck = match catch_unwind(AssertUnwindSafe(|| parse_dbml(input))) { Ok(r) => r, Err(p) => { out.push(("C01", format!("parse_dbml panics: {}", what(&p)))); return } };
  *st.exercised.entry("C01").or_default() += 1;
  *st.exercised.entry("C09").or_default() += 1;
  let ast = match &un {
    Err(e) => {
      st.unparsable += 1;
      match &ck { Ok(_) => out.push(("C09", "accepted although unchecked parsing fails".into())), Err(f) => if e != f { out.push(("C09", format!("checked parsing fails with another error: {f} instead of {e}"))) } }
      if let Some(x) = expect {
        match x.broke {
          Some((p, sp)) => { let l = loc(e); *st.exercised.entry(p).or_default() += 1; if sp.s != 0 && (l.s < sp.s || l.s > sp.e) { out.push((p, format!("the error is reported at {}..{}, the offending text is at {}..{}", l.s, l.e, sp.s, sp.e))) } }
          None => {
            let at = loc(e).s;
            let best = x.regions.iter().filter(|r| r.0 <= at && at <= r.1).map(|r| r.1 - r.0).min();
            let mut ps: Vec<&'static str> = x.regions.iter().filter(|r| r.0 <= at && at <= r.1 && Some(r.1 - r.0) == best).map(|r| r.2).collect();
            ps.extend(["C22", "C03"]);
            ps.sort(); ps.dedup();
            for p in ps { out.push((p, format!("a well-formed document does not parse: {}", e.to_string().replace('\n', " | ")))) }
          }
        }
      }
      return;
    }
    Ok(a) => a,
  };
  let act = model::doc(ast);
  if let Some((p, sp)) = expect.and_then(|x| x.broke) { out.push((p, format!("text {:?} at {}..{} has to be reported as an error, but is accepted", &input[sp.s..sp.e], sp.s, sp.e))); return }
  // shape of the tree
  let mut w = diff::W { input, out: vec![] };
  w.doc(&act);
  out.append(&mut w.out);
  *st.exercised.entry("C02").or_default() += 1;
  if let Some(x) = expect {
    let mut d = diff::D { tol: &x.tol, out: vec![], path: vec![] };
    d.doc(&x.doc, &act);
    out.append(&mut d.out);
    for p in ["C03", "C04", "C05", "C06", "C07", "C08"] { *st.exercised.entry(p).or_default() += 1 }
  }
  // accessors
  let blocks = &act.blocks;
  let want = |f: fn(&Block) -> Option<Sp>| blocks.iter().filter_map(f).collect::<Vec<_>>();
  let acc: [(&str, Vec<Sp>, Vec<Sp>); 5] = [
    ("projects", ast.projects().iter().map(|x| (&x.span_range).into()).collect(), want(|b| if let Block::Project(x) = b { Some(x.sp) } else { None })),
    ("tables", ast.tables().iter().map(|x| (&x.span_range).into()).collect(), want(|b| if let Block::Table(x) = b { Some(x.sp) } else { None })),
    ("table_groups", ast.table_groups().iter().map(|x| (&x.span_range).into()).collect(), want(|b| if let Block::Group(x) = b { Some(x.sp) } else { None })),
    ("refs", ast.refs().iter().map(|x| (&x.span_range).into()).collect(), want(|b| if let Block::Ref(x) = b { Some(x.sp) } else { None })),
    ("enums", ast.enums().iter().map(|x| (&x.span_range).into()).collect(), want(|b| if let Block::Enum(x) = b { Some(x.sp) } else { None })),
  ];
  for (n, a, b) in acc { if a != b { out.push(("C09", format!("{n}() returns the blocks at {a:?} instead of {b:?}"))) } }
  // the rules, on what was written if that is known
  let doc = expect.map(|x| &x.doc).unwrap_or(&act);
  let exact = Tol { next: BTreeMap::new(), len: input.len() };
  let tol = expect.map(|x| &x.tol).unwrap_or(&exact);
  let broken = oracle::broken(doc);
  match &ck {
    Ok(c) => {
      st.accepted += 1;
      for p in ["C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"] { *st.exercised.entry(p).or_default() += 1 }
      if format!("{c:?}") != format!("{ast:?}") { out.push(("C09", "the checked tree differs from the unchecked one".into())) }
      for b in &broken { out.push((b.prop, format!("accepted although: {} at {}..{}", b.msg, b.sp.s, b.sp.e))) }
      // relations of each table
      match catch_unwind(AssertUnwindSafe(|| relations(doc, ast))) { Ok(mut v) => { *st.exercised.entry("C24").or_default() += 1; out.append(&mut v) } Err(p) => out.push(("C24", format!("panic while collecting relations: {}", what(&p)))) }
    }
    Err(e) => {
      *st.exercised.entry("C22").or_default() += 1;
      let (msg, l) = (custom(e), loc(e));
      let m = msg.clone().unwrap_or_else(|| format!("{:?}", e.to_string()));
      *st.rejected.entry(m.clone()).or_default() += 1;
      for b in &broken { *st.exercised.entry(b.prop).or_default() += 1 }
      let just: Vec<&Broken> = broken.iter().filter(|b| Some(&b.msg) == msg.as_ref()).collect();
      if just.is_empty() { out.push(("C22", format!("rejected with {m:?} although {}", if broken.is_empty() { "the document breaks no rule".to_string() } else { format!("it only breaks: {}", broken.iter().map(|b| b.msg.clone()).collect::<Vec<_>>().join("; ")) }))) }
      else if !just.iter().any(|b| tol.same(b.sp, l)) { out.push(("C22", format!("{m:?} is reported at {}..{}, the offender is at {}", l.s, l.e, just.iter().map(|b| format!("{}..{}", b.sp.s, b.sp.e)).collect::<Vec<_>>().join(" or ")))) }
      else {
        let lc = match e.line_col { LineColLocation::Pos(p) => p, LineColLocation::Span(p, _) => p };
        if lc != linecol(input, l.s) { out.push(("C22", format!("line and column {lc:?} do not belong to offset {}", l.s))) }
      }
    }
  }
}

/// get_table_refs on the analyzed document
fn relations(doc: &Doc, ast: &dbml_rs::ast::SchemaBlock) -> Vec<Viol> {
  let mut out = vec![];
  let Ok(ix) = verif_hooks::analyze(ast) else { return vec![("C24", "analysis of an accepted document fails".into())] };
  let refs = oracle::all_refs(doc);
  let mut idents: Vec<dbml_rs::ast::TableIdent> = ast.tables().iter().map(|t| t.ident.clone()).collect();
  for t in idents.clone() {
    // the same table with its schema spelled the other way, and a name nobody declared
    let mut u = t.clone();
    match &t.schema { None => u.schema = Some(dbml_rs::ast::Ident { span_range: 0..0, raw: "public".into(), to_string: "public".into() }), Some(s) if s.to_string == "public" => u.schema = None, Some(_) => u.schema = None }
    idents.push(u);
    let mut u = t.clone();
    u.name.to_string.push_str("_nobody");
    idents.push(u);
  }
  for t in idents {
    let k = (t.schema.as_ref().map(|s| s.to_string.clone()).unwrap_or("public".into()), t.name.to_string.clone());
    let got = verif_hooks::get_table_refs(&t, &ix);
    let sel = |f: &dyn Fn(&oracle::R) -> bool| refs.iter().filter(|r| f(r)).map(|r| (r.sp.s, r.rel)).collect::<Vec<_>>();
    let exp = [("ref_self", sel(&|r| r.l == k && r.r == k)), ("ref_to", sel(&|r| r.l == k && r.r != k)), ("ref_by", sel(&|r| r.l != k && r.r == k))];
    let key = |r: &dbml_rs::ast::Relation, s: usize| (s, model::rel(r));
    let act = [got.ref_self.iter().map(|r| key(&r.rel, r.span_range.start)).collect::<Vec<_>>(), got.ref_to.iter().map(|r| key(&r.rel, r.span_range.start)).collect(), got.ref_by.iter().map(|r| key(&r.rel, r.span_range.start)).collect()];
    for ((n, e), a) in exp.into_iter().zip(act) { if e != a { out.push(("C24", format!("{n} of {}.{} holds the refs at {:?} instead of {:?}", k.0, k.1, a, e))) } }
  }
  out
}

fn what(p: &Box<dyn std::any::Any + Send>) -> String { p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into()) }

/// one generated case
fn case(r: &mut gen::Rng) -> (String, Expect) {
  let bad = *r.pick(&[0.0, 0.0, 0.01, 0.02, 0.04]);
  let noise = *r.pick(&[0.0, 0.1, 0.3]);
  let brk = *r.pick(&[0.0, 0.0, 0.0, 0.05]);
  let mut g = gen::G { r: gen::Rng(r.next()), bad, tn: vec![], sn: vec![], cn: vec![], en: vec![] };
  let mut doc = g.plan();
  if g.r.p(0.5) { for _ in 0..*g.r.pick(&[1, 1, 1, 2, 3]) { g.nudge(&mut doc) } }
  let mut e = gen::Emit::new(r, noise, brk);
  e.doc(&mut doc);
  let text = std::mem::take(&mut e.out);
  let x = Expect { doc, tol: Tol { next: std::mem::take(&mut e.next), len: text.len() }, regions: std::mem::take(&mut e.regions), broke: e.broke };
  (text, x)
}
fn mutate(r: &mut gen::Rng, t: &str) -> String {
  let mut s: Vec<char> = t.chars().collect();
  for _ in 0..r.range(1, 4) {
    if s.is_empty() { s.push('x') }
    let i = r.below(s.len());
    match r.below(7) {
      0 => { s.remove(i); }
      1 => { let n = r.range(1, 12).min(s.len() - i); s.drain(i..i + n); }
      2 => s.insert(i, *r.pick(&['é', '🦀', '"', '\'', '`', '[', ']', '{', '}', '.', ',', ':', ' ', '\n', '0', '9', '#', '-', '<', '>', '(', ')', '/', '*', 'x'])),
      3 => { let n = r.range(1, 20).min(s.len() - i); let c: Vec<char> = s[i..i + n].to_vec(); let j = r.below(s.len()); for (k, x) in c.into_iter().enumerate() { s.insert((j + k).min(s.len()), x) } }
      4 => { let w = *r.pick(&["ref: > a.b", "[pk]", "null", "''", "\"\"", "99999999999999999999", "1.", "[]", "default: null", "()", "Table x {}", "note: ''", "public.", "indexes { () }", "default", "type: x", "-1", "0x1", "char", "bit default", "[default: 'x']", "/*", "//", "'''", "numeric(1.5)", "unique", "Ref: a.(b, c) > a.(b, c)"]); for (k, x) in w.chars().enumerate() { s.insert((i + k).min(s.len()), x) } }
      5 => { s.truncate(i); }
      _ => { let j = r.below(s.len()); s.swap(i, j) }
    }
  }
  s.into_iter().collect()
}

fn jstr(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
  o.push('"');
  o
}

/// greedy removal of lines and pieces of a failing text, for violations that need no expected tree
fn shrink(t: &str, p: &str) -> String {
  let fails = |s: &str| { let mut st = Stats::default(); check(s, None, &mut st).iter().any(|v| v.0 == p) };
  if !fails(t) { return t.to_string() }
  let mut cur: Vec<char> = t.chars().collect();
  let end = Instant::now() + Duration::from_secs(3);
  let mut n = cur.len() / 2;
  while n > 0 && Instant::now() < end {
    let mut i = 0;
    let mut any = false;
    while i < cur.len() && Instant::now() < end {
      let mut c = cur.clone();
      c.drain(i..(i + n).min(cur.len()));
      let s: String = c.iter().collect();
      if fails(&s) { cur = c; any = true } else { i += n }
    }
    if !any || n == 1 { n /= 2 }
  }
  cur.into_iter().collect()
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let get = |k: &str, d: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string());
  if std::env::var("REPLAY_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); }
  let file = get("--file", "");
  if !file.is_empty() {
    let t = std::fs::read_to_string(&file).unwrap();
    let mut st = Stats::default();
    for v in check(&t, None, &mut st) { println!("{}: {}", v.0, v.1) }
    return;
  }
  let dump = get("--dump", "");
  if !dump.is_empty() {
    // the generated texts alone, each as its length in bytes and the bytes
    let mut r = gen::Rng(gen::Rng(get("--seed", "1").parse::<u64>().unwrap() ^ 0x5DEECE66D).next());
    let n: usize = get("--n", "500").parse().unwrap();
    let mut o: Vec<u8> = vec![];
    let mut k = 0;
    while k < n {
      let Ok((t, _)) = catch_unwind(AssertUnwindSafe(|| case(&mut r))) else { continue };
      let m = if r.p(0.5) { Some(mutate(&mut r, &t)) } else { None };
      for t in [Some(t), m].into_iter().flatten() { k += 1; o.extend((t.len() as u32).to_le_bytes()); o.extend(t.as_bytes()) }
    }
    std::fs::write(dump, o).unwrap();
    return;
  }
  let seed: u64 = get("--seed", "1").parse().unwrap();
  let ms: u64 = get("--ms", "5000").parse().unwrap();
  let threads: u64 = get("--threads", "4").parse().unwrap();
  let stop = get("--stop", "");
  let end = Instant::now() + Duration::from_millis(ms);
  let found: Arc<Mutex<BTreeMap<String, (String, String)>>> = Default::default();
  let total: Arc<Mutex<(u64, HashSet<u64>, Stats, Vec<String>)>> = Default::default();
  let current: Arc<Vec<Mutex<(Instant, String)>>> = Arc::new((0..threads).map(|_| Mutex::new((Instant::now(), String::new()))).collect());
  {
    let mut f = found.lock().unwrap();
    match catch_unwind(vocab::check) { Ok(v) => for v in v { f.entry(v.0.into()).or_insert((v.2, v.1)); }, Err(p) => { f.insert("C23".into(), (String::new(), format!("panic: {}", what(&p)))); } }
  }
  let done = |found: &BTreeMap<String, (String, String)>| !stop.is_empty() && stop.split(',').all(|p| found.contains_key(p));
  let (f2, c2) = (found.clone(), current.clone());
  let outp = get("--out", "/dev/stdout");
  let (o2, s2) = (outp.clone(), seed);
  // a call that does not come back
  std::thread::spawn(move || loop {
    std::thread::sleep(Duration::from_millis(500));
    for c in c2.iter() {
      let c = c.lock().unwrap();
      if !c.1.is_empty() && c.0.elapsed() > Duration::from_secs(20) {
        let mut f = f2.lock().unwrap();
        f.entry("C01".into()).or_insert((c.1.clone(), "does not terminate (20 s)".into()));
        report(&o2, s2, &f, 0, 0, &Stats::default(), &[]);
        std::process::exit(0);
      }
    }
  });
  std::thread::scope(|sc| {
    for th in 0..threads {
      let (found, total, current, done) = (found.clone(), total.clone(), current.clone(), &done);
      std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
        let mut r = gen::Rng({ let mut x = gen::Rng(seed ^ (th << 40) ^ 0x5DEECE66D); for _ in 0..3 { x = gen::Rng(x.next() ^ 0xA5A5_5A5A_1234_8765) } x.next() });
        let mut st = Stats::default();
        let (mut n, mut distinct, mut samples) = (0u64, HashSet::new(), vec![]);
        while Instant::now() < end && !done(&found.lock().unwrap()) {
          let Ok((t, x)) = catch_unwind(AssertUnwindSafe(|| case(&mut r))) else { *st.exercised.entry("generator panicked").or_default() += 1; continue };
          let mutated = if r.p(0.35) { Some(mutate(&mut r, &t)) } else { None };
          for (t, x) in [(Some(t.clone()), Some(&x)), (mutated, None)] {
            let Some(t) = t else { continue };
            *current[th as usize].lock().unwrap() = (Instant::now(), t.clone());
            let v = check(&t, x, &mut st);
            current[th as usize].lock().unwrap().1.clear();
            n += 1;
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            t.hash(&mut h);
            if t.len() > 20 { distinct.insert(h.finish()); }
            if samples.len() < 2 && t.len() > 60 && t.len() < 500 { samples.push(t.clone()) }
            for (p, what) in v {
              let mut f = found.lock().unwrap();
              let old = f.get(p).map(|o| o.0.len()).unwrap_or(usize::MAX);
              if t.len() < old { f.insert(p.into(), (t.clone(), what)); }
            }
          }
        }
        let mut tot = total.lock().unwrap();
        tot.0 += n;
        tot.1.extend(distinct);
        tot.2.accepted += st.accepted;
        tot.2.unparsable += st.unparsable;
        for (k, v) in st.rejected { *tot.2.rejected.entry(k).or_default() += v }
        for (k, v) in st.exercised { *tot.2.exercised.entry(k).or_default() += v }
        tot.3.extend(samples);
      }).unwrap();
    }
  });
  let mut f = found.lock().unwrap().clone();
  for (p, v) in f.iter_mut() { if !v.0.is_empty() { let s = shrink(&v.0, p); if s != v.0 { let mut st = Stats::default(); if let Some(w) = check(&s, None, &mut st).into_iter().find(|w| w.0 == p.as_str()) { *v = (s, w.1) } } } }
  let t = total.lock().unwrap();
  report(&outp, seed, &f, t.0, t.1.len(), &t.2, &t.3);
}

fn report(out: &str, seed: u64, f: &BTreeMap<String, (String, String)>, n: u64, distinct: usize, st: &Stats, samples: &[String]) {
  let mut s = String::from("{\n");
  s.push_str(&format!("\"seed\": {seed}, \"evaluations\": {n}, \"distinct\": {distinct}, \"accepted\": {}, \"unparsable\": {},\n", st.accepted, st.unparsable));
  let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
  for (k, v) in &st.rejected { *kinds.entry(k.split(':').next().unwrap_or("").to_string()).or_default() += v }
  s.push_str(&format!("\"rejected\": {{{}}},\n", kinds.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", ")));
  s.push_str(&format!("\"exercised\": {{{}}},\n", st.exercised.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", ")));
  s.push_str(&format!("\"samples\": [{}],\n", samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")));
  s.push_str(&format!("\"violations\": {{{}}}\n}}\n", f.iter().map(|(p, (i, w))| format!("{}: {{\"input\": {}, \"what\": {}}}", jstr(p), jstr(i), jstr(w))).collect::<Vec<_>>().join(",\n")));
  std::fs::write(out, s).unwrap();
}
