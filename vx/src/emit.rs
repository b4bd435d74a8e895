//! Text output with line bookkeeping.
use crate::contract::*;
use crate::lower::LoopInfo;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::{BTreeMap, HashMap};

#[derive(Default)]
pub struct Out { pub s: String, pub line: usize, pub clauses: Vec<(usize, usize, String, Vec<String>)> }
impl Out {
  pub fn put(&mut self, t: &str) { self.line += t.matches('\n').count(); self.s.push_str(t); }
  pub fn cur(&self) -> usize { self.line + 1 }
  pub fn clause(&mut self, c: &Clause, what: &str) {
    let a = self.cur();
    self.put(&format!("      {},", c.text.trim_end().trim_end_matches(',')));
    let b = self.cur();
    self.put("\n");
    self.clauses.push((a, b, what.to_string(), c.tags.clone()));
  }
}

pub struct Ctx<'a> { pub con: &'a Contracts, pub loops: &'a [LoopInfo], pub used_hints: &'a mut Vec<String>, pub no_contract_loops: &'a mut Vec<String>, pub used_loops: &'a mut Vec<String>, pub auto: bool, pub plain: bool, pub hint_refs: &'a HashMap<String, HashMap<String, usize>>, pub base: &'a HashMap<String, HashMap<String, usize>> }

fn marker(ts: &[TokenTree], i: usize) -> Option<(String, String, usize)> {
  // vx_loop ! ( "key" ) ;   returns (macro, key, tokens consumed)
  if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (ts.get(i), ts.get(i + 1), ts.get(i + 2)) {
    let n = id.to_string();
    if p.as_char() == '!' && (n == "vx_loop" || n == "vx_hint") {
      let k = g.stream().to_string();
      let k = k.trim().trim_matches('"').to_string();
      let mut used = 3;
      if let Some(TokenTree::Punct(p)) = ts.get(i + 3) { if p.as_char() == ';' { used = 4; } }
      return Some((n, k, used));
    }
  }
  None
}

pub fn print(o: &mut Out, ts: TokenStream, cx: &mut Ctx, ind: usize) {
  let v: Vec<TokenTree> = ts.into_iter().collect();
  let mut i = 0;
  let mut joint = true; // no space before the first token
  let mut bol = true;
  macro_rules! nl { () => { o.put("\n"); for _ in 0..ind { o.put("  "); } bol = true; joint = true; } }
  while i < v.len() {
    if let Some((n, k, used)) = marker(&v, i) {
      i += used;
      if n == "vx_hint" {
        if let Some(h) = cx.con.hints.get(&k) { cx.used_hints.push(k.clone()); let a = o.cur(); o.put(" "); let h = deref(h.trim_end(), cx.hint_refs.get(&k), cx.base.get(&k)); o.put(&h); let b = o.cur(); o.clauses.push((a, b, format!("hint {}", k), vec![])); nl!(); }
      }
      continue;
    }
    match &v[i] {
      TokenTree::Group(g) => {
        match g.delimiter() {
          Delimiter::Brace => {
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            if let Some((n, k, _)) = marker(&inner, 0) {
              if n == "vx_loop" && !cx.plain { loop_spec(o, cx, &k); }
            }
            o.put(" {");
            if !inner.is_empty() {
              o.put("\n"); for _ in 0..ind + 1 { o.put("  "); }
              print(o, g.stream(), cx, ind + 1);
              o.put("\n"); for _ in 0..ind { o.put("  "); }
            }
            o.put("}");
            // newline after a block unless an expression continues
            let cont = match v.get(i + 1) { Some(TokenTree::Punct(_)) => true, Some(TokenTree::Ident(id)) => *id == "else", Some(TokenTree::Group(_)) => false, _ => false };
            if !cont { nl!(); } else { joint = false; bol = false; }
          }
          d => {
            let (a, b) = match d { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), _ => ("", "") };
            let sp = match i.checked_sub(1).and_then(|j| v.get(j)) { Some(TokenTree::Ident(id)) => { let s = id.to_string(); ["if", "match", "while", "return", "in", "else", "let", "mut", "as"].contains(&s.as_str()) } Some(TokenTree::Punct(p)) => { let c = p.as_char(); !joint && !matches!(c, '!' | '&' | '*' | '.' | '<' | '#' | '>') } _ => false };
            if sp { o.put(" "); }
            o.put(a); print(o, g.stream(), cx, ind); o.put(b);
            joint = false; bol = false;
          }
        }
      }
      TokenTree::Ident(id) => {
        if *id == "while" && isolated(&v[i..], cx) { nl!(); o.put("#[verifier::loop_isolation(true)]"); nl!(); }
        if !joint && !bol { o.put(" "); } o.put(&id.to_string()); joint = false; bol = false;
      }
      TokenTree::Literal(l) => { if !joint && !bol { o.put(" "); } o.put(&l.to_string()); joint = false; bol = false; }
      TokenTree::Punct(p) => {
        let c = p.as_char();
        let prev_joint = joint;
        match c {
          ';' => { o.put(";"); nl!(); }
          ',' => { o.put(","); joint = false; bol = false; }
          '.' | ':' | '?' => { o.put(&c.to_string()); if c == '.' { joint = true; } else if c == ':' { joint = p.spacing() == Spacing::Joint || matches!(i.checked_sub(1).and_then(|j| v.get(j)), Some(TokenTree::Punct(q)) if q.as_char() == ':' && q.spacing() == Spacing::Joint); } else { joint = false; } bol = false; }
          '\'' => { if !prev_joint { o.put(" "); } o.put("'"); joint = true; bol = false; }
          '&' | '*' | '!' | '#' | '-' | '$' => { if !prev_joint && !bol { o.put(" "); } o.put(&c.to_string()); joint = p.spacing() == Spacing::Joint || c == '!' || c == '#' || c == '&' && p.spacing() == Spacing::Alone && !binary_amp(&v, i); if c == '-' || c == '*' { joint = p.spacing() == Spacing::Joint; } bol = false; }
          _ => { if !prev_joint && !bol { o.put(" "); } o.put(&c.to_string()); joint = p.spacing() == Spacing::Joint; bol = false; }
        }
      }
    }
    i += 1;
  }
}
fn binary_amp(v: &[TokenTree], i: usize) -> bool { matches!(i.checked_sub(1).and_then(|j| v.get(j)), Some(TokenTree::Punct(p)) if p.as_char() == '&') }

/// a loop whose contract asks that its body sees nothing but the invariants
fn isolated(v: &[TokenTree], cx: &Ctx) -> bool {
  for t in v { if let TokenTree::Group(g) = t { if g.delimiter() == Delimiter::Brace {
    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
    if let Some((n, k, _)) = marker(&inner, 0) { return n == "vx_loop" && cx.con.loops.get(&k).map(|c| c.clauses.iter().any(|c| c.kind == "opt" && c.text.trim() == "isolate")).unwrap_or(false); }
    return false;
  } } }
  false
}

/// a contract speaks of a variable with the references it had around it in the text the contract was written for
/// (contracts/refs.txt); where the code now has more or fewer around it, `x` becomes `*x`, `**x` becomes `*x` or `x`
fn deref(t: &str, refs: Option<&HashMap<String, usize>>, base: Option<&HashMap<String, usize>>) -> String {
  let (refs, base) = match (refs, base) { (Some(r), Some(b)) => (r, b), _ => return t.to_string() };
  let c: Vec<char> = t.chars().collect();
  let word = |x: char| x.is_alphanumeric() || x == '_';
  let mut o = String::new();
  let mut i = 0;
  while i < c.len() {
    if c[i] != '*' && !word(c[i]) { o.push(c[i]); i += 1; continue; }
    let mut j = i; while j < c.len() && c[j] == '*' { j += 1; }
    let mut k = j; while k < c.len() && word(c[k]) { k += 1; }
    let name: String = c[j..k].iter().collect();
    let prev = o.trim_end().chars().last();
    // not a product, a comment, a field, a path or a call
    let here = !(j > i && matches!(prev, Some(p) if word(p) || p == ')' || p == ']' || p == '@' || p == '/')) && !(j == i && matches!(prev, Some('.')) && !o.ends_with(".."))
      && !matches!(c.get(k), Some('(') | Some('/')) && !(c.get(k) == Some(&':') && c.get(k + 1) == Some(&':')) && !o.ends_with("::");
    // a field, a view or an element is reached through any number of references
    let through = matches!(c.get(k), Some('@') | Some('[')) || c.get(k) == Some(&'.') && c.get(k + 1) != Some(&'.');
    match (refs.get(&name), base.get(&name)) {
      (Some(n), Some(b)) if here && !through && n != b => {
        let m = (j - i) as i64 + *n as i64 - *b as i64;
        o.push_str(&if m < 0 { "&".repeat(-m as usize) } else { "*".repeat(m as usize) });
      }
      _ => o.extend(&c[i..j]),
    }
    o.push_str(&name);
    i = k;
  }
  o
}

fn loop_spec(o: &mut Out, cx: &mut Ctx, k: &str) {
  let info = cx.loops.iter().find(|l| l.key == k);
  let con = cx.con.loops.get(k);
  if con.is_some() { cx.used_loops.push(k.to_string()); }
  let autos: Vec<String> = info.map(|l| l.auto.clone()).unwrap_or_default();
  if con.is_none() && autos.len() <= 1 { cx.no_contract_loops.push(k.to_string()); }
  let auto_on = cx.auto && !con.map(|c| c.clauses.iter().any(|c| c.kind == "opt" && c.text == "noauto")).unwrap_or(false);
  o.put("\n    invariant\n");
  for (i, a) in autos.iter().enumerate() {
    if i > 0 && !auto_on { break; }
    o.clause(&Clause { kind: "invariant".into(), tags: vec![], text: a.clone() }, &format!("loop {} (automatic)", k));
  }
  let mut dec = info.map(|l| l.decreases.clone()).unwrap_or_default();
  if let Some(c) = con {
    for c in &c.clauses { if c.kind == "invariant" { o.clause(&Clause { kind: c.kind.clone(), tags: c.tags.clone(), text: deref(&c.text, info.map(|l| &l.refs), cx.base.get(k)) }, &format!("loop {} invariant", k)); } if c.kind == "decreases" { dec = deref(&c.text, info.map(|l| &l.refs), cx.base.get(k)); } }
  }
  if !dec.is_empty() { o.put(&format!("    decreases {}\n", dec)); }
}

pub fn plain(ts: TokenStream) -> String {
  let mut o = Out::default();
  let con = Contracts::default();
  let mut a = vec![]; let mut b = vec![]; let mut c = vec![]; let hr = HashMap::new();
  let mut cx = Ctx { con: &con, loops: &[], used_hints: &mut a, no_contract_loops: &mut b, used_loops: &mut c, auto: true, plain: true, hint_refs: &hr, base: &hr };
  print(&mut o, ts, &mut cx, 0);
  o.s
}
#[allow(dead_code)]
pub type Map = BTreeMap<String, String>;
