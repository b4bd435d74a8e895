//! Shape of the parse tree, derived from the grammar on every run: for every rule R the predicate `wf_R(n)` says which
//! sequences of child pairs pest can produce for R, and what is known about the matched text.
//! The derivation over-approximates the grammar (lookaheads are dropped, repetitions may be widened), so every tree
//! pest builds satisfies the predicates.
use pest_meta::ast::{Expr, Rule, RuleType};
use std::collections::{BTreeMap, BTreeSet};

pub struct ShapeOut { pub text: BTreeMap<String, Vec<String>>, pub rules: Vec<String>, pub specs: Vec<(String, String)>, pub errors: Vec<String>, pub checked: usize }

#[derive(Clone, Debug)]
pub(crate) enum R { Eps, Sym(String), Seq(Vec<R>), Alt(Vec<R>), Star(Box<R>), Any }
#[derive(Clone, Debug, PartialEq)]
pub(crate) struct El { pub set: BTreeSet<String>, pub star: bool }
pub(crate) type Alt = Vec<El>;

pub(crate) struct G { pub rules: BTreeMap<String, (RuleType, Expr)>, pub depth: usize }
const BUILTIN: &[&str] = &["ANY", "SOI", "PUSH", "PEEK", "PEEK_ALL", "POP", "POP_ALL", "DROP", "NEWLINE", "ASCII", "ASCII_DIGIT", "ASCII_NONZERO_DIGIT", "ASCII_BIN_DIGIT", "ASCII_OCT_DIGIT", "ASCII_HEX_DIGIT", "ASCII_ALPHA_LOWER", "ASCII_ALPHA_UPPER", "ASCII_ALPHA", "ASCII_ALPHANUMERIC"];

impl G {
  pub(crate) fn kids(&mut self, e: &Expr, atomic: bool) -> R {
    match e {
      Expr::Str(_) | Expr::Insens(_) | Expr::Range(..) | Expr::PeekSlice(..) | Expr::PosPred(_) | Expr::NegPred(_) | Expr::Skip(_) => R::Eps,
      Expr::Ident(n) => {
        if n == "EOI" { return R::Sym("EOI".into()); }
        match self.rules.get(n).cloned() {
          None => R::Eps, // built in: no pair
          Some(_) if n == "WHITESPACE" || n == "COMMENT" => R::Eps,
          Some((RuleType::Silent, b)) => { if self.depth > 40 { return R::Any; } self.depth += 1; let r = self.kids(&b, atomic); self.depth -= 1; r }
          Some((t, b)) => {
            if atomic && !matches!(t, RuleType::CompoundAtomic | RuleType::NonAtomic) {
              // no pair of its own; rules below may still reset the atomicity
              if self.depth > 40 { return R::Any; } self.depth += 1; let r = self.kids(&b, true); self.depth -= 1; r
            } else { R::Sym(n.clone()) }
          }
        }
      }
      Expr::Seq(a, b) => R::Seq(vec![self.kids(a, atomic), self.kids(b, atomic)]),
      Expr::Choice(a, b) => R::Alt(vec![self.kids(a, atomic), self.kids(b, atomic)]),
      Expr::Opt(a) => R::Alt(vec![R::Eps, self.kids(a, atomic)]),
      Expr::Rep(a) => R::Star(Box::new(self.kids(a, atomic))),
      Expr::RepOnce(a) => { let x = self.kids(a, atomic); R::Seq(vec![x.clone(), R::Star(Box::new(x))]) }
      Expr::RepExact(a, n) => { let x = self.kids(a, atomic); rep(x, *n, Some(*n)) }
      Expr::RepMin(a, n) => { let x = self.kids(a, atomic); rep(x, *n, None) }
      Expr::RepMax(a, n) => { let x = self.kids(a, atomic); rep(x, 0, Some(*n)) }
      Expr::RepMinMax(a, m, n) => { let x = self.kids(a, atomic); rep(x, *m, Some(*n)) }
      Expr::Push(a) => self.kids(a, atomic),
      #[allow(unreachable_patterns)]
      _ => R::Any,
    }
  }
}
pub(crate) fn rep(x: R, min: u32, max: Option<u32>) -> R {
  if matches!(x, R::Eps) { return R::Eps; }
  let mut v = vec![];
  for _ in 0..min { v.push(x.clone()); }
  match max {
    None => v.push(R::Star(Box::new(x))),
    Some(m) if m <= min + 4 => for _ in min..m { v.push(R::Alt(vec![R::Eps, x.clone()])); },
    Some(_) => v.push(R::Star(Box::new(x))),
  }
  R::Seq(v)
}

pub(crate) fn syms(r: &R, out: &mut BTreeSet<String>) -> bool {
  match r { R::Eps => true, R::Sym(s) => { out.insert(s.clone()); true } R::Seq(v) | R::Alt(v) => v.iter().all(|x| syms(x, out)), R::Star(x) => syms(x, out), R::Any => false }
}
pub(crate) fn push(a: &mut Alt, e: &El) {
  if let Some(l) = a.last() { if l.star && e.star && l.set == e.set { return; } }
  a.push(e.clone());
}
pub(crate) fn cat(a: &Alt, b: &Alt) -> Alt { let mut x = a.clone(); for e in b { push(&mut x, e); } x }
pub(crate) fn alts(r: &R) -> Option<Vec<Alt>> {
  Some(match r {
    R::Any => return None,
    R::Eps => vec![vec![]],
    R::Sym(s) => vec![vec![El { set: [s.clone()].into(), star: false }]],
    R::Seq(v) => {
      let mut acc: Vec<Alt> = vec![vec![]];
      for x in v { let xs = alts(x)?; let mut n = vec![]; for a in &acc { for b in &xs { n.push(cat(a, b)); } } acc = simplify(n); if acc.len() > 64 { return None; } }
      acc
    }
    R::Alt(v) => { let mut acc = vec![]; for x in v { acc.extend(alts(x)?); } simplify(acc) }
    R::Star(x) => { let mut s = BTreeSet::new(); if !syms(x, &mut s) { return None; } if s.is_empty() { vec![vec![]] } else { vec![vec![El { set: s, star: true }]] } }
  })
}
pub(crate) fn incl(a: &[El], b: &[El]) -> bool {
  if a.is_empty() { return b.iter().all(|e| e.star); }
  if b.is_empty() { return false; }
  if b[0].star {
    if incl(a, &b[1..]) { return true; }
    return a[0].set.is_subset(&b[0].set) && incl(&a[1..], b);
  }
  !a[0].star && a[0].set.is_subset(&b[0].set) && incl(&a[1..], &b[1..])
}
pub(crate) fn simplify(mut v: Vec<Alt>) -> Vec<Alt> {
  loop {
    let n0 = v.clone();
    // A A* | (nothing)  =  A*
    'o: for i in 0..v.len() {
      for k in 0..v[i].len().saturating_sub(1) {
        let (x, y) = (&v[i][k], &v[i][k + 1]);
        if x.star != y.star && x.set == y.set {
          let mut short = v[i].clone(); short.drain(k..k + 2);
          if let Some(j) = v.iter().position(|w| *w == short) {
            let mut w = v[i].clone(); let set = w[k].set.clone(); w.drain(k..k + 2); w.insert(k, El { set, star: true });
            v[i] = w; v.remove(j); break 'o;
          }
        }
      }
    }
    // one-symbol alternatives of the same form differing in one set
    'p: for i in 0..v.len() { for j in i + 1..v.len() {
      if v[i].len() == v[j].len() {
        let d: Vec<usize> = (0..v[i].len()).filter(|&k| v[i][k] != v[j][k]).collect();
        if d.len() == 1 && !v[i][d[0]].star && !v[j][d[0]].star { let s = v[j][d[0]].set.clone(); v[i][d[0]].set.extend(s); v.remove(j); break 'p; }
        if d.is_empty() { v.remove(j); break 'p; }
      }
    } }
    'q: for i in 0..v.len() { for j in 0..v.len() { if i != j && incl(&v[i], &v[j]) { v.remove(i); break 'q; } } }
    if v == n0 { return v; }
  }
}
/// at most one star per alternative
pub(crate) fn one_star(a: &Alt) -> Alt {
  let st: Vec<usize> = a.iter().enumerate().filter(|(_, e)| e.star).map(|x| x.0).collect();
  if st.len() <= 1 { return a.clone(); }
  let (f, l) = (st[0], *st.last().unwrap());
  let mut set = BTreeSet::new();
  for e in &a[f..=l] { set.extend(e.set.iter().cloned()); }
  let mut x = a[..f].to_vec(); x.push(El { set, star: true }); x.extend_from_slice(&a[l + 1..]); x
}

// ---- text facts
pub(crate) fn esc(s: &str) -> String { format!("{:?}@", s) }
pub(crate) fn strs(e: &Expr, g: &G, d: usize) -> Option<Vec<String>> {
  if d > 20 { return None; }
  let r = match e {
    Expr::Str(s) => vec![s.clone()],
    Expr::PosPred(_) | Expr::NegPred(_) => vec![String::new()],
    Expr::Seq(a, b) => { let (x, y) = (strs(a, g, d + 1)?, strs(b, g, d + 1)?); let mut v = vec![]; for p in &x { for q in &y { v.push(format!("{}{}", p, q)); } } v }
    Expr::Choice(a, b) => { let mut v = strs(a, g, d + 1)?; v.extend(strs(b, g, d + 1)?); v }
    Expr::Opt(a) => { let mut v = strs(a, g, d + 1)?; v.push(String::new()); v }
    Expr::Ident(n) => strs(&g.rules.get(n)?.1, g, d + 1)?,
    _ => return None,
  };
  if r.len() > 16 { None } else { Some(r) }
}
pub(crate) fn nullable(e: &Expr, g: &G, d: usize) -> bool {
  if d > 30 { return true; }
  match e {
    Expr::Str(s) | Expr::Insens(s) => s.is_empty(),
    Expr::Range(..) => false,
    Expr::Ident(n) => match g.rules.get(n) { Some((_, b)) => nullable(b, g, d + 1), None => !(n.starts_with("ASCII") || n == "ANY" || n == "NEWLINE") },
    Expr::Seq(a, b) => nullable(a, g, d + 1) && nullable(b, g, d + 1),
    Expr::Choice(a, b) => nullable(a, g, d + 1) || nullable(b, g, d + 1),
    Expr::RepOnce(a) => nullable(a, g, d + 1),
    Expr::RepExact(a, n) | Expr::RepMin(a, n) | Expr::RepMinMax(a, n, _) => *n == 0 || nullable(a, g, d + 1),
    _ => true,
  }
}
pub(crate) fn digits_only(e: &Expr, g: &G, d: usize) -> bool {
  if d > 30 { return false; }
  match e {
    Expr::Str(s) => s.chars().all(|c| c.is_ascii_digit()),
    Expr::Range(a, b) => { let f = |s: &str| s.chars().next().map_or(false, |c| c.is_ascii_digit()); f(a) && f(b) }
    Expr::Ident(n) => match g.rules.get(n) { Some((_, b)) => digits_only(b, g, d + 1), None => ["ASCII_DIGIT", "ASCII_NONZERO_DIGIT", "ASCII_BIN_DIGIT", "ASCII_OCT_DIGIT"].contains(&n.as_str()) },
    Expr::PosPred(_) | Expr::NegPred(_) => true,
    Expr::Seq(a, b) | Expr::Choice(a, b) => digits_only(a, g, d + 1) && digits_only(b, g, d + 1),
    Expr::Opt(a) | Expr::Rep(a) | Expr::RepOnce(a) | Expr::RepExact(a, _) | Expr::RepMin(a, _) | Expr::RepMax(a, _) | Expr::RepMinMax(a, _, _) => digits_only(a, g, d + 1),
    _ => false,
  }
}
/// a set of characters as sorted disjoint ranges
pub(crate) type Cs = Vec<(char, char)>;
pub(crate) fn norm(mut v: Cs) -> Cs {
  v.sort();
  let mut o: Cs = vec![];
  for (a, b) in v { match o.last_mut() { Some(l) if (a as u32) <= l.1 as u32 + 1 => { if b > l.1 { l.1 = b } } _ => o.push((a, b)) } }
  o
}
pub(crate) fn has(s: &Cs, e: &str) -> String { s.iter().map(|(a, b)| if a == b { format!("{} == {:?}", e, a) } else { format!("{:?} <= {} <= {:?}", a, e, b) }).collect::<Vec<_>>().join(" || ") }
/// what a character-level expression matches: characters at the first position, at the others, and the possible lengths (up to 16)
#[derive(Clone)]
pub(crate) struct Lx { pub first: Cs, pub rest: Cs, pub lens: BTreeSet<usize>, pub open: bool }
pub(crate) fn lex(e: &Expr, g: &G, d: usize) -> Option<Lx> {
  const MAX: usize = 16;
  if d > 30 { return None; }
  let eps = || Lx { first: vec![], rest: vec![], lens: [0].into(), open: false };
  let one = |s: Cs| Lx { first: norm(s), rest: vec![], lens: [1].into(), open: false };
  let cat = |a: Lx, b: Lx| {
    let mut first = a.first.clone(); if a.lens.contains(&0) { first.extend(b.first.clone()); }
    let mut rest = a.rest.clone(); rest.extend(b.rest.clone()); if a.open || a.lens.iter().any(|l| *l > 0) { rest.extend(b.first.clone()); }
    let (mut lens, mut open) = (BTreeSet::new(), a.open || b.open);
    for x in &a.lens { for y in &b.lens { if x + y <= MAX { lens.insert(x + y); } else { open = true; } } }
    Lx { first: norm(first), rest: norm(rest), lens, open }
  };
  let or = |a: Lx, b: Lx| Lx { first: norm([a.first, b.first].concat()), rest: norm([a.rest, b.rest].concat()), lens: a.lens.union(&b.lens).cloned().collect(), open: a.open || b.open };
  let star = |a: Lx| { let rest = norm([a.first.clone(), a.rest.clone()].concat()); Lx { first: a.first, rest, lens: (0..=MAX).collect(), open: true } };
  let times = |a: &Expr, m: u32, n: Option<u32>| -> Option<Lx> {
    if m > 16 || n.map_or(false, |n| n > 16) { return None; }
    let mut x = eps();
    for _ in 0..m { x = cat(x, lex(a, g, d + 1)?); }
    match n { None => x = cat(x, star(lex(a, g, d + 1)?)), Some(n) => { let mut y = eps(); for _ in m..n { y = or(eps(), cat(lex(a, g, d + 1)?, y)); } x = cat(x, y); } }
    Some(x)
  };
  Some(match e {
    Expr::Str(s) => { let mut x = eps(); for c in s.chars() { x = cat(x, one(vec![(c, c)])); } x }
    Expr::Insens(s) => { let mut x = eps(); for c in s.chars() { let (l, u) = (c.to_ascii_lowercase(), c.to_ascii_uppercase()); x = cat(x, one(vec![(l, l), (u, u)])); } x }
    Expr::Range(a, b) => one(vec![(a.chars().next()?, b.chars().next()?)]),
    Expr::Ident(n) => match g.rules.get(n) {
      Some((_, b)) => lex(b, g, d + 1)?,
      None => one(match n.as_str() {
        "ASCII_DIGIT" => vec![('0', '9')], "ASCII_NONZERO_DIGIT" => vec![('1', '9')], "ASCII_BIN_DIGIT" => vec![('0', '1')], "ASCII_OCT_DIGIT" => vec![('0', '7')],
        "ASCII_HEX_DIGIT" => vec![('0', '9'), ('a', 'f'), ('A', 'F')], "ASCII_ALPHA_LOWER" => vec![('a', 'z')], "ASCII_ALPHA_UPPER" => vec![('A', 'Z')],
        "NEWLINE" => return Some(Lx { first: vec![('\n', '\n'), ('\r', '\r')], rest: vec![('\n', '\n')], lens: [1, 2].into(), open: false }),
        "ASCII_ALPHA" => vec![('a', 'z'), ('A', 'Z')], "ASCII_ALPHANUMERIC" => vec![('a', 'z'), ('A', 'Z'), ('0', '9')],
        _ => return None,
      }),
    },
    Expr::PosPred(_) | Expr::NegPred(_) => eps(),
    Expr::Seq(a, b) => cat(lex(a, g, d + 1)?, lex(b, g, d + 1)?),
    Expr::Choice(a, b) => or(lex(a, g, d + 1)?, lex(b, g, d + 1)?),
    Expr::Opt(a) => or(eps(), lex(a, g, d + 1)?),
    Expr::Rep(a) => star(lex(a, g, d + 1)?),
    Expr::RepOnce(a) => cat(lex(a, g, d + 1)?, star(lex(a, g, d + 1)?)),
    Expr::RepExact(a, n) => times(a, *n, Some(*n))?,
    Expr::RepMin(a, n) => times(a, *n, None)?,
    Expr::RepMax(a, n) => times(a, 0, Some(*n))?,
    Expr::RepMinMax(a, m, n) => times(a, *m, Some(*n))?,
    _ => return None,
  })
}
pub(crate) fn flat<'a>(e: &'a Expr, v: &mut Vec<&'a Expr>) { match e { Expr::Seq(a, b) => { flat(a, v); flat(b, v) } e => v.push(e) } }
/// `(!S ~ ANY)*`
pub(crate) fn until(e: &Expr) -> Option<String> {
  if let Expr::Rep(b) = e { if let Expr::Seq(p, a) = &**b { if let (Expr::NegPred(s), Expr::Ident(n)) = (&**p, &**a) { if n == "ANY" { if let Expr::Str(s) = &**s { return Some(s.clone()); } } } } }
  None
}

/// silent rules written out (they match what their body matches, in the mode of the caller)
pub(crate) fn inline(e: &Expr, g: &G, d: usize) -> Expr {
  let b = |x: &Expr| Box::new(inline(x, g, d));
  match e {
    Expr::Ident(n) if d < 12 && n != "WHITESPACE" && n != "COMMENT" => match g.rules.get(n) { Some((RuleType::Silent, body)) => inline(body, g, d + 1), _ => e.clone() },
    Expr::Seq(x, y) => Expr::Seq(b(x), b(y)),
    Expr::Choice(x, y) => Expr::Choice(b(x), b(y)),
    Expr::Opt(x) => Expr::Opt(b(x)), Expr::Rep(x) => Expr::Rep(b(x)), Expr::RepOnce(x) => Expr::RepOnce(b(x)),
    Expr::RepExact(x, n) => Expr::RepExact(b(x), *n), Expr::RepMin(x, n) => Expr::RepMin(b(x), *n), Expr::RepMax(x, n) => Expr::RepMax(b(x), *n), Expr::RepMinMax(x, m, n) => Expr::RepMinMax(b(x), *m, *n),
    Expr::PosPred(x) => Expr::PosPred(b(x)), Expr::NegPred(x) => Expr::NegPred(b(x)),
    _ => e.clone(),
  }
}
/// what it matches is one pair
pub(crate) fn whole(e: &Expr, g: &G, d: usize) -> bool {
  if d > 30 { return false; }
  match e {
    Expr::Choice(a, b) => whole(a, g, d + 1) && whole(b, g, d + 1),
    Expr::Ident(n) if n == "WHITESPACE" || n == "COMMENT" => false,
    Expr::Ident(n) => match g.rules.get(n) { Some((RuleType::Silent, b)) => whole(b, g, d + 1), Some(_) => true, None => false },
    _ => false,
  }
}

/// the rules with silent ones written out
pub(crate) fn inlined(rules: Vec<Rule>) -> Vec<Rule> {
  let g = G { rules: rules.iter().map(|r| (r.name.clone(), (r.ty, r.expr.clone()))).collect(), depth: 0 };
  rules.into_iter().map(|mut r| { r.expr = inline(&r.expr, &g, 0); r }).collect()
}
pub fn run(gram: &str) -> ShapeOut {
  let mut out = ShapeOut { text: Default::default(), rules: vec![], specs: vec![], errors: vec![], checked: 0 };
  let rules: Vec<Rule> = match pest_meta::parser::parse(pest_meta::parser::Rule::grammar_rules, gram) {
    Ok(p) => match pest_meta::parser::consume_rules(p) { Ok(r) => r, Err(e) => { out.errors.push(format!("grammar: {:?}", e)); return out; } },
    Err(e) => { out.errors.push(format!("grammar: {}", e)); return out; }
  };
  let rules = inlined(rules);
  let mut g = G { rules: rules.iter().map(|r| (r.name.clone(), (r.ty, r.expr.clone()))).collect(), depth: 0 };
  // names used but neither defined nor known: treat as leaf-less built-ins, but report
  let mut sp = vec![];
  sp.push(("EOI".to_string(), "n.rule == Rule::EOI && n.kids.len() == 0".to_string()));
  for r in &rules {
    out.rules.push(r.name.clone());
    let atomic = matches!(r.ty, RuleType::Atomic) || r.name == "WHITESPACE" || r.name == "COMMENT";
    let mut facts = vec![format!("n.rule == Rule::{}", r.name)];
    if matches!(r.ty, RuleType::Silent) || r.name == "WHITESPACE" || r.name == "COMMENT" { continue; }
    let k = g.kids(&r.expr, atomic);
    match alts(&k) {
      None => out.errors.push(format!("{}: children of unknown shape", r.name)),
      Some(v) => {
        let v: Vec<Alt> = simplify(v.iter().map(one_star).collect());
        let mut ors = vec![];
        for a in &v {
          let is = |s: &BTreeSet<String>, e: &str| { let w: Vec<String> = s.iter().map(|x| format!("wf_{}({})", x, e)).collect(); if w.len() == 1 { w[0].clone() } else { format!("({})", w.join(" || ")) } };
          let mut c = vec![];
          match a.iter().position(|e| e.star) {
            None => { c.push(format!("n.kids.len() == {}", a.len())); for (i, e) in a.iter().enumerate() { c.push(is(&e.set, &format!("n.kids[{}]", i))); } }
            Some(p) => {
              let q = a.len() - p - 1;
              c.push(format!("n.kids.len() >= {}", p + q));
              for i in 0..p { c.push(is(&a[i].set, &format!("n.kids[{}]", i))); }
              for i in 0..q { c.push(is(&a[p + 1 + i].set, &format!("n.kids[n.kids.len() - {}]", q - i))); }
              let w = is(&a[p].set, "n.kids[i]").replacen("n.kids[i]", "#[trigger] n.kids[i]", 1);
              c.push(format!("(forall|i: int| {} <= i < n.kids.len() - {} ==> {})", p, q, w));
            }
          }
          ors.push(format!("({})", c.join(" && ")));
        }
        facts.push(if ors.len() == 1 { ors[0].clone() } else { format!("({})", ors.join("\n    || ")) });
        out.checked += 1;
      }
    }
    // text
    let at = facts.len();
    if matches!(r.ty, RuleType::Atomic) {
      if let Some(v) = strs(&r.expr, &g, 0) { facts.push(format!("({})", v.iter().map(|s| format!("n.text == {}", esc(s))).collect::<Vec<_>>().join(" || "))); }
      else {
        if !nullable(&r.expr, &g, 0) { facts.push("n.text.len() > 0".into()); }
        if digits_only(&r.expr, &g, 0) && !nullable(&r.expr, &g, 0) { facts.push("is_digits(n.text)".into()); }
        let mut f = vec![]; flat(&r.expr, &mut f);
        let dots: Vec<usize> = f.iter().enumerate().filter(|(_, e)| matches!(e, Expr::Str(s) if s == ".")).map(|x| x.0).collect();
        if dots.len() == 1 && dots[0] > 0 && f.iter().enumerate().all(|(i, e)| i == dots[0] || digits_only(e, &g, 0)) && f[..dots[0]].iter().any(|e| !nullable(e, &g, 0)) { facts.push("is_decimal(n.text)".into()); }
        if let Some(l) = lex(&r.expr, &g, 0) {
          if !l.open { facts.push(format!("({})", l.lens.iter().map(|k| format!("n.text.len() == {}", k)).collect::<Vec<_>>().join(" || "))); }
          if !l.lens.contains(&0) && !l.first.is_empty() { facts.push(format!("({})", has(&l.first, "n.text[0]"))); }
          if l.rest.is_empty() { facts.push("n.text.len() <= 1".into()); }
          else { facts.push(format!("(forall|i: int| 1 <= i < n.text.len() ==> ({}))", has(&l.rest, "n.text[i]").replacen("n.text[i]", "#[trigger] n.text[i]", 1))); }
        }
        if let Some(s) = until(&r.expr) { facts.push(if s.chars().count() == 1 { format!("!n.text.contains({:?})", s.chars().next().unwrap()) } else { format!("free_of(n.text, {})", esc(&s)) }); }
      }
    }
    if !atomic && whole(&r.expr, &g, 0) { facts.push("n.text == n.kids[0].text".into()); }
    if matches!(r.ty, RuleType::CompoundAtomic) {
      // open quote, blanks, one pair, closing quote
      let mut f = vec![]; flat(&r.expr, &mut f);
      if f.len() == 4 {
        if let (Expr::Str(a), Expr::Rep(w), Expr::Ident(k), Expr::Str(b)) = (f[0], f[1], f[2], f[3]) {
          if matches!(&**w, Expr::Ident(n) if n == "WHITESPACE") && g.rules.contains_key(k) { 
            let (la, lb) = (a.chars().count(), b.chars().count());
            facts.push(format!("is_quoted(n, {la}, {lb})"));
            for (i, c) in a.chars().enumerate() { facts.push(format!("n.text[{i}] == {c:?}")); }
            for (i, c) in b.chars().enumerate() { facts.push(format!("n.text[n.text.len() - {}] == {c:?}", lb - i)); }
          }
        }
      }
    }
    out.text.insert(r.name.clone(), facts[at..].to_vec());
    sp.push((r.name.clone(), facts.join("\n    && ")));
  }
  let _ = BUILTIN;
  out.rules.retain(|r| r != "WHITESPACE" && r != "COMMENT");
  out.specs = sp;
  out
}
