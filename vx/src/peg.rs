//! The grammar as a specification: for every rule the function from a text and a position to what pest's generated parser
//! yields there (`m_<rule>`, defined expression by expression as pest_generator defines it), and a proof for every expression
//! that its result lies within the text and has the shape `wf_<rule>` claims (see shape.rs).
//! Three modes of pest: N (blanks and comments are skipped between the parts of a sequence), C (compound atomic: they are
//! not), A (atomic: nor are pairs of inner rules kept).
use crate::shape::*;
use pest_meta::ast::{Expr, Rule, RuleType};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum M { N, C, A }
#[derive(Clone)]
struct Fx { shape: Option<Vec<Alt>>, lx: Option<Lx>, strs: Option<Vec<String>>, digits: bool, dec: bool, dot: bool, notc: Option<String>, allnot: Option<String>, exact: Option<Cs>, stop: Option<Cs>, whole: bool, total: bool, def: Option<String> }
#[derive(Clone)]
struct X { f: String, fx: Fx }
pub struct PegOut { pub text: String, pub error: Option<String>, pub mods: Vec<String>, pub lemmas: usize, pub rules: usize, pub exec: String }

struct P<'a> { g: &'a G, text: &'a BTreeMap<String, Vec<String>>, mods: Vec<(String, String)>, seen: HashMap<String, X>, rules: BTreeMap<(String, M), Option<X>>, n: usize, lemmas: usize, cur: String, stack: Vec<String>, quoted: Vec<(String, Vec<X>)>, known: HashMap<String, ()>, exec: String }
type Res<T> = Result<T, String>;

fn desugar(e: &Expr) -> Expr {
  let b = |e: Expr| Box::new(e);
  let fold = |v: Vec<Expr>| -> Expr { let mut it = v.into_iter().rev(); let l = it.next().unwrap(); it.fold(l, |r, e| Expr::Seq(Box::new(e), Box::new(r))) };
  match e {
    Expr::RepOnce(a) => { let a = desugar(a); Expr::Seq(b(a.clone()), b(Expr::Rep(b(a)))) }
    Expr::RepExact(a, n) => { let a = desugar(a); fold((0..*n).map(|_| a.clone()).collect()) }
    Expr::RepMin(a, n) => { let a = desugar(a); let mut v: Vec<Expr> = (0..*n).map(|_| a.clone()).collect(); v.push(Expr::Rep(b(a))); fold(v) }
    Expr::RepMax(a, n) => { let a = desugar(a); fold((0..*n).map(|_| Expr::Opt(Box::new(a.clone()))).collect()) }
    Expr::RepMinMax(a, m, n) => { let a = desugar(a); fold((1..=*n).map(|i| if i <= *m { a.clone() } else { Expr::Opt(Box::new(a.clone())) }).collect()) }
    Expr::Seq(x, y) => Expr::Seq(b(desugar(x)), b(desugar(y))),
    Expr::Choice(x, y) => Expr::Choice(b(desugar(x)), b(desugar(y))),
    Expr::Opt(x) => Expr::Opt(b(desugar(x))),
    Expr::Rep(x) => Expr::Rep(b(desugar(x))),
    Expr::PosPred(x) => Expr::PosPred(b(desugar(x))),
    Expr::NegPred(x) => Expr::NegPred(b(desugar(x))),
    e => e.clone(),
  }
}
fn choices<'a>(e: &'a Expr, v: &mut Vec<&'a Expr>) { match e { Expr::Choice(a, b) => { choices(a, v); choices(b, v) } e => v.push(e) } }
fn none() -> Fx { Fx { shape: Some(vec![vec![]]), lx: None, strs: None, digits: false, dec: false, dot: false, notc: None, allnot: None, exact: None, stop: None, whole: false, total: false, def: None } }
fn eps_lx() -> Lx { Lx { first: vec![], rest: vec![], lens: [0].into(), open: false } }
fn cat_lx(a: &Lx, b: &Lx) -> Lx {
  let mut first = a.first.clone(); if a.lens.contains(&0) { first.extend(b.first.clone()); }
  let mut rest = a.rest.clone(); rest.extend(b.rest.clone()); if a.open || a.lens.iter().any(|l| *l > 0) { rest.extend(b.first.clone()); }
  let (mut lens, mut open) = (BTreeSet::new(), a.open || b.open);
  for x in &a.lens { for y in &b.lens { if x + y <= 16 { lens.insert(x + y); } else { open = true; } } }
  Lx { first: norm(first), rest: norm(rest), lens, open }
}
fn or_lx(a: &Lx, b: &Lx) -> Lx { Lx { first: norm([a.first.clone(), b.first.clone()].concat()), rest: norm([a.rest.clone(), b.rest.clone()].concat()), lens: a.lens.union(&b.lens).cloned().collect(), open: a.open || b.open } }
fn star_lx(a: &Lx) -> Lx { Lx { first: a.first.clone(), rest: norm([a.first.clone(), a.rest.clone()].concat()), lens: (0..=16).collect(), open: true } }
fn only_digits(l: &Lx) -> bool { let d = |c: &Cs| c.iter().all(|(a, b)| ('0'..='9').contains(a) && ('0'..='9').contains(b)); d(&l.first) && d(&l.rest) }
fn cat_alts(a: &[Alt], b: &[Alt]) -> Option<Vec<Alt>> {
  let mut n = vec![]; for x in a { for y in b { n.push(one_star(&cat(x, y))); } }
  let n = simplify(n); if n.len() > 64 { None } else { Some(n) }
}
fn star_alts(a: &[Alt]) -> Vec<Alt> { let mut s = BTreeSet::new(); for x in a { for e in x { s.extend(e.set.iter().cloned()); } } if s.is_empty() { vec![vec![]] } else { vec![vec![El { set: s, star: true }]] } }
fn or_alts(a: &[Alt], b: &[Alt]) -> Vec<Alt> { simplify([a.to_vec(), b.to_vec()].concat()) }
/// the predicate of a set of rules
fn symbol(s: &BTreeSet<String>) -> String { if s.len() == 1 { format!("wf_{}", s.iter().next().unwrap()) } else { format!("u_{}", s.iter().map(|x| x.replace('_', "")).collect::<Vec<_>>().join("_")) } }
fn sets(v: &Option<Vec<Alt>>) -> BTreeSet<BTreeSet<String>> { v.iter().flatten().flatten().map(|e| e.set.clone()).collect() }
/// the shape of a list of pairs
fn shape_text(v: &[Alt], ns: &str) -> String {
  let mut ors = vec![];
  for a in v {
    let is = |s: &BTreeSet<String>, e: &str| format!("{}({e})", symbol(s));
    let mut c = vec![];
    match a.iter().position(|e| e.star) {
      None => { c.push(format!("{ns}.len() == {}", a.len())); for (i, e) in a.iter().enumerate() { c.push(is(&e.set, &format!("{ns}[{i}]"))); } }
      Some(p) => {
        let q = a.len() - p - 1;
        c.push(format!("{ns}.len() >= {}", p + q));
        for i in 0..p { c.push(is(&a[i].set, &format!("{ns}[{i}]"))); }
        for i in 0..q { c.push(is(&a[p + 1 + i].set, &format!("{ns}[{ns}.len() - {}]", q - i))); }
        let w = is(&a[p].set, &format!("{ns}[i]")).replacen(&format!("{ns}[i]"), &format!("#[trigger] {ns}[i]"), 1);
        c.push(format!("(forall|i: int| {p} <= i < {ns}.len() - {q} ==> {w})"));
      }
    }
    ors.push(format!("({})", c.join(" && ")));
  }
  format!("({})", ors.join(" || "))
}
fn facts(x: &Fx) -> Vec<String> {
  let mut f = vec![];
  if let Some(v) = &x.shape { f.push(shape_text(v, "m.ns")); }
  if let Some(l) = &x.lx {
    if !l.open { f.push(format!("({})", l.lens.iter().map(|k| format!("m.at == p + {k}")).collect::<Vec<_>>().join(" || "))); }
    else if let Some(k) = l.lens.iter().next() { if *k > 0 { f.push(format!("m.at >= p + {k}")); } }
    if l.first.is_empty() { f.push("m.at == p".into()) } else { f.push(format!("(p < m.at ==> ({}))", has(&l.first, "s[p]"))); }
    if l.rest.is_empty() { f.push("m.at <= p + 1".into()) } else { f.push(format!("(forall|i: int| p < i < m.at ==> ({}))", has(&l.rest, "s[i]").replacen("s[i]", "#[trigger] s[i]", 1))); }
  }
  if let Some(v) = &x.strs {
    f.push(format!("({})", v.iter().map(|t| { let c: Vec<char> = t.chars().collect(); let mut a = vec![format!("m.at == p + {}", c.len())]; for (i, c) in c.iter().enumerate() { a.push(format!("s[p + {i}] == {c:?}")); } format!("({})", a.join(" && ")) }).collect::<Vec<_>>().join(" || ")));
  }
  if x.dec { f.push("(exists|k: int| p < k < m.at && #[trigger] s[k] == '.' && (forall|i: int| p <= i < k ==> '0' <= #[trigger] s[i] <= '9') && (forall|i: int| k < i < m.at ==> '0' <= #[trigger] s[i] <= '9'))".into()); }
  if let Some(c) = &x.notc { f.push(format!("m.at == p + 1 && !({})", here(c, "p"))); }
  if let Some(c) = &x.allnot { f.push(format!("(forall|i: int| p <= i < m.at ==> !({}))", here(c, "i").replacen("s[i + 0]", "#[trigger] s[i]", 1))); }
  if let Some(c) = &x.stop { f.push(format!("(m.at < s.len() ==> !({}))", has(c, "s[m.at]"))); }
  if x.whole { f.push("m.ns.len() == 1 && m.ns[0].text == s.subrange(p, m.at)".into()); }
  f
}
/// the characters of w stand at p
fn here(w: &str, p: &str) -> String {
  let mut a = vec![format!("{p} + {} <= s.len()", w.chars().count())];
  for (i, c) in w.chars().enumerate() { a.push(format!("s[{p} + {i}] == {c:?}")); }
  a.join(" && ")
}
fn ensures(f: &str, x: &Fx) -> String { let fs = facts(x); format!("ensures ({{ let m = {f}(s, p); {}{}{}(m.ok ==> good(s, p, m){}) }})", x.def.iter().map(|d| format!("{d} && ")).collect::<String>(), if x.total { "m.ok && " } else { "" }, x.exact.iter().map(|c| format!("(m.ok <==> p < s.len() && ({})) && ", has(c, "s[p]"))).collect::<String>(), fs.iter().map(|c| format!("\n    && {c}")).collect::<String>()) }

impl<'a> P<'a> {
  fn put(&mut self, m: &str, t: &str) {
    match self.mods.iter_mut().find(|x| x.0 == m) { Some(x) => x.1 += t, None => self.mods.push((m.to_string(), t.to_string())) }
  }
  fn name(&mut self) -> String { self.n += 1; format!("e_{}_{}", self.cur, self.n) }
  /// a function and its lemma; `rec`: the recursive functions need a measure
  fn emit(&mut self, f: &str, body: &str, fx: &Fx, proof: &str, rec: bool) { self.emit_from(f, body, fx, proof, rec, &[]) }
  /// the predicate of a set of rules, defined
  fn define(&mut self, s: &BTreeSet<String>) {
    let u = symbol(s);
    if s.len() == 1 || self.known.insert(u.clone(), ()).is_some() { return; }
    let w = s.iter().map(|x| format!("wf_{x}(n)")).collect::<Vec<_>>().join(" || ");
    let d = format!("pub closed spec fn {u}(n: Node) -> bool {{ {w} }}\npub proof fn out_{u}() ensures forall|n: Node| #[trigger] {u}(n) ==> {w} {{}}\n");
    self.put("g_sets", &d);
  }
  /// the shape of a pair, from the parts
  fn w(&mut self, n: &str, b: &Fx) {
    if self.known.insert(format!("in_{n}"), ()).is_some() { return; }
    let mut pf = String::new();
    for k in sets(&b.shape) { if k.len() > 1 { self.define(&k); pf += &format!("out_{}(); ", symbol(&k)); } }
    let mut req = vec![format!("n.rule == Rule::{n}")];
    if let Some(v) = &b.shape { req.push(shape_text(v, "n.kids")); }
    if let Some(v) = self.text.get(n) { req.extend(v.iter().cloned()); }
    self.put(&format!("wf__{n}"), &format!("pub proof fn in_{n}(n: Node) requires {} ensures wf_{n}(n) {{ {pf} }}\n", req.join("\n    && ")));
  }
  /// what takes the sets of the parts to the sets of the whole
  fn widen(&mut self, to: &Fx, from: &[&Fx]) -> String {
    let have: BTreeSet<BTreeSet<String>> = from.iter().flat_map(|x| sets(&x.shape)).collect();
    let mut out = String::new();
    for o in sets(&to.shape) {
      self.define(&o);
      for i in &have {
        if i == &o || !i.is_subset(&o) { continue; }
        self.define(i);
        let (a, b) = (symbol(i), symbol(&o));
        let f = format!("sub_{a}__{b}");
        if self.known.insert(f.clone(), ()).is_none() {
          self.put("g_sets", &format!("pub proof fn {f}() ensures forall|n: Node| #[trigger] {a}(n) ==> {b}(n) {{}}\n"));
        }
        out += &format!("{f}(); ");
      }
    }
    out
  }
  fn emit_from(&mut self, f: &str, body: &str, fx: &Fx, proof: &str, rec: bool, from: &[&Fx]) {
    let proof = &format!("{}{proof}", self.widen(fx, from));
    self.lemmas += 1;
 let m = format!("g_{}", self.cur);
    self.exec += &exec_fn(f, "Mt", body);
    self.put(&m, &format!("pub closed spec fn {f}(s: Seq<char>, p: int) -> Mt {}{{ {body} }}\n", if rec { "decreases s.len() - p " } else { "" }));
    self.put(&m, &format!("pub proof fn l_{f}(s: Seq<char>, p: int) requires fits(s), 0 <= p <= s.len() {} {}{{ {proof} }}\n", ensures(f, fx), if rec { "decreases s.len() - p " } else { "" }));
  }
  fn leaf(&mut self, key: String, body: String, fx: Fx) -> X {
    if let Some(x) = self.seen.get(&key) { return x.clone(); }
    let f = self.name();
    self.emit(&f, &body, &Fx { def: Some(format!("{f}(s, p) == ({body})")), ..fx.clone() }, "good_yes(s, p);", false);
    let x = X { f, fx }; self.seen.insert(key, x.clone()); x
  }
  fn charset(&mut self, c: Cs) -> X {
    let lx = Lx { first: norm(c.clone()), rest: vec![], lens: [1].into(), open: false };
    let fx = Fx { lx: Some(lx.clone()), digits: only_digits(&lx), exact: Some(norm(c.clone())), ..none() };
    self.leaf(format!("cls {c:?}"), format!("one(p, p < s.len() && ({}))", has(&norm(c), "s[p]")), fx)
  }
  fn expr(&mut self, e: &Expr, m: M) -> Res<X> {
    let key = format!("{m:?} {e:?}");
    if let Some(x) = self.seen.get(&key) { return Ok(x.clone()); }
    let x = self.expr1(e, m)?;
    self.seen.insert(key, x.clone());
    Ok(x)
  }
  fn expr1(&mut self, e: &Expr, m: M) -> Res<X> {
    Ok(match e {
      Expr::Str(t) | Expr::Insens(t) => {
        let ins = matches!(e, Expr::Insens(_));
        let c: Vec<char> = t.chars().collect();
        let mut a = vec![format!("p + {} <= s.len()", c.len())];
        let mut lx = eps_lx();
        for (i, c) in c.iter().enumerate() {
          let (l, u) = (c.to_ascii_lowercase(), c.to_ascii_uppercase());
          let set = if ins && l != u { vec![(l, l), (u, u)] } else { vec![(*c, *c)] };
          a.push(format!("({})", has(&set, &format!("s[p + {i}]"))));
          lx = cat_lx(&lx, &Lx { first: norm(set), rest: vec![], lens: [1].into(), open: false });
        }
        let exact = if c.len() == 1 { Some(lx.first.clone()) } else { None };
        let fx = Fx { exact, strs: if ins { None } else { Some(vec![t.clone()]) }, digits: only_digits(&lx), dot: t == "." && !ins, lx: Some(lx), ..none() };
        self.leaf(format!("lit {ins} {t:?}"), format!("if {} {{ yes(p + {}) }} else {{ no() }}", a.join(" && "), c.len()), fx)
      }
      Expr::Range(a, b) => self.charset(vec![(a.chars().next().ok_or("range")?, b.chars().next().ok_or("range")?)]),
      Expr::Ident(n) => self.ident(n, m)?,
      Expr::Seq(..) => {
        let mut v = vec![]; flat(e, &mut v);
        // pest turns (a b)* a into a (b a)*, which is not the same
        for w in v.windows(2) { if let Expr::Rep(x) = w[0] { if let Expr::Seq(a, _) = &**x { if format!("{a:?}") == format!("{:?}", w[1]) { return Err("(a ~ b)* ~ a".into()); } } } }
        let mut items = vec![];
        for x in &v { items.push(self.expr(x, m)?); }
        self.quoted.push((self.cur.clone(), items.clone()));
        let mut cur = items[0].clone();
        for (i, it) in items.iter().enumerate().skip(1) {
          let until = if i == 1 { match (v[0], v[1]) { (Expr::NegPred(s), Expr::Ident(n)) if n == "ANY" => match &**s { Expr::Str(t) if !t.is_empty() => Some(t.clone()), _ => None }, _ => None } } else { None };
          cur = self.seq2(&cur, it, m, until);
        }
        cur
      }
      Expr::Choice(..) => {
        let mut v = vec![]; choices(e, &mut v);
        let mut cur = self.expr(v[0], m)?;
        for x in &v[1..] {
          let b = self.expr(x, m)?;
          let key = format!("or {} {}", cur.f, b.f);
          cur = if let Some(x) = self.seen.get(&key) { x.clone() } else {
            let (a, b2) = (&cur.fx, &b.fx);
            let fx = Fx {
              shape: match (&a.shape, &b2.shape) { (Some(x), Some(y)) => Some(or_alts(x, y)), _ => None },
              lx: match (&a.lx, &b2.lx) { (Some(x), Some(y)) => Some(or_lx(x, y)), _ => None },
              strs: match (&a.strs, &b2.strs) { (Some(x), Some(y)) if x.len() + y.len() <= 16 => Some([x.clone(), y.clone()].concat()), _ => None },
              digits: a.digits && b2.digits, dec: a.dec && b2.dec, whole: a.whole && b2.whole,
              exact: match (&a.exact, &b2.exact) { (Some(x), Some(y)) => Some(norm([x.clone(), y.clone()].concat())), _ => None }, ..none() };
            let f = self.name();
            self.emit_from(&f, &format!("or({}(s, p), {}(s, p))", cur.f, b.f), &fx, &format!("l_{}(s, p); l_{}(s, p);", cur.f, b.f), false, &[&cur.fx, &b.fx]);
            let x = X { f, fx }; self.seen.insert(key, x.clone()); x
          };
        }
        cur
      }
      Expr::Opt(a) => {
        let a = self.expr(a, m)?;
        let fx = Fx { shape: a.fx.shape.as_ref().map(|x| or_alts(&[vec![]], x)), lx: a.fx.lx.as_ref().map(|x| or_lx(&eps_lx(), x)), strs: a.fx.strs.clone().map(|mut v| { v.push(String::new()); v }), digits: a.fx.digits, total: true, ..none() };
        let f = self.name();
        self.emit_from(&f, &format!("opt(p, {}(s, p))", a.f), &fx, &format!("l_{}(s, p); good_yes(s, p);", a.f), false, &[&a.fx]);
        X { f, fx }
      }
      Expr::NegPred(a) | Expr::PosPred(a) => {
        let a = self.expr(a, m)?;
        let fx = Fx { lx: Some(eps_lx()), strs: Some(vec![String::new()]), digits: true, ..none() };
        let f = self.name();
        let c = match (e, &a.fx.strs) { (Expr::NegPred(x), Some(v)) if matches!(&**x, Expr::Str(_)) && v.len() == 1 && !v[0].is_empty() => Some(v[0].clone()), _ => None };
        let ex = Fx { def: c.map(|c| format!("(m.ok ==> !({}))", here(&c, "p"))), ..fx.clone() };
        self.emit(&f, &format!("{}(p, {}(s, p))", if matches!(e, Expr::NegPred(_)) { "not" } else { "peek" }, a.f), &ex, &format!("l_{}(s, p); good_yes(s, p);", a.f), false);
        X { f, fx }
      }
      Expr::Rep(a) => {
        let a = self.expr(a, m)?;
        let fx = Fx { shape: a.fx.shape.as_ref().map(|x| star_alts(x)), lx: if m == M::N { None } else { a.fx.lx.as_ref().map(star_lx) }, digits: m != M::N && a.fx.digits, allnot: a.fx.notc.clone(), stop: if m == M::N { None } else { a.fx.exact.clone() }, total: true, ..none() };
        let more = self.name();
        let (k, lk) = self.skip("p", m)?;
        let step = format!("let a = {}(s, {k}); if a.ok && p < a.at <= s.len() {{ then(a, {more}(s, a.at)) }} else {{ yes(p) }}", a.f);
        let pf = format!("good_yes(s, p); {lk} let k = {k}; l_{}(s, k); let a = {}(s, k); if a.ok && p < a.at <= s.len() {{ ord_wide(s, k, a.at, p, a.at, a.ns); l_{more}(s, a.at); good_then(s, p, a, a.at, {more}(s, a.at)); }}", a.f, a.f);
        self.emit_from(&more, &step, &fx, &pf, true, &[&a.fx]);
        if m != M::N { return Ok(X { f: more, fx }); }
        let f = self.name();
        self.emit_from(&f, &format!("let a = {}(s, p); if a.ok {{ then(a, {more}(s, a.at)) }} else {{ yes(p) }}", a.f), &fx,
          &format!("good_yes(s, p); l_{}(s, p); let a = {}(s, p); if a.ok {{ l_{more}(s, a.at); good_then(s, p, a, a.at, {more}(s, a.at)); }}", a.f, a.f), false, &[&a.fx]);
        X { f, fx }
      }
      e => return Err(format!("expression {e:?}")),
    })
  }
  fn seq2(&mut self, a: &X, b: &X, m: M, until: Option<String>) -> X {
    let key = format!("then {m:?} {} {}", a.f, b.f);
    if let Some(x) = self.seen.get(&key) { return x.clone(); }
    let (x, y) = (&a.fx, &b.fx);
    let (k, lk) = self.skip("a.at", m).unwrap();
    let fx = Fx {
      shape: match (&x.shape, &y.shape) { (Some(x), Some(y)) => cat_alts(x, y), _ => None },
      lx: match (&x.lx, &y.lx) { (Some(x), Some(y)) if m != M::N => Some(cat_lx(x, y)), _ => None },
      strs: match (&x.strs, &y.strs) { (Some(x), Some(y)) if m != M::N && x.len() * y.len() <= 16 => Some(x.iter().flat_map(|p| y.iter().map(move |q| format!("{p}{q}"))).collect()), _ => None },
      digits: m != M::N && x.digits && y.digits,
      dec: m != M::N && (x.dec && y.digits && y.lx.is_some() || x.digits && x.lx.as_ref().map_or(false, |l| !l.lens.contains(&0)) && y.dot),
      notc: until, ..none() };
    let f = self.name();
    self.emit_from(&f, &format!("let a = {}(s, p); if a.ok {{ then(a, {}(s, {k})) }} else {{ no() }}", a.f, b.f), &fx,
      &format!("l_{}(s, p); let a = {}(s, p); if a.ok {{ {lk} let k = {k}; l_{}(s, k); let b = {}(s, k); good_then(s, p, a, k, b); {} }}", a.f, a.f, b.f, b.f,
        if fx.dec && y.dot { "assert(b.ok ==> s[a.at] == '.');" } else { "" }), false, &[x, y]);
    let x = X { f, fx }; self.seen.insert(key, x.clone()); x
  }
  /// position after the blanks and comments at `at`, and the lemma about it
  fn skip(&mut self, at: &str, m: M) -> Res<(String, String)> {
    if m != M::N { return Ok((at.to_string(), String::new())); }
    Ok((format!("skip(s, {at})"), format!("l_skip(s, {at});")))
  }
  fn ident(&mut self, n: &str, m: M) -> Res<X> {
    let cls: Option<Cs> = match n {
      "ASCII_DIGIT" => Some(vec![('0', '9')]), "ASCII_NONZERO_DIGIT" => Some(vec![('1', '9')]), "ASCII_BIN_DIGIT" => Some(vec![('0', '1')]), "ASCII_OCT_DIGIT" => Some(vec![('0', '7')]),
      "ASCII_HEX_DIGIT" => Some(vec![('0', '9'), ('a', 'f'), ('A', 'F')]), "ASCII_ALPHA_LOWER" => Some(vec![('a', 'z')]), "ASCII_ALPHA_UPPER" => Some(vec![('A', 'Z')]),
      "ASCII_ALPHA" => Some(vec![('a', 'z'), ('A', 'Z')]), "ASCII_ALPHANUMERIC" => Some(vec![('a', 'z'), ('A', 'Z'), ('0', '9')]), "ASCII" => Some(vec![('\0', '\x7f')]),
      _ => None,
    };
    if !self.g.rules.contains_key(n) {
      if let Some(c) = cls { return Ok(self.charset(c)); }
      return Ok(match n {
        "ANY" => self.leaf("ANY".into(), "one(p, p < s.len())".into(), none()),
        "NEWLINE" => self.leaf("NEWLINE".into(), "newline(s, p)".into(), Fx { exact: Some(vec![('\n', '\n'), ('\r', '\r')]), lx: Some(Lx { first: vec![('\n', '\n'), ('\r', '\r')], rest: vec![('\n', '\n')], lens: [1, 2].into(), open: false }), ..none() }),
        "SOI" => self.leaf("SOI".into(), "if p == 0 { yes(p) } else { no() }".into(), Fx { lx: Some(eps_lx()), ..none() }),
        "EOI" => {
          if m == M::A { return Err("EOI in an atomic rule".into()); }
          if let Some(x) = self.seen.get("EOI") { return Ok(x.clone()); }
          let fx0 = none();
          let fx = Fx { shape: Some(vec![vec![El { set: ["EOI".to_string()].into(), star: false }]]), ..none() };
          let old = std::mem::replace(&mut self.cur, "m_EOI".into());
          self.w("EOI", &fx0);
          self.emit("m_EOI", "tok(s, p, Rule::EOI, if p == s.len() { yes(p) } else { no() })", &fx, "good_yes(s, p); good_tok(s, p, Rule::EOI, if p == s.len() { yes(p) } else { no() }); if p == s.len() { in_EOI(m_EOI(s, p).ns[0]); }", false);
          self.cur = old;
          let x = X { f: "m_EOI".into(), fx }; self.seen.insert("EOI".into(), x.clone()); x
        }
        _ => return Err(format!("built-in rule {n}")),
      });
    }
    self.rule(n, m)
  }
  /// the function of a rule when called in mode `m`
  fn rule(&mut self, n: &str, m: M) -> Res<X> {
    let (ty, e) = self.g.rules.get(n).unwrap().clone();
    let special = n == "WHITESPACE" || n == "COMMENT";
    // the mode of the body, and whether a pair is kept
    let (body, pair, pre) = match ty {
      RuleType::Silent => (if special { M::A } else { m }, false, if special { "m_" } else { match m { M::N => "m_", M::C => "mc_", M::A => "ma_" } }),
      RuleType::Normal if special => return Err(format!("{n} is not silent")),
      RuleType::Normal => (m, m != M::A, match m { M::N => "m_", M::C => "mc_", M::A => "ma_" }),
      RuleType::Atomic => (M::A, m != M::A, if m == M::A { "ma_" } else { "m_" }),
      RuleType::CompoundAtomic => (M::C, true, "m_"),
      RuleType::NonAtomic => (M::N, true, "m_"),
    };
    let f = format!("{pre}{n}");
    if let Some(x) = self.seen.get(&format!("rule {f}")) { return Ok(x.clone()); }
    if self.stack.contains(&f) { return Err(format!("{n} is recursive")); }
    self.stack.push(f.clone());
    let old = std::mem::replace(&mut self.cur, f.clone());
    let q0 = self.quoted.len();
    let e = desugar(&e);
    let b = self.expr(&e, body)?;
    let items = self.quoted[q0..].iter().rev().find(|x| x.0 == f).map(|x| x.1.clone());
    self.cur = old;
    self.stack.pop();
    let x = if !pair { let x = X { f: f.clone(), fx: b.fx.clone() }; self.emit(&f, &format!("{}(s, p)", b.f), &b.fx, &format!("l_{}(s, p);", b.f), false); x } else {
      let fx = Fx { shape: Some(vec![vec![El { set: [n.to_string()].into(), star: false }]]), whole: true, ..none() };
      self.w(n, &b.fx);
      let mut pf = format!("l_{}(s, p); let b = {}(s, p); good_tok(s, p, Rule::{n}, b); if b.ok {{ let n = tok(s, p, Rule::{n}, b).ns[0];", b.f, b.f);
      // the text of the pair
      if let Some(v) = &b.fx.strs { if ty == RuleType::Atomic { for t in v { pf += &format!(" reveal_strlit({t:?}); assert(b.at == p + {} && {} ==> n.text =~= {t:?}@);", t.chars().count(), t.chars().enumerate().map(|(i, c)| format!("s[p + {i}] == {c:?}")).chain(["true".to_string()]).collect::<Vec<_>>().join(" && ")); } } }
      if b.fx.dec { pf += " assert(is_decimal(n.text)) by { let k = choose|k: int| p < k < b.at && #[trigger] s[k] == '.' && (forall|i: int| p <= i < k ==> '0' <= #[trigger] s[i] <= '9') && (forall|i: int| k < i < b.at ==> '0' <= #[trigger] s[i] <= '9'); let t = n.text; assert(t[k - p] == '.'); let u = t.subrange(0, k - p); assert forall|i: int| 0 <= i < u.len() implies '0' <= #[trigger] u[i] <= '9' by { assert(u[i] == s[p + i]); } let w = t.subrange(k - p + 1, t.len() as int); assert forall|i: int| 0 <= i < w.len() implies '0' <= #[trigger] w[i] <= '9' by { assert(w[i] == s[k + 1 + i]); } }"; }
      if let (RuleType::Atomic, Some(w)) = (ty, &b.fx.allnot) { if w.chars().count() > 1 {
        pf += &format!(" reveal_strlit({w:?}); assert(free_of(n.text, {w:?}@)) by {{ let w = {w:?}@; assert forall|i: int| 0 <= i && i + w.len() <= n.text.len() implies #[trigger] n.text.subrange(i, i + w.len()) != w by {{ let u = n.text.subrange(i, i + w.len()); assert(s[p + i] == u[0]); {} }} }}",
          (0..w.chars().count()).map(|k| format!("assert(s[p + i + {k}] == u[{k}]); ")).collect::<String>());
      } }
      if let (RuleType::CompoundAtomic, Some(v)) = (ty, &items) {
        let mut fl = vec![]; flat(&e, &mut fl);
        if v.len() == 4 && fl.len() == 4 {
          if let (Expr::Str(o), Expr::Rep(w), Expr::Ident(k), Expr::Str(c)) = (fl[0], fl[1], fl[2], fl[3]) {
            if matches!(&**w, Expr::Ident(n) if n == "WHITESPACE") && self.g.rules.contains_key(k) {
              pf += &format!(" l_{a}(s, p); let a0 = {a}(s, p).at; l_{w}(s, a0); let a1 = {w}(s, a0).at; l_{k}(s, a1); let a2 = {k}(s, a1).at; l_{c}(s, a2); reveal_strlit({o:?}); reveal_strlit({cl:?}); let ws = s.subrange(a0, a1); assert(is_blank(ws)); assert(n.kids =~= {k}(s, a1).ns); assert(n.kids[0].text == s.subrange(a1, a2)); assert(n.text =~= {o:?}@ + ws + n.kids[0].text + {cl:?}@); lemma_quoted(n, {o:?}@, ws, {cl:?}@); {asr}", a = v[0].f, w = v[1].f, k = v[2].f, c = v[3].f, o = o, cl = c, asr = o.chars().enumerate().map(|(i, ch)| format!("assert({o:?}@[{i}] == {ch:?}); ")).chain(c.chars().enumerate().map(|(i, ch)| format!("assert({c:?}@[{i}] == {ch:?}); "))).collect::<String>());
            }
          }
        }
      }
      pf += &format!(" in_{n}(n); }}");
      self.lemmas += 1;
      let md = format!("g_{f}");
      self.exec += &exec_fn(&f, "Mt", &format!("tok(s, p, Rule::{n}, {}(s, p))", b.f));
      self.put(&md, &format!("/// {n}: what pest yields for it{}\npub closed spec fn {f}(s: Seq<char>, p: int) -> Mt {{ tok(s, p, Rule::{n}, {}(s, p)) }}\n", match m { M::C => " without skipping", _ => "" }, b.f));
      self.put(&md, &format!("pub proof fn l_{f}(s: Seq<char>, p: int) requires fits(s), 0 <= p <= s.len() {} {{ {pf} }}\n",
        ensures(&f, &fx).trim_end_matches(") })").to_string() + "\n    && m.ns[0].src == s && node_ok(m.ns[0])) })"));
      X { f: f.clone(), fx }
    };
    self.seen.insert(format!("rule {f}"), x.clone());
    let _ = &self.rules;
    Ok(x)
  }
}

/// the definition of a grammar function as a function that runs: only what the two languages write differently is changed
fn exec_fn(f: &str, ty: &str, body: &str) -> String {
  let b = body.replace("p < a.at <= s.len()", "p < a.at && a.at <= s.len()");
  let mut o = String::new(); let mut i = 0; let c: Vec<char> = b.chars().collect();
  let word = |k: usize, w: &str| c[k..].iter().take(w.len()).collect::<String>() == w && (k == 0 || !(c[k - 1].is_alphanumeric() || c[k - 1] == '_'));
  while i < c.len() {
    // a character literal
    if c[i] == '\'' {
      let mut j = i + 1; if c[j] == '\\' { j += 2; while c[j] != '\'' { j += 1; } } else { j += 1; }
      o.extend(&c[i..=j]); i = j + 1;
      // 'a' <= x <= 'z'
      if c[i..].iter().take(4).collect::<String>() == " <= " {
        let x: String = c[i + 4..].iter().take_while(|c| **c != ']').collect::<String>() + "]";
        if c[i + 4 + x.chars().count()..].iter().take(4).collect::<String>() == " <= " { o += &format!(" <= {x} && {x}"); i += 4 + x.chars().count(); }
      }
      continue;
    }
    let m = ["then(", "or(", "opt(", "not(", "peek("].iter().find(|w| word(i, w));
    if let Some(w) = m { o += &w.replace('(', "!("); i += w.len(); continue; }
    o.push(c[i]); i += 1;
  }
  format!("pub fn {f}(s: &Text, p: usize) -> {ty} {{ {o} }}\n")
}
fn wf_mods(p: &mut P, sh: &ShapeOut) {
  for (n, body) in &sh.specs { p.put(&format!("wf__{n}"), &format!("/// shape of a pair of the rule {n}\npub closed spec fn wf_{n}(n: Node) -> bool {{ {body} }}\npub broadcast proof fn unf_{n}(n: Node) requires #[trigger] wf_{n}(n) ensures {body} {{}}\n")); }
}
pub fn run(gram: &str, sh: &ShapeOut, off: bool) -> PegOut {
  let mut out = PegOut { text: String::new(), error: None, mods: vec![], lemmas: 0, rules: 0, exec: String::new() };
  let rules: Vec<Rule> = match pest_meta::parser::parse(pest_meta::parser::Rule::grammar_rules, gram).ok().and_then(|p| pest_meta::parser::consume_rules(p).ok()) { Some(r) => r, None => { out.error = Some("grammar not read".into()); vec![] } };
  let rules = inlined(rules);
  let g = G { rules: rules.iter().map(|r| (r.name.clone(), (r.ty, r.expr.clone()))).collect(), depth: 0 };
  let mut p = P { g: &g, text: &sh.text, mods: vec![], seen: HashMap::new(), rules: BTreeMap::new(), n: 0, lemmas: 0, cur: String::new(), stack: vec![], quoted: vec![], known: HashMap::new(), exec: String::new() };
  wf_mods(&mut p, sh);
  let res = (|| -> Res<()> {
    if off { return Err("switched off".into()); }
    if out.error.is_some() { return Ok(()); }
    let (ws, co) = (g.rules.contains_key("WHITESPACE"), g.rules.contains_key("COMMENT"));
    p.cur = "skip".into();
    let w = if ws { Some(p.expr(&Expr::Rep(Box::new(Expr::Ident("WHITESPACE".into()))), M::A)?) } else { None };
    let c = if co {
      let c = Expr::Ident("COMMENT".into());
      Some(p.expr(&Expr::Rep(Box::new(if ws { Expr::Seq(Box::new(c), Box::new(Expr::Rep(Box::new(Expr::Ident("WHITESPACE".into()))))) } else { c })), M::A)?)
    } else { None };
    let (mut b, mut l) = ("p".to_string(), String::new());
    for x in [w, c].iter().flatten() { l += &format!("l_{}(s, {b}); ", x.f); b = format!("{}(s, {b}).at", x.f); }
    p.exec += &exec_fn("skip", "usize", &b);
    p.put("g_skip", &format!("/// position after the blanks and comments at p\npub closed spec fn skip(s: Seq<char>, p: int) -> int {{ {b} }}\npub proof fn l_skip(s: Seq<char>, p: int) requires fits(s), 0 <= p <= s.len() ensures p <= skip(s, p) <= s.len() {{ {l} }}\n"));
    if !g.rules.contains_key("schema") { return Err("no rule schema".into()); }
    p.rule("schema", M::N)?;
    Ok(())
  })();
  if let Err(e) = res { out.error = Some(e); }
  if out.error.is_none() { out.exec = std::mem::take(&mut p.exec); }
  out.lemmas = p.lemmas; out.rules = p.seen.keys().filter(|k| k.starts_with("rule ")).count();
  let proof = if out.error.is_none() { "if m_schema(src, 0).ok && fits(src) { l_m_schema(src, 0); }" } else { p.mods.clear(); wf_mods(&mut p, sh); p.put("g_none", "pub uninterp spec fn m_schema(s: Seq<char>, p: int) -> Mt;\n"); "admit();" };
  p.put("gram", &format!("/// the grammar accepts the text\npub closed spec fn grammar_accepts(r: Rule, src: Seq<char>) -> bool {{ fits(src) && if r == Rule::schema {{ m_schema(src, 0).ok }} else {{ other_accepts(r, src) }} }}\n/// the tree it yields\npub closed spec fn grammar_tree(r: Rule, src: Seq<char>) -> Node {{ if r == Rule::schema {{ m_schema(src, 0).ns[0] }} else {{ other_tree(r, src) }} }}\nuninterp spec fn other_accepts(r: Rule, src: Seq<char>) -> bool;\nuninterp spec fn other_tree(r: Rule, src: Seq<char>) -> Node;\npub broadcast proof fn ax_tree(src: Seq<char>)\n  requires #[trigger] grammar_accepts(Rule::schema, src)\n  ensures node_ok(grammar_tree(Rule::schema, src)), grammar_tree(Rule::schema, src).src == src, wf_schema(grammar_tree(Rule::schema, src)) {{ {proof} }}\n"));
  for (m, t) in &p.mods { out.text += &format!("pub mod {m} {{ use super::*; use super::peg::*; verus! {{\n{t}}} // verus!\n}}\npub use {m}::*;\n"); }
  out.mods = p.mods.iter().map(|x| x.0.clone()).collect();
  out
}
