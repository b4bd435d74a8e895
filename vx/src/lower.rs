//! Lowering of the Rust subset used by the crate to the subset Verus accepts.
//! Every rewriting is a local, semantics-preserving one (see DESIGN.md, "What the extraction does").
use crate::tys::*;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit::Visit;
use syn::*;

pub type R<T> = std::result::Result<T, String>;

#[derive(Clone, Debug, Default)]
pub struct LoopInfo {
  pub key: String,
  pub label: String,
  pub auto: Vec<String>,
  pub decreases: String,
  pub line: usize,
  pub refs: HashMap<String, usize>,
}

#[derive(Clone)]
struct Var { ty: Ty, id: usize }

#[derive(Clone)]
struct Clo { c: ExprClosure, free: Vec<(String, usize)>, it: Option<Expr> }

pub struct Lower<'a> {
  pub items: &'a Items,
  pub fname: String,
  pub self_ty: Option<String>,
  pub ret: Ty,
  scopes: Vec<HashMap<String, Var>>,
  outers: Vec<HashMap<String, usize>>,
  pub hints: HashMap<String, HashMap<String, usize>>,
  closures: Vec<HashMap<String, Clo>>,
  pub loops: Vec<LoopInfo>,
  labels: HashMap<String, usize>,
  n: usize,
  ids: usize,
  let_name: Option<String>,
  pub spec_fns: &'a HashMap<String, (String, Ty)>,
  pub inline_fns: &'a BTreeMap<String, InlineFn>,
  inline_stack: Vec<String>,
  /// functions without a contract whose bodies were put in place of their calls
  pub inlined: std::collections::BTreeSet<String>,
  call_mode: Mode,
  was_tried: bool,
  no_try: usize,
  last_label: String,
  /// source text a label is made for, every label in order with its text, and names taken from the contracts' labels
  cur_sig: String,
  pub sigs: Vec<(String, String)>,
  pub over: HashMap<(String, usize), String>,
}

/// a function without a contract: callers are verified with its body in place of the call
pub struct InlineFn { pub sig: Signature, pub block: Block, pub self_ty: Option<String>, pub ret_type: Option<Type>, pub params: Vec<(Pat, Option<Type>, Ty)> }

pub struct Src { expr: Expr, elem: Ty, by_ref: bool, pre: Option<(Ident, Expr)> }
pub enum Ad { Map(Expr), Filter(Expr), FilterMap(Expr), Cloned, Zip(Expr), Enumerate, Copied }

fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }

fn unparen(e: &Expr) -> &Expr { match e { Expr::Paren(p) => unparen(&p.expr), Expr::Group(g) => unparen(&g.expr), e => e } }

fn is_place(e: &Expr) -> bool {
  match unparen(e) {
    Expr::Path(_) => true,
    Expr::Field(f) => is_place(&f.base),
    Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
    Expr::Index(_) => true,
    _ => false,
  }
}

pub fn merge(a: Ty, b: Ty) -> Ty {
  match (a, b) {
    (Ty::Unk, b) => b,
    (a, Ty::Unk) => a,
    (Ty::Ref(a), Ty::Ref(b)) => merge(*a, *b).r(),
    (Ty::Tuple(a), Ty::Tuple(b)) if a.len() == b.len() => Ty::Tuple(a.into_iter().zip(b).map(|(x, y)| merge(x, y)).collect()),
    (Ty::Named(n, a), Ty::Named(m, b)) if n == m && a.len() == b.len() => Ty::Named(n, a.into_iter().zip(b).map(|(x, y)| merge(x, y)).collect()),
    (a, _) => a,
  }
}

struct Finder { ret: bool, tr: bool, brk: bool }
impl<'x> Visit<'x> for Finder {
  fn visit_expr_return(&mut self, _: &'x ExprReturn) { self.ret = true; }
  fn visit_expr_try(&mut self, e: &'x ExprTry) { self.tr = true; visit::visit_expr_try(self, e) }
  fn visit_expr_closure(&mut self, _: &'x ExprClosure) {}
  fn visit_expr_break(&mut self, _: &'x ExprBreak) { self.brk = true; }
}
fn has_return(e: &Expr) -> bool { let mut f = Finder { ret: false, tr: false, brk: false }; f.visit_expr(e); f.ret }
fn has_try(e: &Expr) -> bool { let mut f = Finder { ret: false, tr: false, brk: false }; f.visit_expr(e); f.tr }

struct Idents(HashSet<String>);
impl<'x> Visit<'x> for Idents {
  fn visit_path(&mut self, p: &'x Path) {
    if p.segments.len() == 1 { self.0.insert(p.segments[0].ident.to_string()); }
    visit::visit_path(self, p)
  }
  fn visit_macro(&mut self, m: &'x Macro) {
    for t in m.tokens.clone() { if let proc_macro2::TokenTree::Ident(i) = t { self.0.insert(i.to_string()); } }
  }
}

pub fn pat_names(p: &Pat) -> Vec<String> {
  struct V(Vec<String>);
  impl<'x> Visit<'x> for V { fn visit_pat_ident(&mut self, p: &'x PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
  let mut v = V(vec![]);
  v.visit_pat(p);
  v.0
}

pub fn idents_of(e: &Expr) -> HashSet<String> { let mut i = Idents(HashSet::new()); i.visit_expr(e); i.0 }
struct PatNames<'v>(&'v mut Vec<String>);
impl<'x, 'v> Visit<'x> for PatNames<'v> { fn visit_pat_ident(&mut self, p: &'x PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
pub fn all_pat_names(s: &[Stmt], out: &mut Vec<String>) { let mut v = PatNames(out); for x in s { v.visit_stmt(x); } }

impl<'a> Lower<'a> {
  pub fn new(items: &'a Items, fname: &str, self_ty: Option<String>, ret: Ty, spec_fns: &'a HashMap<String, (String, Ty)>, inline_fns: &'a BTreeMap<String, InlineFn>) -> Self {
    Lower { items, fname: fname.into(), self_ty, ret, scopes: vec![HashMap::new()], outers: vec![], hints: HashMap::new(), closures: vec![HashMap::new()], loops: vec![], labels: HashMap::new(), n: 0, ids: 0, let_name: None, spec_fns, inline_fns, inline_stack: vec![], inlined: Default::default(), call_mode: Mode::Plain, was_tried: false, no_try: 0, last_label: String::new(), cur_sig: String::new(), sigs: vec![], over: HashMap::new() }
  }
  fn fresh(&mut self) -> usize { self.n += 1; self.n }
  fn push(&mut self) { self.scopes.push(HashMap::new()); self.closures.push(HashMap::new()); }
  fn pop(&mut self) { self.scopes.pop(); self.closures.pop(); }
  pub fn bind(&mut self, n: &str, ty: Ty) {
    self.ids += 1;
    let id = self.ids;
    self.scopes.last_mut().unwrap().insert(n.into(), Var { ty, id });
    self.closures.last_mut().unwrap().remove(n);
  }
  pub fn var_ty(&self, n: &str) -> Option<Ty> { self.lookup(n).map(|v| v.ty.clone()) }
  fn lookup(&self, n: &str) -> Option<&Var> { self.scopes.iter().rev().find_map(|s| s.get(n)) }
  fn lookup_clo(&self, n: &str) -> Option<Clo> {
    for (s, c) in self.scopes.iter().rev().zip(self.closures.iter().rev()) {
      if let Some(c) = c.get(n) { return Some(c.clone()); }
      if s.contains_key(n) { return None; }
    }
    None
  }
  /// a closure of the function being lowered, unless what it captures is shadowed here
  pub fn local_closure(&self, n: &str) -> Option<ExprClosure> {
    let c = self.lookup_clo(n)?;
    if c.it.is_some() || c.free.iter().any(|(n, i)| self.lookup(n).map(|v| v.id) != Some(*i)) { return None; }
    Some(c.c)
  }
  /// how many references lie around each variable in sight whose type is known
  fn ref_counts(&self) -> HashMap<String, usize> {
    let mut m = self.outers.last().cloned().unwrap_or_default();
    for s in &self.scopes { for (n, v) in s { if v.ty.is_unk() { m.remove(n); } else { m.insert(n.clone(), v.ty.refs()); } } }
    m
  }
  fn hint(&mut self, k: String) -> Stmt { let r = self.ref_counts(); self.hints.insert(k.clone(), r); parse_quote!(vx_hint!(#k);) }
  fn ty(&self, t: &Type) -> Ty { self.items.ty(t, self.self_ty.as_deref()) }

  fn label(&mut self, base: &str) -> String {
    let k = self.labels.entry(base.to_string()).or_insert(0);
    *k += 1;
    let k = *k;
    let sig = self.cur_sig.clone();
    self.sigs.push((base.to_string(), sig));
    if let Some(l) = self.over.get(&(base.to_string(), k)) { return l.clone(); }
    if k == 1 { base.to_string() } else { format!("{}_{}", base, k) }
  }

  // ---------- patterns
  pub fn bind_pat(&mut self, p: &Pat, ty: &Ty) {
    match p {
      Pat::Ident(i) => {
        let n = i.ident.to_string();
        if n == "None" { return; }
        let t = if i.by_ref.is_some() { ty.clone().r() } else { ty.clone() };
        self.bind(&n, t);
        if let Some((_, s)) = &i.subpat { self.bind_pat(s, ty); }
      }
      Pat::Type(t) => { let tt = self.ty(&t.ty); let tt = if tt.is_unk() || tt.name() == "_" { ty.clone() } else { tt }; self.bind_pat(&t.pat, &tt) }
      Pat::Paren(t) => self.bind_pat(&t.pat, ty),
      Pat::Reference(r) => { let t = match ty { Ty::Ref(t) => (**t).clone(), t => t.clone() }; self.bind_pat(&r.pat, &t) }
      Pat::Tuple(t) => {
        let wrap = ty.refs() > 0;
        for (i, e) in t.elems.iter().enumerate() {
          let et = ty.arg(i);
          let et = if wrap && et.refs() == 0 || wrap { et.r() } else { et };
          self.bind_pat(e, &et);
        }
      }
      Pat::TupleStruct(t) => {
        let wrap = ty.refs() > 0;
        let last = t.path.segments.last().unwrap().ident.to_string();
        for (i, e) in t.elems.iter().enumerate() {
          let et = match last.as_str() {
            "Some" | "Ok" if t.path.segments.len() == 1 => ty.arg(0),
            "Err" if t.path.segments.len() == 1 => ty.arg(1),
            v => {
              let en = self.enum_of(&t.path, ty);
              self.items.enums.get(&en).and_then(|vs| vs.iter().find(|x| x.name == v)).and_then(|x| x.kinds.get(i)).map(|x| x.1.clone()).unwrap_or(Ty::Unk)
            }
          };
          let et = if wrap { et.r() } else { et };
          self.bind_pat(e, &et);
        }
      }
      Pat::Struct(s) => {
        let wrap = ty.refs() > 0;
        for f in &s.fields {
          let m = match &f.member { Member::Named(n) => n.to_string().trim_start_matches("r#").to_string(), Member::Unnamed(i) => i.index.to_string() };
          let last = s.path.segments.last().unwrap().ident.to_string();
          let mut ft = self.items.field(&Ty::n(&last), &m);
          if ft.is_unk() {
            let en = self.enum_of(&s.path, ty);
            if let Some(v) = self.items.enums.get(&en).and_then(|vs| vs.iter().find(|x| x.name == last)) {
              if let Some(k) = v.kinds.iter().find(|k| k.0.as_deref() == Some(&m)) { ft = k.1.clone(); }
            }
          }
          let ft = if wrap { ft.r() } else { ft };
          self.bind_pat(&f.pat, &ft);
        }
      }
      Pat::Or(o) => { for c in &o.cases { self.bind_pat(c, ty); } }
      _ => {}
    }
  }
  fn enum_of(&self, p: &Path, ty: &Ty) -> String {
    if p.segments.len() >= 2 {
      let n = p.segments[p.segments.len() - 2].ident.to_string();
      if n == "Self" { return self.self_ty.clone().unwrap_or_default(); }
      if n == "Err" { return "AErr".into(); }
      return n;
    }
    ty.name()
  }
  fn low_pat(&mut self, p: &Pat) -> R<Pat> {
    use syn::visit_mut::VisitMut;
    struct V { self_ty: Option<String> }
    impl VisitMut for V {
      fn visit_path_mut(&mut self, p: &mut Path) { fix_path(p, &self.self_ty) }
    }
    let mut q = p.clone();
    V { self_ty: self.self_ty.clone() }.visit_pat_mut(&mut q);
    Ok(q)
  }

  // ---------- reference helpers
  /// expression of type `&T` (T without references) from an expression of type `ty`
  fn as_ref1(&self, e: Expr, ty: &Ty) -> Expr {
    match ty.refs() {
      0 => { let e = wrap_p(e); parse_quote!(& #e) }
      1 => e,
      n => { let mut x = wrap_p(e); for _ in 1..n { x = parse_quote!((* #x)); } x }
    }
  }
  /// expression denoting the value of type T behind all references
  fn as_val(&self, e: Expr, ty: &Ty) -> Expr {
    let mut x = e;
    for _ in 0..ty.refs() { let y = wrap_p(x); x = parse_quote!((* #y)); }
    x
  }
  /// expression of type String from a value of the given type
  fn to_string(&mut self, e: Expr, ty: &Ty) -> R<Expr> {
    let r = self.as_ref1(e, ty);
    let n = ty.name();
    let e = r.clone();
    Ok(match n.as_str() {
      "String" | "str" => parse_quote!(vx_to_string(#r)),
      "bool" => parse_quote!(vx_bool_string(* #r)),
      "i64" => parse_quote!(vx_i64_string(* #r)),
      "f64" => parse_quote!(vx_f64_string(* #r)),
      "usize" => parse_quote!(vx_usize_string(* #r)),
      "u32" => parse_quote!(vx_u32_string(* #r)),
      "VxParseErr" => parse_quote!(vx_parse_err_string(#r)),
      n if self.items.fns.contains_key(&format!("{}::to_string", n)) => { let i = id(n); parse_quote!(#i::to_string(#r)) }
      n => return Err(format!("to_string/format of type `{}`: {}", n, e.to_token_stream())),
    })
  }

  // ---------- blocks
  pub fn block(&mut self, b: &Block, expect: &Ty, tail_fn: bool) -> R<(Block, Ty)> {
    self.push();
    let r = self.block_inner(b, expect, tail_fn);
    self.pop();
    r
  }
  /// marker for proof hints around a call made as a statement
  fn call_mark(&mut self, e: &Expr) -> Option<String> {
    let mut call = unparen(e);
    while let Expr::Try(t) = call { call = unparen(&t.expr); }
    let n = match call { Expr::MethodCall(m) => m.method.to_string(), Expr::Call(c) => match &*c.func { Expr::Path(p) => p.path.segments.last()?.ident.to_string(), _ => return None }, _ => return None };
    let n = self.items.renames.get(&n).cloned().unwrap_or(n);
    if n == "throw_err" || !self.items.fns.keys().any(|k| *k == n || k.ends_with(&format!("::{}", n))) { return None; }
    self.cur_sig = e.to_token_stream().to_string();
    let l = self.label(&format!("call_{}", n));
    Some(format!("{}/{}", self.fname, l))
  }
  fn block_inner(&mut self, b: &Block, expect: &Ty, tail_fn: bool) -> R<(Block, Ty)> {
    let mut out: Vec<Stmt> = vec![];
    let mut ty = Ty::Tuple(vec![]);
    let n = b.stmts.len();
    for (i, s) in b.stmts.iter().enumerate() {
      let last = i + 1 == n;
      match s {
        Stmt::Local(l) => {
          let at = l.init.as_ref().and_then(|i| self.call_mark(&i.expr));
          if let Some(k) = &at { let h = self.hint(format!("{}:before", k)); out.push(h); }
          self.local(l, &mut out)?;
          if let Some(k) = &at { let h = self.hint(format!("{}:after", k)); out.push(h); }
        }
        Stmt::Expr(Expr::Verbatim(v), Some(_)) if v.is_empty() => { if last { ty = Ty::Tuple(vec![]); } }
        Stmt::Expr(e, semi) => {
          if last && semi.is_none() {
            let (x, t) = self.expr(e, expect, tail_fn)?;
            ty = t;
            out.push(Stmt::Expr(x, None));
          } else {
            let diverges = matches!(unparen(e), Expr::Return(_) | Expr::Break(_) | Expr::Continue(_));
            let at = self.call_mark(e);
            if let Some(k) = &at { let h = self.hint(format!("{}:before", k)); out.push(h); }
            let (x, _) = self.expr(e, &Ty::Unk, false)?;
            if diverges && last { ty = Ty::Unk; }
            if is_unit_block(&x) && semi.is_none() { out.push(Stmt::Expr(x, None)); }
            else { out.push(Stmt::Expr(x, Some(Default::default()))); }
            if let Some(k) = &at { let h = self.hint(format!("{}:after", k)); out.push(h); }
          }
        }
        Stmt::Macro(m) => {
          let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
          let (x, t) = self.expr(&e, expect, false)?;
          let never = m.mac.path.is_ident("unreachable") || m.mac.path.is_ident("panic") || m.mac.path.is_ident("unimplemented") || m.mac.path.is_ident("todo");
          if last && (m.semi_token.is_none() || never) { ty = t; out.push(Stmt::Expr(x, None)); } else { if last { ty = Ty::Unk; } out.push(Stmt::Expr(x, Some(Default::default()))); }
        }
        Stmt::Item(Item::Use(_)) => {}
        Stmt::Item(_) => return Err("nested item".into()),
      }
    }
    Ok((Block { brace_token: Default::default(), stmts: out }, ty))
  }
  fn local(&mut self, l: &Local, out: &mut Vec<Stmt>) -> R<()> {
    let (pat, ann) = match &l.pat {
      Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
      p => (p.clone(), None),
    };
    let mut expect = ann.as_ref().map(|t| self.ty(t)).unwrap_or(Ty::Unk);
    if let Some(init) = &l.init {
      if let Expr::Closure(c) = unparen(&init.expr) {
        if let Pat::Ident(i) = &pat {
          let mut f = Idents(HashSet::new());
          f.visit_expr(&c.body);
          let own: HashSet<String> = c.inputs.iter().flat_map(|p| pat_names(p)).collect();
          let free = f.0.into_iter().filter(|n| !own.contains(n)).filter_map(|n| self.lookup(&n).map(|v| (n.clone(), v.id))).collect();
          let name = i.ident.to_string();
          self.bind(&name, Ty::n("closure"));
          self.closures.last_mut().unwrap().insert(name, Clo { c: c.clone(), free, it: None });
          return Ok(());
        }
      }
      if is_lazy_iter(&init.expr) {
        if let Pat::Ident(i) = &pat {
          if i.mutability.is_some() { return Err("iterator stepped by hand".into()); }
          let e = unparen(&init.expr).clone();
          let mut f = Idents(HashSet::new());
          f.visit_expr(&e);
          let free = f.0.into_iter().filter_map(|n| self.lookup(&n).map(|v| (n.clone(), v.id))).collect();
          let name = i.ident.to_string();
          self.bind(&name, Ty::n("lazyiter"));
          self.closures.last_mut().unwrap().insert(name, Clo { c: parse_quote!(|| ()), free, it: Some(e) });
          return Ok(());
        }
      }
      let nm = pat_names(&pat);
      self.let_name = if nm.len() == 1 { Some(nm[0].clone()) } else { None };
      let (x, t) = self.expr(&init.expr, &expect, false)?;
      self.let_name = None;
      let has_hole = |t: &Ty| format!("{:?}", t).contains("\"_\"");
      if expect.is_unk() || has_hole(&expect) { expect = t; } else { expect = merge(expect, t); }
      let p = self.low_pat(&pat)?;
      let full: Pat = match ann { Some(t) if !has_infer(&t) => Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) }), _ => p };
      if let Some((_, els)) = &init.diverge {
        let (e, _) = self.expr(els, &Ty::Unk, false)?;
        out.push(Stmt::Local(Local { attrs: vec![], let_token: Default::default(), pat: full, init: Some(LocalInit { eq_token: Default::default(), expr: Box::new(x), diverge: Some((Default::default(), Box::new(e))) }), semi_token: Default::default() }));
      } else {
        out.push(parse_quote!(let #full = #x;));
      }
      self.bind_pat(&pat, &expect);
    } else {
      let p = &l.pat;
      out.push(parse_quote!(let #p;));
      self.bind_pat(&pat, &expect);
    }
    Ok(())
  }

  fn block_expr(&mut self, e: &Expr, expect: &Ty, tail: bool) -> R<(Block, Ty)> {
    match e {
      Expr::Block(b) if b.label.is_none() => self.block(&b.block, expect, tail),
      e => { let (x, t) = self.expr(e, expect, tail)?; Ok((parse_quote!({ #x }), t)) }
    }
  }

  // ---------- closures
  /// binds the arguments and lowers the body in place
  fn apply(&mut self, f: &Expr, args: Vec<(Expr, Ty)>, expect: &Ty) -> R<(Expr, Ty)> {
    match unparen(f) {
      Expr::Closure(c) => {
        if has_return(&c.body) { return Err("return inside a closure".into()); }
        if has_try(&c.body) { return Err("`?` inside a closure".into()); }
        self.no_try += 1;
        let r = self.apply_closure(c, args, expect);
        self.no_try -= 1;
        r
      }
      Expr::Path(p) => {
        let n = p.path.segments.last().unwrap().ident.to_string();
        if p.path.segments.len() == 1 {
          if let Some(c) = self.lookup_clo(&n) { let e = Expr::Closure(c.c); return self.apply(&e, args, expect); }
        }
        let tmp: Vec<Ident> = args.iter().map(|_| { let k = self.fresh(); format_ident!("vx_a{}", k) }).collect();
        self.push();
        for (t, (_, ty)) in tmp.iter().zip(&args) { self.bind(&t.to_string(), ty.clone()); }
        let call: Expr = parse_quote!(#p(#(#tmp),*));
        let r = self.expr(&call, expect, false);
        self.pop();
        let (x, t) = r?;
        let lets: Vec<Stmt> = tmp.iter().zip(args).map(|(i, (a, _))| parse_quote!(let #i = #a;)).collect();
        Ok((parse_quote!({ #(#lets)* #x }), t))
      }
      _ => Err("unsupported function argument".into()),
    }
  }
  fn apply_closure(&mut self, c: &ExprClosure, args: Vec<(Expr, Ty)>, expect: &Ty) -> R<(Expr, Ty)> {
    if c.inputs.len() != args.len() { return Err("closure arity".into()); }
    self.push();
    let r = (|| {
      let mut lets: Vec<Stmt> = vec![];
      let many = args.len() > 1;
      let mut args = args;
      // every argument is evaluated before any parameter is in scope
      if many { for a in args.iter_mut() { let v = format_ident!("vx_p{}", self.fresh()); let x = &a.0; lets.push(parse_quote!(let #v = #x;)); a.0 = parse_quote!(#v); } }
      for (p, (a, t)) in c.inputs.iter().zip(args) {
        self.bind_pat(p, &t);
        let (mut p, mut a) = (p.clone(), a);
        while let Pat::Reference(r) = &p { let b = wrap_p(a); a = parse_quote!(* #b); p = (*r.pat).clone(); }
        let p = self.low_pat(&p)?;
        if let Pat::Wild(_) = p { lets.push(parse_quote!(let _ = #a;)); } else { lets.push(parse_quote!(let #p = #a;)); }
      }
      let exp = match &c.output { ReturnType::Type(_, t) => self.ty(t), _ => expect.clone() };
      let (x, t) = self.expr(&c.body, &exp, false)?;
      let t = if t.is_unk() && !exp.is_unk() { exp } else { t };
      Ok::<_, String>((parse_quote!({ #(#lets)* #x }), t))
    })();
    self.pop();
    r
  }
  fn some_arm(&mut self, f: &Expr, ty: &Ty, expect: &Ty) -> R<(Ident, Expr, Ty)> {
    let k = self.fresh();
    let v = format_ident!("vx_o{}", k);
    let (b, t) = self.apply(f, vec![(parse_quote!(#v), ty.clone())], expect)?;
    Ok((v, b, t))
  }

  // ---------- expressions
  pub fn expr(&mut self, e: &Expr, expect: &Ty, tail: bool) -> R<(Expr, Ty)> {
    match e {
      Expr::Paren(p) => { let (x, t) = self.expr(&p.expr, expect, tail)?; Ok((wrap_p(x), t)) }
      Expr::Group(p) => self.expr(&p.expr, expect, tail),
      Expr::Lit(l) => {
        let t = match &l.lit { Lit::Str(_) => Ty::n("str").r(), Lit::Bool(_) => Ty::n("bool"), Lit::Char(_) => Ty::n("char"),
          Lit::Int(i) => if i.suffix().is_empty() { if expect.is_num() { expect.strip() } else { Ty::n("int") } } else { Ty::n(i.suffix()) },
          Lit::Float(_) => Ty::n("f64"), _ => Ty::Unk };
        Ok((e.clone(), t))
      }
      Expr::Path(p) => self.path(p, expect),
      Expr::Reference(r) => {
        let ex = match expect { Ty::Ref(t) => (**t).clone(), _ => Ty::Unk };
        let (x, t) = self.expr(&r.expr, &ex, false)?;
        let x = wrap_p(x);
        let m = &r.mutability;
        Ok((parse_quote!(& #m #x), t.r()))
      }
      Expr::Unary(u) => {
        let (x, t) = self.expr(&u.expr, &Ty::Unk, false)?;
        let x = wrap_p(x);
        match u.op {
          UnOp::Deref(_) => { let t = match t { Ty::Ref(t) => *t, t => t }; Ok((parse_quote!((* #x)), t)) }
          UnOp::Not(_) => { let v = self.as_val(x, &t); let v = wrap_p(v); Ok((parse_quote!(! #v), t.strip())) }
          UnOp::Neg(_) => Ok((parse_quote!(- #x), t)),
          _ => Err("unary operator".into()),
        }
      }
      Expr::Binary(b) => self.binary(b),
      Expr::Assign(a) => {
        let (l, lt) = self.expr(&a.left, &Ty::Unk, false)?;
        let (r, rt) = self.expr(&a.right, &lt, false)?;
        if lt.is_unk() { self.refine(&a.left, rt); }
        Ok((parse_quote!(#l = #r), Ty::Tuple(vec![])))
      }
      Expr::Field(f) => {
        let (x, t) = self.expr(&f.base, &Ty::Unk, false)?;
        let m = &f.member;
        let n = match m { Member::Named(n) => n.to_string().trim_start_matches("r#").to_string(), Member::Unnamed(i) => i.index.to_string() };
        let ft = self.items.field(&t, &n);
        let x = wrap_p(x);
        Ok((parse_quote!(#x.#m), ft))
      }
      Expr::Index(i) => {
        let (x, t) = self.expr(&i.expr, &Ty::Unk, false)?;
        let (k, _) = self.expr(&i.index, &Ty::n("usize"), false)?;
        let x = wrap_p(x);
        Ok((parse_quote!(#x[#k]), t.arg(0)))
      }
      Expr::Tuple(t) => {
        let mut xs: Vec<Expr> = vec![]; let mut ts = vec![];
        for (i, e) in t.elems.iter().enumerate() { let (x, t) = self.expr(e, &expect.arg(i), false)?; xs.push(x); ts.push(t); }
        let x: Expr = if xs.len() == 1 { parse_quote!((#(#xs),*,)) } else { parse_quote!((#(#xs),*)) };
        Ok((x, Ty::Tuple(ts)))
      }
      Expr::Array(t) => {
        let mut xs: Vec<Expr> = vec![]; let mut ty = Ty::Unk;
        for e in t.elems.iter() { let (x, t) = self.expr(e, &expect.arg(0), false)?; xs.push(x); ty = t; }
        Ok((parse_quote!([#(#xs),*]), Ty::Array(Box::new(ty))))
      }
      Expr::Struct(s) => self.struct_lit(s, expect),
      Expr::Block(b) => {
        if b.label.is_some() { return Err("labelled block".into()); }
        let (x, t) = self.block(&b.block, expect, tail)?;
        Ok((Expr::Block(ExprBlock { attrs: vec![], label: None, block: x }), t))
      }
      Expr::If(i) => {
        self.push();
        let r = (|| {
          let (c, _) = self.expr(&i.cond, &Ty::n("bool"), false)?;
          let (b, t) = self.block(&i.then_branch, expect, tail)?;
          Ok::<_, String>((c, b, t))
        })();
        self.pop();
        let (c, b, t) = r?;
        match &i.else_branch {
          None => Ok((parse_quote!(if #c #b), Ty::Tuple(vec![]))),
          Some((_, e)) => {
            let (x, t2) = self.expr(e, expect, tail)?;
            let x: Expr = match x { Expr::If(_) => x, Expr::Block(_) => x, x => parse_quote!({ #x }) };
            Ok((parse_quote!(if #c #b else #x), merge(t, t2)))
          }
        }
      }
      Expr::Let(l) => {
        let (x, t) = self.expr(&l.expr, &Ty::Unk, false)?;
        self.bind_pat(&l.pat, &t);
        let p = self.low_pat(&l.pat)?;
        Ok((parse_quote!(let #p = #x), Ty::n("bool")))
      }
      Expr::Match(m) => self.match_(m, expect, tail),
      Expr::ForLoop(f) => self.for_loop(f),
      Expr::While(w) => {
        if w.label.is_some() { return Err("loop label".into()); }
        self.push();
        let r = (|| { let c = self.expr(&w.cond, &Ty::n("bool"), false)?; let b = self.block(&w.body, &Ty::Tuple(vec![]), false)?; Ok::<_, String>((c, b)) })();
        self.pop();
        let ((c, _), (b, _)) = r?;
        self.cur_sig = w.to_token_stream().to_string();
        let label = self.label("while");
        let key = self.add_loop(&label, vec![], String::new(), w.while_token.span.start().line);
        let st = b.stmts;
        Ok((parse_quote!(while #c { vx_loop!(#key); #(#st)* }), Ty::Tuple(vec![])))
      }
      Expr::Loop(w) => {
        let (b, _) = self.block(&w.body, &Ty::Tuple(vec![]), false)?;
        self.cur_sig = w.to_token_stream().to_string();
        let label = self.label("loop");
        let key = self.add_loop(&label, vec![], String::new(), w.loop_token.span.start().line);
        let st = b.stmts;
        Ok((parse_quote!(loop { vx_loop!(#key); #(#st)* }), Ty::Unk))
      }
      Expr::Return(r) => {
        let ret = self.ret.clone();
        match &r.expr { None => Ok((e.clone(), Ty::Unk)), Some(x) => { let (x, _) = self.expr(x, &ret, true)?; Ok((parse_quote!(return #x), Ty::Unk)) } }
      }
      Expr::Break(b) => { if b.expr.is_some() || b.label.is_some() { return Err("break with value or label".into()); } Ok((e.clone(), Ty::Unk)) }
      Expr::Continue(b) => { if b.label.is_some() { return Err("labelled continue".into()); } Ok((e.clone(), Ty::Unk)) }
      Expr::Try(t) => self.try_(t, expect),
      Expr::Macro(m) => self.mac(&m.mac, expect),
      Expr::Cast(c) => {
        let (x, _) = self.expr(&c.expr, &Ty::Unk, false)?;
        let t = &c.ty;
        let x = wrap_p(x);
        Ok((parse_quote!((#x as #t)), self.ty(t)))
      }
      Expr::Range(r) => {
        match (&r.start, &r.end, &r.limits) {
          (Some(a), Some(b), RangeLimits::HalfOpen(_)) => {
            let (a, _) = self.expr(a, &Ty::n("usize"), false)?;
            let (b, _) = self.expr(b, &Ty::n("usize"), false)?;
            Ok((parse_quote!(vx_range(#a, #b)), Ty::n1("Range", Ty::n("usize"))))
          }
          _ => Err("range".into()),
        }
      }
      Expr::Call(c) => self.call(c, expect, tail),
      Expr::MethodCall(m) => self.method(m, expect, tail),
      Expr::Closure(_) => Err("closure value".into()),
      _ => Err(format!("expression `{}`", e.to_token_stream())),
    }
  }

  fn path(&mut self, p: &ExprPath, expect: &Ty) -> R<(Expr, Ty)> {
    let mut q = p.clone();
    fix_path(&mut q.path, &self.self_ty);
    if p.path.segments.len() == 1 {
      let n = p.path.segments[0].ident.to_string();
      if let Some(v) = self.lookup(&n) {
        if v.ty.is("closure") || v.ty.is("lazyiter") { return Err("closure or iterator used as a value".into()); }
        return Ok((Expr::Path(q), v.ty.clone()));
      }
      if n == "None" { return Ok((Expr::Path(q), expect.clone())); }
      if let Some(t) = self.items.consts.get(&n) { return Ok((Expr::Path(q), t.clone())); }
      return Ok((Expr::Path(q), Ty::Unk));
    }
    let en = self.enum_of(&p.path, &Ty::Unk);
    if en == "Rule" { return Ok((Expr::Path(q), Ty::n("Rule"))); }
    if self.items.enums.contains_key(&en) { return Ok((Expr::Path(q), Ty::n(&en))); }
    if ["i16", "i32", "i64", "u16", "u32", "u64", "usize"].contains(&en.as_str()) { return Ok((Expr::Path(q), Ty::n(&en))); }
    Ok((Expr::Path(q), Ty::Unk))
  }

  fn binary(&mut self, b: &ExprBinary) -> R<(Expr, Ty)> {
    let eq = matches!(b.op, BinOp::Eq(_));
    let ne = matches!(b.op, BinOp::Ne(_));
    let (mut l, lt) = self.expr(&b.left, &Ty::Unk, false)?;
    let (mut r, rt) = self.expr(&b.right, &lt, false)?;
    let op = &b.op;
    if eq || ne {
      if lt.is_num() || rt.is_num() {
        l = self.as_val(l, &lt); r = self.as_val(r, &rt);
        let (l, r) = (wrap_p(l), wrap_p(r));
        return Ok((parse_quote!(#l #op #r), Ty::n("bool")));
      }
      if lt.is_unk() && rt.is_unk() { return Err(format!("comparison of unknown types `{}`", b.to_token_stream())); }
      let l1 = self.as_ref1(l, if lt.is_unk() { &rt } else { &lt });
      let r1 = self.as_ref1(r, if rt.is_unk() { &lt } else { &rt });
      let f = if lt.is_stringy() && rt.is_stringy() { id("vx_eq_str") } else if lt.is("BTreeSet") { id("vx_eq_set") } else if lt.is_stringy() != rt.is_stringy() && !lt.is_unk() && !rt.is_unk() { return Err("comparison of a string with another type".into()) } else { id("vx_eq") };
      let x: Expr = parse_quote!(#f(#l1, #r1));
      return Ok((if ne { parse_quote!(! #x) } else { x }, Ty::n("bool")));
    }
    let cmp = matches!(b.op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_));
    let logic = matches!(b.op, BinOp::And(_) | BinOp::Or(_));
    l = self.as_val(l, &lt); r = self.as_val(r, &rt);
    let (l, r) = (wrap_p(l), wrap_p(r));
    let t = if cmp || logic { Ty::n("bool") } else { lt.strip() };
    Ok((parse_quote!(#l #op #r), t))
  }

  fn struct_lit(&mut self, s: &ExprStruct, expect: &Ty) -> R<(Expr, Ty)> {
    let mut path = s.path.clone();
    fix_path(&mut path, &self.self_ty);
    let last = path.segments.last().unwrap().ident.to_string();
    let (tname, is_enum) = if path.segments.len() >= 2 && self.items.enums.contains_key(&path.segments[path.segments.len() - 2].ident.to_string()) { (path.segments[path.segments.len() - 2].ident.to_string(), true) } else { (last.clone(), false) };
    let mut fs: Vec<TokenStream> = vec![];
    for f in &s.fields {
      let m = &f.member;
      let n = match m { Member::Named(n) => n.to_string().trim_start_matches("r#").to_string(), Member::Unnamed(i) => i.index.to_string() };
      let ft = if is_enum { self.items.enums[&tname].iter().find(|v| v.name == last).and_then(|v| v.kinds.iter().find(|k| k.0.as_deref() == Some(&n))).map(|k| k.1.clone()).unwrap_or(Ty::Unk) } else { self.items.field(&Ty::n(&tname), &n) };
      let (x, _) = self.expr(&f.expr, &ft, false)?;
      fs.push(quote!(#m: #x));
    }
    let t = if self.items.structs.contains_key(&tname) || is_enum { Ty::n(&tname) } else { expect.clone() };
    let rest: Option<Expr> = match &s.rest {
      None => None,
      Some(r) => {
        if let Expr::Call(c) = unparen(r) {
          let pp = c.func.to_token_stream().to_string().replace(' ', "");
          if pp.ends_with("::default") { let i = id(&tname); Some(parse_quote!(#i::vx_default())) } else { Some(self.expr(r, &t, false)?.0) }
        } else { Some(self.expr(r, &t, false)?.0) }
      }
    };
    let x: Expr = match rest { None => parse_quote!(#path { #(#fs),* }), Some(r) => parse_quote!(#path { #(#fs,)* ..#r }) };
    Ok((x, t))
  }

  fn match_(&mut self, m: &ExprMatch, expect: &Ty, tail: bool) -> R<(Expr, Ty)> {
    let str_match = m.arms.iter().any(|a| pat_is_str(&a.pat));
    let (s, st) = self.expr(&m.expr, &Ty::Unk, false)?;
    if str_match {
      let k = self.fresh();
      let v = format_ident!("vx_m{}", k);
      let r = self.as_ref1(s, &st);
      let mut out: Option<Expr> = None;
      let mut ty = Ty::Unk;
      let mut conds: Vec<(Option<Expr>, Vec<Stmt>, Expr)> = vec![];
      for a in &m.arms {
        self.push();
        let res = (|| {
          let mut pre: Vec<Stmt> = vec![];
          let mut lits = vec![];
          let mut wild = false;
          let mut pats = vec![&a.pat];
          if let Pat::Or(o) = &a.pat { pats = o.cases.iter().collect(); }
          for p in pats {
            match p {
              Pat::Lit(l) => lits.push(l.lit.clone()),
              Pat::Wild(_) => wild = true,
              Pat::Ident(i) => { wild = true; let n = &i.ident; pre.push(parse_quote!(let #n = #v;)); self.bind(&n.to_string(), Ty::n("str").r()); }
              _ => return Err("string match pattern".to_string()),
            }
          }
          let mut c: Option<Expr> = None;
          if !wild {
            for l in lits { let x: Expr = parse_quote!(vx_eq_str(#v, #l)); c = Some(match c { None => x, Some(y) => parse_quote!(#y || #x) }); }
          }
          if let Some((_, g)) = &a.guard {
            if !pre.is_empty() { return Err("guard on a binding string arm".to_string()); }
            let (g, _) = self.expr(g, &Ty::n("bool"), false)?; let g = wrap_p(g);
            c = Some(match c { None => g, Some(y) => parse_quote!((#y) && #g) });
          }
          let (b, t) = self.expr(&a.body, expect, tail)?;
          Ok((c, pre, b, t))
        })();
        self.pop();
        let (c, pre, b, t) = res?;
        ty = merge(ty, t);
        conds.push((c, pre, b));
      }
      for (c, pre, b) in conds.into_iter().rev() {
        out = Some(match (c, out) {
          (None, _) => parse_quote!({ #(#pre)* #b }),
          (Some(c), Some(o)) => { let o: Expr = match o { Expr::If(_) | Expr::Block(_) => o, o => parse_quote!({ #o }) }; parse_quote!(if #c { #(#pre)* #b } else #o) }
          (Some(_), None) => return Err("string match without a catch-all arm".into()),
        });
      }
      let o = out.unwrap();
      return Ok((parse_quote!({ let #v = #r; #o }), ty));
    }
    // guards whose lowering needs statements are turned into nested matches
    let mut arms: Vec<Arm> = vec![];
    let mut ty = Ty::Unk;
    let mut pre: Vec<Stmt> = vec![];
    let mut scrut = s;
    for a in &m.arms {
      self.push();
      let res = (|| {
        self.bind_pat(&a.pat, &st);
        let p = self.low_pat(&a.pat)?;
        let g = match &a.guard { Some((_, g)) => Some(self.expr(g, &Ty::n("bool"), false)?.0), None => None };
        let (b, t) = self.expr(&a.body, expect, tail)?;
        Ok::<_, String>((p, g, b, t))
      })();
      self.pop();
      let (p, g, b, t) = res?;
      ty = merge(ty, t);
      let (p, g) = if let Pat::Range(r) = &p {
        let v = format_ident!("vx_n{}", self.fresh());
        let mut c: Option<Expr> = None;
        if let Some(a) = &r.start { c = Some(parse_quote!(#v >= #a)); }
        if let Some(b) = &r.end { let x: Expr = if let RangeLimits::HalfOpen(_) = r.limits { parse_quote!(#v < #b) } else { parse_quote!(#v <= #b) }; c = Some(match c { None => x, Some(y) => parse_quote!(#y && #x) }); }
        let c = c.ok_or("range pattern")?;
        if st.refs() > 0 { return Err("range pattern on a reference".into()); }
        (parse_quote!(#v), Some(match g { None => c, Some(g) => parse_quote!((#c) && (#g)) }))
      } else { (p, g) };
      arms.push(Arm { attrs: vec![], pat: p, guard: g.map(|g| (Default::default(), Box::new(g))), fat_arrow_token: Default::default(), body: Box::new(b), comma: Some(Default::default()) });
    }
    // range patterns over integers become comparisons (handled by `low_pat_range`)
    // the verifier takes no guard on an or-pattern
    let arms: Vec<Arm> = arms.into_iter().flat_map(|a| match (&a.pat, a.guard.is_some()) {
      (Pat::Or(o), true) => o.cases.iter().map(|p| { let mut b = a.clone(); b.pat = p.clone(); b }).collect::<Vec<_>>(),
      _ => vec![a],
    }).collect();
    if arms.iter().any(|a| matches!(a.guard, Some((_, ref g)) if needs_stmts(g))) {
      // bind the scrutinee, test guards in an outer chain
      let k = self.fresh();
      let v = format_ident!("vx_m{}", k);
      pre.push(parse_quote!(let #v = #scrut;));
      scrut = parse_quote!(#v);
      let mut out: Expr = parse_quote!(vx_unreachable());
      // group from the end: arms after a statement guard form the else part
      let mut group: Vec<Arm> = vec![];
      for a in arms.into_iter().rev() {
        match &a.guard {
          Some((_, g)) if needs_stmts(g) => {
            let rest: Expr = if group.is_empty() { parse_quote!(vx_unreachable()) } else { let gs = &group; parse_quote!(match #v { #(#gs)* }) };
            let p = &a.pat; let b = &a.body;
            // the guard sees the value by reference
            out = parse_quote!(if (match &#v { #p => #g, _ => false }) { match #v { #p => #b, _ => vx_unreachable() } } else { #rest });
            group = vec![];
            let wild: Arm = parse_quote!(_ => #out,);
            group.push(wild);
          }
          _ => group.insert(0, a),
        }
      }
      let x: Expr = if group.len() == 1 && matches!(group[0].pat, Pat::Wild(_)) { out } else { parse_quote!(match #scrut { #(#group)* }) };
      return Ok((parse_quote!({ #(#pre)* #x }), ty));
    }
    Ok((parse_quote!(match #scrut { #(#arms)* }), ty))
  }

  fn add_loop(&mut self, label: &str, auto: Vec<String>, decreases: String, line: usize) -> String {
    let key = format!("{}/{}", self.fname, label);
    let refs = self.ref_counts();
    for k in ["start", "end", "before", "after"] { self.hints.insert(format!("{}:{}", key, k), refs.clone()); }
    self.loops.push(LoopInfo { key: key.clone(), label: label.into(), auto, decreases, line, refs });
    key
  }

  // ---------- iteration
  fn source(&mut self, e: &Expr) -> R<Option<Src>> {
    let e = unparen(e);
    if let Expr::MethodCall(m) = e {
      let n = m.method.to_string();
      match n.as_str() {
        "iter" | "into_iter" if m.args.is_empty() => {
          let (x, t) = self.expr(&m.receiver, &Ty::Unk, false)?;
          return self.src_of(x, t, n == "iter").map(Some);
        }
        "keys" | "values" if m.args.is_empty() => {
          let (x, t) = self.expr(&m.receiver, &Ty::Unk, false)?;
          let (k, v) = match t.strip() { Ty::Named(b, a) if b == "BTreeMap" && a.len() == 2 => (a[0].clone(), a[1].clone()), _ => return Ok(None) };
          let r = self.as_ref1(x, &t);
          return Ok(Some(if n == "keys" { Src { expr: parse_quote!(vx_map_keys(#r)), elem: k.r(), by_ref: false, pre: None } }
            else { Src { expr: parse_quote!(vx_map_values(#r)), elem: v.r(), by_ref: false, pre: None } }));
        }
        "into_inner" if m.args.is_empty() => {
          let (x, t) = self.expr(&m.receiver, &Ty::Unk, false)?;
          if !t.is("Pair") { return Err(format!("into_inner on {:?}", t)); }
          let x = wrap_p(x);
          return Ok(Some(Src { expr: parse_quote!(vx_pairs(#x.into_inner())), elem: Ty::n("Pair"), by_ref: false, pre: None }));
        }
        "chars" if m.args.is_empty() => {
          let (x, t) = self.expr(&m.receiver, &Ty::Unk, false)?;
          if !t.is_stringy() { return Ok(None); }
          let r = self.as_ref1(x, &t);
          return Ok(Some(Src { expr: parse_quote!(vx_chars(#r)), elem: Ty::n("char"), by_ref: false, pre: None }));
        }
        "split" => {
          let (x, t) = self.expr(&m.receiver, &Ty::Unk, false)?;
          if !t.is_stringy() { return Ok(None); }
          let (a, at) = self.expr(&m.args[0], &Ty::n("char"), false)?;
          if !at.is("char") { return Err("split pattern".into()); }
          let r = self.as_ref1(x, &t);
          return Ok(Some(Src { expr: parse_quote!(vx_split(#r, #a)), elem: Ty::n("str").r(), by_ref: false, pre: None }));
        }
        _ => return Ok(None),
      }
    }
    Ok(None)
  }
  fn src_of(&mut self, x: Expr, t: Ty, by_ref: bool) -> R<Src> {
    let refd = t.refs() > 0;
    match t.strip() {
      Ty::Named(n, a) if n == "Vec" => {
        let el = a.get(0).cloned().unwrap_or(Ty::Unk);
        if by_ref || refd { Ok(Src { expr: self.as_ref1(x, &t), elem: el, by_ref: true, pre: None }) } else { Ok(Src { expr: x, elem: el, by_ref: false, pre: None }) }
      }
      Ty::Array(el) => {
        let v: Expr = match unparen(&x) { Expr::Array(a) => { let e = &a.elems; parse_quote!(vec![#e]) }, _ => return Err("array iteration".into()) };
        if by_ref { Ok(Src { expr: v, elem: *el, by_ref: true, pre: None }) } else { Ok(Src { expr: v, elem: *el, by_ref: false, pre: None }) }
      }
      Ty::Named(n, _) if n == "Pairs" => Ok(Src { expr: parse_quote!(vx_pairs(#x)), elem: Ty::n("Pair"), by_ref: false, pre: None }),
      Ty::Named(n, a) if n == "BTreeSet" => {
        let el = a.get(0).cloned().unwrap_or(Ty::Unk);
        let r = self.as_ref1(x, &t);
        Ok(Src { expr: parse_quote!(vx_set_to_vec(#r)), elem: el.r(), by_ref: false, pre: None })
      }
      Ty::Named(n, a) if n == "BTreeMap" && a.len() == 2 && (by_ref || refd) => {
        let r = self.as_ref1(x, &t);
        Ok(Src { expr: parse_quote!(vx_map_pairs(#r)), elem: Ty::Tuple(vec![a[0].clone().r(), a[1].clone().r()]), by_ref: false, pre: None })
      }
      Ty::Named(n, a) if n == "Option" => {
        let el = a.get(0).cloned().unwrap_or(Ty::Unk);
        if by_ref || refd {
          if t.refs() == 0 && !is_place(&x) {
            let v = format_ident!("vx_t{}", self.fresh());
            return Ok(Src { expr: parse_quote!(vx_opt_vec_ref(&#v)), elem: el.r(), by_ref: false, pre: Some((v, x)) });
          }
          let r = self.as_ref1(x, &t);
          Ok(Src { expr: parse_quote!(vx_opt_vec_ref(#r)), elem: el.r(), by_ref: false, pre: None })
        } else { Ok(Src { expr: parse_quote!(vx_opt_vec(#x)), elem: el, by_ref: false, pre: None }) }
      }
      _ => Err(format!("iteration over {:?}", t)),
    }
  }
  fn chain(&mut self, e: &Expr) -> R<Option<(Src, Vec<Ad>)>> {
    let e = unparen(e);
    if let Some(s) = self.source(e)? { return Ok(Some((s, vec![]))); }
    if let Expr::MethodCall(m) = e {
      let n = m.method.to_string();
      let is_ad = ["map", "filter", "filter_map", "cloned", "copied", "zip", "enumerate", "rev", "skip", "take", "chain"].contains(&n.as_str());
      if !is_ad { return Ok(None); }
      if let Some((s, mut ads)) = self.chain(&m.receiver)? {
        if ["rev", "skip", "take", "chain"].contains(&n.as_str()) {
          // on the sequence itself; after an adapter they would change what the loop sees
          if !ads.is_empty() { return Err(format!("{} after an iterator adapter", n)); }
          let (v, el) = Self::src_vec(s)?;
          let x: Expr = match n.as_str() {
            "rev" => parse_quote!(vx_rev(#v)),
            "chain" => { let (o, ot) = self.vec_of_iter(&m.args[0])?; if ot.refs() != el.refs() { return Err("chain of different items".into()); } parse_quote!(vx_concat(#v, #o)) }
            _ => { let (k, _) = self.expr(&m.args[0], &Ty::n("usize"), false)?; let f = format_ident!("vx_{}", n); parse_quote!(#f(#v, #k)) }
          };
          return Ok(Some((Src { expr: x, elem: el, by_ref: false, pre: None }, vec![])));
        }
        ads.push(match n.as_str() {
          "map" => Ad::Map(m.args[0].clone()),
          "filter" => Ad::Filter(m.args[0].clone()),
          "filter_map" => Ad::FilterMap(m.args[0].clone()),
          "cloned" => Ad::Cloned,
          "copied" => Ad::Copied,
          "zip" => Ad::Zip(m.args[0].clone()),
          "enumerate" => Ad::Enumerate,
          _ => return Err("iterator adapter".into()),
        });
        return Ok(Some((s, ads)));
      }
    }
    if let Expr::Path(p) = e {
      if p.path.segments.len() == 1 {
        if let Some(c) = self.lookup_clo(&p.path.segments[0].ident.to_string()) {
          if let Some(it) = c.it {
            for (n, idn) in &c.free { if self.lookup(n).map(|v| v.id) != Some(*idn) { return Err("iterator captures a shadowed variable".into()); } }
            return self.chain(&it);
          }
        }
        if let Some(v) = self.lookup(&p.path.segments[0].ident.to_string()) {
          if let Ty::Named(n, a) = &v.ty { if n == "VxIter" { let el = a[0].clone(); return Ok(Some((Src { expr: e.clone(), elem: el, by_ref: false, pre: None }, vec![]))); } }
        }
      }
    }
    Ok(None)
  }

  /// the source as a vector of its items
  fn src_vec(s: Src) -> R<(Expr, Ty)> {
    if s.pre.is_some() { return Err("iteration over a temporary option".into()); }
    let e = s.expr;
    Ok(if s.by_ref { (parse_quote!(vx_refs(#e)), s.elem.r()) } else { (e, s.elem) })
  }
  /// item expression and type of a source element
  fn item(&self, s: &Src, sv: &Ident, iv: &Ident) -> (Expr, Ty) {
    if s.by_ref { (parse_quote!(&#sv[#iv]), s.elem.clone().r()) } else { (parse_quote!(vx_clone(&#sv[#iv])), s.elem.clone()) }
  }

  /// Lowers a chain into a loop; `k` builds the innermost statements from the item.
  fn run(&mut self, mut s: Src, ads: Vec<Ad>, label: &str, stop: Option<Expr>, auto: &mut Vec<String>,
         k: &mut dyn FnMut(&mut Self, Expr, Ty) -> R<Vec<Stmt>>) -> R<(Vec<Stmt>, Ident, Ident)> {
    let label = self.label(label);
    let outer = std::mem::replace(&mut self.last_label, label.clone());
    let sv = format_ident!("vx_s_{}", label);
    let iv = format_ident!("vx_i_{}", label);
    let mut pre: Vec<Stmt> = vec![];
    let mut ads = ads;
    let mut bound: Option<(Ident, Src)> = None;
    if let Some(Ad::Zip(_)) = ads.first() {
      if let Ad::Zip(o) = ads.remove(0) {
        let (s2, a2) = match self.chain(&o)? { Some(x) => x, None => { let (x, t) = self.expr(&o, &Ty::Unk, false)?; (self.src_of(x, t, false)?, vec![]) } };
        if !a2.is_empty() { return Err("zip with an adapted iterator".into()); }
        let zv = format_ident!("vx_z_{}", label);
        let ze = &s2.expr;
        pre.push(parse_quote!(let #zv = #ze;));
        bound = Some((zv, s2));
      }
    }
    let counted = matches!(ads.first(), Some(Ad::Enumerate));
    if counted { ads.remove(0); }
    let se = &s.expr;
    let mut spre: Vec<Stmt> = vec![];
    if let Some((v, e)) = &s.pre { spre.push(parse_quote!(let #v = #e;)); }
    spre.push(parse_quote!(let #sv = #se;));
    s.pre = None;
    let (ie, it) = self.item(&s, &sv, &iv);
    self.push();
    let r = (|| {
      let v0 = format_ident!("vx_e{}", self.fresh());
      let (ie, it) = match &bound { None => (ie, it), Some((zv, s2)) => { let (je, jt) = self.item(s2, zv, &iv); (parse_quote!((#ie, #je)), Ty::Tuple(vec![it, jt])) } };
      let (ie, it) = if counted { (parse_quote!((#iv, #ie)), Ty::Tuple(vec![Ty::n("usize"), it])) } else { (ie, it) };
      let body = self.ads(&ads[..], parse_quote!(#v0), it, k)?;
      Ok::<_, String>((v0, ie, body))
    })();
    self.pop();
    self.last_label = outer;
    let (v0, ie, body) = r?;
    let mut cond: Expr = parse_quote!(#iv < #sv.len());
    let mut inv = vec![format!("vx_i_{l} <= vx_s_{l}@.len()", l = label)];
    if let Some((zv, _)) = &bound { cond = parse_quote!(#cond && #iv < #zv.len()); inv.push(format!("vx_i_{l} <= vx_z_{l}@.len()", l = label)); }
    if let Some(st) = stop { cond = parse_quote!(#cond && #st); }
    for a in auto.iter() {
      let a = a.replace("$l", &label);
      let item = format!("vx_s_{}@[vx_j]", label);
      inv.push(if a.contains("#[trigger]") { a } else { a.replacen(&item, &format!("(#[trigger] {})", item), 1) });
    }
    let key = self.add_loop(&label, inv, format!("vx_s_{l}@.len() - vx_i_{l}", l = label), 0);
    let hs = format!("{}:start", key); let he = format!("{}:end", key); let ha = format!("{}:after", key); let hb = format!("{}:before", key);
    let lp: Stmt = Stmt::Expr(parse_quote!(while #cond { vx_loop!(#key); let #v0 = #ie; #iv += 1; vx_mark(#iv); vx_hint!(#hs); #(#body)* vx_hint!(#he); }), None);
    let mut out = spre;
    out.extend(pre);
    out.push(parse_quote!(let mut #iv: usize = 0;));
    out.push(parse_quote!(vx_hint!(#hb);));
    out.push(lp);
    out.push(parse_quote!(vx_hint!(#ha);));
    Ok((out, sv, iv))
  }
  fn ads(&mut self, ads: &[Ad], item: Expr, ty: Ty, k: &mut dyn FnMut(&mut Self, Expr, Ty) -> R<Vec<Stmt>>) -> R<Vec<Stmt>> {
    if ads.is_empty() { return k(self, item, ty); }
    let v = format_ident!("vx_e{}", self.fresh());
    match &ads[0] {
      Ad::Map(f) => {
        let (x, t) = self.apply(f, vec![(item, ty)], &Ty::Unk)?;
        let rest = self.ads(&ads[1..], parse_quote!(#v), t, k)?;
        Ok(parse_quote!(let #v = #x; #(#rest)*))
      }
      Ad::Filter(f) => {
        let it: Expr = parse_quote!(&#item);
        let (x, _) = self.apply(f, vec![(it, ty.clone().r())], &Ty::n("bool"))?;
        let rest = self.ads(&ads[1..], item, ty, k)?;
        Ok(parse_quote!(if #x { #(#rest)* }))
      }
      Ad::FilterMap(f) => {
        let (x, t) = self.apply(f, vec![(item, ty)], &Ty::Unk)?;
        let rest = self.ads(&ads[1..], parse_quote!(#v), t.arg(0), k)?;
        Ok(parse_quote!(match #x { Some(#v) => { #(#rest)* } None => {} }))
      }
      Ad::Cloned | Ad::Copied => {
        let t = match &ty { Ty::Ref(t) => (**t).clone(), _ => return Err("cloned() on a non-reference".into()) };
        let rest = self.ads(&ads[1..], parse_quote!(#v), t, k)?;
        Ok(parse_quote!(let #v = vx_clone(#item); #(#rest)*))
      }
      _ => Err("iterator adapter".into()),
    }
  }

  fn for_loop(&mut self, f: &ExprForLoop) -> R<(Expr, Ty)> {
    if f.label.is_some() { return Err("loop label".into()); }
    let names = pat_names(&f.pat);
    let label = names.first().cloned().unwrap_or("for".into()).trim_start_matches("r#").trim_start_matches('_').to_string();
    if let Expr::Range(r) = unparen(&f.expr) {
      if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
        let (b, bt) = self.expr(b, &Ty::n("usize"), false)?;
        let (a, _) = self.expr(a, &bt, false)?;
        self.cur_sig = f.to_token_stream().to_string();
        let label = self.label(&label);
        let iv = format_ident!("vx_i_{}", label); let ev = format_ident!("vx_n_{}", label); let st = format_ident!("vx_b_{}", label);
        self.push();
        self.bind_pat(&f.pat, &Ty::n("usize"));
        let r = self.block(&f.body, &Ty::Tuple(vec![]), false);
        self.pop();
        let (b2, _) = r?;
        let body = b2.stmts; let p = &f.pat;
        let key = self.add_loop(&label, vec![format!("vx_b_{l} <= vx_i_{l}, vx_b_{l} <= vx_n_{l} ==> vx_i_{l} <= vx_n_{l}", l = label)], format!("vx_n_{l} - vx_i_{l}", l = label), 0);
        let hs = format!("{}:start", key); let he = format!("{}:end", key); let ha = format!("{}:after", key); let hb = format!("{}:before", key);
        return Ok((parse_quote!({ let #st: usize = #a; let #ev: usize = #b; let mut #iv: usize = #st; vx_hint!(#hb); while #iv < #ev { vx_loop!(#key); let #p = #iv; #iv += 1; vx_mark(#iv); vx_hint!(#hs); #(#body)* vx_hint!(#he); } vx_hint!(#ha); }), Ty::Tuple(vec![])));
      }
    }
    let (s, ads) = match self.chain(&f.expr)? { Some(x) => x, None => { let (x, t) = self.expr(&f.expr, &Ty::Unk, false)?; (self.src_of(x, t, false)?, vec![]) } };
    let pat = f.pat.clone(); let body = f.body.clone();
    self.cur_sig = f.to_token_stream().to_string();
    let (st, _, _) = self.run(s, ads, &label, None, &mut vec![], &mut |me, it, ty| {
      me.push();
      me.bind_pat(&pat, &ty);
      let (mut p, mut it) = ((*pat).clone(), it);
      while let Pat::Reference(r) = &p { let b = wrap_p(it); it = parse_quote!(* #b); p = (*r.pat).clone(); }
      let p = me.low_pat(&p)?;
      let r = me.block(&body, &Ty::Tuple(vec![]), false);
      me.pop();
      let (b, _) = r?;
      let st = b.stmts;
      let l: Stmt = if let Pat::Wild(_) = p { parse_quote!(let _ = #it;) } else { parse_quote!(let #p = #it;) };
      let blk: Expr = parse_quote!({ #l #(#st)* });
      Ok(vec![Stmt::Expr(blk, None)])
    })?;
    Ok((parse_quote!({ #(#st)* }), Ty::Tuple(vec![])))
  }

  /// consumers of iterator chains; None if `m` is not one
  fn consumer(&mut self, m: &ExprMethodCall, expect: &Ty, mode: Mode) -> R<Option<(Expr, Ty)>> {
    let n = m.method.to_string();
    if !["collect", "any", "all", "find", "find_map", "count", "try_fold", "fold", "position", "for_each", "next", "eq", "ne", "last", "sum", "max", "min"].contains(&n.as_str()) { return Ok(None); }
    if n == "count" {
      if let Expr::MethodCall(c) = unparen(&m.receiver) {
        if c.method == "chars" { let (x, t) = self.expr(&c.receiver, &Ty::Unk, false)?; if t.is_stringy() { let r = self.as_ref1(x, &t); return Ok(Some((parse_quote!(vx_char_count(#r)), Ty::n("usize")))); } }
      }
    }
    if n == "next" { if let Expr::MethodCall(c) = unparen(&m.receiver) { if c.method == "into_inner" { return Ok(None); } } }
    let let_name = self.let_name.take();
    let (s, ads) = match self.chain(&m.receiver)? { Some(x) => x, None => { self.let_name = let_name; return Ok(None) } };
    // auto invariants need the specification form of the element
    let elem_by_ref = s.by_ref; let elem_ty = s.elem.clone();
    let spec_item = |l: &str, j: &str| -> (String, Ty) { let mut x = format!("vx_s_{}@[{}]", l, j); for _ in (if elem_ty.is("str") { 1 } else { 0 })..elem_ty.refs() { x = format!("(*{})", x); } let _ = elem_by_ref; (x, elem_ty.strip()) };
    let base = let_name.clone().unwrap_or_else(|| n.clone());
    let base = base.trim_start_matches("r#").trim_start_matches('_').to_string();
    self.cur_sig = m.to_token_stream().to_string();
    match n.as_str() {
      "collect" => {
        let mut want = match &m.turbofish { Some(t) => match t.args.first() { Some(GenericArgument::Type(t)) => self.ty(t), _ => Ty::Unk }, None => expect.clone() };
        if let (Mode::Try, true) = (&mode, m.turbofish.is_none()) { want = Ty::n1("Result", expect.clone()); }
        if want.is("String") { let (a, at) = if ads.is_empty() { Self::src_vec(s)? } else { self.vec_of_iter(&m.receiver)? }; if !at.is("char") { return Err("collect into a string".into()); } return Ok(Some((parse_quote!(vx_string_of(#a)), Ty::n("String")))); }
        let as_result = want.is("Result");
        if as_result && matches!(mode, Mode::Plain) { return Err("collect into a Result that is neither returned nor tried".into()); }
        let is_set = if as_result { want.arg(0).is("BTreeSet") } else { want.is("BTreeSet") };
        let o = format_ident!("vx_c_{}", base);
        let mut elem = Ty::Unk;
        let mut auto = vec![];
        // pure map
        if !as_result && !is_set {
          if let Some((sp, et)) = self.spec_chain(&ads, &spec_item("$l", "vx_j")) {
            if sp.filter.is_none() {
              let _ = et;
              auto.push(format!("vx_c_{}@.len() == vx_i_$l", base));
              auto.push(format!("forall|vx_j: int| 0 <= vx_j < vx_i_$l ==> #[trigger] vx_c_{}@[vx_j] == {}", base, sp.value));
            } else if let Some(fl) = sp.filter {
              auto.push(format!("vx_c_{}@.len() <= vx_i_$l", base));
              let _ = fl;
            }
          }
        }
        let last_map = if as_result { match ads.last() { Some(Ad::Map(Expr::Closure(c))) => Some(c.clone()), _ => None } } else { None };
        let (st, _, _) = if let Some(c) = last_map {
          // `?` and the result of the closure leave the function
          if has_return(&c.body) { return Err("return inside a collected closure".into()); }
          let mut ads = ads; ads.pop();
          let want_el = want.arg(0).arg(0);
          self.run(s, ads, &base, None, &mut auto, &mut |me, it, ty| {
            me.push();
            let r = (|| {
              me.bind_pat(&c.inputs[0], &ty);
              let (mut p, mut it) = (c.inputs[0].clone(), it);
              while let Pat::Reference(r) = &p { let b = wrap_p(it); it = parse_quote!(* #b); p = (*r.pat).clone(); }
              let p = me.low_pat(&p)?;
              let (b, t) = me.closure_tail(&c.body, &Ty::n1("Result", want_el.clone()))?;
              elem = t;
              let st = b.0; let tl = b.1;
              Ok::<_, String>(parse_quote!(let #p = #it; #(#st)* #o.push(#tl);))
            })();
            me.pop();
            r
          })?
        } else {
          self.run(s, ads, &base, None, &mut auto, &mut |_, it, ty| {
            if as_result { elem = ty.arg(0); Ok(parse_quote!(#o.push(#it?);)) }
            else { elem = ty; if is_set { Ok(parse_quote!(#o.insert(#it);)) } else { Ok(parse_quote!(#o.push(#it);)) } }
          })?
        };
        let et = elem.to_type().map(|t| quote!(::<#t>));
        let new: Expr = if is_set { parse_quote!(BTreeSet #et ::new()) } else { parse_quote!(Vec #et ::new()) };
        let ct = Ty::n1(if is_set { "BTreeSet" } else { "Vec" }, elem);
        return Ok(Some(match (as_result, mode) {
          (true, Mode::Tail) => (parse_quote!({ let mut #o = #new; #(#st)* Ok(#o) }), Ty::n1("Result", ct)),
          _ => (parse_quote!({ let mut #o = #new; #(#st)* #o }), ct),
        }));
      }
      "any" | "all" => {
        let k = self.label(&format!("{}", n));
        let b = format_ident!("vx_r_{}", k);
        let any = n == "any";
        let f = m.args[0].clone();
        let mut auto = vec![];
        if let Some((sp, et)) = self.spec_chain(&ads, &spec_item("$l", "vx_j")) {
          if let Some(p) = self.spec_apply(&f, &[(sp.value.clone(), et)]) {
            let g = sp.filter.clone().map(|g| format!("({}) && ", g)).unwrap_or_default();
            let g2 = sp.filter.clone().map(|g| format!("({}) ==> ", g)).unwrap_or_default();
            if any {
              auto.push(format!("vx_r_{k} ==> exists|vx_j: int| 0 <= vx_j < vx_i_$l && {g}({p})", k = k, g = g, p = p.0));
              auto.push(format!("!vx_r_{k} ==> forall|vx_j: int| 0 <= vx_j < vx_i_$l ==> !({g}({p}))", k = k, g = g, p = p.0));
            } else {
              auto.push(format!("vx_r_{k} ==> forall|vx_j: int| 0 <= vx_j < vx_i_$l ==> {g}({p})", k = k, g = g2, p = p.0));
              auto.push(format!("!vx_r_{k} ==> exists|vx_j: int| 0 <= vx_j < vx_i_$l && {g}!({p})", k = k, g = g, p = p.0));
            }
          }
        }
        let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
        let stop: Expr = if any { parse_quote!(!#b) } else { parse_quote!(#b) };
        let (st, _, _) = self.run(s, ads, &base, Some(stop), &mut auto, &mut |me, it, ty| {
          let (x, _) = me.apply(&f, vec![(it, ty)], &Ty::n("bool"))?;
          if any { Ok(parse_quote!(if #x { #b = true; })) } else { let x = wrap_p(x); Ok(parse_quote!(if !#x { #b = false; })) }
        })?;
        return Ok(Some((parse_quote!({ let mut #b: bool = #init; #(#st)* #b }), Ty::n("bool"))));
      }
      "count" => {
        let k = self.label("count");
        let b = format_ident!("vx_r_{}", k);
        let mut auto = vec![format!("vx_r_{} <= vx_i_$l", k)];
        let (st, _, _) = self.run(s, ads, &base, None, &mut auto, &mut |_, _, _| Ok(parse_quote!(#b += 1;)))?;
        return Ok(Some((parse_quote!({ let mut #b: usize = 0; #(#st)* #b }), Ty::n("usize"))));
      }
      "find" | "find_map" | "next" | "position" => {
        let k = self.label(&n);
        let b = format_ident!("vx_r_{}", k);
        let f = m.args.first().cloned();
        let mut auto = vec![];
        if let Some((sp, et)) = self.spec_chain(&ads, &spec_item("$l", "vx_j")) {
          let g2 = sp.filter.clone().map(|g| format!("({}) ==> ", g)).unwrap_or_default();
          let g = sp.filter.clone().map(|g| format!("({}) && ", g)).unwrap_or_default();
          if n == "find" {
            if let Some(p) = self.spec_apply(f.as_ref().unwrap(), &[(sp.value.clone(), et.clone())]) {
              auto.push(format!("vx_r_{k} is None ==> forall|vx_j: int| 0 <= vx_j < vx_i_$l ==> {g}!({p})", k = k, g = g2, p = p.0));
              auto.push(format!("vx_r_{k} is Some ==> exists|vx_j: int| 0 <= vx_j < vx_i_$l && {g}({p}) && vx_r_{k} == Some(#VREF#{v}) && (forall|vx_j2: int| 0 <= vx_j2 < vx_j ==> !({p2}))", k = k, g = g, p = p.0, v = sp.value, p2 = format!("{}{}", g, p.0).replace("[vx_j]", "[vx_j2]")));
            }
          }
          if n == "find_map" {
            if let Some(p) = self.spec_apply(f.as_ref().unwrap(), &[(sp.value.clone(), et)]) {
              auto.push(format!("vx_r_{k} is None ==> forall|vx_j: int| 0 <= vx_j < vx_i_$l ==> {g}({p} is None)", k = k, g = g2, p = p.0));
            }
          }
        }
        let mut rt = Ty::Unk;
        let stop: Expr = parse_quote!(#b.is_none());
        if n == "position" && ads.iter().any(|a| matches!(a, Ad::Filter(_) | Ad::FilterMap(_))) { return Err("position after a filter".into()); }
        let pos: Vec<String> = if n == "position" { self.spec_chain(&ads, &spec_item("$l", "vx_j")).and_then(|(sp, et)| self.spec_apply(f.as_ref().unwrap(), &[(sp.value, et)])).map(|p| p.0).into_iter().collect() } else { vec![] };
        for p in &pos {
          auto.push(format!("vx_r_{k} is None ==> forall|vx_j: int| 0 <= vx_j < vx_i_$l ==> !({p})"));
          auto.push(format!("vx_r_{k} is Some ==> vx_r_{k}->Some_0 < vx_i_$l && (forall|vx_j: int| 0 <= vx_j < vx_r_{k}->Some_0 ==> !({p})) && exists|vx_j: int| vx_j == vx_r_{k}->Some_0 && ({p})"));
        }
        let (st, _, _) = self.run(s, ads, &base, Some(stop), &mut auto, &mut |me, it, ty| {
          match n.as_str() {
            "position" => {
              let (x, _) = me.apply(f.as_ref().unwrap(), vec![(it, ty)], &Ty::n("bool"))?;
              rt = Ty::n("usize");
              let iv = format_ident!("vx_i_{}", me.last_label);
              Ok(parse_quote!(if #x { #b = Some((#iv - 1) as usize); }))
            }
            "next" => { rt = ty; Ok(parse_quote!(#b = Some(#it);)) }
            "find" => {
              let r: Expr = parse_quote!(&#it);
              let (x, _) = me.apply(f.as_ref().unwrap(), vec![(r, ty.clone().r())], &Ty::n("bool"))?;
              rt = ty;
              Ok(parse_quote!(if #x { #b = Some(#it); }))
            }
            _ => {
              let (x, t) = me.apply(f.as_ref().unwrap(), vec![(it, ty)], &Ty::Unk)?;
              rt = t.arg(0);
              Ok(parse_quote!(#b = #x;))
            }
          }
        })?;
        let refs = rt.refs();
        for l in self.loops.iter_mut() { for a in l.auto.iter_mut() { *a = a.replace("#VREF#", &"&".repeat(refs)); } }
        let decl: Stmt = match rt.to_type() { Some(t) => parse_quote!(let mut #b: Option<#t> = None;), None => parse_quote!(let mut #b = None;) };
        return Ok(Some((parse_quote!({ #decl #(#st)* #b }), Ty::n1("Option", rt))));
      }
      "try_fold" | "fold" => {
        let tr = n == "try_fold";
        if tr && matches!(mode, Mode::Plain) { return Err("try_fold whose result is neither returned nor tried".into()); }
        let (init, it) = self.expr(&m.args[0], &if tr { expect.arg(0) } else { expect.clone() }, false)?;
        let c = match unparen(&m.args[1]) { Expr::Closure(c) => c.clone(), _ => return Err("fold function".into()) };
        if has_return(&c.body) { return Err("return inside fold".into()); }
        let (acc, am) = match &c.inputs[0] {
          Pat::Ident(i) => (i.ident.clone(), i.mutability.is_some()),
          Pat::Wild(_) => (if self.lookup("vx_acc").is_none() { format_ident!("vx_acc") } else { format_ident!("vx_acc{}", self.fresh()) }, false),
          _ => return Err("fold accumulator pattern".into()),
        };
        let _ = am;
        let at = it.clone();
        let label = match pat_names(&c.inputs[1]).first() { Some(n) => n.trim_start_matches('_').to_string(), None => "fold".into() };
        self.push();
        self.bind(&acc.to_string(), at.clone());
        let mut rty = at.clone();
        self.cur_sig = m.to_token_stream().to_string();
        let r = self.run(s, ads, &label, None, &mut vec![], &mut |me, itx, ty| {
          me.push();
          let r = (|| {
            me.bind_pat(&c.inputs[1], &ty);
            let p = me.low_pat(&c.inputs[1])?;
            let l: Stmt = if let Pat::Wild(_) = p { parse_quote!(let _ = #itx;) } else { parse_quote!(let #p = #itx;) };
            let ex = if tr { Ty::Named("Result".into(), vec![at.clone(), Ty::n("Error")]) } else { at.clone() };
            let ((st, tl), t) = if tr { me.closure_tail(&c.body, &ex)? } else {
              let (b, t) = me.block_expr(&c.body, &ex, false)?; let mut st = b.stmts; let tl = match st.pop() { Some(Stmt::Expr(e, None)) => e, _ => return Err("fold body".to_string()) }; ((st, tl), t) };
            if rty.is_unk() || rty.arg(0).is_unk() { if !t.is_unk() { rty = t; } }
            let same = matches!(unparen(&tl), Expr::Path(p) if p.path.is_ident(&acc));
            let fin: Vec<Stmt> = if same { vec![] } else { vec![parse_quote!(#acc = #tl;)] };
            let blk: Expr = parse_quote!({ #l #(#st)* #(#fin)* });
            Ok::<_, String>(vec![Stmt::Expr(blk, None)])
          })();
          me.pop();
          r
        });
        self.pop();
        let (st, _, _) = r?;
        return Ok(Some(match (tr, mode) {
          (true, Mode::Tail) => (parse_quote!({ let mut #acc = #init; #(#st)* Ok(#acc) }), Ty::Named("Result".into(), vec![rty, Ty::n("Error")])),
          _ => (parse_quote!({ let mut #acc = #init; #(#st)* #acc }), rty),
        }));
      }
      "eq" | "ne" => {
        let (a, at) = if ads.is_empty() { Self::src_vec(s)? } else { self.vec_of_iter(&m.receiver)? };
        let (b, bt) = self.vec_of_iter(&m.args[0])?;
        if at.strip().is_stringy() != bt.strip().is_stringy() || at.is("str") || bt.is("str") || at.refs() != bt.refs() { return Err("comparison of iterators".into()); }
        let x: Expr = parse_quote!(vx_eq_seq(&#a, &#b));
        return Ok(Some((if n == "ne" { parse_quote!(! #x) } else { x }, Ty::n("bool"))));
      }
      "last" => {
        let (a, at) = if ads.is_empty() { Self::src_vec(s)? } else { self.vec_of_iter(&m.receiver)? };
        return Ok(Some((parse_quote!(vx_last_item(#a)), Ty::n1("Option", at))));
      }
      "for_each" => {
        let f = m.args[0].clone();
        let (st, _, _) = self.run(s, ads, &base, None, &mut vec![], &mut |me, it, ty| { let (x, _) = me.apply(&f, vec![(it, ty)], &Ty::Tuple(vec![]))?; Ok(parse_quote!(#x;)) })?;
        return Ok(Some((parse_quote!({ #(#st)* }), Ty::Tuple(vec![]))));
      }
      _ => Err(format!("iterator consumer {}", n)),
    }
  }
  /// statements and value of a closure body that yields a Result, where errors leave the enclosing function
  fn closure_tail(&mut self, e: &Expr, expect: &Ty) -> R<((Vec<Stmt>, Expr), Ty)> {
    let saved = std::mem::replace(&mut self.no_try, 0);
    let r = (|| {
      let (stmts, tail) = match e {
        Expr::Block(b) => {
          let n = b.block.stmts.len();
          if n == 0 { return Err("empty closure".to_string()); }
          let tl = match &b.block.stmts[n - 1] { Stmt::Expr(e, None) => e.clone(), _ => return Err("closure tail".to_string()) };
          let mut bb = b.block.clone(); bb.stmts.pop();
          let (x, _) = self.block_inner(&bb, &Ty::Unk, false)?;
          (x.stmts, tl)
        }
        e => (vec![], e.clone()),
      };
      if let Expr::Call(c) = unparen(&tail) {
        if c.func.to_token_stream().to_string() == "Ok" && c.args.len() == 1 {
          let (x, t) = self.expr(&c.args[0], &expect.arg(0), false)?;
          return Ok(((stmts, x), t));
        }
      }
      let (x, t) = self.expr(&tail, expect, false)?;
      let x = wrap_p(x);
      Ok(((stmts, parse_quote!(#x?)), t.arg(0)))
    })();
    self.no_try = saved;
    r
  }

  fn try_(&mut self, t: &ExprTry, expect: &Ty) -> R<(Expr, Ty)> {
    if self.no_try > 0 { return Err("`?` inside a closure".into()); }
    if let Expr::MethodCall(m) = unparen(&t.expr) {
      if let Some((x, ty)) = self.consumer(m, &Ty::Named("Result".into(), vec![expect.clone(), Ty::n("Error")]), Mode::Try)? {
        // collect::<Result<..>>()? and try_fold(..)? already leave on error
        let n = m.method.to_string();
        if n == "collect" || n == "try_fold" { return Ok((x, ty)); }
        let x = wrap_p(x);
        return Ok((parse_quote!(#x?), ty.arg(0)));
      }
    }
    self.was_tried = false;
    if matches!(unparen(&t.expr), Expr::Call(_) | Expr::MethodCall(_)) { self.call_mode = Mode::Try; }
    let (x, ty) = self.expr(&t.expr, &Ty::Named("Result".into(), vec![expect.clone(), Ty::n("Error")]), false)?;
    self.call_mode = Mode::Plain;
    if std::mem::replace(&mut self.was_tried, false) { return Ok((x, ty)); }
    let x = wrap_p(x);
    let mut rt = ty.arg(0);
    if rt.is_unk() || rt.is("T") { rt = expect.clone(); }
    Ok((parse_quote!(#x?), rt))
  }

  fn mac(&mut self, m: &Macro, expect: &Ty) -> R<(Expr, Ty)> {
    let n = m.path.segments.last().unwrap().ident.to_string();
    match n.as_str() {
      "unreachable" | "panic" | "todo" | "unimplemented" => Ok((parse_quote!(vx_unreachable()), Ty::Unk)),
      "vec" => {
        let ts = m.tokens.clone();
        if ts.is_empty() { return Ok((parse_quote!(Vec::new()), if expect.is("Vec") { expect.clone() } else { Ty::n1("Vec", Ty::Unk) })); }
        if let Ok(Expr::Repeat(r)) = parse2::<Expr>(quote!([#ts])) {
          let (x, t) = self.expr(&r.expr, &Ty::Unk, false)?; let (k, _) = self.expr(&r.len, &Ty::n("usize"), false)?;
          return Ok((parse_quote!(vx_vec_rep(#x, #k)), Ty::n1("Vec", t)));
        }
        let a: ExprArray = parse2(quote!([#ts])).map_err(|e| e.to_string())?;
        let mut xs: Vec<Expr> = vec![]; let mut t0 = expect.arg(0);
        for e in &a.elems { let (x, t) = self.expr(e, &expect.arg(0), false)?; if t0.is_unk() { t0 = t; } xs.push(x); }
        Ok((parse_quote!(vec![#(#xs),*]), Ty::n1("Vec", t0)))
      }
      "format" => self.format(m),
      "matches" => {
        struct M { e: Expr, p: Pat, g: Option<Expr> }
        impl syn::parse::Parse for M {
          fn parse(i: syn::parse::ParseStream) -> Result<Self> {
            let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
            let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
            let _ = i.parse::<Option<Token![,]>>()?;
            Ok(M { e, p, g })
          }
        }
        let M { e, p, g } = parse2::<M>(m.tokens.clone()).map_err(|e| e.to_string())?;
        let g: Option<TokenStream> = g.map(|g| quote!(if #g));
        let x: Expr = parse_quote!(match #e { #p #g => true, _ => false });
        self.expr(&x, &Ty::n("bool"), false)
      }
      "assert" | "debug_assert" => {
        let a: punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(punctuated::Punctuated::parse_terminated).map_err(|e| e.to_string())?;
        let (x, _) = self.expr(&a[0], &Ty::n("bool"), false)?;
        let x = wrap_p(x);
        Ok((parse_quote!(if !#x { vx_unreachable::<()>() }), Ty::Tuple(vec![])))
      }
      _ => Err(format!("macro {}!", n)),
    }
  }
  fn format(&mut self, m: &Macro) -> R<(Expr, Ty)> {
    let a: punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(punctuated::Punctuated::parse_terminated).map_err(|e| e.to_string())?;
    let f = match a.first() { Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(), _ => return Err("format string".into()) };
    let mut args = a.iter().skip(1);
    let mut out: Option<Expr> = None;
    let mut lit = String::new();
    let cs: Vec<char> = f.chars().collect();
    let mut i = 0;
    let mut parts: Vec<Expr> = vec![];
    macro_rules! flush { () => { if !lit.is_empty() { let l = &lit; parts.push(parse_quote!(vx_to_string(#l))); lit.clear(); } } }
    while i < cs.len() {
      if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] == '{' { lit.push('{'); i += 2; continue; }
      if cs[i] == '}' && i + 1 < cs.len() && cs[i + 1] == '}' { lit.push('}'); i += 2; continue; }
      if cs[i] == '{' {
        let j = (i..cs.len()).find(|k| cs[*k] == '}').ok_or("format string")?;
        let name: String = cs[i + 1..j].iter().collect();
        if name.contains(':') { return Err("format specifier".into()); }
        let e: Expr = if name.is_empty() { args.next().ok_or("format args")?.clone() } else { parse_str(&name).map_err(|e| e.to_string())? };
        flush!();
        let (x, t) = self.expr(&e, &Ty::Unk, false)?;
        parts.push(self.to_string(x, &t)?);
        i = j + 1;
        continue;
      }
      lit.push(cs[i]); i += 1;
    }
    flush!();
    for p in parts { out = Some(match out { None => p, Some(o) => parse_quote!(vx_cat(#o, #p)) }); }
    Ok((out.unwrap_or(parse_quote!(String::new())), Ty::n("String")))
  }

  // ---------- calls
  fn call(&mut self, c: &ExprCall, expect: &Ty, tail: bool) -> R<(Expr, Ty)> {
    let cm = std::mem::replace(&mut self.call_mode, Mode::Plain);
    let cm = if tail && self.no_try == 0 { Mode::Tail } else { cm };
    let p = match unparen(&c.func) { Expr::Path(p) => p.clone(), _ => return Err("call of an expression".into()) };
    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
    let last = segs.last().unwrap().clone();
    if segs.len() == 1 {
      if let Some(cl) = self.lookup_clo(&last) {
        for (n, idn) in &cl.free { if self.lookup(n).map(|v| v.id) != Some(*idn) { return Err("closure captures a shadowed variable".into()); } }
        let mut args = vec![];
        for (a, p) in c.args.iter().zip(cl.c.inputs.iter()) {
          let ex = if let Pat::Type(t) = p { self.ty(&t.ty) } else { Ty::Unk };
          let (x, t) = self.expr(a, &ex, false)?;
          args.push((x, if ex.is_unk() { t } else { ex }));
        }
        return self.apply(&Expr::Closure(cl.c), args, expect);
      }
      match last.as_str() {
        "Some" | "Ok" | "Err" => {
          let (ex, w) = match last.as_str() { "Some" => (expect.arg(0), "Option"), "Ok" => (expect.arg(0), "Result"), _ => (expect.arg(1), "Result") };
          if last == "Ok" {
            if let Expr::Try(t) = unparen(&c.args[0]) { let _ = t; }
          }
          let (x, t) = self.expr(&c.args[0], &ex, false)?;
          let f = id(&last);
          let ty = match (w, last.as_str()) { ("Option", _) => Ty::n1("Option", t), (_, "Ok") => Ty::Named("Result".into(), vec![t, expect.arg(1)]), _ => Ty::Named("Result".into(), vec![expect.arg(0), t]) };
          return Ok((parse_quote!(#f(#x)), ty));
        }
        _ => {}
      }
    }
    let en = self.enum_of(&p.path, &Ty::Unk);
    if segs.len() >= 2 {
      // enum constructors
      if let Some(v) = self.items.enums.get(&en).and_then(|vs| vs.iter().find(|v| v.name == last)) {
        let kinds: Vec<Ty> = v.kinds.iter().map(|k| k.1.clone()).collect();
        let mut q = p.clone(); fix_path(&mut q.path, &self.self_ty);
        let mut xs = vec![];
        for (i, a) in c.args.iter().enumerate() { xs.push(self.expr(a, &kinds.get(i).cloned().unwrap_or(Ty::Unk), false)?.0); }
        return Ok((parse_quote!(#q(#(#xs),*)), Ty::n(&en)));
      }
      match (en.as_str(), last.as_str()) {
        ("Default", "default") => { let n = expect.name(); return self.default_of(expect).map(|x| (x, if n.is_empty() { Ty::Unk } else { expect.clone() })); }
        ("String", "new") => return Ok((parse_quote!(String::new()), Ty::n("String"))),
        ("Vec", "new") | ("Vec", "with_capacity") => return Ok((parse_quote!(Vec::new()), if expect.is("Vec") { expect.clone() } else { Ty::n1("Vec", Ty::Unk) })),
        ("BTreeSet", "new") => return Ok((parse_quote!(BTreeSet::new()), if expect.is("BTreeSet") { expect.clone() } else { Ty::n1("BTreeSet", Ty::Unk) })),
        ("BTreeMap", "new") => return Ok((parse_quote!(BTreeMap::new()), if expect.is("BTreeMap") { expect.clone() } else { Ty::Named("BTreeMap".into(), vec![Ty::Unk, Ty::Unk]) })),
        ("String", "from") => { let (x, t) = self.expr(&c.args[0], &Ty::Unk, false)?; return Ok((self.to_string(x, &t)?, Ty::n("String"))); }
        ("ToString", "to_string") => { let (x, t) = self.expr(&c.args[0], &Ty::Unk, false)?; return Ok((self.to_string(x, &t)?, Ty::n("String"))); }
        ("Vec", "from") => { let (x, t) = self.expr(&c.args[0], &Ty::Unk, false)?; if let Expr::Array(a) = unparen(&x) { let e = &a.elems; return Ok((parse_quote!(vec![#e]), Ty::n1("Vec", t.arg(0)))); } let r = self.as_ref1(x, &t); return Ok((parse_quote!(vx_slice_vec(#r)), Ty::n1("Vec", t.arg(0)))); }
        ("BTreeSet", "from") | ("BTreeSet", "from_iter") => {
          let (x, t) = self.vec_of_iter(&c.args[0])?;
          return Ok((parse_quote!(vx_set_from_vec(#x)), Ty::n1("BTreeSet", t)));
        }
        ("Some", _) => {}
        _ => {}
      }
      if last == "default" && self.items.defaults.contains_key(&en) { let i = id(&en); return Ok((parse_quote!(#i::vx_default()), Ty::n(&en))); }
      if en == "Error" && last == "new_from_span" {
        let (a, _) = self.expr(&c.args[0], &Ty::Unk, false)?; let (b, _) = self.expr(&c.args[1], &Ty::Unk, false)?;
        return Ok((parse_quote!(Error::new_from_span(#a, #b)), Ty::n("Error")));
      }
      if en == "Span" && last == "new" {
        let mut xs = vec![]; for a in &c.args { xs.push(self.expr(a, &Ty::Unk, false)?.0); }
        return Ok((parse_quote!(Span::new(#(#xs),*)), Ty::n1("Option", Ty::n("Span"))));
      }
      if en == "DBMLParser" && last == "parse" {
        let mut xs = vec![]; for a in &c.args { xs.push(self.expr(a, &Ty::Unk, false)?.0); }
        return Ok((parse_quote!(DBMLParser::parse(#(#xs),*)), Ty::Named("Result".into(), vec![Ty::n("Pairs"), Ty::n("Error")])));
      }
    }
    // user functions
    let last = if segs.len() == 1 || self.items.renames.contains_key(&last) { self.items.renames.get(&last).cloned().unwrap_or(last) } else { last };
    let key = if segs.len() >= 2 && self.items.fns.contains_key(&format!("{}::{}", en, last)) { format!("{}::{}", en, last) } else { last.clone() };
    if self.inline_fns.contains_key(&key) { return self.inline(&key, None, &c.args.iter().cloned().collect::<Vec<_>>(), expect, cm); }
    if let Some(f) = self.items.fns.get(&key) {
      let params = f.params.clone(); let ret = f.ret.clone(); let has_self = f.has_self;
      let mut xs: Vec<Expr> = vec![];
      for (i, a) in c.args.iter().enumerate() {
        let off = if has_self { 1 } else { 0 };
        let pt = if has_self && i == 0 { Ty::Unk } else { params.get(i - off).map(|x| x.1.clone()).unwrap_or(Ty::Unk) };
        if pt.is("VxToString") { let (x, t) = self.expr(a, &Ty::Unk, false)?; xs.push(if t.refs() == 0 && t.is("String") { x } else { self.to_string(x, &t)? }); continue; }
        if pt.is("VxIter") { let (x, _) = self.vec_of_iter(a)?; xs.push(x); continue; }
        xs.push(self.expr(a, &pt, false)?.0);
      }
      if last == "throw_err" {
        // a marker for proof hints, keyed by the kind of error
        let kind = c.args[0].to_token_stream().to_string().replace(' ', "");
        let kind = kind.trim_start_matches("Err::").split(|ch: char| !ch.is_alphanumeric()).next().unwrap_or("").to_string();
        self.cur_sig = c.to_token_stream().to_string();
        let l = self.label(&format!("throw_{}", kind));
        let k = format!("{}/{}:before", self.fname, l);
        let _ = self.hint(k.clone());
        let q = id(&last);
        let ret = if ret.arg(0).is("T") { Ty::Named("Result".into(), vec![expect.arg(0), Ty::n("Error")]) } else { ret };
        return Ok((parse_quote!({ vx_hint!(#k); #q(#(#xs),*) }), ret));
      }
      let ret = if ret.arg(0).is("T") { Ty::Named("Result".into(), vec![expect.arg(0), ret.arg(1)]) } else { ret };
      let q: Expr = if key.contains("::") { let (a, b) = (id(&en), id(&last)); parse_quote!(#a::#b) } else { let b = id(&last); parse_quote!(#b) };
      return Ok((parse_quote!(#q(#(#xs),*)), ret));
    }
    Err(format!("call of `{}`", c.func.to_token_stream()))
  }
  /// The body of a function without a contract, in place of a call of it. With `?` behind the call the
  /// errors of the body leave the caller as they would have done after the call.
  fn inline(&mut self, key: &str, recv: Option<(Expr, Ty)>, args: &[Expr], expect: &Ty, mode: Mode) -> R<(Expr, Ty)> {
    if self.inline_stack.iter().any(|k| k == key) { return Err(format!("recursive function `{}` without a contract", key)); }
    let fns = self.inline_fns;
    let f = &fns[key];
    if f.sig.generics.type_params().next().is_some() || f.sig.generics.where_clause.is_some() { return Err(format!("generic function `{}` without a contract", key)); }
    let ret = self.items.fns[key].ret.clone();
    let mode = match mode { Mode::Tail if ret == self.ret => Mode::Tail, Mode::Tail => Mode::Plain, m => m };
    let mut args: Vec<Expr> = args.to_vec();
    let mut pre: Vec<Stmt> = vec![];
    let mut vals: Vec<Ident> = vec![];
    let mut recv = recv;
    let has_self = f.sig.receiver().is_some();
    if has_self && recv.is_none() { if args.is_empty() { return Err("receiver".into()); } let a = args.remove(0); recv = Some(self.expr(&a, &Ty::Unk, false)?); }
    let mut self_bind: Option<(Ident, Ty)> = None;
    if let (Some(r), Some((x, t))) = (f.sig.receiver(), recv) {
      let v = format_ident!("vx_self{}", self.fresh());
      let (x, ty): (Expr, Ty) = match (&r.reference, &r.mutability) {
        (Some(_), None) => (if t.refs() == 1 { parse_quote!(&*#x) } else { self.as_ref1(x, &t) }, t.strip().r()),
        (Some(_), Some(_)) => (self.mut_of(&x, &t)?, t.strip().r()),
        _ => { if t.refs() > 0 { return Err("receiver by value".into()); } (x, t) }
      };
      pre.push(parse_quote!(let #v = #x;));
      self_bind = Some((v, ty));
    }
    if args.len() != f.params.len() { return Err(format!("arguments of `{}`", key)); }
    let mut body = f.block.clone();
    let mut params = f.params.clone();
    let bound = { let mut b = Bound(Default::default()); b.visit_block(&body); b.0 };
    let all: Vec<String> = params.iter().filter_map(|p| simple(&p.0)).collect();
    let mut direct: Vec<Option<String>> = vec![];
    for (a, (p, st, ty)) in args.iter().zip(params.iter_mut()) {
      direct.push(None);
      let q = match simple(p) { Some(q) if !bound.contains(&q) => q, _ => continue };
      // a variable lent to the function is the function's parameter
      if let (Expr::Reference(r), Some(Type::Reference(sr))) = (unparen(a), &st) {
        if let (Some(_), Some(_), Expr::Path(v)) = (&r.mutability, &sr.mutability, unparen(&r.expr)) {
          if let Some(v) = v.path.get_ident().map(|i| i.to_string()) {
            let own = self.lookup(&v).map_or(false, |x| x.ty.refs() == 0 && !x.ty.is_unk()) && ty.refs() == 1;
            if own && !bound.contains(&v) && (v == q || !all.contains(&v)) {
              let mut l = Lent { q: q.clone(), v: format_ident!("{}", v), bad: false };
              let mut b = body.clone();
              syn::visit_mut::VisitMut::visit_block_mut(&mut l, &mut b);
              if !l.bad { body = b; *direct.last_mut().unwrap() = Some(v); continue; }
            }
          }
        }
      }
      // contracts speak of the variables of the function they belong to: a parameter must not hide another one of these
      let of = { let mut e = unparen(a).clone(); loop { e = match e { Expr::Reference(r) => *r.expr, Expr::Unary(u) => *u.expr, Expr::Paren(p) => *p.expr, Expr::Group(p) => *p.expr, e => break e }; } };
      let same = matches!(&of, Expr::Path(v) if v.path.is_ident(&q));
      let hides = self.lookup(&q).is_some() || self.outers.last().map_or(false, |o| o.contains_key(&q));
      let txt = body.to_token_stream().to_string();
      if hides && !same && !txt.contains(&format!("{{{}}}", q)) && !txt.contains(&format!("{{{}:", q)) {
        let n = format_ident!("{}_vx{}", q, self.fresh());
        syn::visit_mut::VisitMut::visit_block_mut(&mut RenameVar(q.clone(), n.clone()), &mut body);
        if let Pat::Ident(i) = p { i.ident = n; }
      }
    }
    for ((a, (_, st, ty)), d) in args.iter().zip(&params).zip(&direct) {
      let v = format_ident!("vx_p{}", self.fresh());
      if d.is_some() { vals.push(v); continue; }
      let x: Expr = if ty.is("VxToString") { let (x, t) = self.expr(a, &Ty::Unk, false)?; self.to_string(x, &t)? }
        else if ty.is("VxIter") { self.vec_of_iter(a)?.0 }
        else {
          if matches!(unparen(a), Expr::Closure(_)) { return Err(format!("closure argument of `{}`", key)); }
          let (x, t) = self.expr(a, ty, false)?;
          // an array where a slice is wanted
          let x: Expr = match (unparen(a), unparen(&x)) { (Expr::Reference(q), Expr::Reference(y)) if ty.is("Vec") && matches!(unparen(&q.expr), Expr::Array(_)) => match unparen(&y.expr) { Expr::Array(z) => { let el = &z.elems; parse_quote!(&vec![#el]) } _ => x.clone() }, _ => x };
          let by_mut = matches!(st, Some(Type::Reference(r)) if r.mutability.is_some());
          if by_mut && !matches!(unparen(a), Expr::Reference(_)) { let y = wrap_p(x); parse_quote!(&mut *#y) }
          // a reference to a String where a str is wanted
          else if ty.is("str") && ty.refs() == 1 && t.is("String") { let r = self.as_ref1(x, &t); let r = wrap_p(r); parse_quote!(#r.as_str()) }
          else if ty.refs() == 1 && t.refs() > 1 { self.as_ref1(x, &t) }
          else { x }
        };
      pre.push(parse_quote!(let #v = #x;));
      vals.push(v);
    }
    // early returns of the form `if c { return e; } ..` become the value of the block
    let lent: Vec<(String, Ty)> = direct.iter().flatten().filter_map(|v| self.lookup(v).map(|x| (v.clone(), x.ty.clone()))).collect();
    if !matches!(mode, Mode::Tail) { structured(&mut body)?; }
    if let Some((v, _)) = &self_bind { syn::visit_mut::VisitMut::visit_block_mut(&mut RenameSelf(v.clone()), &mut body); }
    let seen = self.ref_counts(); self.outers.push(seen);
    let outer = (std::mem::replace(&mut self.scopes, vec![HashMap::new()]), std::mem::replace(&mut self.closures, vec![HashMap::new()]), std::mem::replace(&mut self.self_ty, f.self_ty.clone()), std::mem::replace(&mut self.ret, ret.clone()), self.no_try, self.let_name.take());
    self.inline_stack.push(key.to_string());
    let r = (|| {
      if let Some((v, t)) = &self_bind { self.bind(&v.to_string(), t.clone()); }
      let mut lets = pre;
      for (v, t) in &lent { self.bind(v, t.clone()); }
      for (((p, st, ty), v), d) in params.iter().zip(&vals).zip(&direct) {
        if d.is_some() { continue; }
        let ty = if ty.is("VxToString") { Ty::n("String") } else { ty.clone() };
        self.bind_pat(p, &ty);
        let p = self.low_pat(p)?;
        match (st, &p) { (_, Pat::Wild(_)) => lets.push(parse_quote!(let _ = #v;)), _ => lets.push(parse_quote!(let #p = #v;)) }
        let _ = st;
      }
      let ev: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: body.clone() });
      match mode {
        Mode::Tail => {
          let (b, t) = self.block(&body, &ret, true)?;
          Ok::<_, String>((parse_quote!({ #(#lets)* #b }), t, false))
        }
        Mode::Try if ret.is("Result") => {
          let mut bad = BadReturn(false); bad.visit_block(&body);
          if bad.0 { return Err(format!("return inside `{}`", key)); }
          self.no_try = 0;
          let tail = match body.stmts.last() { Some(Stmt::Expr(e, None)) => e.clone(), _ => return Err(format!("value of `{}`", key)) };
          self.push();
          let mut bb = body.clone(); bb.stmts.pop();
          let r = (|| {
            let (st, _) = self.block_inner(&bb, &Ty::Unk, false)?;
            let st = st.stmts;
            if let Expr::Call(c) = unparen(&tail) { if c.func.to_token_stream().to_string() == "Ok" && c.args.len() == 1 {
              let (x, t) = self.expr(&c.args[0], &ret.arg(0), false)?;
              return Ok((parse_quote!({ #(#lets)* #(#st)* #x }), if t.is_unk() { ret.arg(0) } else { t }, true));
            } }
            if let Expr::MethodCall(tm) = unparen(&tail) { if ["collect", "try_fold"].contains(&tm.method.to_string().as_str()) {
              let (x, t) = self.expr(&parse_quote!(#tail?), &ret.arg(0), false)?;
              return Ok((parse_quote!({ #(#lets)* #(#st)* #x }), if t.is_unk() { ret.arg(0) } else { t }, true));
            } }
            let (x, _) = self.expr(&tail, &ret, false)?;
            let q = format_ident!("vx_q{}", self.fresh());
            let ann = f.ret_type.clone();
            let l: Stmt = match ann { Some(t) => parse_quote!(let #q: #t = #x;), None => parse_quote!(let #q = #x;) };
            Ok::<_, String>((parse_quote!({ #(#lets)* #(#st)* #l #q? }), ret.arg(0), true))
          })();
          self.pop();
          r
        }
        _ => {
          if has_return(&ev) { return Err(format!("return inside `{}`", key)); }
          if has_try(&ev) { return Err(format!("`?` inside `{}`", key)); }
          self.no_try += 1;
          let (b, t) = self.block(&body, &ret, false)?;
          let t = if ret.is_unk() { t } else { ret.clone() };
          if let (true, Some(ty)) = (ret.is("Result") || ret.is("Option"), f.ret_type.clone()) {
            let q = format_ident!("vx_q{}", self.fresh());
            return Ok((parse_quote!({ #(#lets)* let #q: #ty = #b; #q }), t, false));
          }
          Ok((parse_quote!({ #(#lets)* #b }), t, false))
        }
      }
    })();
    self.inline_stack.pop();
    self.outers.pop();
    self.scopes = outer.0; self.closures = outer.1; self.self_ty = outer.2; self.ret = outer.3; self.no_try = outer.4; self.let_name = outer.5;
    let (x, t, tried) = r?;
    let _ = expect;
    self.was_tried = tried;
    self.inlined.insert(key.to_string());
    Ok((x, t))
  }
  fn vec_of_iter(&mut self, a: &Expr) -> R<(Expr, Ty)> {
    if let Some((s, ads)) = self.chain(a)? {
      if ads.is_empty() && !s.by_ref && s.pre.is_none() { return Ok((s.expr, s.elem)); }
      let base = "iter".to_string();
      self.cur_sig = a.to_token_stream().to_string();
      let k = self.label("iterv");
      let o = format_ident!("vx_c_{}", k);
      let mut elem = Ty::Unk;
      let el_ty = s.elem.clone();
      let mut x = "vx_s_$l@[vx_j]".to_string(); for _ in (if el_ty.is("str") { 1 } else { 0 })..el_ty.refs() { x = format!("(*{})", x); }
      let mut auto = vec![];
      if let Some((sp, _)) = self.spec_chain(&ads, &(x, el_ty.strip())) {
        let f = sp.filter.clone().map(|g| format!("({}) && ", g)).unwrap_or_default();
        let f2 = sp.filter.clone().map(|g| format!("({}) ==> ", g)).unwrap_or_default();
        if sp.filter.is_none() {
          auto.push(format!("vx_c_{k}@.len() == vx_i_$l"));
          auto.push(format!("forall|vx_j: int| 0 <= vx_j < vx_i_$l ==> #VDEREF#(#[trigger] vx_c_{k}@[vx_j]) == {v}", v = sp.value));
        } else {
          let v2 = sp.value.replacen("vx_s_$l@[vx_j]", "(#[trigger] vx_s_$l@[vx_j])", 1);
          let f3 = f2.replacen("vx_s_$l@[vx_j]", "(#[trigger] vx_s_$l@[vx_j])", 1);
          auto.push(format!("vx_c_{k}@.len() <= vx_i_$l"));
          auto.push(format!("forall|vx_k: int| 0 <= vx_k < vx_c_{k}@.len() ==> exists|vx_j: int| 0 <= vx_j < vx_i_$l && {f}#VDEREF#(#[trigger] vx_c_{k}@[vx_k]) == {v2}"));
          auto.push(format!("forall|vx_j: int| 0 <= vx_j < vx_i_$l ==> {f3}exists|vx_k: int| 0 <= vx_k < vx_c_{k}@.len() && #VDEREF#(#[trigger] vx_c_{k}@[vx_k]) == {v}", v = sp.value));
        }
      }
      let (st, _, _) = self.run(s, ads, &base, None, &mut auto, &mut |_, it, ty| { elem = ty; Ok(parse_quote!(#o.push(#it);)) })?;
      let d = "*".repeat(elem.refs());
      if let Some(l) = self.loops.last_mut() { for a in l.auto.iter_mut() { *a = a.replace("#VDEREF#", &d); } }
      let et = elem.to_type().map(|t| quote!(::<#t>));
      return Ok((parse_quote!({ let mut #o = Vec #et ::new(); #(#st)* #o }), elem));
    }
    let (x, t) = self.expr(a, &Ty::Unk, false)?;
    match t.strip() {
      Ty::Array(e) => { if let Expr::Array(a) = unparen(&x) { let el = &a.elems; return Ok((parse_quote!(vec![#el]), *e)); } Err("array".into()) }
      _ => { let s = self.src_of(x, t, false)?; if s.pre.is_some() { return Err("iteration over a temporary option".into()); } if s.by_ref { let e = s.expr; Ok((parse_quote!(vx_refs(#e)), s.elem.r())) } else { Ok((s.expr, s.elem)) } }
    }
  }
  fn default_of(&self, t: &Ty) -> R<Expr> {
    Ok(match t.strip() {
      Ty::Named(n, _) if n == "Vec" => parse_quote!(Vec::new()),
      Ty::Named(n, _) if n == "String" => parse_quote!(String::new()),
      Ty::Named(n, _) if n == "bool" => parse_quote!(false),
      Ty::Named(n, _) if n == "Option" => parse_quote!(None),
      Ty::Named(n, _) if n == "Range" => parse_quote!(vx_range(0, 0)),
      Ty::Named(n, _) if n == "BTreeSet" => parse_quote!(BTreeSet::new()),
      Ty::Named(n, _) if n == "BTreeMap" => parse_quote!(BTreeMap::new()),
      Ty::Named(n, _) if self.items.defaults.contains_key(&n) => { let i = id(&n); parse_quote!(#i::vx_default()) }
      t if t.is_num() => parse_quote!(0),
      t => return Err(format!("default of {:?}", t)),
    })
  }

  fn method(&mut self, m: &ExprMethodCall, expect: &Ty, tail: bool) -> R<(Expr, Ty)> {
    let n = m.method.to_string();
    let cm = std::mem::replace(&mut self.call_mode, Mode::Plain);
    let cm = if tail && self.no_try == 0 { Mode::Tail } else { cm };
    // iterator consumers
    let mode = if tail && self.no_try == 0 { Mode::Tail } else { Mode::Plain };
    if let Some(r) = self.consumer(m, expect, mode)? { return Ok(r); }
    // map entry API
    if let Some(r) = self.entry(m)? { return Ok(r); }
    // `[a, b].contains(&x)`
    if n == "contains" {
      // `(a..b).contains(&x)` on numbers
      if let Expr::Range(r) = unparen(&m.receiver) {
        let arg: Expr = match unparen(&m.args[0]) { Expr::Reference(r) => (*r.expr).clone(), e => parse_quote!((*#e)) };
        let mut out: Option<Expr> = None;
        if let Some(a) = &r.start { out = Some(parse_quote!((#a) <= vx_in)); }
        if let Some(b) = &r.end { let c: Expr = if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!(vx_in <= (#b)) } else { parse_quote!(vx_in < (#b)) }; out = Some(match out { None => c, Some(o) => parse_quote!(#o && #c) }); }
        let out = out.ok_or("full range")?;
        return self.expr(&parse_quote!({ let vx_in = #arg; #out }), &Ty::n("bool"), false).map(|x| (x.0, Ty::n("bool")));
      }
      if let Expr::Array(a) = unparen(&m.receiver) {
        let arg = match unparen(&m.args[0]) { Expr::Reference(r) => (*r.expr).clone(), e => parse_quote!(*#e) };
        let mut out: Option<Expr> = None;
        for e in &a.elems { let c: Expr = parse_quote!((#arg) == (#e)); out = Some(match out { None => c, Some(o) => parse_quote!(#o || #c) }); }
        return self.expr(&out.ok_or("empty array")?, &Ty::n("bool"), false);
      }
    }
    if n == "retain" && m.args.len() == 1 {
      let recv = (*m.receiver).clone();
      let f = m.args[0].clone();
      let (x, t) = self.expr(&recv, &Ty::Unk, false)?;
      if !t.is("Vec") || t.refs() > 1 || !is_place(&x) { return Err("retain".into()); }
      let it: Expr = parse_quote!(#recv.iter().filter(|vx_q| (#f)(*vx_q)));
      let it = match unparen(&f) { Expr::Closure(c) if c.inputs.len() == 1 => { let p = &c.inputs[0]; let b = &c.body; parse_quote!(#recv.iter().filter(|&#p| #b).cloned()) } _ => { let _ = it; return Err("retain".into()) } };
      let (v, _) = self.vec_of_iter(&it)?;
      let xp = self.as_val(x, &t);
      return Ok((parse_quote!(#xp = #v), Ty::Tuple(vec![])));
    }
    let (x, t) = self.expr(&m.receiver, &Ty::Unk, false)?;
    let tn = t.name();
    let xp = wrap_p(x.clone());
    let un = Ty::Unk;
    match (tn.as_str(), n.as_str()) {
      (_, "clone") if m.args.is_empty() => { let r = self.as_ref1(x, &t); return Ok((parse_quote!(vx_clone(#r)), t.strip())); }
      (_, "to_string") | ("str", "to_owned") | ("String", "to_owned") => return Ok((self.to_string(x, &t)?, Ty::n("String"))),
      ("str", "into") | ("String", "into") if expect.is_unk() || expect.is("String") => return Ok((self.to_string(x, &t)?, Ty::n("String"))),
      ("bool", "then") => {
        let (b, bt) = self.apply(&m.args[0], vec![], &expect.arg(0))?;
        return Ok((parse_quote!(if #xp { Some(#b) } else { None }), Ty::n1("Option", bt)));
      }
      ("bool", "then_some") => { let (b, bt) = self.expr(&m.args[0], &expect.arg(0), false)?; return Ok((parse_quote!(if #xp { Some(#b) } else { None }), Ty::n1("Option", bt))); }
      ("String", "as_str") | ("String", "as_ref") | ("String", "deref") => return Ok((parse_quote!(#xp.as_str()), Ty::n("str").r())),
      ("str", "as_ref") | ("str", "as_str") => return Ok((x, t)),
      ("String", "is_empty") | ("str", "is_empty") => { let r = self.as_ref1(x, &t); return Ok((parse_quote!(vx_str_is_empty(#r)), Ty::n("bool"))); }
      ("String", "len") | ("str", "len") => { let r = self.as_ref1(x, &t); return Ok((parse_quote!(vx_str_len(#r)), Ty::n("usize"))); }
      ("str", "parse") | ("String", "parse") => {
        let tt = match &m.turbofish { Some(t) => match t.args.first() { Some(GenericArgument::Type(t)) => self.ty(t), _ => un }, None => expect.arg(0) };
        let r = self.as_ref1(x, &t);
        let name = tt.name();
        if ["u32", "i64", "f64", "i32", "u64", "usize"].contains(&name.as_str()) { let f = format_ident!("vx_parse_{}", name); return Ok((parse_quote!(#f(#r)), Ty::Named("Result".into(), vec![tt, Ty::n("VxParseErr")]))); }
        if let Some(f) = self.items.fns.get(&format!("{}::from_str", name)) { let i = id(&name); return Ok((parse_quote!(#i::from_str(#r)), f.ret.clone())); }
        return Err("parse of an unknown type".into());
      }
      ("Pair", "as_rule") => return Ok((parse_quote!(#xp.as_rule()), Ty::n("Rule"))),
      ("Pair", "as_str") | ("Pairs", "as_str") => return Ok((parse_quote!(#xp.as_str()), Ty::n("str").r())),
      ("Pair", "as_span") => return Ok((parse_quote!(#xp.as_span()), Ty::n("Span"))),
      ("Pair", "into_inner") => return Ok((parse_quote!(#xp.into_inner()), Ty::n("Pairs"))),
      ("Pairs", "next") => return Ok((parse_quote!(#xp.next()), Ty::n1("Option", Ty::n("Pair")))),
      ("Span", "start") | ("Span", "end") => { let i = &m.method; return Ok((parse_quote!(#xp.#i()), Ty::n("usize"))); }
      ("Vec", "len") | ("BTreeSet", "len") | ("BTreeMap", "len") => return Ok((parse_quote!(#xp.len()), Ty::n("usize"))),
      ("Vec", "is_empty") => return Ok((parse_quote!((#xp.len() == 0)), Ty::n("bool"))),
      ("BTreeSet", "is_empty") | ("BTreeMap", "is_empty") => return Ok((parse_quote!((#xp.len() == 0)), Ty::n("bool"))),
      ("Vec", "push") => {
        let (a, at) = self.expr(&m.args[0], &t.arg(0), false)?;
        if t.arg(0).is_unk() { self.refine(&m.receiver, Ty::n1("Vec", at)); }
        return Ok((parse_quote!(#xp.push(#a)), Ty::Tuple(vec![])));
      }
      ("Vec", "extend") | ("Vec", "append") => {
        if let Some(_) = self.chain(&m.args[0])? { let (a, _) = self.vec_of_iter(&m.args[0])?; return Ok((parse_quote!(vx_extend(&mut #xp, #a)), Ty::Tuple(vec![]))); }
        let (a, at) = self.expr(&m.args[0], &t, false)?;
        if !at.is("Vec") || at.refs() > 0 { return Err("extend".into()); }
        let r = self.mut_of(&x, &t)?;
        return Ok((parse_quote!(vx_extend(#r, #a)), Ty::Tuple(vec![])));
      }
      ("Vec", "remove") => { let (a, _) = self.expr(&m.args[0], &Ty::n("usize"), false)?; return Ok((parse_quote!(#xp.remove(#a)), t.arg(0))); }
      ("Vec", "pop") => return Ok((parse_quote!(#xp.pop()), Ty::n1("Option", t.arg(0)))),
      ("Vec", "first") | ("Vec", "last") => { let r = self.as_ref1(x, &t); let f = format_ident!("vx_{}", n); return Ok((parse_quote!(#f(#r)), Ty::n1("Option", t.arg(0).r()))); }
      ("Vec", "get") => { let r = self.as_ref1(x, &t); let (a, _) = self.expr(&m.args[0], &Ty::n("usize"), false)?; return Ok((parse_quote!(vx_get(#r, #a)), Ty::n1("Option", t.arg(0).r()))); }
      ("Range", "is_empty") if m.args.is_empty() => return Ok((parse_quote!((!(#xp.start < #xp.end))), Ty::n("bool"))),
      ("Vec", "contains") => { let r = self.as_ref1(x, &t); let (a, at) = self.expr(&m.args[0], &t.arg(0).r(), false)?; let _ = at; return Ok((parse_quote!(vx_vec_contains(#r, #a)), Ty::n("bool"))); }
      ("Vec", "as_slice") | ("Vec", "to_vec") => return Err(n),
      ("Vec", "clear") | ("BTreeSet", "clear") | ("BTreeMap", "clear") | ("String", "clear") => { let r = self.mut_of(&x, &t)?; let f = format_ident!("vx_{}_clear", tn.to_lowercase()); return Ok((parse_quote!(#f(#r)), Ty::Tuple(vec![]))); }
      ("Vec", "reverse") => { let r = self.mut_of(&x, &t)?; return Ok((parse_quote!(vx_vec_reverse(#r)), Ty::Tuple(vec![]))); }
      ("Vec", "truncate") => { let r = self.mut_of(&x, &t)?; let (a, _) = self.expr(&m.args[0], &Ty::n("usize"), false)?; return Ok((parse_quote!(vx_vec_truncate(#r, #a)), Ty::Tuple(vec![]))); }
      ("Vec", "insert") => { let (a, _) = self.expr(&m.args[0], &Ty::n("usize"), false)?; let (b, _) = self.expr(&m.args[1], &t.arg(0), false)?; return Ok((parse_quote!(#xp.insert(#a, #b)), Ty::Tuple(vec![]))); }
      ("Vec", "swap") => { let r = self.mut_of(&x, &t)?; let (a, _) = self.expr(&m.args[0], &Ty::n("usize"), false)?; let (b, _) = self.expr(&m.args[1], &Ty::n("usize"), false)?; return Ok((parse_quote!(vx_vec_swap(#r, #a, #b)), Ty::Tuple(vec![]))); }
      ("BTreeSet", "remove") => { let (a, at) = self.expr(&m.args[0], &Ty::Unk, false)?; let a = self.as_ref1(a, &at); return Ok((parse_quote!(#xp.remove(#a)), Ty::n("bool"))); }
      ("BTreeSet", "extend") => { let r = self.mut_of(&x, &t)?; let (a, at) = self.vec_of_iter(&m.args[0])?; if at.refs() != t.arg(0).refs() { return Err("extend of a set".into()); } return Ok((parse_quote!(vx_set_extend(#r, #a)), Ty::Tuple(vec![]))); }
      ("BTreeSet", "is_subset") | ("BTreeSet", "is_superset") | ("BTreeSet", "is_disjoint") => { let r = self.as_ref1(x, &t); let (a, at) = self.expr(&m.args[0], &Ty::Unk, false)?; let a = self.as_ref1(a, &at); let f = format_ident!("vx_set_{}", n); return Ok((parse_quote!(#f(#r, #a)), Ty::n("bool"))); }
      ("BTreeMap", "remove") => { let (a, at) = self.expr(&m.args[0], &Ty::Unk, false)?; let a = self.as_ref1(a, &at); return Ok((parse_quote!(#xp.remove(#a)), Ty::n1("Option", t.arg(1)))); }
      ("String", "push_str") => { let r = self.mut_of(&x, &t)?; let (a, at) = self.expr(&m.args[0], &Ty::Unk, false)?; if !at.is_stringy() { return Err("push_str".into()); } let a = self.as_ref1(a, &at); return Ok((parse_quote!(vx_push_str(#r, #a)), Ty::Tuple(vec![]))); }
      ("String", "push") => { let r = self.mut_of(&x, &t)?; let (a, _) = self.expr(&m.args[0], &Ty::n("char"), false)?; return Ok((parse_quote!(vx_push_char(#r, #a)), Ty::Tuple(vec![]))); }
      ("String", "starts_with" | "ends_with" | "contains" | "strip_prefix" | "strip_suffix") | ("str", "starts_with" | "ends_with" | "contains" | "strip_prefix" | "strip_suffix") => {
        let r = self.as_ref1(x, &t);
        let (a, at) = self.expr(&m.args[0], &Ty::Unk, false)?;
        let ret = if n.starts_with("strip") { Ty::n1("Option", Ty::n("str").r()) } else { Ty::n("bool") };
        let suf = if at.is("char") { "_char" } else if at.is_stringy() { "" } else { return Err(format!("{} with a predicate", n)) };
        let a = if at.is("char") { a } else { self.as_ref1(a, &at) };
        let f = format_ident!("vx_str_{}{}", n, suf);
        return Ok((parse_quote!(#f(#r, #a)), ret));
      }
      // what these yield is left open
      ("String", "trim" | "trim_start" | "trim_end") | ("str", "trim" | "trim_start" | "trim_end") => { let r = self.as_ref1(x, &t); let f = format_ident!("vx_str_{}", n); return Ok((parse_quote!(#f(#r)), Ty::n("str").r())); }
      ("String", "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase") | ("str", "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase") => { let r = self.as_ref1(x, &t); let f = format_ident!("vx_str_{}", n); return Ok((parse_quote!(#f(#r)), Ty::n("String"))); }
      ("String", "eq_ignore_ascii_case") | ("str", "eq_ignore_ascii_case") => { let r = self.as_ref1(x, &t); let (a, at) = self.expr(&m.args[0], &Ty::Unk, false)?; let a = self.as_ref1(a, &at); return Ok((parse_quote!(vx_str_eq_ignore_ascii_case(#r, #a)), Ty::n("bool"))); }
      ("char", "is_ascii_digit" | "is_ascii_alphabetic" | "is_ascii_alphanumeric" | "is_whitespace" | "is_alphanumeric" | "is_alphabetic" | "is_numeric" | "is_ascii_uppercase" | "is_ascii_lowercase" | "is_uppercase" | "is_lowercase" | "is_control" | "is_ascii") if m.args.is_empty() => { let v = self.as_val(x, &t); let f = format_ident!("vx_char_{}", n); return Ok((parse_quote!(#f(#v)), Ty::n("bool"))); }
      ("usize", "saturating_sub") => { let v = self.as_val(x, &t); let (a, at) = self.expr(&m.args[0], &t, false)?; let a = self.as_val(a, &at); return Ok((parse_quote!(vx_sat_sub(#v, #a)), Ty::n("usize"))); }
      ("usize", "abs_diff") => { let v = self.as_val(x, &t); let (a, at) = self.expr(&m.args[0], &t, false)?; let a = self.as_val(a, &at); return Ok((parse_quote!(vx_abs_diff(#v, #a)), Ty::n("usize"))); }
      ("BTreeSet", "insert") => {
        let (a, at) = self.expr(&m.args[0], &t.arg(0), false)?;
        if t.arg(0).is_unk() { self.refine(&m.receiver, Ty::n1("BTreeSet", at)); }
        return Ok((parse_quote!(#xp.insert(#a)), Ty::n("bool")));
      }
      ("BTreeSet", "contains") => { let (a, at) = self.expr(&m.args[0], &Ty::Unk, false)?; let a = self.as_ref1(a, &at); return Ok((parse_quote!(#xp.contains(#a)), Ty::n("bool"))); }
      ("BTreeMap", "contains_key") => { let (a, at) = self.expr(&m.args[0], &Ty::Unk, false)?; let a = self.as_ref1(a, &at); return Ok((parse_quote!(#xp.contains_key(#a)), Ty::n("bool"))); }
      ("BTreeMap", "get") => { let (a, at) = self.expr(&m.args[0], &Ty::Unk, false)?; let a = self.as_ref1(a, &at); return Ok((parse_quote!(#xp.get(#a)), Ty::n1("Option", t.arg(1).r()))); }
      ("BTreeMap", "insert") => {
        let (a, _) = self.expr(&m.args[0], &t.arg(0), false)?; let (b, _) = self.expr(&m.args[1], &t.arg(1), false)?;
        return Ok((parse_quote!(#xp.insert(#a, #b)), Ty::n1("Option", t.arg(1))));
      }
      ("usize", "max") | ("int", "max") => { let (a, _) = self.expr(&m.args[0], &t, false)?; return Ok((parse_quote!(vx_max(#x, #a)), Ty::n("usize"))); }
      ("usize", "min") => { let (a, _) = self.expr(&m.args[0], &t, false)?; return Ok((parse_quote!(vx_min(#x, #a)), Ty::n("usize"))); }
      ("Option", _) | ("Result", _) => { if let Some(r) = self.opt_method(m, x.clone(), t.clone(), expect)? { return Ok(r); } }
      _ => {}
    }
    // user methods
    let key = format!("{}::{}", tn, n);
    if self.inline_fns.contains_key(&key) { return self.inline(&key, Some((x.clone(), t)), &m.args.iter().cloned().collect::<Vec<_>>(), expect, cm); }
    if let Some(f) = self.items.fns.get(&key) {
      let params = f.params.clone(); let ret = f.ret.clone();
      let mut xs = vec![];
      for (i, a) in m.args.iter().enumerate() {
        let pt = params.get(i).map(|x| x.1.clone()).unwrap_or(Ty::Unk);
        if pt.is("VxToString") { let (x, t) = self.expr(a, &Ty::Unk, false)?; xs.push(self.to_string(x, &t)?); continue; }
        xs.push(self.expr(a, &pt, false)?.0);
      }
      let i = &m.method;
      return Ok((parse_quote!(#xp.#i(#(#xs),*)), ret));
    }
    Err(format!("method `{}` on type {:?} in `{}`", n, t, m.to_token_stream()))
  }
  fn mut_of(&self, x: &Expr, t: &Ty) -> R<Expr> {
    let xp = wrap_p(x.clone());
    if t.refs() == 0 { if !is_place(x) { return Err("change of a temporary".into()); } Ok(parse_quote!(&mut #xp)) } else { Ok(parse_quote!(&mut *#xp)) }
  }
  fn refine(&mut self, recv: &Expr, t: Ty) {
    if let Expr::Path(p) = unparen(recv) {
      if let Some(i) = p.path.get_ident() {
        let n = i.to_string();
        for s in self.scopes.iter_mut().rev() { if let Some(v) = s.get_mut(&n) { v.ty = t; return; } }
      }
    }
  }
  fn opt_method(&mut self, m: &ExprMethodCall, x: Expr, t: Ty, expect: &Ty) -> R<Option<(Expr, Ty)>> {
    let n = m.method.to_string();
    let opt = t.is("Option");
    let inner = t.arg(0);
    let byref = t.refs() > 0;
    let xp = wrap_p(x.clone());
    let a0 = m.args.first().cloned();
    Ok(Some(match n.as_str() {
      "is_some" | "is_none" | "is_ok" | "is_err" => { let i = &m.method; (parse_quote!(#xp.#i()), Ty::n("bool")) }
      "as_ref" => {
        let v = self.as_ref1(x, &t);
        if opt { (parse_quote!(vx_as_ref(#v)), Ty::n1("Option", inner.r())) } else { return Err("as_ref".into()) }
      }
      "as_deref" if opt => {
        let v = self.as_ref1(x, &t);
        if inner.is("String") { (parse_quote!(vx_as_deref(#v)), Ty::n1("Option", Ty::n("str").r())) } else { return Err("as_deref".into()) }
      }
      "cloned" | "copied" if opt => {
        let t = match inner { Ty::Ref(t) => *t, _ => return Err("cloned".into()) };
        (parse_quote!(match #x { Some(vx_o) => Some(vx_clone(vx_o)), None => None }), Ty::n1("Option", t))
      }
      "take" if opt && t.refs() <= 1 => { let v: Expr = if t.refs() == 0 { if !is_place(&x) { return Err("take of a temporary".into()) } parse_quote!(&mut #xp) } else { parse_quote!(&mut *#xp) }; (parse_quote!(vx_opt_take(#v)), t.strip()) }
      "replace" | "insert" if opt && t.refs() <= 1 => {
        let (a, at) = self.expr(&a0.unwrap(), &inner, false)?;
        if inner.is_unk() { self.refine(&m.receiver, Ty::n1("Option", at)); }
        let v: Expr = if t.refs() == 0 { if !is_place(&x) { return Err("replace in a temporary".into()) } parse_quote!(&mut #xp) } else { parse_quote!(&mut *#xp) };
        (parse_quote!(vx_opt_replace(#v, #a)), t.strip())
      }
      _ if byref => return Err(format!("{} on a reference to {}", n, t.name())),
      "map" => {
        if opt { let (v, b, bt) = self.some_arm(&a0.unwrap(), &inner, &expect.arg(0))?; (parse_quote!(match #x { Some(#v) => Some(#b), None => None }), Ty::n1("Option", bt)) }
        else { let (v, b, bt) = self.some_arm(&a0.unwrap(), &inner, &expect.arg(0))?; (parse_quote!(match #x { Ok(#v) => Ok(#b), Err(vx_e) => Err(vx_e) }), Ty::Named("Result".into(), vec![bt, t.arg(1)])) }
      }
      "map_err" if !opt => { let (v, b, bt) = self.some_arm(&a0.unwrap(), &t.arg(1), &Ty::Unk)?; (parse_quote!(match #x { Ok(vx_o) => Ok(vx_o), Err(#v) => Err(#b) }), Ty::Named("Result".into(), vec![inner, bt])) }
      "and_then" => {
        let (v, b, bt) = self.some_arm(&a0.unwrap(), &inner, expect)?;
        if opt { (parse_quote!(match #x { Some(#v) => #b, None => None }), bt) } else { (parse_quote!(match #x { Ok(#v) => #b, Err(vx_e) => Err(vx_e) }), bt) }
      }
      "or_else" if opt => { let (b, bt) = self.apply(&a0.unwrap(), vec![], &t)?; (parse_quote!(match #x { Some(vx_o) => Some(vx_o), None => #b }), if inner.is_unk() { bt } else { t }) }
      "or" if opt => { let (b, _) = self.expr(&a0.unwrap(), &t, false)?; (parse_quote!(match #x { Some(vx_o) => Some(vx_o), None => #b }), t) }
      "and" if opt => { let (b, bt) = self.expr(&a0.unwrap(), expect, false)?; (parse_quote!(vx_opt_and(#x, #b)), bt) }
      "xor" if opt => { let (b, _) = self.expr(&a0.unwrap(), &t, false)?; (parse_quote!(vx_opt_xor(#x, #b)), t) }
      "zip" if opt => { let (b, bt) = self.expr(&a0.unwrap(), &Ty::Unk, false)?; (parse_quote!(vx_opt_zip(#x, #b)), Ty::n1("Option", Ty::Tuple(vec![inner, bt.arg(0)]))) }
      "filter" if opt => { let k = self.fresh(); let v = format_ident!("vx_o{}", k); let (b, _) = self.apply(&a0.unwrap(), vec![(parse_quote!(&#v), inner.r())], &Ty::n("bool"))?; (parse_quote!(match #x { Some(#v) => if #b { Some(#v) } else { None }, None => None }), t) }
      "unwrap_or_else" => {
        if opt { let (b, bt) = self.apply(&a0.unwrap(), vec![], &inner)?; (parse_quote!(match #x { Some(vx_o) => vx_o, None => #b }), if inner.is_unk() { bt } else { inner }) }
        else { let (v, b, _) = self.some_arm(&a0.unwrap(), &t.arg(1), &inner)?; (parse_quote!(match #x { Ok(vx_o) => vx_o, Err(#v) => #b }), inner) }
      }
      "unwrap_or" if opt => { let (b, bt) = self.expr(&a0.unwrap(), &inner, false)?; (parse_quote!(match #x { Some(vx_o) => vx_o, None => #b }), if inner.is_unk() { bt } else { inner }) }
      "unwrap_or_default" if opt => { let d = self.default_of(&if inner.is_unk() { expect.clone() } else { inner.clone() })?; (parse_quote!(match #x { Some(vx_o) => vx_o, None => #d }), inner) }
      "unwrap" | "expect" => if opt { (parse_quote!(match #x { Some(vx_o) => vx_o, None => vx_unreachable() }), inner) } else { (parse_quote!(match #x { Ok(vx_o) => vx_o, Err(_) => vx_unreachable() }), inner) },
      "ok_or_else" if opt => { let (b, _) = self.apply(&a0.unwrap(), vec![], &expect.arg(1))?; (parse_quote!(match #x { Some(vx_o) => Ok(vx_o), None => Err(#b) }), Ty::Named("Result".into(), vec![inner, Ty::n("Error")])) }
      "ok_or" if opt => { let (b, bt) = self.expr(&a0.unwrap(), &expect.arg(1), false)?; (parse_quote!(match #x { Some(vx_o) => Ok(vx_o), None => Err(#b) }), Ty::Named("Result".into(), vec![inner, bt])) }
      "ok" if !opt => (parse_quote!(match #x { Ok(vx_o) => Some(vx_o), Err(_) => None }), Ty::n1("Option", inner)),
      "is_some_and" if opt => { let (v, b, _) = self.some_arm(&a0.unwrap(), &inner, &Ty::n("bool"))?; (parse_quote!(match #x { Some(#v) => #b, None => false }), Ty::n("bool")) }
      "is_none_or" if opt => { let (v, b, _) = self.some_arm(&a0.unwrap(), &inner, &Ty::n("bool"))?; (parse_quote!(match #x { Some(#v) => #b, None => true }), Ty::n("bool")) }
      "map_or" => { let (d, dt) = self.expr(&a0.unwrap(), expect, false)?; let (v, b, bt) = self.some_arm(&m.args[1].clone(), &inner, expect)?; let ty = if bt.is_unk() { dt } else { bt };
        if opt { (parse_quote!(match #x { Some(#v) => #b, None => #d }), ty) } else { (parse_quote!(match #x { Ok(#v) => #b, Err(_) => #d }), ty) } }
      "map_or_else" if opt => { let (d, _) = self.apply(&a0.unwrap(), vec![], expect)?; let (v, b, bt) = self.some_arm(&m.args[1].clone(), &inner, expect)?; (parse_quote!(match #x { Some(#v) => #b, None => #d }), bt) }
      "flatten" if opt => (parse_quote!(match #x { Some(vx_o) => vx_o, None => None }), inner),
      "clone" => return Ok(None),
      _ => return Err(format!("method {} on {}", n, t.name())),
    }))
  }
  /// M.entry(K).or_insert_with(D).path.method(args)
  fn entry(&mut self, m: &ExprMethodCall) -> R<Option<(Expr, Ty)>> {
    let mut path: Vec<Member> = vec![];
    let mut cur = unparen(&m.receiver).clone();
    loop {
      match cur.clone() {
        Expr::Field(f) => { path.insert(0, f.member.clone()); cur = unparen(&f.base).clone(); }
        Expr::MethodCall(o) if ["or_insert_with", "or_default", "or_insert"].contains(&o.method.to_string().as_str()) => {
          if let Expr::MethodCall(en) = unparen(&o.receiver) {
            if en.method != "entry" { return Ok(None); }
            let (mm, mt) = self.expr(&en.receiver, &Ty::Unk, false)?;
            if !mt.is("BTreeMap") { return Ok(None); }
            let (k, _) = self.expr(&en.args[0], &mt.arg(0), false)?;
            let vt = mt.arg(1);
            let d = match o.method.to_string().as_str() {
              "or_default" => self.default_of(&vt)?,
              "or_insert" => self.expr(&o.args[0], &vt, false)?.0,
              _ => {
                let s = o.args[0].to_token_stream().to_string().replace(' ', "");
                if s.ends_with("::default") || s.ends_with("::new") { self.default_of(&vt)? } else { self.apply(&o.args[0], vec![], &vt)?.0 }
              }
            };
            let i = self.fresh();
            let v = format_ident!("vx_v{}", i); let kk = format_ident!("vx_k{}", i); let rr = format_ident!("vx_q{}", i);
            self.push();
            self.bind(&v.to_string(), vt);
            let me = &m.method; let args = &m.args;
            let call: Expr = parse_quote!(#v #(.#path)*.#me(#args));
            let r = self.expr(&call, &Ty::Unk, false);
            self.pop();
            let (c, ct) = r?;
            return Ok(Some((parse_quote!({ let #kk = #k; let mut #v = match #mm.remove(&#kk) { Some(vx_o) => vx_o, None => #d }; let #rr = #c; #mm.insert(#kk, #v); #rr }), ct)));
          }
          return Ok(None);
        }
        _ => return Ok(None),
      }
    }
  }
}

pub enum Mode { Plain, Tail, Try }

fn wrap_p(e: Expr) -> Expr {
  match e {
    Expr::Path(_) | Expr::Field(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Lit(_) | Expr::Paren(_) | Expr::Index(_) | Expr::Tuple(_) | Expr::Macro(_) | Expr::Try(_) | Expr::Array(_) => e,
    e => parse_quote!((#e)),
  }
}
fn is_unit_block(e: &Expr) -> bool { matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) }
fn pat_is_str(p: &Pat) -> bool {
  match p { Pat::Lit(ExprLit { lit: Lit::Str(_), .. }) => true, Pat::Or(o) => o.cases.iter().any(pat_is_str), _ => false }
}
fn has_infer(t: &Type) -> bool { t.to_token_stream().to_string().contains('_') && t.to_token_stream().into_iter().any(|_| true) && format!("{}", t.to_token_stream()).split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "_") }
pub fn fix_path(p: &mut Path, self_ty: &Option<String>) {
  let n = p.segments.len();
  if n >= 2 {
    if p.segments[0].ident == "Self" { if let Some(s) = self_ty { p.segments[0].ident = id(s); } }
    if p.segments[n - 2].ident == "Err" { p.segments[n - 2].ident = id("AErr"); }
    // flat module: keep Type::Variant only
    while p.segments.len() > 2 { let segs: Vec<_> = p.segments.iter().skip(1).cloned().collect(); p.segments = segs.into_iter().collect(); }
    let first = p.segments[0].ident.to_string();
    if ["core", "alloc", "super", "crate", "self", "err", "helper"].contains(&first.as_str()) { let s = p.segments.last().unwrap().clone(); p.segments = std::iter::once(s).collect(); p.leading_colon = None; }
  } else if n == 1 && p.segments[0].ident == "Self" {
    if let Some(s) = self_ty { p.segments[0].ident = id(s); }
  }
}
/// an iterator chain that is not consumed
fn is_lazy_iter(e: &Expr) -> bool {
  match unparen(e) {
    Expr::MethodCall(m) => {
      let n = m.method.to_string();
      if n == "iter" || n == "into_iter" { return true; }
      ["map", "filter", "filter_map", "cloned", "copied", "zip", "enumerate", "rev", "skip", "take", "chain"].contains(&n.as_str()) && is_lazy_iter(&m.receiver)
    }
    _ => false,
  }
}
struct RenameSelf(Ident);
impl syn::visit_mut::VisitMut for RenameSelf {
  fn visit_path_mut(&mut self, p: &mut Path) { if p.is_ident("self") { p.segments[0].ident = self.0.clone(); } syn::visit_mut::visit_path_mut(self, p) }
  fn visit_macro_mut(&mut self, m: &mut Macro) {
    fn go(ts: TokenStream, to: &Ident) -> TokenStream { ts.into_iter().map(|t| match t { proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(to.clone()), proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), to))), t => t }).collect() }
    m.tokens = go(m.tokens.clone(), &self.0);
  }
}
fn simple(p: &Pat) -> Option<String> { match p { Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident.to_string()), _ => None } }
fn has_ident(ts: TokenStream, n: &str) -> bool { ts.into_iter().any(|t| match t { proc_macro2::TokenTree::Ident(i) => i == n, proc_macro2::TokenTree::Group(g) => has_ident(g.stream(), n), proc_macro2::TokenTree::Literal(l) => { let s = l.to_string(); s.contains(&format!("{{{}}}", n)) || s.contains(&format!("{{{}:", n)) } _ => false }) }
/// the names a block binds
struct Bound(std::collections::BTreeSet<String>);
impl<'x> Visit<'x> for Bound { fn visit_pat_ident(&mut self, p: &'x PatIdent) { self.0.insert(p.ident.to_string()); syn::visit::visit_pat_ident(self, p) } }
struct RenameVar(String, Ident);
impl syn::visit_mut::VisitMut for RenameVar {
  fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident(&self.0) { p.path.segments[0].ident = self.1.clone(); } }
  fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() { if let Expr::Path(p) = &f.expr { if p.path.is_ident(&self.0) { f.colon_token = Some(Default::default()); } } } syn::visit_mut::visit_field_value_mut(self, f) }
  fn visit_macro_mut(&mut self, m: &mut Macro) {
    fn go(ts: TokenStream, n: &str, to: &Ident) -> TokenStream { ts.into_iter().map(|t| match t { proc_macro2::TokenTree::Ident(i) if i == n => proc_macro2::TokenTree::Ident(to.clone()), proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), n, to))), t => t }).collect() }
    m.tokens = go(m.tokens.clone(), &self.0, &self.1);
  }
}
/// the parameter `q: &mut T` of a function called with `&mut v`, written as `v`
struct Lent { q: String, v: Ident, bad: bool }
impl Lent { fn is(&self, e: &Expr) -> bool { matches!(unparen(e), Expr::Path(p) if p.path.is_ident(&self.q)) } }
impl syn::visit_mut::VisitMut for Lent {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    let v = self.v.clone();
    match e {
      Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) => { *e = parse_quote!(#v); }
      Expr::Field(f) if self.is(&f.base) => { *f.base = parse_quote!(#v); }
      Expr::Index(i) if self.is(&i.expr) => { *i.expr = parse_quote!(#v); self.visit_expr_mut(&mut i.index); }
      Expr::MethodCall(m) if self.is(&m.receiver) => { *m.receiver = parse_quote!(#v); for a in m.args.iter_mut() { self.visit_expr_mut(a); } }
      Expr::Path(_) if self.is(e) => { *e = parse_quote!(&mut #v); }
      _ => syn::visit_mut::visit_expr_mut(self, e),
    }
  }
  fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if self.is(&f.expr) { self.bad = true; } else { syn::visit_mut::visit_field_value_mut(self, f) } }
  fn visit_macro_mut(&mut self, m: &mut Macro) { if has_ident(m.tokens.clone(), &self.q) { self.bad = true; } }
}
/// a return of something other than an error
struct BadReturn(bool);
impl<'x> Visit<'x> for BadReturn {
  fn visit_expr_return(&mut self, r: &'x ExprReturn) {
    let ok = match r.expr.as_deref().map(unparen) { Some(Expr::Call(c)) => { let n = c.func.to_token_stream().to_string(); n == "Err" || n.starts_with("throw_") } _ => false };
    if !ok { self.0 = true; }
  }
  fn visit_expr_closure(&mut self, _: &'x ExprClosure) {}
}
/// `return e;` at the end of a block becomes its value; what follows `if c { ..return e; }` becomes the else part
fn structured(b: &mut Block) -> R<()> {
  fn ends(b: &Block) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) }
  fn tail(e: &mut Expr) -> R<()> {
    match e {
      Expr::Return(r) => { *e = match &r.expr { Some(x) => (**x).clone(), None => parse_quote!(()) }; Ok(()) }
      Expr::If(i) => { structured(&mut i.then_branch)?; if let Some((_, e)) = &mut i.else_branch { tail(e)?; } Ok(()) }
      Expr::Block(x) => structured(&mut x.block),
      Expr::Match(m) => { for a in m.arms.iter_mut() { tail(&mut a.body)?; } Ok(()) }
      _ => Ok(()),
    }
  }
  for i in 0..b.stmts.len() {
    let last = i + 1 == b.stmts.len();
    if last { break; }
    if let Stmt::Expr(Expr::If(c), _) = &b.stmts[i] {
      if c.else_branch.is_none() && ends(&c.then_branch) {
        let mut c = c.clone();
        let rest: Vec<Stmt> = b.stmts.drain(i..).skip(1).collect();
        let mut e: Block = Block { brace_token: Default::default(), stmts: rest };
        structured(&mut e)?; structured(&mut c.then_branch)?;
        c.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: e }))));
        b.stmts.push(Stmt::Expr(Expr::If(c), None));
        return Ok(());
      }
    }
  }
  if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() { if semi.is_none() || matches!(e, Expr::Return(_)) { tail(e)?; *semi = None; } }
  Ok(())
}
struct HasStmts(bool);
impl<'x> Visit<'x> for HasStmts {
  fn visit_expr_while(&mut self, _: &'x ExprWhile) { self.0 = true; }
}
fn needs_stmts(e: &Expr) -> bool { let mut h = HasStmts(false); h.visit_expr(e); h.0 }
#[allow(dead_code)]
fn _unused(e: &Expr) -> bool { is_place(e) }
