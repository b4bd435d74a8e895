//! Translation of pure closure bodies to specification expressions (used for loop invariants
//! of loops that come from iterator chains). Anything not understood gives None and the loop
//! simply has no automatic invariant.
use crate::lower::*;
use crate::tys::*;
use std::collections::HashMap;
use syn::*;

pub struct SpecChain { pub filter: Option<String>, pub value: String }

struct Env { v: Vec<HashMap<String, (String, Ty)>> }
impl Env { fn get(&self, n: &str) -> Option<&(String, Ty)> { self.v.iter().rev().find_map(|m| m.get(n)) } }

fn unparen(e: &Expr) -> &Expr { match e { Expr::Paren(p) => unparen(&p.expr), Expr::Group(g) => unparen(&g.expr), e => e } }

impl<'a> Lower<'a> {
  pub fn spec_chain(&self, ads: &[Ad], item: &(String, Ty)) -> Option<(SpecChain, Ty)> {
    let mut v = item.clone();
    let mut f: Option<String> = None;
    for a in ads {
      match a {
        Ad::Map(c) => v = self.spec_apply(c, &[v])?,
        Ad::Filter(c) => { let p = self.spec_apply(c, &[v.clone()])?; f = Some(match f { None => p.0, Some(g) => format!("({}) && ({})", g, p.0) }); }
        Ad::Cloned | Ad::Copied => {}
        _ => return None,
      }
    }
    Some((SpecChain { filter: f, value: v.0 }, v.1))
  }
  pub fn spec_apply(&self, f: &Expr, args: &[(String, Ty)]) -> Option<(String, Ty)> {
    match unparen(f) {
      Expr::Closure(c) => {
        let mut env = Env { v: vec![HashMap::new()] };
        if c.inputs.len() != args.len() { return None; }
        for (p, a) in c.inputs.iter().zip(args) { self.spec_bind(p, a, &mut env)?; }
        self.spec_expr(&c.body, &mut env)
      }
      _ => None,
    }
  }
  fn spec_bind(&self, p: &Pat, a: &(String, Ty), env: &mut Env) -> Option<()> {
    match p {
      Pat::Ident(i) if i.subpat.is_none() => { env.v.last_mut()?.insert(i.ident.to_string(), a.clone()); Some(()) }
      Pat::Reference(r) => self.spec_bind(&r.pat, a, env),
      Pat::Paren(r) => self.spec_bind(&r.pat, a, env),
      Pat::Type(r) => self.spec_bind(&r.pat, a, env),
      Pat::Wild(_) => Some(()),
      Pat::Tuple(t) => {
        for (i, e) in t.elems.iter().enumerate() { self.spec_bind(e, &(format!("{}.{}", a.0, i), a.1.strip().arg(i).strip()), env)?; }
        Some(())
      }
      _ => None,
    }
  }
  /// a pattern of a specification match
  fn spec_pat(&self, p: &Pat, ty: &Ty, env: &mut Env) -> Option<String> {
    let path = |p: &Path| { let mut q = p.clone(); fix_path(&mut q, &self.self_ty); quote::ToTokens::to_token_stream(&q).to_string().replace(' ', "") };
    Some(match p {
      Pat::Wild(_) => "_".into(),
      Pat::Paren(x) => self.spec_pat(&x.pat, ty, env)?,
      Pat::Reference(x) => self.spec_pat(&x.pat, ty, env)?,
      Pat::Ident(i) if i.subpat.is_none() => {
        let n = i.ident.to_string();
        if n == "None" { return Some(n); }
        env.v.last_mut()?.insert(n.clone(), (n.clone(), ty.strip()));
        n
      }
      Pat::Path(x) => path(&x.path),
      Pat::Lit(l) if !matches!(l.lit, Lit::Str(_)) => quote::ToTokens::to_token_stream(l).to_string(),
      Pat::Tuple(t) => { let mut v = vec![]; for (i, e) in t.elems.iter().enumerate() { v.push(self.spec_pat(e, &ty.strip().arg(i), env)?); } format!("({})", v.join(", ")) }
      Pat::TupleStruct(t) => {
        let last = t.path.segments.last()?.ident.to_string();
        let q = path(&t.path);
        let mut v = vec![];
        for (i, e) in t.elems.iter().enumerate() {
          let et = if last == "Some" { ty.arg(0) } else { let en = q.rsplit("::").nth(1)?; self.items.enums.get(en)?.iter().find(|x| x.name == last)?.kinds.get(i)?.1.clone() };
          v.push(self.spec_pat(e, &et, env)?);
        }
        format!("{}({})", q, v.join(", "))
      }
      _ => return None,
    })
  }
  fn spec_expr(&self, e: &Expr, env: &mut Env) -> Option<(String, Ty)> {
    match e {
      Expr::Paren(p) => { let (s, t) = self.spec_expr(&p.expr, env)?; Some((format!("({})", s), t)) }
      Expr::Group(p) => self.spec_expr(&p.expr, env),
      Expr::Reference(r) => self.spec_expr(&r.expr, env),
      Expr::Block(b) => {
        // simple lets followed by a value
        env.v.push(HashMap::new());
        let r = (|| {
          let (last, lets) = b.block.stmts.split_last()?;
          for l in lets {
            let l = match l { Stmt::Local(l) => l, _ => return None };
            let i = l.init.as_ref()?; if i.diverge.is_some() { return None; }
            let v = self.spec_expr(&i.expr, env)?;
            self.spec_bind(&l.pat, &v, env)?;
          }
          match last { Stmt::Expr(e, None) => self.spec_expr(e, env), _ => None }
        })();
        env.v.pop();
        r
      }
      Expr::If(i) => {
        let c = self.spec_expr(&i.cond, env)?;
        let a = self.spec_expr(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }), env)?;
        let b = self.spec_expr(&i.else_branch.as_ref()?.1, env)?;
        Some((format!("(if {} {{ {} }} else {{ {} }})", c.0, a.0, b.0), a.1))
      }
      Expr::Match(m) => {
        let (x, t) = self.spec_expr(&m.expr, env)?;
        let mut arms = vec![]; let mut ty = Ty::Unk;
        for a in &m.arms {
          if a.guard.is_some() { return None; }
          env.v.push(HashMap::new());
          let r = (|| { let p = self.spec_pat(&a.pat, &t, env)?; let b = self.spec_expr(&a.body, env)?; Some((p, b)) })();
          env.v.pop();
          let (p, b) = r?;
          if ty.is_unk() { ty = b.1; }
          arms.push(format!("{} => {}", p, b.0));
        }
        Some((format!("(match {} {{ {} }})", x, arms.join(", ")), ty))
      }
      Expr::Lit(l) => Some(match &l.lit {
        Lit::Str(s) => (format!("{:?}", s.value()), Ty::n("str")),
        Lit::Bool(b) => (format!("{}", b.value), Ty::n("bool")),
        Lit::Int(i) => (i.base10_digits().to_string(), Ty::n("int")),
        _ => return None,
      }),
      Expr::Path(p) => {
        if p.path.segments.len() == 1 {
          let n = p.path.segments[0].ident.to_string();
          if let Some(v) = env.get(&n) { return Some(v.clone()); }
          if let Some(t) = self.var_ty(&n) { if t.is("closure") { return None; } return Some((format!("{}{}", "*".repeat(0), n), t.strip())); }
          if let Some(t) = self.items.consts.get(&n) { return Some((n, t.strip())); }
          return None;
        }
        let mut q = p.path.clone();
        fix_path(&mut q, &self.self_ty);
        let s = quote::ToTokens::to_token_stream(&q).to_string().replace(' ', "");
        Some((s, Ty::n(&q.segments[0].ident.to_string())))
      }
      Expr::Field(f) => {
        let (b, t) = self.spec_expr(&f.base, env)?;
        let n = match &f.member { Member::Named(n) => n.to_string(), Member::Unnamed(i) => i.index.to_string() };
        let ft = self.items.field(&t, n.trim_start_matches("r#"));
        Some((format!("{}.{}", b, n), ft.strip()))
      }
      Expr::Unary(u) => {
        let (s, t) = self.spec_expr(&u.expr, env)?;
        match u.op { UnOp::Deref(_) => Some((s, t)), UnOp::Not(_) => Some((format!("!({})", s), t)), _ => None }
      }
      Expr::Binary(b) => {
        let (l, lt) = self.spec_expr(&b.left, env)?;
        let (r, rt) = self.spec_expr(&b.right, env)?;
        let op = match b.op { BinOp::Eq(_) => "==", BinOp::Ne(_) => "!=", BinOp::And(_) => "&&", BinOp::Or(_) => "||", BinOp::Lt(_) => "<", BinOp::Le(_) => "<=", BinOp::Gt(_) => ">", BinOp::Ge(_) => ">=", _ => return None };
        if (op == "==" || op == "!=") && lt.is_stringy() && rt.is_stringy() { return Some((format!("({}@ {} {}@)", l, op, r), Ty::n("bool"))); }
        if (op == "==" || op == "!=") && (lt.is_stringy() || rt.is_stringy()) { return None; }
        Some((format!("({} {} {})", l, op, r), Ty::n("bool")))
      }
      Expr::Macro(m) if m.mac.path.is_ident("matches") => {
        let ts = m.mac.tokens.to_string();
        let (a, b) = ts.split_once(',')?;
        let x: Expr = parse_str(a).ok()?;
        let (s, _) = self.spec_expr(&x, env)?;
        if b.contains(" if ") { return None; }
        Some((format!("(match {} {{ {} => true, _ => false }})", s, b), Ty::n("bool")))
      }
      Expr::MethodCall(m) => {
        let n = m.method.to_string();
        let (s, t) = self.spec_expr(&m.receiver, env)?;
        match n.as_str() {
          "as_str" | "clone" | "as_ref" | "iter" | "as_deref" => Some((s, t)),
          "to_string" if t.is_stringy() => Some((s, Ty::n("String"))),
          "len" if t.is("Vec") => Some((format!("{}@.len()", s), Ty::n("int"))),
          "is_empty" if t.is("Vec") => Some((format!("({}@.len() == 0)", s), Ty::n("bool"))),
          "is_empty" if t.is_stringy() => Some((format!("({}@.len() == 0)", s), Ty::n("bool"))),
          "contains" if t.is("BTreeSet") => { let (a, at) = self.spec_expr(&m.args[0], env)?; if !at.is_stringy() { return None; } Some((format!("{}@.contains({}@)", s, a), Ty::n("bool"))) }
          "contains" if t.is("Vec") => { let (a, at) = self.spec_expr(&m.args[0], env)?; if at.is_stringy() { return None; } Some((format!("{}@.contains({})", s, a), Ty::n("bool"))) }
          "contains" if t.is_stringy() => match unparen(&m.args[0]) {
            Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => Some((format!("{}@.contains({:?})", s, c.value()), Ty::n("bool"))),
            a => { let (a, at) = self.spec_expr(a, env)?; if !at.is_stringy() { return None; } Some((format!("str_within({}@, {}@)", s, a), Ty::n("bool"))) }
          },
          "any" | "all" if t.is("Vec") => {
            let c = match unparen(&m.args[0]) { Expr::Closure(c) if c.inputs.len() == 1 => c, _ => return None };
            let q = format!("vx_q{}", env.v.len());
            let item = format!("{}@[{}]", s, q);
            env.v.push(HashMap::new());
            let r = (|| { self.spec_bind(&c.inputs[0], &(item.clone(), t.arg(0).strip()), env)?; self.spec_expr(&c.body, env) })();
            env.v.pop();
            let p = r?.0;
            if !p.contains(&item) { return None; }
            let p = p.replacen(&item, &format!("(#[trigger] {})", item), 1);
            Some((if n == "any" { format!("(exists|{q}: int| 0 <= {q} < {s}@.len() && {p})") } else { format!("(forall|{q}: int| 0 <= {q} < {s}@.len() ==> {p})") }, Ty::n("bool")))
          }
          "is_some" => Some((format!("({} is Some)", s), Ty::n("bool"))),
          "is_none" => Some((format!("({} is None)", s), Ty::n("bool"))),
          "contains_key" if t.is("BTreeMap") => { let (a, at) = self.spec_expr(&m.args[0], env)?; if !at.is_stringy() { return None; } Some((format!("{}.has_key({}@)", s, a), Ty::n("bool"))) }
          "is_some_and" => {
            let a = (format!("{}->Some_0", s), t.arg(0).strip());
            let (p, _) = if let Expr::Closure(c) = unparen(&m.args[0]) {
              env.v.push(HashMap::new());
              let r = (|| { self.spec_bind(&c.inputs[0], &a, env)?; self.spec_expr(&c.body, env) })();
              env.v.pop();
              r?
            } else { return None };
            Some((format!("({} is Some && ({}))", s, p), Ty::n("bool")))
          }
          _ => None,
        }
      }
      Expr::Call(c) => {
        let p = match unparen(&c.func) { Expr::Path(p) => p, _ => return None };
        let n = p.path.segments.last()?.ident.to_string();
        if let Some(cl) = self.local_closure(&n) {
          if p.path.segments.len() != 1 || cl.inputs.len() != c.args.len() { return None; }
          let mut e2 = Env { v: vec![HashMap::new()] };
          for (p, a) in cl.inputs.iter().zip(&c.args) { let a = self.spec_expr(a, env)?; self.spec_bind(p, &a, &mut e2)?; }
          return self.spec_expr(&cl.body, &mut e2);
        }
        let (sf, ty) = self.spec_fns.get(&n)?;
        let mut xs = vec![];
        for a in &c.args { xs.push(self.spec_expr(a, env)?.0); }
        Some((format!("{}({})", sf, xs.join(", ")), ty.clone()))
      }
      _ => None,
    }
  }
}
