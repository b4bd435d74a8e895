//! A small type model, enough to tell options, results, collections, strings and structs apart.
use std::collections::{BTreeMap, HashMap};
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
  Named(String, Vec<Ty>),
  Ref(Box<Ty>),
  Tuple(Vec<Ty>),
  Array(Box<Ty>),
  Unk,
}

impl Ty {
  pub fn n(s: &str) -> Ty { Ty::Named(s.into(), vec![]) }
  pub fn n1(s: &str, a: Ty) -> Ty { Ty::Named(s.into(), vec![a]) }
  pub fn r(self) -> Ty { Ty::Ref(Box::new(self)) }
  pub fn strip(&self) -> Ty { match self { Ty::Ref(t) => t.strip(), t => t.clone() } }
  pub fn refs(&self) -> usize { match self { Ty::Ref(t) => 1 + t.refs(), _ => 0 } }
  pub fn is(&self, s: &str) -> bool { matches!(self.strip(), Ty::Named(ref n, _) if n == s) }
  pub fn name(&self) -> String { match self.strip() { Ty::Named(n, _) => n, _ => String::new() } }
  pub fn arg(&self, i: usize) -> Ty {
    match self.strip() {
      Ty::Named(_, a) => a.get(i).cloned().unwrap_or(Ty::Unk),
      Ty::Array(t) if i == 0 => *t,
      Ty::Tuple(a) => a.get(i).cloned().unwrap_or(Ty::Unk),
      _ => Ty::Unk,
    }
  }
  /// the Rust type, when everything in it is known
  pub fn to_type(&self) -> Option<Type> {
    fn go(t: &Ty) -> Option<String> {
      Some(match t {
        Ty::Named(n, a) => { let n = match n.as_str() { "int" => return None, n if n.contains(':') => return None, n => n }; if a.is_empty() { n.to_string() } else { format!("{}<{}>", n, a.iter().map(go).collect::<Option<Vec<_>>>()?.join(", ")) } }
        Ty::Ref(t) => format!("&{}", go(t)?),
        Ty::Tuple(a) => format!("({})", a.iter().map(|x| go(x).map(|x| x + ",")).collect::<Option<String>>()?),
        _ => return None,
      })
    }
    parse_str(&go(self)?).ok()
  }
  pub fn is_unk(&self) -> bool { matches!(self.strip(), Ty::Unk) }
  pub fn is_num(&self) -> bool {
    matches!(self.strip(), Ty::Named(ref n, _) if ["usize","u8","u16","u32","u64","i8","i16","i32","i64","isize","u128","i128","char","int"].contains(&n.as_str()))
  }
  pub fn is_stringy(&self) -> bool { self.is("String") || self.is("str") }
}

pub struct Variant { pub name: String, pub kinds: Vec<(Option<String>, Ty)> }
pub struct FnInfo { pub params: Vec<(String, Ty)>, pub ret: Ty, pub has_self: bool }

#[derive(Default)]
pub struct Items {
  pub structs: BTreeMap<String, Vec<(String, Ty)>>,
  pub enums: BTreeMap<String, Vec<Variant>>,
  pub fns: HashMap<String, FnInfo>,      // "name" or "Type::name"
  pub consts: HashMap<String, Ty>,
  pub renames: HashMap<String, String>,
  pub aliases: HashMap<String, (Vec<String>, Type)>,
  pub defaults: BTreeMap<String, Option<String>>, // type -> default variant (enum) or None (struct)
}

impl Items {
  pub fn ty(&self, t: &Type, self_ty: Option<&str>) -> Ty { self.ty_in(t, self_ty, &HashMap::new()) }
  fn ty_in(&self, t: &Type, self_ty: Option<&str>, sub: &HashMap<String, Ty>) -> Ty {
    match t {
      Type::Reference(r) => self.ty_in(&r.elem, self_ty, sub).r(),
      Type::Paren(p) => self.ty_in(&p.elem, self_ty, sub),
      Type::Group(p) => self.ty_in(&p.elem, self_ty, sub),
      Type::Tuple(t) => Ty::Tuple(t.elems.iter().map(|e| self.ty_in(e, self_ty, sub)).collect()),
      Type::Array(a) => Ty::Array(Box::new(self.ty_in(&a.elem, self_ty, sub))),
      Type::Slice(a) => Ty::Array(Box::new(self.ty_in(&a.elem, self_ty, sub))),
      Type::Path(p) => {
        let segs: Vec<_> = p.path.segments.iter().collect();
        let seg = segs.last().unwrap();
        let mut name = seg.ident.to_string();
        if name == "Self" { if let Some(s) = self_ty { return Ty::n(s); } }
        if segs.len() == 2 && segs[0].ident == "Self" { return Ty::Named(format!("Self::{}", name), vec![]); }
        let args: Vec<Ty> = match &seg.arguments {
          PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| match x {
            GenericArgument::Type(t) => Some(self.ty_in(t, self_ty, sub)), _ => None }).collect(),
          _ => vec![],
        };
        if let Some(t) = sub.get(&name) { return t.clone(); }
        if let Some((ps, body)) = self.aliases.get(&name) {
          let mut m = HashMap::new();
          for (p, a) in ps.iter().zip(args.iter()) { m.insert(p.clone(), a.clone()); }
          return self.ty_in(body, self_ty, &m);
        }
        if name == "Err" && self.enums.contains_key("AErr") && segs.len() == 1 { name = "AErr".into(); }
        Ty::Named(name, args)
      }
      _ => Ty::Unk,
    }
  }
  pub fn field(&self, t: &Ty, f: &str) -> Ty {
    let t = t.strip();
    if let Ty::Tuple(a) = &t { if let Ok(i) = f.parse::<usize>() { return a.get(i).cloned().unwrap_or(Ty::Unk); } }
    if let Ty::Named(n, args) = &t {
      if n == "Range" && (f == "start" || f == "end") { return args.get(0).cloned().unwrap_or(Ty::n("usize")); }
      if let Some(fs) = self.structs.get(n) {
        for (k, v) in fs { if k == f { return v.clone(); } }
      }
    }
    Ty::Unk
  }
}
