#![allow(dead_code, unused)]
mod align;
mod contract;
mod emit;
mod lower;
mod shape;
mod peg;
mod spec;
mod tys;
use contract::Contracts;
use emit::*;
use lower::*;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;
use syn::*;
use tys::{Items, FnInfo, Ty};
use tys::Variant as TVariant;
use contract::parse_file as parse_con;

struct FnSrc { key: String, self_ty: Option<(String, Generics)>, assoc: HashMap<String, Type>, sig: Signature, block: Block, file: String, line: usize, end: usize }

fn cfg_off(attrs: &[Attribute]) -> bool {
  attrs.iter().any(|a| {
    if !a.path().is_ident("cfg") { return false; }
    let s = a.meta.to_token_stream().to_string().replace(' ', "");
    s.contains("cfg(test)") || s.contains("cfg(dbml_verif)")
  })
}
fn derives(attrs: &[Attribute]) -> Vec<String> {
  let mut v = vec![];
  for a in attrs { if a.path().is_ident("derive") { if let Meta::List(l) = &a.meta { for t in l.tokens.clone() { if let proc_macro2::TokenTree::Ident(i) = t { v.push(i.to_string()); } } } } }
  v
}

/// rewrites types of signatures and fields to the flat, generic-free names of the prelude
struct TyFix { self_ty: Option<String>, assoc: HashMap<String, Type>, ren: HashMap<String, String> }
impl VisitMut for TyFix {
  fn visit_type_mut(&mut self, t: &mut Type) {
    if let Type::ImplTrait(i) = t {
      for b in &i.bounds {
        if let TypeParamBound::Trait(tb) = b {
          let s = tb.path.segments.last().unwrap();
          if s.ident == "ToString" { *t = parse_quote!(String); return; }
          if s.ident == "Iterator" || s.ident == "IntoIterator" {
            if let PathArguments::AngleBracketed(a) = &s.arguments { for x in &a.args { if let GenericArgument::AssocType(at) = x { let mut ty = at.ty.clone(); self.visit_type_mut(&mut ty); *t = parse_quote!(Vec<#ty>); return; } } }
          }
        }
      }
    }
    if let Type::Path(p) = t {
      if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
        let n = p.path.segments[1].ident.to_string();
        if let Some(a) = self.assoc.get(&n) { *t = a.clone(); self.visit_type_mut(t); return; }
      }
    }
    visit_mut::visit_type_mut(self, t);
  }
  fn visit_path_mut(&mut self, p: &mut Path) {
    if p.segments.len() > 1 { let l = p.segments.last().unwrap().clone(); p.segments = std::iter::once(l).collect(); p.leading_colon = None; }
    let s = p.segments.last_mut().unwrap();
    if let Some(n) = self.ren.get(&s.ident.to_string()) { s.ident = Ident::new(n, s.ident.span()); }
    if ["Pair", "Pairs", "Span", "Error", "ErrorVariant"].contains(&s.ident.to_string().as_str()) { s.arguments = PathArguments::None; }
    if s.ident == "Err" { s.ident = Ident::new("AErr", s.ident.span()); }
    let _ = &self.self_ty;
    visit_mut::visit_path_mut(self, p);
  }
}

fn param_ty(items: &Items, t: &Type, st: Option<&str>) -> Ty {
  if let Type::ImplTrait(i) = t {
    for b in &i.bounds {
      if let TypeParamBound::Trait(tb) = b {
        let s = tb.path.segments.last().unwrap();
        if s.ident == "ToString" { return Ty::n("VxToString"); }
        if s.ident == "Iterator" {
          if let PathArguments::AngleBracketed(a) = &s.arguments { for x in &a.args { if let GenericArgument::AssocType(at) = x { return Ty::n1("VxIter", items.ty(&at.ty, st)); } } }
        }
      }
    }
  }
  items.ty(t, st)
}

struct TypeSrc { name: String, generics: Generics, fields: Vec<(Option<String>, Type)>, variants: Vec<(String, Fields)>, is_enum: bool }

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
  let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
  es.sort();
  for p in es { if p.is_dir() { walk(&p, out) } else if p.extension().map_or(false, |e| e == "rs") { out.push(p) } }
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
  let repo = get("--repo").unwrap_or("/repo".into());
  let cdir = get("--contracts").unwrap_or("/verif/contracts".into());
  let outp = get("--out").unwrap_or("/tmp/gen.rs".into());
  let stubs: BTreeSet<String> = get("--stub").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
  let unfold_all = args.iter().any(|a| a == "--unfold-all");
  let no_grammar = args.iter().any(|a| a == "--no-grammar-proof");
  let vacuity = args.iter().any(|a| a == "--vacuity");
  let mut notes: Vec<String> = vec![];
  let write_labels = args.iter().any(|a| a == "--write-labels");
  let labels = if write_labels { Default::default() } else { align::read(&std::fs::read_to_string(format!("{}/labels.txt", cdir)).unwrap_or_default()) };
  let mut label_out = String::new();
  let mut base_refs: HashMap<String, HashMap<String, usize>> = HashMap::new();
  if !write_labels { for l in std::fs::read_to_string(format!("{}/refs.txt", cdir)).unwrap_or_default().lines() {
    if let Some((k, vs)) = l.split_once('\t') { base_refs.insert(k.into(), vs.split(' ').filter_map(|v| v.split_once('=').and_then(|(n, c)| Some((n.to_string(), c.parse().ok()?)))).collect()); }
  } }
  let mut ref_out: BTreeMap<String, String> = BTreeMap::new();

  // ---- contracts
  let mut con = Contracts::default();
  let mut cfiles: Vec<_> = std::fs::read_dir(&cdir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "vc")).collect();
  cfiles.sort();
  for f in &cfiles { if let Err(e) = parse_con(&std::fs::read_to_string(f).unwrap(), &mut con) { eprintln!("{}: {}", f.display(), e); std::process::exit(2); } }
  let prelude = std::fs::read_to_string(format!("{}/prelude.rs", cdir)).unwrap();

  // ---- grammar
  let gram_src = std::fs::read_to_string(format!("{}/src/dbml.pest", repo)).unwrap_or_default();
  let sh = shape::run(&gram_src);

  // ---- sources
  let mut files = vec![];
  walk(std::path::Path::new(&format!("{}/src", repo)), &mut files);
  let mut types: Vec<TypeSrc> = vec![];
  let mut fns: Vec<FnSrc> = vec![];
  let mut items = Items::default();
  let mut aliases: Vec<(String, ItemType)> = vec![];
  let mut consts: Vec<ItemConst> = vec![];
  let mut dropped: Vec<String> = vec![];
  let mut derive_map: BTreeMap<String, Vec<String>> = BTreeMap::new();
  let mut fatal: Vec<String> = vec![];
  let mut enum_defaults: HashMap<String, String> = HashMap::new();
  for f in &files {
    let rel = f.strip_prefix(&repo).unwrap().display().to_string();
    let src = std::fs::read_to_string(f).unwrap();
    let file = match parse_file_syn(&src) { Ok(f) => f, Err(e) => { fatal.push(format!("{}: {}", rel, e)); continue } };
    let mut stack: Vec<Item> = file.items.into_iter().rev().collect();
    while let Some(it) = stack.pop() {
      match it {
        Item::Mod(m) => { if !cfg_off(&m.attrs) { if let Some((_, its)) = m.content { for i in its.into_iter().rev() { stack.push(i); } } } }
        Item::Struct(s) => {
          if cfg_off(&s.attrs) { continue; }
          if derives(&s.attrs).contains(&"Parser".to_string()) { continue; }
          derive_map.insert(s.ident.to_string(), derives(&s.attrs));
          types.push(TypeSrc { name: s.ident.to_string(), generics: s.generics.clone(), fields: s.fields.iter().enumerate().map(|(i, f)| (Some(f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string())), f.ty.clone())).collect(), variants: vec![], is_enum: false });
        }
        Item::Enum(e) => {
          if cfg_off(&e.attrs) { continue; }
          let name = if e.ident == "Err" { "AErr".to_string() } else { e.ident.to_string() };
          derive_map.insert(name.clone(), derives(&e.attrs));
          if derives(&e.attrs).contains(&"Display".to_string()) { match display_fn(&e) {
            Ok(f) => { let l = e.enum_token.span.start().line; fns.push(FnSrc { key: format!("{}::to_string", name), self_ty: Some((name.clone(), e.generics.clone())), assoc: HashMap::new(), sig: f.sig, block: *f.block, file: rel.clone(), line: l, end: e.brace_token.span.close().start().line }) }
            Err(w) => dropped.push(format!("{}: Display of {}: {}", rel, name, w)),
          } }
          for v in &e.variants { if v.attrs.iter().any(|a| a.path().is_ident("default")) { enum_defaults.insert(name.clone(), v.ident.to_string()); } }
          types.push(TypeSrc { name, generics: e.generics.clone(), fields: vec![], variants: e.variants.iter().map(|v| (v.ident.to_string(), v.fields.clone())).collect(), is_enum: true });
        }
        Item::Type(t) => aliases.push((t.ident.to_string(), t)),
        Item::Const(c) => consts.push(c),
        Item::Fn(f) => {
          if cfg_off(&f.attrs) { continue; }
          let l = f.sig.fn_token.span.start().line; let e = f.block.brace_token.span.close().start().line;
          fns.push(FnSrc { key: f.sig.ident.to_string(), self_ty: None, assoc: HashMap::new(), sig: f.sig, block: *f.block, file: rel.clone(), line: l, end: e });
        }
        Item::Impl(i) => {
          if cfg_off(&i.attrs) { continue; }
          let st = match &*i.self_ty { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => { dropped.push(format!("{}: impl for a non-path type", rel)); continue } };
          let st = if st == "Err" { "AErr".to_string() } else { st };
          if let Some((_, tr, _)) = &i.trait_ {
            let n = tr.segments.last().unwrap().ident.to_string();
            if ["Clone", "PartialEq", "Eq", "Default", "Ord", "PartialOrd", "Hash", "Copy"].contains(&n.as_str()) { fatal.push(format!("{}: manual impl {} for {} (the structural model does not apply)", rel, n, st)); continue; }
            if n == "Display" {
              // a Display that only writes once per case is the text it writes
              let mut done = false;
              for x in i.items { if let ImplItem::Fn(mut f) = x { if f.sig.ident == "fmt" && written(&mut f) {
                let (l, e) = (f.sig.fn_token.span.start().line, f.block.brace_token.span.close().start().line);
                fns.push(FnSrc { key: format!("{}::to_string", st), self_ty: Some((st.clone(), i.generics.clone())), assoc: HashMap::new(), sig: f.sig, block: f.block, file: rel.clone(), line: l, end: e });
                done = true;
              } } }
              if !done { dropped.push(format!("{}: impl Display for {}", rel, st)) }
              continue;
            }
            if !["FromStr", "ToString", "From"].contains(&n.as_str()) { dropped.push(format!("{}: impl {} for {}", rel, n, st)); continue; }
          }
          let mut assoc = HashMap::new();
          for x in &i.items { if let ImplItem::Type(t) = x { assoc.insert(t.ident.to_string(), t.ty.clone()); } }
          for x in i.items {
            match x {
              ImplItem::Fn(f) => {
                if cfg_off(&f.attrs) { continue; }
                let l = f.sig.fn_token.span.start().line; let e = f.block.brace_token.span.close().start().line;
                fns.push(FnSrc { key: format!("{}::{}", st, f.sig.ident), self_ty: Some((st.clone(), i.generics.clone())), assoc: assoc.clone(), sig: f.sig, block: f.block, file: rel.clone(), line: l, end: e });
              }
              ImplItem::Type(_) => {}
              ImplItem::Const(c) => fatal.push(format!("{}: associated const {}", rel, c.ident)),
              _ => dropped.push(format!("{}: item of impl {}", rel, st)),
            }
          }
        }
        Item::Use(u) => { fn ren(t: &UseTree, m: &mut HashMap<String, String>) { match t { UseTree::Path(p) => ren(&p.tree, m), UseTree::Group(g) => { for t in &g.items { ren(t, m) } } UseTree::Rename(r) => { if r.rename != "_" { m.insert(r.rename.to_string(), r.ident.to_string()); } } _ => {} } } if !cfg_off(&u.attrs) { ren(&u.tree, &mut items.renames) } }
        Item::ExternCrate(_) => {}
        Item::Macro(m) => dropped.push(format!("{}: macro {}", rel, m.mac.path.to_token_stream())),
        Item::Static(s) => fatal.push(format!("{}: static {}", rel, s.ident)),
        Item::Trait(t) => fatal.push(format!("{}: trait {}", rel, t.ident)),
        _ => dropped.push(format!("{}: item", rel)),
      }
    }
  }
  for (n, t) in &aliases { items.aliases.insert(n.clone(), (t.generics.type_params().map(|p| p.ident.to_string()).collect(), (*t.ty).clone())); }
  items.enums.insert("AErr".into(), vec![]);
  for t in &types {
    if t.is_enum {
      let vs = t.variants.iter().map(|(n, f)| TVariant { name: n.clone(), kinds: f.iter().map(|f| (f.ident.as_ref().map(|i| i.to_string()), items.ty(&f.ty, Some(&t.name)))).collect() }).collect();
      items.enums.insert(t.name.clone(), vs);
    } else {
      let fs = t.fields.iter().map(|(n, ty)| (n.clone().unwrap().trim_start_matches("r#").to_string(), items.ty(ty, Some(&t.name)))).collect();
      items.structs.insert(t.name.clone(), fs);
    }
    if derive_map.get(&t.name).map_or(false, |d| d.contains(&"Default".to_string())) { items.defaults.insert(t.name.clone(), enum_defaults.get(&t.name).cloned()); }
  }
  items.enums.insert("ErrorVariant".into(), vec![
    TVariant { name: "ParsingError".into(), kinds: vec![(Some("positives".into()), Ty::n1("Vec", Ty::n("Rule"))), (Some("negatives".into()), Ty::n1("Vec", Ty::n("Rule")))] },
    TVariant { name: "CustomError".into(), kinds: vec![(Some("message".into()), Ty::n("String"))] }]);
  for c in &consts { let t = items.ty(&c.ty, None); items.consts.insert(c.ident.to_string(), t); }
  for f in fns.iter_mut() {
    for i in f.sig.inputs.iter_mut() { if let FnArg::Typed(t) = i { Slices.visit_type_mut(&mut t.ty); } }
    if let ReturnType::Type(_, t) = &mut f.sig.output { Slices.visit_type_mut(t); }
    Slices.visit_block_mut(&mut f.block);
    WhileLet.visit_block_mut(&mut f.block);
  }
  // local closures that have a contract become functions of their own
  let mut lifted = vec![];
  for f in fns.iter_mut() { lift(f, &con, &mut lifted); }
  for f in &lifted { notes.push(format!("closure lifted to a function: {}", f.key)); }
  fns.extend(lifted);
  for f in &fns {
    let st = f.self_ty.as_ref().map(|s| s.0.as_str());
    let mut params = vec![]; let mut has_self = false;
    for i in &f.sig.inputs { match i { FnArg::Receiver(_) => has_self = true, FnArg::Typed(t) => params.push((pat_names(&t.pat).first().cloned().unwrap_or_default(), param_ty(&items, &t.ty, st))) } }
    let ret = match &f.sig.output { ReturnType::Default => Ty::Tuple(vec![]), ReturnType::Type(_, t) => fix_assoc(items.ty(t, st), f, &items) };
    items.fns.insert(f.key.clone(), FnInfo { params, ret, has_self });
  }
  let mut dup = BTreeSet::new();
  for f in &fns { if !dup.insert(f.key.clone()) { fatal.push(format!("two functions named {}", f.key)); } }

  let mut spec_fns: HashMap<String, (String, Ty)> = HashMap::new();
  for (a, b, t) in &con.spec_fns { spec_fns.insert(a.clone(), (b.clone(), Ty::n(t))); }
  // functions without a contract are verified where they are called
  let mut inline_fns: BTreeMap<String, lower::InlineFn> = BTreeMap::new();
  for f in &fns {
    if con.fns.contains_key(&f.key) { continue; }
    let st = f.self_ty.as_ref().map(|s| s.0.clone());
    let mut fix = TyFix { self_ty: st.clone(), assoc: f.assoc.clone(), ren: items.renames.clone() };
    let mut params = vec![];
    for i in &f.sig.inputs { if let FnArg::Typed(t) = i { let ty = param_ty(&items, &t.ty, st.as_deref()); params.push(((*t.pat).clone(), Some((*t.ty).clone()), ty)); } }
    let ret_type = match &f.sig.output { ReturnType::Type(_, t) => { let mut t = (**t).clone(); fix.visit_type_mut(&mut t); if t.to_token_stream().to_string().contains('\'') { None } else { Some(t) } } _ => None };
    inline_fns.insert(f.key.clone(), lower::InlineFn { sig: f.sig.clone(), block: f.block.clone(), self_ty: st, ret_type, params });
  }

  // ---- output
  let mut o = Out::default();
  o.put("// generated on every run from /repo/src by /verif/vx; do not edit\n");
  let mut bc = vec!["vx_ax::vx_axioms".to_string()];
  let prelude = take_broadcast(&prelude, &mut bc);
  con.spec = take_broadcast(&con.spec, &mut bc);
  o.put(&prelude);
  o.put("\nverus! {\n");
  // Rule
  o.put("#[derive(Clone, Copy, PartialEq, Eq)]\npub enum Rule { EOI");
  for r in &sh.rules { o.put(&format!(", {}", r)); }
  o.put(" }\n");
  let all_unf: Vec<String> = sh.specs.iter().map(|x| format!("unf_{}", x.0)).collect();
  o.put(&format!("broadcast use {{{}}};\n", all_unf.join(", ")));
  for c in &consts {
    let n = &c.ident;
    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr { let v = s.token(); o.put(&format!("pub exec const {n}: &'static str ensures {n}@ == {v}@ {{ proof {{ reveal_strlit({v}); }} {v} }}\n", n = n, v = v)); }
    else { let t = c.ty.to_token_stream(); let e = c.expr.to_token_stream(); o.put(&format!("pub const {}: {} = {};\n", n, t, e)); }
  }
  for (_, t) in &aliases {
    let mut t = t.clone(); t.attrs.clear(); t.vis = parse_quote!(pub);
    TyFix { self_ty: None, assoc: HashMap::new(), ren: items.renames.clone() }.visit_type_mut(&mut t.ty);
    o.put(&plain(t.to_token_stream())); o.put("\n");
  }
  for t in &types { emit_type(&mut o, t); }
  for t in &types { if t.name != "AErr" { o.put(&default_fn(t, &items)); } }
  o.put(&spok(&types, &items));
  o.put(&con.spec.clone());
  o.put("\n} // verus!\n");
  let pg = peg::run(&gram_src, &sh, no_grammar);
  o.put("pub mod peg {\n"); o.put(&std::fs::read_to_string(format!("{}/peg.rs", cdir)).unwrap()); o.put("} // verus!\n}\n"); o.put(&pg.text);

  let mut jf: Vec<String> = vec![];
  let mut used_hints = vec![];
  let mut all_used_loops: Vec<String> = vec![];
  let mut names = BTreeSet::new();
  let mut run_fns: Vec<(Option<(String, Generics)>, Signature, Block)> = vec![];
  for f in &fns {
    names.insert(f.key.clone());
    let st = f.self_ty.as_ref().map(|s| s.0.clone());
    let ret = items.fns[&f.key].ret.clone();
    let start_low = |over: HashMap<(String, usize), String>| {
      let mut low = Lower::new(&items, &f.key, st.clone(), ret.clone(), &spec_fns, &inline_fns);
      low.over = over;
      for i in &f.sig.inputs {
        match i {
          FnArg::Receiver(r) => { let t = Ty::n(st.as_ref().unwrap()); low.bind("self", if r.reference.is_some() { t.r() } else { t }) }
          FnArg::Typed(t) => { let ty = param_ty(&items, &t.ty, st.as_deref()); let ty = if ty.is("VxToString") { Ty::n("String") } else { ty }; low.bind_pat(&t.pat, &ty) }
        }
      }
      low
    };
    let mut low = start_low(HashMap::new());
    if con.fns.contains_key(&f.key) && !stubs.contains(&f.key) && (write_labels || labels.contains_key(&f.key)) {
      // labels of loops, calls and throw sites are those of the text the contracts were written for
      let _ = low.block(&f.block, &ret, true);
      for (b, t) in &low.sigs { label_out.push_str(&format!("{}\t{}\t{}\n", f.key, b, align::short(t))); }
      let over = labels.get(&f.key).map(|l| align::align(l, &low.sigs)).unwrap_or_default();
      low = start_low(over);
    }
    let lowered = if stubs.contains(&f.key) { Err("stubbed".to_string()) } else if !con.fns.contains_key(&f.key) { Err("no contract: verified where it is called".to_string()) } else { low.block(&f.block, &ret, true) };
    if write_labels {
      for (k, m, t) in low.loops.iter().filter_map(|l| con.loops.get(&l.key).map(|c| (&l.key, &l.refs, c.clauses.iter().map(|c| c.text.clone() + " ").collect::<String>()))).chain(low.hints.iter().filter_map(|(k, m)| con.hints.get(k).map(|h| (k, m, h.clone())))) {
        let words: BTreeSet<&str> = t.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
        let vs: Vec<String> = m.iter().filter(|(n, _)| words.contains(n.as_str())).map(|(n, c)| format!("{}={}", n, c)).collect::<BTreeSet<_>>().into_iter().collect();
        if !vs.is_empty() { ref_out.insert(k.clone(), vs.join(" ")); }
      }
    }
    let mut sig = f.sig.clone();
    let mut fix = TyFix { self_ty: st.clone(), assoc: f.assoc.clone(), ren: items.renames.clone() };
    for i in sig.inputs.iter_mut() { if let FnArg::Typed(t) = i { t.attrs.clear(); fix.visit_type_mut(&mut t.ty); } }
    if let ReturnType::Type(_, t) = &mut sig.output { fix.visit_type_mut(t); }
    for g in sig.generics.params.iter_mut() { if let GenericParam::Type(t) = g { let ord = t.bounds.to_token_stream().to_string().contains("Ord"); t.bounds.clear(); t.colon_token = None; if ord { t.bounds.push(parse_quote!(VxKey)); t.colon_token = Some(Default::default()); } } }
    let start = o.cur();
    let mod_at = o.s.len();
    let module = format!("f_{}", f.key.replace("::", "__"));
    o.put(&format!("// @fn {} <- {}:{}\npub mod {} {{ use super::*; verus! {{\nbroadcast use {{{}{}}};\n", f.key, f.file, f.line, module, bc.join(", "), UNFOLD));
    let c = con.fns.get(&f.key).cloned();
    if let Some((s, g)) = &f.self_ty { let (ig, tg, _) = g.split_for_impl(); o.put(&format!("impl{} {}{} {{\n", ig.to_token_stream(), s, tg.to_token_stream())); }
    let stub = lowered.is_err();
    let has_name = c.as_ref().map(|c| c.clauses.iter().any(|x| x.kind == "names")).unwrap_or(false);
    if stub && !has_name { o.put("#[verifier::external_body]\n"); }
    if !has_name && !stub && !c.as_ref().map(|c| c.clauses.iter().any(|x| x.kind == "opt" && x.text == "isolate")).unwrap_or(false) { o.put("#[verifier::loop_isolation(false)]\n"); }
    if let Some(c) = &c { for cl in &c.clauses { if cl.kind == "attr" { o.put(&cl.text); o.put("\n"); } } }
    let named: Vec<String> = c.as_ref().map(|c| c.clauses.iter().filter(|x| x.kind == "names").map(|x| x.text.trim().to_string()).collect()).unwrap_or_default();
    let id = &sig.ident; let gen = &sig.generics; let ins = &sig.inputs;
    if !named.is_empty() {
      // callers see the contract and the name of the result; the body is verified below against the same contract
      let args: Vec<String> = ins.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(plain(t.pat.to_token_stream())) } else { None }).collect();
      let ty = if let ReturnType::Type(_, t) = &sig.output { plain(t.to_token_stream()) } else { "()".into() };
      let part = |k: &str| c.as_ref().unwrap().clauses.iter().filter(|x| x.kind == k).map(|x| format!("      {},\n", x.text.trim().trim_end_matches(','))).collect::<String>();
      let (rq, en) = (part("requires"), part("ensures"));
      o.put(&format!("pub fn {}{}({}) -> (r: {})\n{}    ensures\n{}{}{{ let r = {}__it({}); {} r }}\n", id, plain(gen.to_token_stream()), plain(ins.to_token_stream()), ty,
        if rq.is_empty() { String::new() } else { format!("    requires\n{}", rq) }, en, named.iter().map(|n| format!("      {},\n", n)).collect::<String>(), id, args.join(", "), named.iter().map(|n| format!("assume({});", n)).collect::<String>()));
      if stub { o.put("#[verifier::external_body]\n"); } else { o.put("#[verifier::loop_isolation(false)]\n"); }
    }
    o.put(&format!("pub fn {}{}{}({})", id, if named.is_empty() { "" } else { "__it" }, plain(gen.to_token_stream()), plain(ins.to_token_stream())));
    if let ReturnType::Type(_, t) = &sig.output { let t = plain(t.to_token_stream()); if t != "()" { o.put(&format!(" -> (r: {})", t)); } }
    o.put("\n");
    let mut tags: BTreeSet<String> = BTreeSet::new();
    if let Some(c) = &c {
      for k in ["requires", "ensures"] {
        if c.clauses.iter().any(|x| x.kind == k) { o.put(&format!("    {}\n", k)); for cl in &c.clauses { if cl.kind == k { o.clause(cl, k); } } }
      }
      for cl in &c.clauses { for t in &cl.tags { tags.insert(t.clone()); } }
      if vacuity && c.clauses.iter().any(|x| x.kind == "requires") { }
    }
    let bstart = o.cur();
    let mut nocon = vec![]; let mut used_loops = vec![];
    match &lowered {
      Ok((b, _)) => {
        run_fns.push((f.self_ty.clone(), sig.clone(), b.clone()));
        let mut b = b.clone();
        let hs = format!("{}:start", f.key);
        b.stmts.insert(0, parse_quote!(vx_hint!(#hs);));
        let rk = format!("{}:ret", f.key);
        if con.hints.contains_key(&rk) {
          if let Some(Stmt::Expr(e, None)) = b.stmts.pop() { b.stmts.push(parse_quote!(let vx_ret = #e;)); b.stmts.push(parse_quote!(vx_hint!(#rk);)); b.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None)); }
        }
        if vacuity { b.stmts.insert(1, parse_quote!(vx_hint!("VACUITY");)); }
        let mut cx = Ctx { con: &con, loops: &low.loops, used_hints: &mut used_hints, no_contract_loops: &mut nocon, used_loops: &mut used_loops, auto: true, plain: false, hint_refs: &low.hints, base: &base_refs };
        let bt: TokenStream = b.to_token_stream();
        print(&mut o, bt, &mut cx, 0);
      }
      Err(_) => o.put("{ unimplemented!() }"),
    }
    o.put("\n");
    if f.self_ty.is_some() { o.put("}\n"); }
    o.put("} } // mod\n");
    if f.self_ty.is_none() { o.put(&format!("pub use {}::*;\n", module)); }
    let end = o.cur();
    o.put("\n");
    all_used_loops.extend(used_loops.iter().cloned());
    let mut calls = calls_of(&f.block, &items, st.as_deref());
    for k in &low.inlined { calls.retain(|c| c != k); }
    for g in fns.iter().filter(|g| low.inlined.contains(&g.key)) { for c in calls_of(&g.block, &items, g.self_ty.as_ref().map(|s| s.0.as_str())) { if !low.inlined.contains(&c) && !calls.contains(&c) { calls.push(c); } } }
    let mut lost: Vec<String> = if stub { vec![] } else { con.loops.keys().filter(|k| k.rsplit_once('/').map(|x| x.0) == Some(f.key.as_str()) && !used_loops.contains(k)).cloned().collect() };
    // a closure of this function that has a contract of its own and is no longer there
    let short = f.key.rsplit("::").next().unwrap_or("").to_string();
    if !stub { for k in con.fns.keys().filter(|k| k.starts_with(&format!("{}__", short)) && !fns.iter().any(|g| &g.key == *k)) { lost.push(format!("closure {}", k)); } }
    // the shapes of the rules the function names are unfolded
    { let text = o.s[mod_at..].to_string();
      let names: Vec<&String> = sh.specs.iter().map(|x| &x.0).filter(|r| unfold_all || mentions(&text, &format!("Rule::{}", r)) || mentions(&text, &format!("wf_{}", r))).collect();
      let u: String = names.iter().map(|r| format!(", unf_{}", r)).collect();
      o.s.truncate(mod_at); o.s.push_str(&text.replacen(UNFOLD, &u, 1)); }
    jf.push(format!("{{\"key\":{:?},\"module\":\"{module}\",\"file\":{:?},\"line\":{},\"end_line\":{},\"gen_start\":{},\"gen_body\":{},\"gen_end\":{},\"tags\":{:?},\"contract\":{},\"stub\":{},\"reason\":{:?},\"inlined\":{:?},\"loops\":{},\"uncontracted_loops\":{:?},\"lost_loops\":{:?},\"calls\":{:?},\"clauses\":{}}}",
      f.key, f.file, f.line, f.end, start, bstart, end, tags.iter().collect::<Vec<_>>(), c.is_some(), stub, lowered.as_ref().err().cloned().unwrap_or_default(), low.inlined.iter().collect::<Vec<_>>(), low.loops.len(), nocon, lost, calls, c.map(|c| c.clauses.len()).unwrap_or(0)));
  }
  o.put("fn main() {}\n");
  for k in con.fns.keys() { if !names.contains(k) { notes.push(format!("contract for a function that does not exist: {}", k)); } }
  if write_labels {
    std::fs::write(format!("{}/labels.txt", cdir), &label_out).unwrap();
    std::fs::write(format!("{}/refs.txt", cdir), ref_out.iter().map(|(k, v)| format!("{}\t{}\n", k, v)).collect::<String>()).unwrap();
  }
  std::fs::write(&outp, raw_idents(&o.s)).unwrap();
  if let Some(p) = get("--run") { std::fs::write(&p, runnable(&types, &items, &consts, &aliases, &run_fns)).unwrap(); std::fs::write(format!("{}.gram", p), format!("// generated by /verif/vx --run; do not edit\nuse super::rt::*;\npub const ON: bool = {};\n{}", pg.error.is_none(), if pg.error.is_none() { pg.exec.clone() } else { "pub fn m_schema(s: &Text, p: usize) -> Mt { no() }\n".into() })).unwrap(); }
  let mut j = String::new();
  let cl: Vec<String> = o.clauses.iter().map(|(a, b, w, t)| format!("{{\"a\":{},\"b\":{},\"what\":{:?},\"tags\":{:?}}}", a, b, w, t)).collect();
  write!(j, "{{\"fns\":[{}],\n\"clauses\":[{}],\n\"notes\":{:?},\"fatal\":{:?},\"dropped\":{:?},\"shape_errors\":{:?},\"shape_ok\":{},\"unused_hints\":{:?},\"grammar\":{{\"mods\":{:?},\"lemmas\":{},\"rules\":{},\"error\":{:?}}}}}", jf.join(",\n"), cl.join(",\n"), notes, fatal, dropped, sh.errors, sh.checked,
    con.hints.keys().filter(|h| !used_hints.contains(h)).collect::<Vec<_>>(), pg.mods, pg.lemmas, pg.rules, pg.error.clone().unwrap_or_default()).unwrap();
  std::fs::write(format!("{}.json", outp), j).unwrap();
}

/// the extracted text without its contracts, as a program: run against the crate itself it shows what the extraction keeps
fn runnable(types: &[TypeSrc], items: &Items, consts: &[ItemConst], aliases: &[(String, ItemType)], fns: &[(Option<(String, Generics)>, Signature, Block)]) -> String {
  let mut o = Out::default();
  o.put("// generated by /verif/vx --run; do not edit\nuse super::rt::*;\n");
  for c in consts { o.put(&format!("pub const {}: {} = {};\n", c.ident, plain(c.ty.to_token_stream()), plain(c.expr.to_token_stream()))); }
  for (_, t) in aliases {
    let mut t = t.clone(); t.attrs.clear(); t.vis = parse_quote!(pub);
    TyFix { self_ty: None, assoc: HashMap::new(), ren: items.renames.clone() }.visit_type_mut(&mut t.ty);
    o.put(&plain(t.to_token_stream())); o.put("\n");
  }
  for t in types { o.put("#[derive(Clone, Debug, PartialEq)]\n"); emit_type(&mut o, t); }
  for t in types { if t.name != "AErr" {
    let d = match items.defaults.get(&t.name) { Some(d) => d, None => continue };
    let (ig, tg, _) = t.generics.split_for_impl();
    let v = match d {
      Some(v) => format!("{}::{}", t.name, v),
      None => format!("{} {{ {} }}", t.name, items.structs[&t.name].iter().map(|(f, ty)| format!("{}: {}", if f == "type" { "r#type" } else { f }, exec_default(ty, items))).collect::<Vec<_>>().join(", ")),
    };
    o.put(&format!("impl{} {}{} {{ pub fn vx_default() -> Self {{ {} }} }}\n", ig.to_token_stream(), t.name, tg.to_token_stream(), v));
  } }
  for (st, sig, b) in fns {
    if let Some((s, g)) = st { let (ig, tg, _) = g.split_for_impl(); o.put(&format!("impl{} {}{} {{\n", ig.to_token_stream(), s, tg.to_token_stream())); }
    o.put(&format!("pub fn {}{}({})", sig.ident, plain(sig.generics.to_token_stream()), plain(sig.inputs.to_token_stream())));
    if let ReturnType::Type(_, t) = &sig.output { o.put(&format!(" -> {}", plain(t.to_token_stream()))); }
    o.put(" "); o.put(&plain(b.to_token_stream())); o.put("\n");
    if st.is_some() { o.put("}\n"); }
  }
  o.s
}

/// the text derive_more's Display writes, from the `display` attributes of the variants
fn display_fn(e: &ItemEnum) -> std::result::Result<ItemFn, String> {
  let mut arms: Vec<Arm> = vec![];
  for v in &e.variants {
    let (n, vi) = (&e.ident, &v.ident);
    let mut fmt: Option<TokenStream> = None;
    for a in &v.attrs { if a.path().is_ident("display") {
      let t = match &a.meta { Meta::List(l) => l.tokens.clone(), _ => return Err("display attribute".into()) };
      let s = t.to_string();
      let mut it = t.into_iter();
      let first = it.next().map(|x| x.to_string());
      if first.as_deref() == Some("fmt") { if it.next().map(|x| x.to_string()).as_deref() != Some("=") { return Err(s) } fmt = Some(it.collect()); }
      else { return Err(s) }
    } }
    let pat: Pat = match &v.fields {
      Fields::Unit => parse_quote!(#n::#vi),
      Fields::Named(f) => { let i = f.named.iter().map(|x| &x.ident); parse_quote!(#n::#vi { #(#i),* }) }
      Fields::Unnamed(f) => { let i = (0..f.unnamed.len()).map(|k| Ident::new(&format!("_{}", k), proc_macro2::Span::call_site())); parse_quote!(#n::#vi(#(#i),*)) }
    };
    let body: Expr = match fmt {
      Some(t) => parse_quote!(format!(#t)),
      None if matches!(v.fields, Fields::Unit) => { let l = vi.to_string(); parse_quote!(format!(#l)) }
      None => return Err(format!("variant {} without text", vi)),
    };
    arms.push(parse_quote!(#pat => #body,));
  }
  Ok(parse_quote!(fn to_string(&self) -> String { match self { #(#arms)* } }))
}
/// `fn fmt(&self, f) -> fmt::Result` whose results are all one write to `f`, as a function to the text
fn written(f: &mut ImplItemFn) -> bool {
  let name = match f.sig.inputs.iter().nth(1) { Some(FnArg::Typed(t)) => match &*t.pat { Pat::Ident(p) => p.ident.to_string(), _ => return false }, _ => return false };
  struct W { name: String }
  impl VisitMut for W {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
      visit_mut::visit_expr_mut(self, e);
      let new: Option<Expr> = match e {
        Expr::Macro(m) if m.mac.path.is_ident("write") => {
          let mut it = m.mac.tokens.clone().into_iter();
          if it.next().map(|x| x.to_string()) == Some(self.name.clone()) && it.next().map(|x| x.to_string()).as_deref() == Some(",") { let r: TokenStream = it.collect(); Some(parse_quote!(format!(#r))) } else { None }
        }
        Expr::MethodCall(m) if m.method == "write_str" && m.args.len() == 1 => match &*m.receiver { Expr::Path(p) if p.path.is_ident(&self.name) => { let a = &m.args[0]; Some(parse_quote!((#a).to_string())) } _ => None },
        _ => None,
      };
      if let Some(n) = new { *e = n }
    }
  }
  let mut w = W { name: name.clone() };
  w.visit_block_mut(&mut f.block);
  // a result that is dropped or passed on by `?` would not be the whole text
  if f.block.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|t| t == name) || f.block.to_token_stream().to_string().contains('?') { return false; }
  let g: ImplItemFn = parse_quote!(fn to_string(&self) -> String {});
  f.sig = g.sig;
  true
}

struct Uses { name: String, calls: usize, paths: usize }
impl<'x> syn::visit::Visit<'x> for Uses {
  fn visit_expr_call(&mut self, c: &'x ExprCall) { if let Expr::Path(p) = &*c.func { if p.path.is_ident(&self.name) { self.calls += 1; } } syn::visit::visit_expr_call(self, c) }
  fn visit_path(&mut self, p: &'x Path) { if p.is_ident(&self.name) { self.paths += 1; } syn::visit::visit_path(self, p) }
}
struct Recall { name: String, to: Ident, extra: Vec<Ident> }
impl VisitMut for Recall {
  fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
    visit_mut::visit_expr_call_mut(self, c);
    if let Expr::Path(p) = &*c.func { if p.path.is_ident(&self.name) { let t = &self.to; c.func = Box::new(parse_quote!(#t)); for e in &self.extra { c.args.push(parse_quote!(#e)); } } }
  }
}
/// slices are taken as the vectors they are borrowed from (the verifier rejects the text where one is not), and a
/// match on the elements of a slice as one on its length
struct Slices;
impl VisitMut for Slices {
  fn visit_type_mut(&mut self, t: &mut Type) {
    visit_mut::visit_type_mut(self, t);
    if let Type::Reference(r) = t { if let Type::Slice(s) = &*r.elem {
      let e = &s.elem;
      if e.to_token_stream().to_string() != "Rule" { let v: Type = parse_quote!(Vec<#e>); *r.elem = v; }
    } }
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    visit_mut::visit_expr_mut(self, e);
    let n: Option<Expr> = match e {
      Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
        Expr::Index(i) if matches!(&*i.index, Expr::Range(g) if g.start.is_none() && g.end.is_none()) => { let x = &i.expr; Some(parse_quote!(&#x)) }
        _ => None,
      },
      Expr::MethodCall(m) if m.method == "as_slice" && m.args.is_empty() => { let x = &m.receiver; Some(parse_quote!((&#x))) }
      Expr::Match(m) if m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_))) => slice_match(m),
      Expr::If(i) => match &*i.cond {
        Expr::Let(l) if matches!(&*l.pat, Pat::Slice(_)) => {
          let (c, lets) = match slice_pat(&l.pat) { Some(x) => x, None => return };
          let x = slice_scrut(&l.expr); let st = &i.then_branch.stmts;
          Some(match &i.else_branch { Some((_, el)) => parse_quote!({ let vx_sl = #x; if #c { #(#lets)* #(#st)* } else #el }), None => parse_quote!({ let vx_sl = #x; if #c { #(#lets)* #(#st)* } }) })
        }
        _ => None,
      },
      _ => None,
    };
    if let Some(n) = n { *e = n; }
  }
}
fn slice_scrut(e: &Expr) -> Expr { match e { Expr::Index(i) if matches!(&*i.index, Expr::Range(g) if g.start.is_none() && g.end.is_none()) => { let x = &i.expr; parse_quote!(&#x) } e => e.clone() } }
fn slice_pat(p: &Pat) -> Option<(Expr, Vec<Stmt>)> {
  let s = match p { Pat::Slice(s) => s, Pat::Wild(_) => return Some((parse_quote!(true), vec![])), _ => return None };
  let n = s.elems.len();
  let rest = s.elems.iter().position(|p| matches!(p, Pat::Rest(_)));
  let mut lets: Vec<Stmt> = vec![];
  for (i, p) in s.elems.iter().enumerate() {
    let back = n - i;
    let at: Expr = match rest { Some(r) if i > r => parse_quote!(vx_sl.len() - #back), _ => parse_quote!(#i) };
    match p {
      Pat::Rest(_) if Some(i) == rest => {}
      Pat::Wild(_) => {}
      Pat::Ident(id) if id.by_ref.is_none() && id.subpat.is_none() && id.mutability.is_none() && id.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase()) => { let v = &id.ident; lets.push(parse_quote!(let #v = &vx_sl[#at];)); }
      _ => return None,
    }
  }
  let m = n - 1.min(n);
  Some((match rest { Some(_) => parse_quote!(vx_sl.len() >= #m), None => parse_quote!(vx_sl.len() == #n) }, lets))
}
fn slice_match(m: &ExprMatch) -> Option<Expr> {
  let mut out: Option<Expr> = None;
  for a in m.arms.iter().rev() {
    if a.guard.is_some() { return None; }
    let (c, lets) = slice_pat(&a.pat)?;
    let b = &a.body;
    out = Some(match (out, &a.pat) { (_, Pat::Wild(_)) => parse_quote!({ #b }), (None, _) => return None, (Some(o), _) => parse_quote!(if #c { #(#lets)* #b } else { #o }) });
  }
  let (x, o) = (slice_scrut(&m.expr), out?);
  Some(parse_quote!({ let vx_sl = #x; #o }))
}
/// `let mut it = e; .. while let Some(p) = it.next() { .. }` with no other use of `it` is `for p in e { .. }`
struct WhileLet;
impl VisitMut for WhileLet {
  fn visit_block_mut(&mut self, b: &mut Block) {
    visit_mut::visit_block_mut(self, b);
    let mut i = 0;
    while i + 1 < b.stmts.len() {
      let got = (|| {
        let l = match &b.stmts[i] { Stmt::Local(l) => l, _ => return None };
        let name = match &l.pat { Pat::Ident(p) if p.mutability.is_some() && p.by_ref.is_none() && p.subpat.is_none() => p.ident.clone(), _ => return None };
        let init = l.init.as_ref()?;
        if init.diverge.is_some() { return None; }
        let w = match &b.stmts[i + 1] { Stmt::Expr(Expr::While(w), _) => w, _ => return None };
        if w.label.is_some() { return None; }
        let c = match &*w.cond { Expr::Let(c) => c, _ => return None };
        let p = match &*c.pat { Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => t.elems[0].clone(), _ => return None };
        let m = match &*c.expr { Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => m, _ => return None };
        match &*m.receiver { Expr::Path(q) if q.path.is_ident(&name) => {} _ => return None }
        let n = name.to_string();
        let mut u = Uses { name: n.clone(), calls: 0, paths: 0 };
        syn::visit::Visit::visit_block(&mut u, &w.body);
        for s in &b.stmts[i + 2..] { syn::visit::Visit::visit_stmt(&mut u, s); }
        if u.paths > 0 || w.body.to_token_stream().to_string().contains('!') && w.body.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|t| t == n) { return None; }
        let (e, body) = (&init.expr, &w.body);
        Some(parse_quote!(for #p in #e #body))
      })();
      if let Some(f) = got { b.stmts[i] = Stmt::Expr(f, None); b.stmts.remove(i + 1); }
      i += 1;
    }
  }
}
struct Life;
impl VisitMut for Life {
  fn visit_type_reference_mut(&mut self, r: &mut TypeReference) { r.lifetime = Some(Lifetime::new("'vx", proc_macro2::Span::call_site())); visit_mut::visit_type_reference_mut(self, r) }
}
/// `let f = |a: A| -> R { .. };` at the top of a function body, capturing shared-reference parameters only
fn lift(f: &mut FnSrc, con: &Contracts, out: &mut Vec<FnSrc>) {
  let fname = f.sig.ident.to_string();
  let mut i = 0;
  while i < f.block.stmts.len() {
    let got = (|| {
      let l = match &f.block.stmts[i] { Stmt::Local(l) => l, _ => return None };
      let name = match &l.pat { Pat::Ident(p) if p.mutability.is_none() => p.ident.to_string(), _ => return None };
      let c = match l.init.as_ref().map(|x| &*x.expr) { Some(Expr::Closure(c)) => c.clone(), _ => return None };
      let key = format!("{}__{}", fname, name);
      if !con.fns.contains_key(&key) { return None; }
      let mut params: Vec<(Pat, Type)> = vec![];
      for p in &c.inputs { match p { Pat::Type(t) => params.push(((*t.pat).clone(), (*t.ty).clone())), _ => return None } }
      let ret: Type = match &c.output { ReturnType::Type(_, t) => (**t).clone(), ReturnType::Default => if boolish(&c.body) { parse_quote!(bool) } else { return None } };
      let mut ids = lower::idents_of(&c.body);
      for (p, _) in &params { for n in pat_names(p) { ids.remove(&n); } }
      if ids.contains("self") || ids.contains("Self") { return None; }
      let mut extra = vec![]; let mut xt = vec![];
      let mut outer: Vec<String> = vec![];
      for s in &f.block.stmts[..i] { if let Stmt::Local(l) = s { outer.extend(pat_names(&l.pat)); } }
      for n in &outer { if ids.contains(n) { return None; } }
      for a in &f.sig.inputs { if let FnArg::Typed(t) = a { let ns = pat_names(&t.pat); for n in ns { if ids.contains(&n) {
        match &*t.ty { Type::Reference(r) if r.mutability.is_none() => {} _ => return None }
        extra.push(Ident::new(&n, proc_macro2::Span::call_site())); xt.push((*t.ty).clone());
      } } } }
      // the captured names must not be shadowed where the closure is called
      let mut later = vec![]; lower::all_pat_names(&f.block.stmts[i + 1..], &mut later);
      for e in &extra { if later.contains(&e.to_string()) { return None; } }
      if later.contains(&name) { return None; }
      let mut u = Uses { name: name.clone(), calls: 0, paths: 0 };
      for s in &f.block.stmts[i + 1..] { syn::visit::Visit::visit_stmt(&mut u, s); }
      if u.calls == 0 || u.calls != u.paths { return None; }
      Some((key, name, c, params, ret, extra, xt))
    })();
    if let Some((key, name, c, params, ret, extra, xt)) = got {
      let id = Ident::new(&key, proc_macro2::Span::call_site());
      let (pp, mut pt): (Vec<Pat>, Vec<Type>) = params.into_iter().unzip();
      let mut xt = xt; let mut ret = ret;
      let has_ref = ret.to_token_stream().to_string().contains('&');
      if has_ref { for t in pt.iter_mut().chain(xt.iter_mut()) { Life.visit_type_mut(t); } Life.visit_type_mut(&mut ret); }
      let lt: TokenStream = if has_ref { quote!(<'vx>) } else { quote!() };
      let sig: Signature = parse_quote!(fn #id #lt (#(#pp: #pt,)* #(#extra: #xt),*) -> #ret);
      let block: Block = match &*c.body { Expr::Block(b) if b.label.is_none() => b.block.clone(), e => parse_quote!({ #e }) };
      let line = c.or1_token.span.start().line;
      let end = { use syn::spanned::Spanned; c.body.span().end().line };
      f.block.stmts.remove(i);
      let mut r = Recall { name, to: id, extra };
      for s in &mut f.block.stmts[i..] { r.visit_stmt_mut(s); }
      out.push(FnSrc { key, self_ty: None, assoc: HashMap::new(), sig, block, file: f.file.clone(), line, end });
    } else { i += 1; }
  }
}
fn boolish(e: &Expr) -> bool {
  match e {
    Expr::Paren(p) => boolish(&p.expr),
    Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, None)) if boolish(e)),
    Expr::Binary(b) => matches!(b.op, BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)),
    Expr::Unary(u) => matches!(u.op, UnOp::Not(_)),
    _ => false,
  }
}

/// the verifier's back end cannot take `r#name`; every such name becomes `raw_name`
fn raw_idents(s: &str) -> String {
  let c: Vec<char> = s.chars().collect();
  let mut o = String::with_capacity(s.len());
  let mut i = 0;
  while i < c.len() {
    let prev = i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_');
    if c[i] == 'r' && !prev && i + 2 < c.len() && c[i + 1] == '#' && c[i + 2].is_ascii_lowercase() { o.push_str("raw_"); i += 2; } else { o.push(c[i]); i += 1; }
  }
  o
}
const UNFOLD: &str = "/*UNFOLD*/";
fn mentions(text: &str, w: &str) -> bool {
  text.match_indices(w).any(|(i, _)| { let e = |c: Option<char>| !c.map_or(false, |c| c.is_alphanumeric() || c == '_'); e(text[i + w.len()..].chars().next()) && e(text[..i].chars().last()) })
}
/// Verus takes one module-level `broadcast use`
fn take_broadcast(s: &str, out: &mut Vec<String>) -> String {
  s.lines().map(|l| match l.strip_prefix("broadcast use ") {
    Some(r) => { for n in r.trim().trim_end_matches(';').trim_matches(|c| c == '{' || c == '}').split(',') { if !n.trim().is_empty() { out.push(n.trim().to_string()); } } String::new() }
    None => l.to_string(),
  } + "\n").collect()
}
fn parse_file_syn(s: &str) -> Result<File> { syn::parse_file(s) }
fn fix_assoc(t: Ty, f: &FnSrc, items: &Items) -> Ty {
  match t {
    Ty::Named(n, a) => { if let Some(k) = n.strip_prefix("Self::") { if let Some(ty) = f.assoc.get(k) { return items.ty(ty, None); } } Ty::Named(n, a.into_iter().map(|x| fix_assoc(x, f, items)).collect()) }
    Ty::Ref(b) => fix_assoc(*b, f, items).r(),
    Ty::Tuple(v) => Ty::Tuple(v.into_iter().map(|x| fix_assoc(x, f, items)).collect()),
    t => t,
  }
}

struct Calls<'a> { items: &'a Items, st: Option<&'a str>, out: BTreeSet<String> }
impl<'a, 'x> syn::visit::Visit<'x> for Calls<'a> {
  fn visit_path(&mut self, p: &'x Path) {
    let n = p.segments.len();
    let l = p.segments.last().unwrap().ident.to_string();
    if n >= 2 { let mut q = p.segments[n - 2].ident.to_string(); if q == "Self" { q = self.st.unwrap_or("").into(); } let k = format!("{}::{}", q, l); if self.items.fns.contains_key(&k) { self.out.insert(k); return; } }
    if self.items.fns.contains_key(&l) { self.out.insert(l); }
    syn::visit::visit_path(self, p);
  }
  fn visit_expr_method_call(&mut self, m: &'x ExprMethodCall) {
    let n = m.method.to_string();
    if !["to_string", "from_str", "from"].contains(&n.as_str()) { for k in self.items.fns.keys() { if k.ends_with(&format!("::{}", n)) { self.out.insert(k.clone()); } } }
    syn::visit::visit_expr_method_call(self, m);
  }
}
fn calls_of(b: &Block, items: &Items, st: Option<&str>) -> Vec<String> {
  let mut c = Calls { items, st, out: BTreeSet::new() };
  syn::visit::Visit::visit_block(&mut c, b);
  c.out.into_iter().collect()
}

fn emit_type(o: &mut Out, t: &TypeSrc) {
  let mut fix = TyFix { self_ty: Some(t.name.clone()), assoc: HashMap::new(), ren: HashMap::new() };
  let g = plain(t.generics.to_token_stream());
  if t.is_enum {
    o.put(&format!("pub enum {}{} {{\n", t.name, g));
    for (n, f) in &t.variants {
      match f {
        Fields::Unit => o.put(&format!("  {},\n", n)),
        Fields::Unnamed(u) => { let v: Vec<String> = u.unnamed.iter().map(|f| { let mut ty = f.ty.clone(); fix.visit_type_mut(&mut ty); plain(ty.to_token_stream()) }).collect(); o.put(&format!("  {}({}),\n", n, v.join(", "))) }
        Fields::Named(u) => { let v: Vec<String> = u.named.iter().map(|f| { let mut ty = f.ty.clone(); fix.visit_type_mut(&mut ty); format!("{}: {}", f.ident.as_ref().unwrap(), plain(ty.to_token_stream())) }).collect(); o.put(&format!("  {} {{ {} }},\n", n, v.join(", "))) }
      }
    }
    o.put("}\n");
  } else {
    o.put(&format!("pub struct {}{} {{\n", t.name, g));
    for (n, ty) in &t.fields { let mut ty = ty.clone(); fix.visit_type_mut(&mut ty); o.put(&format!("  pub {}: {},\n", n.as_ref().unwrap(), plain(ty.to_token_stream()))); }
    o.put("}\n");
  }
}

fn spec_default(e: &str, t: &Ty, items: &Items) -> String {
  match t {
    Ty::Ref(b) if b.is("str") => format!("{}@ == Seq::<char>::empty()", e),
    Ty::Named(n, _) => match n.as_str() {
      "String" => format!("{}@ == Seq::<char>::empty()", e),
      "Vec" => format!("{}@.len() == 0", e),
      "Option" => format!("{} is None", e),
      "bool" => format!("!{}", e),
      "Range" => format!("{e}.start == 0 && {e}.end == 0", e = e),
      "BTreeMap" => format!("{}@ == Map::<_, _>::empty()", e),
      "BTreeSet" => format!("{}@ == Set::<_>::empty()", e),
      n if items.defaults.contains_key(n) => format!("is_default_{}({})", n, e),
      _ => "true".into(),
    },
    _ => "true".into(),
  }
}
fn exec_default(t: &Ty, items: &Items) -> String {
  match t {
    Ty::Ref(b) if b.is("str") => "\"\"".into(),
    Ty::Named(n, _) => match n.as_str() {
      "String" => "String::new()".into(), "Vec" => "Vec::new()".into(), "Option" => "None".into(), "bool" => "false".into(), "Range" => "vx_range(0, 0)".into(),
      "BTreeMap" => "BTreeMap::new()".into(), "BTreeSet" => "BTreeSet::new()".into(),
      n if items.defaults.contains_key(n) => format!("{}::vx_default()", n),
      _ => "0".into(),
    },
    _ => "0".into(),
  }
}
fn default_fn(t: &TypeSrc, items: &Items) -> String {
  let d = match items.defaults.get(&t.name) { Some(d) => d, None => return String::new() };
  let (ig, tg, _) = t.generics.split_for_impl();
  let (ig, tg) = (ig.to_token_stream().to_string(), tg.to_token_stream().to_string());
  let n = &t.name;
  if let Some(v) = d {
    return format!("pub open spec fn is_default_{n}{ig}(x: {n}{tg}) -> bool {{ x == {n}::{v} }}\nimpl{ig} {n}{tg} {{ pub fn vx_default() -> (r: {n}{tg}) ensures r == {n}::{v} {{ {n}::{v} }} }}\n");
  }
  let fs = &items.structs[n];
  let sp: Vec<String> = fs.iter().map(|(f, ty)| { let f = if f == "type" { "r#type" } else { f }; format!("({})", spec_default(&format!("x.{}", f), ty, items)) }).collect();
  let ex: Vec<String> = fs.iter().map(|(f, ty)| { let f = if f == "type" { "r#type" } else { f }; format!("{}: {}", f, exec_default(ty, items)) }).collect();
  let pre = if fs.iter().any(|(_, t)| matches!(t, Ty::Ref(b) if b.is("str"))) { "proof { reveal_strlit(\"\"); assert(\"\"@ =~= Seq::<char>::empty()); } " } else { "" };
  format!("pub open spec fn is_default_{n}{ig}(x: {n}{tg}) -> bool {{ {} }}\nimpl{ig} {n}{tg} {{ pub fn vx_default() -> (r: {n}{tg}) ensures is_default_{n}(r) {{ {pre}{n} {{ {} }} }} }}\n", sp.join(" && "), ex.join(", "))
}

/// `spok_T(x, src)`: every span inside `x` is a valid range of `src` on character boundaries.
fn spok(types: &[TypeSrc], items: &Items) -> String {
  // types that contain a span, transitively
  let mut has: BTreeSet<String> = BTreeSet::new();
  fn contains(t: &Ty, has: &BTreeSet<String>) -> bool { match t { Ty::Named(n, a) => n == "Range" || has.contains(n) || a.iter().any(|x| contains(x, has)), Ty::Ref(b) => contains(b, has), Ty::Tuple(v) => v.iter().any(|x| contains(x, has)), _ => false } }
  loop {
    let n = has.len();
    for (k, fs) in &items.structs { if fs.iter().any(|f| contains(&f.1, &has)) { has.insert(k.clone()); } }
    for (k, vs) in &items.enums { if vs.iter().any(|v| v.kinds.iter().any(|f| contains(&f.1, &has))) { has.insert(k.clone()); } }
    if has.len() == n { break; }
  }
  fn pred(e: &str, t: &Ty, has: &BTreeSet<String>, d: usize) -> Option<String> {
    if !contains(t, has) { return None; }
    match t {
      Ty::Ref(b) => pred(e, b, has, d),
      Ty::Named(n, a) => match n.as_str() {
        "Range" => Some(format!("span_ok({}, src)", e)),
        "Vec" => { let i = format!("vx_k{}", d); let inner = pred(&format!("{}@[{}]", e, i), &a[0], has, d + 1)?; Some(format!("(forall|{i}: int| 0 <= {i} < {e}@.len() ==> {})", inner.replacen(&format!("({}@[{}]", e, i), &format!("(#[trigger] {}@[{}]", e, i), 1), i = i, e = e)) }
        "Option" => { let inner = pred(&format!("{}->Some_0", e), &a[0], has, d)?; Some(format!("({} is Some ==> {})", e, inner)) }
        n => Some(format!("spok_{}({}, src)", n, e)),
      },
      _ => None,
    }
  }
  let mut s = String::new();
  for t in types {
    if !has.contains(&t.name) { continue; }
    let (ig, tg, _) = t.generics.split_for_impl();
    let (ig, tg) = (ig.to_token_stream().to_string(), tg.to_token_stream().to_string());
    let n = &t.name;
    let body = if t.is_enum {
      let mut arms = String::new();
      for v in &items.enums[n] {
        let named = v.kinds.iter().any(|k| k.0.is_some());
        let ps: Vec<String> = v.kinds.iter().enumerate().filter_map(|(i, k)| pred(&k.0.clone().unwrap_or(format!("x{}", i)), &k.1, &has, 0)).collect();
        if ps.is_empty() { continue; }
        if named { arms += &format!("{n}::{} {{ {}, .. }} => {}, ", v.name, v.kinds.iter().map(|k| k.0.clone().unwrap()).collect::<Vec<_>>().join(", "), ps.join(" && ")); }
        else { arms += &format!("{n}::{}({}) => {}, ", v.name, (0..v.kinds.len()).map(|i| format!("x{}", i)).collect::<Vec<_>>().join(", "), ps.join(" && ")); }
      }
      format!("match x {{ {}#[allow(unreachable_patterns)] _ => true }}", arms)
    } else {
      let ps: Vec<String> = items.structs[n].iter().filter_map(|(f, ty)| { let f = if f == "type" { "r#type" } else { f }; pred(&format!("x.{}", f), ty, &has, 0) }).collect();
      if ps.is_empty() { "true".into() } else { ps.join("\n  && ") }
    };
    s += &format!("pub open spec fn spok_{n}{ig}(x: {n}{tg}, src: Seq<char>) -> bool {{\n  {body}\n}}\n");
  }
  s
}
#[allow(dead_code)]
fn _q() -> TokenStream { quote!() }
