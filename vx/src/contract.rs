//! Contract files. Sections start with `@kind args` at column 0:
//!   @spec                      raw specification text, emitted once
//!   @fn NAME                   clauses of a function
//!   @loop FN/LABEL             clauses of a loop
//!   @hint FN/LABEL:POS         proof text put at a marker
//! Clauses: `names: e` (what callers may call the result: an uninterpreted fact, true by its meaning), `requires [T..]: e`, `ensures [T..]: e`, `invariant [T..]: e`, `decreases: e`, `attr: #[..]`, `opt: word`.
//! A clause continues on the following more-indented lines.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Clause { pub kind: String, pub tags: Vec<String>, pub text: String }
#[derive(Clone, Debug, Default)]
pub struct FnC { pub clauses: Vec<Clause>, pub used: bool }
#[derive(Default)]
pub struct Contracts {
  pub spec: String,
  pub fns: BTreeMap<String, FnC>,
  pub loops: BTreeMap<String, FnC>,
  pub hints: BTreeMap<String, String>,
  pub spec_fns: Vec<(String, String, String)>,
}

pub fn parse_file(s: &str, c: &mut Contracts) -> Result<(), String> {
  let mut kind = String::new();
  let mut name = String::new();
  for (ln, line) in s.lines().enumerate() {
    if line.starts_with("##") { continue; }
    if line.starts_with('@') {
      let l = &line[1..];
      let (k, a) = l.split_once(' ').unwrap_or((l, ""));
      kind = k.trim().to_string(); name = a.trim().to_string();
      match kind.as_str() {
        "spec" => { c.spec.push('\n'); }
        "fn" => { if c.fns.insert(name.clone(), FnC::default()).is_some() { return Err(format!("line {}: duplicate contract for {}", ln + 1, name)); } }
        "loop" => { for n in name.split_whitespace() { if c.loops.insert(n.to_string(), FnC::default()).is_some() { return Err(format!("line {}: duplicate loop {}", ln + 1, n)); } } }
        "hint" => { for n in name.split_whitespace() { c.hints.entry(n.to_string()).or_default(); } }
        "specfn" => { let w: Vec<_> = name.split_whitespace().collect(); c.spec_fns.push((w[0].into(), w[1].into(), w[2].into())); }
        k => return Err(format!("line {}: unknown section {}", ln + 1, k)),
      }
      continue;
    }
    match kind.as_str() {
      "spec" => { c.spec.push_str(line); c.spec.push('\n'); }
      "hint" => { for n in name.split_whitespace() { let h = c.hints.get_mut(n).unwrap(); h.push_str(line); h.push('\n'); } }
      "fn" | "loop" => {
        for n in name.split_whitespace() {
          let m = if kind == "fn" { c.fns.get_mut(n).unwrap() } else { c.loops.get_mut(n).unwrap() };
          if line.trim().is_empty() { continue; }
          if line.starts_with("    ") {
            let cl = m.clauses.last_mut().ok_or(format!("line {}: continuation without clause", ln + 1))?;
            cl.text.push('\n'); cl.text.push_str(line);
          } else {
            let t = line.trim();
            let (h, e) = t.split_once(':').ok_or(format!("line {}: clause without ':'", ln + 1))?;
            let (k, tags) = match h.find('[') { Some(i) => (h[..i].trim(), h[i + 1..].trim_end_matches(']').split_whitespace().map(|s| s.to_string()).collect()), None => (h.trim(), vec![]) };
            if !["requires", "ensures", "invariant", "decreases", "attr", "opt", "tags", "names"].contains(&k) { return Err(format!("line {}: clause kind {}", ln + 1, k)); }
            m.clauses.push(Clause { kind: k.into(), tags, text: e.trim().to_string() });
          }
        }
      }
      _ => {}
    }
  }
  Ok(())
}
