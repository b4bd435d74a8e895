//! Loops, calls and throw sites are addressed by a label: a base name (the variable or the adapter) and a number.
//! When a changed function has more or fewer of a base, its sites are aligned, in order and by their text, with
//! those of the text the contracts were written for (contracts/labels.txt), so that a contract stays with its site.
use std::collections::{BTreeMap, HashMap};

pub type Labels = BTreeMap<String, Vec<(String, String)>>;
const MAX: usize = 300;

pub fn short(t: &str) -> String { t.split_whitespace().take(MAX).collect::<Vec<_>>().join(" ") }

pub fn read(s: &str) -> Labels {
  let mut m = Labels::new();
  for l in s.lines() {
    let p: Vec<&str> = l.splitn(3, '\t').collect();
    if p.len() == 3 { m.entry(p[0].into()).or_default().push((p[1].into(), p[2].into())); }
  }
  m
}

fn sim(a: &str, b: &str) -> f64 {
  if a == b { return 1.0; }
  let mut c: HashMap<&str, i64> = HashMap::new();
  let (mut n, mut both) = (0, 0);
  for t in a.split(' ') { *c.entry(t).or_insert(0) += 1; n += 1; }
  for t in b.split(' ') { n += 1; if let Some(k) = c.get_mut(t) { if *k > 0 { *k -= 1; both += 1; } } }
  0.99 * 2.0 * both as f64 / n.max(1) as f64
}

/// (base, number now) -> label, where it is not the plain one
pub fn align(old: &[(String, String)], new: &[(String, String)]) -> HashMap<(String, usize), String> {
  let mut out = HashMap::new();
  let mut bases: Vec<&String> = new.iter().map(|x| &x.0).collect();
  bases.sort(); bases.dedup();
  for b in bases {
    let o: Vec<&str> = old.iter().filter(|x| x.0 == *b).map(|x| x.1.as_str()).collect();
    let nw: Vec<String> = new.iter().filter(|x| x.0 == *b).map(|x| short(&x.1)).collect();
    if o.is_empty() || o.len() == nw.len() { continue; }
    // best order-preserving matching
    let (p, q) = (o.len(), nw.len());
    let s: Vec<Vec<f64>> = o.iter().map(|x| nw.iter().map(|y| { let v = sim(x, y); if v < 0.4 { 0.0 } else { v } }).collect()).collect();
    let mut d = vec![vec![0.0f64; q + 1]; p + 1];
    for i in (0..p).rev() { for j in (0..q).rev() { d[i][j] = d[i + 1][j].max(d[i][j + 1]).max(if s[i][j] > 0.0 { s[i][j] + d[i + 1][j + 1] } else { 0.0 }); } }
    let (mut i, mut j, mut fresh) = (0, 0, 0);
    let mut m: Vec<Option<usize>> = vec![None; q];
    while i < p && j < q {
      if s[i][j] > 0.0 && d[i][j] <= s[i][j] + d[i + 1][j + 1] + 1e-9 { m[j] = Some(i); i += 1; j += 1; }
      else if d[i][j] <= d[i + 1][j] + 1e-9 { i += 1; } else { j += 1; }
    }
    for (j, x) in m.iter().enumerate() {
      let l = match x { Some(0) => b.clone(), Some(i) => format!("{}_{}", b, i + 1), None => { fresh += 1; format!("{}_n{}", b, fresh) } };
      out.insert((b.clone(), j + 1), l);
    }
  }
  out
}
