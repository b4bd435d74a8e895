//! The names the extracted text uses, over pest and the standard library. Where contracts/prelude.rs states what such a
//! function returns and the statement is executable, the call is checked against it as well.
pub use core::ops::Range;
pub use std::collections::{BTreeMap, BTreeSet};
pub use crate::peg::{DBMLParser as Pest, Rule};
use pest::Parser as _;
use std::cell::Cell;

thread_local! { pub static CHECKED: Cell<u64> = Cell::new(0); }
fn model(ok: bool, what: &str) { CHECKED.with(|c| c.set(c.get() + 1)); if !ok { panic!("MODEL: {what}") } }
fn leak(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }

pub trait VxKey: Ord {}
impl<T: Ord + ?Sized> VxKey for T {}
pub type ErrorVariant = pest::error::ErrorVariant<Rule>;
#[derive(Clone, Copy)] pub struct Span(pest::Span<'static>);
#[derive(Clone)] pub struct Pair(pest::iterators::Pair<'static, Rule>);
pub struct Pairs(std::collections::VecDeque<Pair>);
#[derive(PartialEq)] pub struct Error(pub Box<pest::error::Error<Rule>>);
impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { self.0.fmt(f) } }
impl Clone for Error { fn clone(&self) -> Self { Error(self.0.clone()) } }
impl Span {
  pub fn start(&self) -> usize { self.0.start() }
  pub fn end(&self) -> usize { self.0.end() }
  pub fn new(input: &str, start: usize, end: usize) -> Option<Span> {
    let r = pest::Span::new(leak(input), start, end).map(Span);
    model(r.is_some() == (start <= end && input.is_char_boundary(start) && input.is_char_boundary(end)), "Span::new");
    if let Some(s) = &r { model(s.start() == start && s.end() == end, "Span::new") }
    r
  }
}
impl Error { pub fn new_from_span(v: ErrorVariant, span: Span) -> Error { Error(Box::new(pest::error::Error::new_from_span(v, span.0))) } }
impl Pair {
  pub fn as_rule(&self) -> Rule { self.0.as_rule() }
  pub fn as_str(&self) -> &'static str { let s = self.0.as_span(); model(self.0.as_str() == &s.get_input()[s.start()..s.end()], "Pair::as_str"); self.0.as_str() }
  pub fn as_span(&self) -> Span { Span(self.0.as_span()) }
  pub fn into_inner(self) -> Pairs { Pairs(self.0.into_inner().map(Pair).collect()) }
}
impl Pairs {
  pub fn next(&mut self) -> Option<Pair> { self.0.pop_front() }
  pub fn as_str(&self) -> &'static str { match (self.0.front(), self.0.back()) { (Some(a), Some(b)) => &a.as_span().0.get_input()[a.as_span().start()..b.as_span().end()], _ => "" } }
}
pub struct DBMLParser;
impl DBMLParser { pub fn parse(rule: Rule, input: &str) -> Result<Pairs, Error> {
  let r = Pest::parse(rule, leak(input)).map(|p| Pairs(p.map(Pair).collect())).map_err(|e| Error(Box::new(e)));
  if let Ok(p) = &r { model(p.0.len() == 1 && p.0[0].as_rule() == rule, "DBMLParser::parse") }
  r
} }
pub fn vx_pairs(p: Pairs) -> Vec<Pair> { p.0.into_iter().collect() }

pub fn vx_clone<T: Clone>(x: &T) -> T { x.clone() }
pub fn vx_eq<T: PartialEq + ?Sized>(a: &T, b: &T) -> bool { a == b }
pub fn vx_eq_str(a: &str, b: &str) -> bool { model((a == b) == a.chars().eq(b.chars()), "vx_eq_str"); a == b }
pub fn vx_unreachable<T>() -> T { panic!("MODEL: unreachable code is reached") }
pub fn vx_range(a: usize, b: usize) -> Range<usize> { a..b }
pub fn vx_max(a: usize, b: usize) -> usize { a.max(b) }
pub fn vx_min(a: usize, b: usize) -> usize { a.min(b) }
pub fn vx_mark(_: usize) {}

pub fn vx_to_string(s: &str) -> String { s.to_string() }
pub fn vx_cat(a: String, b: String) -> String { a + &b }
pub fn vx_str_is_empty(s: &str) -> bool { model(s.is_empty() == (s.chars().count() == 0), "is_empty"); s.is_empty() }
pub fn vx_str_len(s: &str) -> usize { model(s.chars().count() <= s.len(), "len"); s.len() }
pub fn vx_char_count(s: &str) -> usize { s.chars().count() }
pub fn vx_bool_string(x: bool) -> String { let r = x.to_string(); model(r == if x { "true" } else { "false" }, "bool"); r }
pub fn vx_i64_string(x: i64) -> String { x.to_string() }
pub fn vx_f64_string(x: f64) -> String { x.to_string() }
pub fn vx_u32_string(x: u32) -> String { x.to_string() }
pub fn vx_usize_string(x: usize) -> String { x.to_string() }
pub fn vx_parse_err_string<E: ToString>(x: &E) -> String { x.to_string() }
fn digits(s: &str) -> bool { !s.is_empty() && s.chars().all(|c| ('0'..='9').contains(&c)) }
/// the value of a text of digits, if it is at most `max`
fn dec(s: &str, max: u128) -> Option<u128> { let mut v: u128 = 0; for c in s.chars() { v = v.saturating_mul(10).saturating_add(c as u128 - '0' as u128) } if v <= max { Some(v) } else { None } }
macro_rules! number { ($($f:ident $t:ty),*) => { $(pub fn $f(s: &str) -> Result<$t, core::num::ParseIntError> {
  let r = s.parse::<$t>();
  if digits(s) { model(r.as_ref().ok().map(|x| *x as u128) == dec(s, <$t>::MAX as u128), "number") }
  r
})* } }
number!(vx_parse_u32 u32, vx_parse_u64 u64, vx_parse_i32 i32, vx_parse_usize usize, vx_parse_i64 i64);
fn decimal(s: &str) -> bool { match s.split_once('.') { Some((a, b)) => digits(a) && (b.is_empty() || digits(b)), None => false } }
pub fn vx_parse_f64(s: &str) -> Result<f64, core::num::ParseFloatError> { let r = s.parse::<f64>(); if decimal(s) { model(r.is_ok(), "f64") } r }
/// the definition `split` of the prelude
fn split(s: &[char], c: char) -> Vec<String> {
  match s.split_last() {
    None => vec![String::new()],
    Some((l, t)) => { let mut t = split(t, c); if *l == c { t.push(String::new()) } else { t.last_mut().unwrap().push(*l) } t }
  }
}
pub fn vx_split(s: &str, c: char) -> Vec<&str> { let r: Vec<&str> = s.split(c).collect(); let v: Vec<char> = s.chars().collect(); if v.len() < 2000 { model(r == split(&v, c), "split") } r }

pub fn vx_as_ref<T>(x: &Option<T>) -> Option<&T> { x.as_ref() }
pub fn vx_as_deref(x: &Option<String>) -> Option<&str> { x.as_deref() }
pub fn vx_opt_vec<T>(x: Option<T>) -> Vec<T> { x.into_iter().collect() }
pub fn vx_opt_vec_ref<T>(x: &Option<T>) -> Vec<&T> { x.iter().collect() }
pub fn vx_refs<T>(x: &Vec<T>) -> Vec<&T> { x.iter().collect() }
pub fn vx_slice_vec<T: Clone>(x: &[T]) -> Vec<T> { x.to_vec() }
pub fn vx_vec_rep<T: Clone>(x: T, n: usize) -> Vec<T> { vec![x; n] }
pub fn vx_vec_contains<T: PartialEq>(x: &Vec<T>, y: &T) -> bool { x.contains(y) }
pub fn vx_first<T>(x: &Vec<T>) -> Option<&T> { x.first() }
pub fn vx_last<T>(x: &Vec<T>) -> Option<&T> { x.last() }
pub fn vx_get<T>(x: &Vec<T>, i: usize) -> Option<&T> { x.get(i) }
pub fn vx_extend<T>(x: &mut Vec<T>, y: Vec<T>) { x.extend(y) }
pub fn vx_rev<T>(mut x: Vec<T>) -> Vec<T> { x.reverse(); x }
pub fn vx_skip<T>(x: Vec<T>, n: usize) -> Vec<T> { x.into_iter().skip(n).collect() }
pub fn vx_take<T>(x: Vec<T>, n: usize) -> Vec<T> { x.into_iter().take(n).collect() }
pub fn vx_concat<T>(x: Vec<T>, y: Vec<T>) -> Vec<T> { x.into_iter().chain(y).collect() }
pub fn vx_eq_seq<T: PartialEq>(x: &Vec<T>, y: &Vec<T>) -> bool { x == y }
pub fn vx_last_item<T>(x: Vec<T>) -> Option<T> { x.into_iter().last() }
pub fn vx_vec_clear<T>(x: &mut Vec<T>) { x.clear() }
pub fn vx_vec_reverse<T>(x: &mut Vec<T>) { x.reverse() }
pub fn vx_vec_truncate<T>(x: &mut Vec<T>, n: usize) { x.truncate(n) }
pub fn vx_vec_swap<T>(x: &mut Vec<T>, a: usize, b: usize) { x.swap(a, b) }
pub fn vx_opt_take<T>(x: &mut Option<T>) -> Option<T> { x.take() }
pub fn vx_opt_replace<T>(x: &mut Option<T>, v: T) -> Option<T> { x.replace(v) }
pub fn vx_opt_and<T, U>(x: Option<T>, y: Option<U>) -> Option<U> { x.and(y) }
pub fn vx_opt_xor<T>(x: Option<T>, y: Option<T>) -> Option<T> { x.xor(y) }
pub fn vx_opt_zip<T, U>(x: Option<T>, y: Option<U>) -> Option<(T, U)> { x.zip(y) }
pub fn vx_sat_sub(a: usize, b: usize) -> usize { a.saturating_sub(b) }
pub fn vx_abs_diff(a: usize, b: usize) -> usize { a.abs_diff(b) }

pub fn vx_chars(s: &str) -> Vec<char> { s.chars().collect() }
pub fn vx_string_of(x: Vec<char>) -> String { x.into_iter().collect() }
pub fn vx_string_clear(x: &mut String) { x.clear() }
pub fn vx_push_str(x: &mut String, y: &str) { x.push_str(y) }
pub fn vx_push_char(x: &mut String, y: char) { x.push(y) }
pub fn vx_str_starts_with(s: &str, p: &str) -> bool { s.starts_with(p) }
pub fn vx_str_ends_with(s: &str, p: &str) -> bool { s.ends_with(p) }
pub fn vx_str_contains(s: &str, p: &str) -> bool { s.contains(p) }
pub fn vx_str_strip_prefix<'a>(s: &'a str, p: &str) -> Option<&'a str> { s.strip_prefix(p) }
pub fn vx_str_strip_suffix<'a>(s: &'a str, p: &str) -> Option<&'a str> { s.strip_suffix(p) }
pub fn vx_str_starts_with_char(s: &str, p: char) -> bool { s.starts_with(p) }
pub fn vx_str_ends_with_char(s: &str, p: char) -> bool { s.ends_with(p) }
pub fn vx_str_contains_char(s: &str, p: char) -> bool { s.contains(p) }
pub fn vx_str_strip_prefix_char(s: &str, p: char) -> Option<&str> { s.strip_prefix(p) }
pub fn vx_str_strip_suffix_char(s: &str, p: char) -> Option<&str> { s.strip_suffix(p) }
pub fn vx_str_trim(s: &str) -> &str { s.trim() }
pub fn vx_str_trim_start(s: &str) -> &str { s.trim_start() }
pub fn vx_str_trim_end(s: &str) -> &str { s.trim_end() }
pub fn vx_str_to_lowercase(s: &str) -> String { s.to_lowercase() }
pub fn vx_str_to_uppercase(s: &str) -> String { s.to_uppercase() }
pub fn vx_str_to_ascii_lowercase(s: &str) -> String { s.to_ascii_lowercase() }
pub fn vx_str_to_ascii_uppercase(s: &str) -> String { s.to_ascii_uppercase() }
pub fn vx_str_eq_ignore_ascii_case(a: &str, b: &str) -> bool { a.eq_ignore_ascii_case(b) }
macro_rules! of_char { ($($f:ident $m:ident),*) => { $(pub fn $f(c: char) -> bool { c.$m() })* } }
of_char!(vx_char_is_ascii_alphabetic is_ascii_alphabetic, vx_char_is_ascii_alphanumeric is_ascii_alphanumeric, vx_char_is_whitespace is_whitespace, vx_char_is_alphanumeric is_alphanumeric,
  vx_char_is_alphabetic is_alphabetic, vx_char_is_numeric is_numeric, vx_char_is_ascii_uppercase is_ascii_uppercase, vx_char_is_ascii_lowercase is_ascii_lowercase, vx_char_is_uppercase is_uppercase,
  vx_char_is_lowercase is_lowercase, vx_char_is_control is_control, vx_char_is_ascii is_ascii);
pub fn vx_char_is_ascii_digit(c: char) -> bool { c.is_ascii_digit() }

pub fn vx_btreeset_clear<T: Ord>(x: &mut BTreeSet<T>) { x.clear() }
pub fn vx_btreemap_clear<K: Ord, V>(x: &mut BTreeMap<K, V>) { x.clear() }
pub fn vx_set_extend<T: Ord>(x: &mut BTreeSet<T>, y: Vec<T>) { x.extend(y) }
pub fn vx_set_is_subset<T: Ord>(a: &BTreeSet<T>, b: &BTreeSet<T>) -> bool { a.is_subset(b) }
pub fn vx_set_is_superset<T: Ord>(a: &BTreeSet<T>, b: &BTreeSet<T>) -> bool { a.is_superset(b) }
pub fn vx_set_is_disjoint<T: Ord>(a: &BTreeSet<T>, b: &BTreeSet<T>) -> bool { a.is_disjoint(b) }
pub fn vx_set_from_vec<T: Ord>(x: Vec<T>) -> BTreeSet<T> { x.into_iter().collect() }
pub fn vx_set_to_vec<T: Ord>(x: &BTreeSet<T>) -> Vec<&T> { x.iter().collect() }
pub fn vx_eq_set<T: Ord>(a: &BTreeSet<T>, b: &BTreeSet<T>) -> bool { a == b }
pub fn vx_map_pairs<K: Ord, V>(x: &BTreeMap<K, V>) -> Vec<(&K, &V)> { x.iter().collect() }
pub fn vx_map_keys<K: Ord, V>(x: &BTreeMap<K, V>) -> Vec<&K> { x.keys().collect() }
pub fn vx_map_values<K: Ord, V>(x: &BTreeMap<K, V>) -> Vec<&V> { x.values().collect() }

// ---------------------------------------------------------------- the grammar functions
/// a text as characters with their byte offsets
pub struct Text { c: Vec<char>, off: Vec<usize> }
impl Text {
  pub fn new(s: &str) -> Text { let mut off: Vec<usize> = s.char_indices().map(|x| x.0).collect(); off.push(s.len()); Text { c: s.chars().collect(), off } }
  pub fn len(&self) -> usize { self.c.len() }
}
impl core::ops::Index<usize> for Text { type Output = char; fn index(&self, i: usize) -> &char { &self.c[i] } }
impl core::ops::Index<usize> for &Text { type Output = char; fn index(&self, i: usize) -> &char { &self.c[i] } }
#[derive(Clone, PartialEq, Debug)] pub struct Node { pub rule: Rule, pub start: usize, pub end: usize, pub kids: Vec<Node> }
#[derive(Clone)] pub struct Mt { pub ok: bool, pub at: usize, pub ns: Vec<Node> }
pub fn no() -> Mt { Mt { ok: false, at: 0, ns: vec![] } }
pub fn yes(p: usize) -> Mt { Mt { ok: true, at: p, ns: vec![] } }
pub fn one(p: usize, b: bool) -> Mt { if b { yes(p + 1) } else { no() } }
pub fn tok(s: &Text, p: usize, rule: Rule, m: Mt) -> Mt { if m.ok { Mt { ok: true, at: m.at, ns: vec![Node { rule, start: s.off[p], end: s.off[m.at], kids: m.ns }] } } else { no() } }
pub fn newline(s: &Text, p: usize) -> Mt { if p < s.len() && s[p] == '\n' { yes(p + 1) } else if p + 1 < s.len() && s[p] == '\r' && s[p + 1] == '\n' { yes(p + 2) } else if p < s.len() && s[p] == '\r' { yes(p + 1) } else { no() } }
// the operands are total, so only the ones the result depends on are evaluated
#[macro_export] macro_rules! then { ($a:expr, $b:expr) => {{ let b = $b; let a = $a; if b.ok { let mut ns = a.ns; ns.extend(b.ns); Mt { ok: true, at: b.at, ns } } else { no() } }} }
#[macro_export] macro_rules! or { ($a:expr, $b:expr) => {{ let a = $a; if a.ok { a } else { $b } }} }
#[macro_export] macro_rules! opt { ($p:expr, $a:expr) => {{ let a = $a; if a.ok { a } else { yes($p) } }} }
#[macro_export] macro_rules! not { ($p:expr, $a:expr) => {{ let a = $a; if a.ok { no() } else { yes($p) } }} }
#[macro_export] macro_rules! peek { ($p:expr, $a:expr) => {{ let a = $a; if a.ok { yes($p) } else { no() } }} }
pub fn tree(p: &Pair) -> Node { let s = p.as_span(); Node { rule: p.as_rule(), start: s.start(), end: s.end(), kids: p.0.clone().into_inner().map(|k| tree(&Pair(k))).collect() } }
