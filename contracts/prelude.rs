#![allow(mismatched_lifetime_syntaxes, unreachable_patterns, unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces, unused_assignments, non_camel_case_types, unreachable_code, non_snake_case)]
use vstd::prelude::*;
use core::ops::Range;

// Everything in this file is trusted: the model of the pest API, of the standard library calls and of string equality.
mod vx_ax {
  use vstd::prelude::*;
  verus! {
  pub uninterp spec fn str_of(s: Seq<char>) -> String;
  // two strings with the same characters are the same value
  pub broadcast axiom fn ax_str_of(s: String) ensures #[trigger] str_of(s@) == s;
  pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
  // two vectors with the same elements are the same value
  pub broadcast axiom fn ax_vec_of<T>(s: Vec<T>) ensures #[trigger] vec_of(s@) == s;
  pub broadcast group vx_axioms { ax_str_of, ax_vec_of }
  }
}
use vx_ax::*;

verus! {

// ---------------------------------------------------------------- the source text and its spans
pub use peg::{is_quoted, blank, ltrim, between, free_of, is_blank, is_digits, is_decimal, boundary, slice, node_ok, ax_boundary_zero, ax_node_ok};
broadcast use ax_boundary_zero;
pub open spec fn span_ok(r: Range<usize>, src: Seq<char>) -> bool { r.start <= r.end && boundary(src, r.start as nat) && boundary(src, r.end as nat) }

// ---------------------------------------------------------------- pest
pub struct Node { pub rule: Rule, pub start: nat, pub end: nat, pub text: Seq<char>, pub src: Seq<char>, pub kids: Seq<Node> }
broadcast use ax_node_ok;
broadcast use ax_tree;
#[verifier::external_body] pub struct Pair { x: usize }
#[verifier::external_body] pub struct Pairs { x: usize }
#[verifier::external_body] pub struct Span { x: usize }
#[verifier::external_body] pub struct Error { x: usize }
#[verifier::external_body] pub struct VxParseErr { x: usize }
impl Pair {
  pub uninterp spec fn view(&self) -> Node;
  #[verifier::external_body] pub fn as_rule(&self) -> (r: Rule) ensures r == self@.rule { unimplemented!() }
  #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@.text { unimplemented!() }
  #[verifier::external_body] pub fn as_span(&self) -> (r: Span) ensures r.s() == self@.start, r.e() == self@.end, r.src() == self@.src { unimplemented!() }
  #[verifier::external_body] pub fn into_inner(self) -> (r: Pairs) ensures r@ == self@.kids { unimplemented!() }
}
impl Pairs {
  pub uninterp spec fn view(&self) -> Seq<Node>;
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Pair>)
    ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
      old(self)@.len() > 0 ==> r is Some && r->Some_0@ == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
  #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures self@.len() == 1 ==> r@ == self@[0].text, self@.len() == 0 ==> r@ == Seq::<char>::empty() { unimplemented!() }
}
impl Span {
  pub uninterp spec fn s(&self) -> nat;
  pub uninterp spec fn e(&self) -> nat;
  pub uninterp spec fn src(&self) -> Seq<char>;
  #[verifier::external_body] pub fn start(&self) -> (r: usize) ensures r == self.s() { unimplemented!() }
  #[verifier::external_body] pub fn end(&self) -> (r: usize) ensures r == self.e() { unimplemented!() }
  #[verifier::external_body] pub fn new(input: &str, start: usize, end: usize) -> (r: Option<Span>)
    ensures r is Some <==> (start <= end && boundary(input@, start as nat) && boundary(input@, end as nat)),
      r is Some ==> r->Some_0.s() == start && r->Some_0.e() == end && r->Some_0.src() == input@ { unimplemented!() }
}
pub enum ErrorVariant { ParsingError { positives: Vec<Rule>, negatives: Vec<Rule> }, CustomError { message: String } }
impl Error {
  pub uninterp spec fn custom(&self) -> bool;
  pub uninterp spec fn msg(&self) -> Seq<char>;
  pub uninterp spec fn s(&self) -> nat;
  pub uninterp spec fn e(&self) -> nat;
  #[verifier::external_body] pub fn new_from_span(v: ErrorVariant, span: Span) -> (r: Error)
    ensures r.s() == span.s(), r.e() == span.e(), v matches ErrorVariant::CustomError { message } ==> r.custom() && r.msg() == message@, v is ParsingError ==> !r.custom() { unimplemented!() }
}
/// the text of a quoted form: opening mark, blanks, the text of its only child, closing mark
/// text of an analyzer error; the texts themselves are compared by the replay only
pub struct DBMLParser {}
impl DBMLParser {
  #[verifier::external_body] pub fn parse(rule: Rule, input: &str) -> (r: Result<Pairs, Error>)
    ensures r is Ok <==> grammar_accepts(rule, input@),
      r is Ok ==> r->Ok_0@ == seq![grammar_tree(rule, input@)] { unimplemented!() }
}
#[verifier::external_body] pub fn vx_pairs(p: Pairs) -> (r: Vec<Pair>)
  ensures r@.len() == p@.len(), forall|i: int| 0 <= i < p@.len() ==> (#[trigger] r@[i])@ == p@[i] { unimplemented!() }

// ---------------------------------------------------------------- values
#[verifier::external_body] pub fn vx_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn vx_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub fn vx_eq_str(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_unreachable<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body] pub fn vx_range(a: usize, b: usize) -> (r: Range<usize>) ensures r.start == a, r.end == b { unimplemented!() }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }

/// marks a loop position for the lemmas about prefixes
#[verifier::opaque] pub open spec fn vx_at(m: int) -> bool { true }
#[verifier::external_body] pub fn vx_mark(m: usize) ensures #[trigger] vx_at(m as int) { }

// ---------------------------------------------------------------- strings and numbers
#[verifier::external_body] pub fn vx_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_str_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
pub uninterp spec fn utf8_len(s: Seq<char>) -> nat;
#[verifier::external_body] pub fn vx_str_len(s: &str) -> (r: usize) ensures r == utf8_len(s@), s@.len() <= r { unimplemented!() }
#[verifier::external_body] pub fn vx_char_count(s: &str) -> (r: usize) ensures r == s@.len(), r <= isize::MAX { unimplemented!() }
pub uninterp spec fn i64_string(x: i64) -> Seq<char>;
pub uninterp spec fn f64_string(x: f64) -> Seq<char>;
pub uninterp spec fn usize_string(x: usize) -> Seq<char>;
pub open spec fn bool_string(x: bool) -> Seq<char> { if x { "true"@ } else { "false"@ } }
#[verifier::external_body] pub fn vx_bool_string(x: bool) -> (r: String) ensures r@ == bool_string(x) { unimplemented!() }
#[verifier::external_body] pub fn vx_i64_string(x: i64) -> (r: String) ensures r@ == i64_string(x) { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_string(x: f64) -> (r: String) ensures r@ == f64_string(x) { unimplemented!() }
pub uninterp spec fn u32_string(x: u32) -> Seq<char>;
#[verifier::external_body] pub fn vx_u32_string(x: u32) -> (r: String) ensures r@ == u32_string(x) { unimplemented!() }
#[verifier::external_body] pub fn vx_usize_string(x: usize) -> (r: String) ensures r@ == usize_string(x) { unimplemented!() }
#[verifier::external_body] pub fn vx_parse_err_string(x: &VxParseErr) -> (r: String) { unimplemented!() }
/// value of a text of decimal digits
pub open spec fn dec_value(s: Seq<char>) -> nat decreases s.len() {
  if s.len() == 0 { 0 } else { 10 * dec_value(s.drop_last()) + (s.last() as nat - '0' as nat) as nat }
}
/// the nearest f64 of a decimal text; left to the standard library
pub uninterp spec fn f64_value(s: Seq<char>) -> f64;
pub uninterp spec fn f64_parses(s: Seq<char>) -> bool;
/// digits, a point, digits (possibly none)
pub broadcast axiom fn ax_f64_parses(s: Seq<char>) requires is_decimal(s) ensures #[trigger] f64_parses(s);
broadcast use ax_f64_parses;
#[verifier::external_body] pub fn vx_parse_u32(s: &str) -> (r: Result<u32, VxParseErr>)
  ensures is_digits(s@) ==> (r is Ok <==> dec_value(s@) <= u32::MAX) && (r is Ok ==> r->Ok_0 == dec_value(s@)) { unimplemented!() }
#[verifier::external_body] pub fn vx_parse_u64(s: &str) -> (r: Result<u64, VxParseErr>)
  ensures is_digits(s@) ==> (r is Ok <==> dec_value(s@) <= u64::MAX) && (r is Ok ==> r->Ok_0 == dec_value(s@)) { unimplemented!() }
#[verifier::external_body] pub fn vx_parse_i32(s: &str) -> (r: Result<i32, VxParseErr>)
  ensures is_digits(s@) ==> (r is Ok <==> dec_value(s@) <= i32::MAX) && (r is Ok ==> r->Ok_0 == dec_value(s@)) { unimplemented!() }
#[verifier::external_body] pub fn vx_parse_usize(s: &str) -> (r: Result<usize, VxParseErr>)
  ensures is_digits(s@) ==> (r is Ok <==> dec_value(s@) <= usize::MAX) && (r is Ok ==> r->Ok_0 == dec_value(s@)) { unimplemented!() }
#[verifier::external_body] pub fn vx_parse_i64(s: &str) -> (r: Result<i64, VxParseErr>)
  ensures is_digits(s@) ==> (r is Ok <==> dec_value(s@) <= i64::MAX) && (r is Ok ==> r->Ok_0 == dec_value(s@)) { unimplemented!() }
#[verifier::external_body] pub fn vx_parse_f64(s: &str) -> (r: Result<f64, VxParseErr>)
  ensures r is Ok <==> f64_parses(s@), r is Ok ==> r->Ok_0 == f64_value(s@) { unimplemented!() }
/// parts of `s` between occurrences of `c`
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
  if s.len() == 0 { seq![Seq::empty()] } else {
    let t = split(s.drop_last(), c);
    if s.last() == c { t.push(Seq::empty()) } else { t.drop_last().push(t.last().push(s.last())) }
  }
}
#[verifier::external_body] pub fn vx_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
  ensures r@.len() == split(s@, c).len(), r@.len() > 0, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split(s@, c)[i] { unimplemented!() }

// ---------------------------------------------------------------- options and vectors
pub fn vx_as_ref<T>(x: &Option<T>) -> (r: Option<&T>) ensures r is Some <==> x is Some, x is Some ==> *r->Some_0 == x->Some_0 { match x { Some(v) => Some(v), None => None } }
pub fn vx_as_deref(x: &Option<String>) -> (r: Option<&str>) ensures r is Some <==> x is Some, x is Some ==> r->Some_0@ == x->Some_0@ { match x { Some(v) => Some(v.as_str()), None => None } }
#[verifier::external_body] pub fn vx_opt_vec<T>(x: Option<T>) -> (r: Vec<T>) ensures r@ == (match x { Some(v) => seq![v], None => Seq::empty() }) { unimplemented!() }
#[verifier::external_body] pub fn vx_opt_vec_ref<T>(x: &Option<T>) -> (r: Vec<&T>) ensures r@.len() == (if x is Some { 1int } else { 0 }), x is Some ==> *r@[0] == x->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn vx_refs<T>(x: &Vec<T>) -> (r: Vec<&T>) ensures r@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> *(#[trigger] r@[i]) == x@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_slice_vec<T>(x: &[T]) -> (r: Vec<T>) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body] pub fn vx_vec_rep<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
#[verifier::external_body] pub fn vx_vec_contains<T>(x: &Vec<T>, y: &T) -> (r: bool) ensures r == x@.contains(*y) { unimplemented!() }
pub fn vx_first<T>(x: &Vec<T>) -> (r: Option<&T>) ensures r is Some <==> x@.len() > 0, r is Some ==> *r->Some_0 == x@[0] { if x.len() > 0 { Some(&x[0]) } else { None } }
pub fn vx_last<T>(x: &Vec<T>) -> (r: Option<&T>) ensures r is Some <==> x@.len() > 0, r is Some ==> *r->Some_0 == x@[x@.len() - 1] { if x.len() > 0 { Some(&x[x.len() - 1]) } else { None } }
pub fn vx_get<T>(x: &Vec<T>, i: usize) -> (r: Option<&T>) ensures r is Some <==> i < x@.len(), r is Some ==> *r->Some_0 == x@[i as int] { if i < x.len() { Some(&x[i]) } else { None } }
#[verifier::external_body] pub fn vx_extend<T>(x: &mut Vec<T>, y: Vec<T>) ensures final(x)@ == old(x)@ + y@ { unimplemented!() }

#[verifier::external_body] pub fn vx_rev<T>(x: Vec<T>) -> (r: Vec<T>) ensures r@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> #[trigger] r@[i] == x@[x@.len() - 1 - i] { unimplemented!() }
#[verifier::external_body] pub fn vx_skip<T>(x: Vec<T>, n: usize) -> (r: Vec<T>) ensures r@ == (if n <= x@.len() { x@.subrange(n as int, x@.len() as int) } else { Seq::empty() }) { unimplemented!() }
#[verifier::external_body] pub fn vx_take<T>(x: Vec<T>, n: usize) -> (r: Vec<T>) ensures r@ == (if n <= x@.len() { x@.subrange(0, n as int) } else { x@ }) { unimplemented!() }
#[verifier::external_body] pub fn vx_concat<T>(x: Vec<T>, y: Vec<T>) -> (r: Vec<T>) ensures r@ == x@ + y@ { unimplemented!() }
#[verifier::external_body] pub fn vx_eq_seq<T>(x: &Vec<T>, y: &Vec<T>) -> (r: bool) ensures r == (x@ == y@) { unimplemented!() }
#[verifier::external_body] pub fn vx_last_item<T>(x: Vec<T>) -> (r: Option<T>) ensures r == (if x@.len() > 0 { Some(x@.last()) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_vec_clear<T>(x: &mut Vec<T>) ensures final(x)@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_vec_reverse<T>(x: &mut Vec<T>) ensures final(x)@ == old(x)@.reverse() { unimplemented!() }
#[verifier::external_body] pub fn vx_vec_truncate<T>(x: &mut Vec<T>, n: usize) ensures final(x)@ == (if n <= old(x)@.len() { old(x)@.subrange(0, n as int) } else { old(x)@ }) { unimplemented!() }
#[verifier::external_body] pub fn vx_vec_swap<T>(x: &mut Vec<T>, a: usize, b: usize) requires a < old(x)@.len(), b < old(x)@.len() ensures final(x)@ == old(x)@.update(a as int, old(x)@[b as int]).update(b as int, old(x)@[a as int]) { unimplemented!() }
#[verifier::external_body] pub fn vx_opt_take<T>(x: &mut Option<T>) -> (r: Option<T>) ensures r == *old(x), *final(x) == None::<T> { unimplemented!() }
#[verifier::external_body] pub fn vx_opt_replace<T>(x: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(x), *final(x) == Some(v) { unimplemented!() }
#[verifier::external_body] pub fn vx_opt_and<T, U>(x: Option<T>, y: Option<U>) -> (r: Option<U>) ensures r == (if x is Some { y } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_opt_xor<T>(x: Option<T>, y: Option<T>) -> (r: Option<T>) ensures r == (if x is Some && y is None { x } else if x is None && y is Some { y } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_opt_zip<T, U>(x: Option<T>, y: Option<U>) -> (r: Option<(T, U)>) ensures r == (if x is Some && y is Some { Some((x->Some_0, y->Some_0)) } else { None }) { unimplemented!() }
pub fn vx_sat_sub(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a - b } else { 0 }) { if a > b { a - b } else { 0 } }
pub fn vx_abs_diff(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a - b } else { b - a }) { if a > b { a - b } else { b - a } }

// ---------------------------------------------------------------- more of strings
#[verifier::external_body] pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_string_of(x: Vec<char>) -> (r: String) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body] pub fn vx_string_clear(x: &mut String) ensures final(x)@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_push_str(x: &mut String, y: &str) ensures final(x)@ == old(x)@ + y@ { unimplemented!() }
#[verifier::external_body] pub fn vx_push_char(x: &mut String, y: char) ensures final(x)@ == old(x)@.push(y) { unimplemented!() }
pub open spec fn str_prefix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn str_suffix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub open spec fn str_within(s: Seq<char>, p: Seq<char>) -> bool { exists|k: int| 0 <= k && k + p.len() <= s.len() && #[trigger] s.subrange(k, k + p.len()) == p }
#[verifier::external_body] pub fn vx_str_starts_with(s: &str, p: &str) -> (r: bool) ensures r == str_prefix(s@, p@) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_ends_with(s: &str, p: &str) -> (r: bool) ensures r == str_suffix(s@, p@) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_contains(s: &str, p: &str) -> (r: bool) ensures r == str_within(s@, p@) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures r is Some <==> str_prefix(s@, p@), r is Some ==> r->Some_0@ == s@.subrange(p@.len() as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_strip_suffix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures r is Some <==> str_suffix(s@, p@), r is Some ==> r->Some_0@ == s@.subrange(0, s@.len() - p@.len()) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_starts_with_char(s: &str, p: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == p) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_ends_with_char(s: &str, p: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == p) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_contains_char(s: &str, p: char) -> (r: bool) ensures r == s@.contains(p) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_strip_prefix_char<'a>(s: &'a str, p: char) -> (r: Option<&'a str>) ensures r is Some <==> (s@.len() > 0 && s@[0] == p), r is Some ==> r->Some_0@ == s@.subrange(1, s@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_strip_suffix_char<'a>(s: &'a str, p: char) -> (r: Option<&'a str>) ensures r is Some <==> (s@.len() > 0 && s@.last() == p), r is Some ==> r->Some_0@ == s@.drop_last() { unimplemented!() }
pub uninterp spec fn str_trim(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_trim(s: &str) -> (r: &str) ensures r@ == str_trim(s@) { unimplemented!() }
pub uninterp spec fn str_trim_start(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_trim_start(s: &str) -> (r: &str) ensures r@ == str_trim_start(s@) { unimplemented!() }
pub uninterp spec fn str_trim_end(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_trim_end(s: &str) -> (r: &str) ensures r@ == str_trim_end(s@) { unimplemented!() }
pub uninterp spec fn str_to_lowercase(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_to_lowercase(s: &str) -> (r: String) ensures r@ == str_to_lowercase(s@) { unimplemented!() }
pub uninterp spec fn str_to_uppercase(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_to_uppercase(s: &str) -> (r: String) ensures r@ == str_to_uppercase(s@) { unimplemented!() }
pub uninterp spec fn str_to_ascii_lowercase(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_to_ascii_lowercase(s: &str) -> (r: String) ensures r@ == str_to_ascii_lowercase(s@) { unimplemented!() }
pub uninterp spec fn str_to_ascii_uppercase(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_to_ascii_uppercase(s: &str) -> (r: String) ensures r@ == str_to_ascii_uppercase(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_eq_ignore_ascii_case(a: &str, b: &str) -> (r: bool) ensures r == (str_to_ascii_lowercase(a@) == str_to_ascii_lowercase(b@)) { unimplemented!() }
pub fn vx_char_is_ascii_digit(c: char) -> (r: bool) ensures r == ('0' <= c <= '9') { '0' <= c && c <= '9' }
pub uninterp spec fn char_is_ascii_alphabetic(c: char) -> bool;
#[verifier::external_body] pub fn vx_char_is_ascii_alphabetic(c: char) -> (r: bool) ensures r == char_is_ascii_alphabetic(c) { unimplemented!() }
pub uninterp spec fn char_is_ascii_alphanumeric(c: char) -> bool;
#[verifier::external_body] pub fn vx_char_is_ascii_alphanumeric(c: char) -> (r: bool) ensures r == char_is_ascii_alphanumeric(c) { unimplemented!() }
pub uninterp spec fn char_is_whitespace(c: char) -> bool;
#[verifier::external_body] pub fn vx_char_is_whitespace(c: char) -> (r: bool) ensures r == char_is_whitespace(c) { unimplemented!() }
pub uninterp spec fn char_is_alphanumeric(c: char) -> bool;
#[verifier::external_body] pub fn vx_char_is_alphanumeric(c: char) -> (r: bool) ensures r == char_is_alphanumeric(c) { unimplemented!() }
pub uninterp spec fn char_is_alphabetic(c: char) -> bool;
#[verifier::external_body] pub fn vx_char_is_alphabetic(c: char) -> (r: bool) ensures r == char_is_alphabetic(c) { unimplemented!() }
pub uninterp spec fn char_is_numeric(c: char) -> bool;
#[verifier::external_body] pub fn vx_char_is_numeric(c: char) -> (r: bool) ensures r == char_is_numeric(c) { unimplemented!() }
pub uninterp spec fn char_is_ascii_uppercase(c: char) -> bool;
#[verifier::external_body] pub fn vx_char_is_ascii_uppercase(c: char) -> (r: bool) ensures r == char_is_ascii_uppercase(c) { unimplemented!() }
pub uninterp spec fn char_is_ascii_lowercase(c: char) -> bool;
#[verifier::external_body] pub fn vx_char_is_ascii_lowercase(c: char) -> (r: bool) ensures r == char_is_ascii_lowercase(c) { unimplemented!() }
pub uninterp spec fn char_is_uppercase(c: char) -> bool;
#[verifier::external_body] pub fn vx_char_is_uppercase(c: char) -> (r: bool) ensures r == char_is_uppercase(c) { unimplemented!() }
pub uninterp spec fn char_is_lowercase(c: char) -> bool;
#[verifier::external_body] pub fn vx_char_is_lowercase(c: char) -> (r: bool) ensures r == char_is_lowercase(c) { unimplemented!() }
pub uninterp spec fn char_is_control(c: char) -> bool;
#[verifier::external_body] pub fn vx_char_is_control(c: char) -> (r: bool) ensures r == char_is_control(c) { unimplemented!() }
pub uninterp spec fn char_is_ascii(c: char) -> bool;
#[verifier::external_body] pub fn vx_char_is_ascii(c: char) -> (r: bool) ensures r == char_is_ascii(c) { unimplemented!() }

// ---------------------------------------------------------------- ordered sets and maps
/// the value an ordered collection sees when it compares keys
pub trait VxKey { type K; spec fn key(&self) -> Self::K; }
impl VxKey for String { type K = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
impl VxKey for str { type K = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
impl<T: VxKey + ?Sized> VxKey for &T { type K = T::K; open spec fn key(&self) -> T::K { (**self).key() } }
impl<A: VxKey, B: VxKey> VxKey for (A, B) { type K = (A::K, B::K); open spec fn key(&self) -> (A::K, B::K) { (self.0.key(), self.1.key()) } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BTreeSet<T: VxKey> { x: Vec<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct BTreeMap<K: VxKey, V> { x: Vec<(K, V)> }
impl<T: VxKey> BTreeSet<T> {
  pub uninterp spec fn view(&self) -> Set<T::K>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T::K>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x.key()), r == !old(self)@.contains(x.key()) { unimplemented!() }
  #[verifier::external_body] pub fn contains<Q: VxKey<K = T::K> + ?Sized>(&self, x: &Q) -> (r: bool) ensures r == self@.contains(x.key()) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn remove<Q: VxKey<K = T::K> + ?Sized>(&mut self, x: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(x.key()), r == old(self)@.contains(x.key()) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_btreeset_clear<T: VxKey>(x: &mut BTreeSet<T>) ensures final(x)@ == Set::<T::K>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_btreemap_clear<K: VxKey, V>(x: &mut BTreeMap<K, V>) ensures final(x)@ == Map::<K::K, V>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_set_extend<T: VxKey>(x: &mut BTreeSet<T>, y: Vec<T>) ensures final(x)@ == old(x)@.union(key_set(y@)) { unimplemented!() }
#[verifier::external_body] pub fn vx_set_is_subset<T: VxKey>(a: &BTreeSet<T>, b: &BTreeSet<T>) -> (r: bool) ensures r == a@.subset_of(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_set_is_superset<T: VxKey>(a: &BTreeSet<T>, b: &BTreeSet<T>) -> (r: bool) ensures r == b@.subset_of(a@) { unimplemented!() }
#[verifier::external_body] pub fn vx_set_is_disjoint<T: VxKey>(a: &BTreeSet<T>, b: &BTreeSet<T>) -> (r: bool) ensures r == a@.disjoint(b@) { unimplemented!() }
pub open spec fn keys<T: VxKey>(s: Seq<T>) -> Seq<T::K> { Seq::new(s.len(), |i: int| s[i].key()) }
pub open spec fn key_set<T: VxKey>(s: Seq<T>) -> Set<T::K> { keys(s).to_set() }
pub broadcast proof fn lemma_key_set<T: VxKey>(s: Seq<T>, k: T::K)
  ensures #[trigger] key_set(s).contains(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key() == k
{
  let m = keys(s);
  broadcast use vstd::seq_lib::group_seq_properties;
  if key_set(s).contains(k) { let i = choose|i: int| 0 <= i < m.len() && m[i] == k; assert(s[i].key() == k); }
  if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key() == k { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key() == k; assert(m[i] == k); }
}
pub broadcast proof fn lemma_key_set_one<T: VxKey>(s: Seq<T>) requires s.len() == 1 ensures #[trigger] key_set(s) == Set::<T::K>::empty().insert(s[0].key())
{
  broadcast use vstd::set::group_set_lemmas;
  assert(s[0].key() == keys(s)[0]);
  assert forall|k: T::K| key_set(s).contains(k) <==> k == s[0].key() by { lemma_key_set(s, k); }
  assert(key_set(s) =~= Set::<T::K>::empty().insert(s[0].key()));
}
broadcast use {lemma_key_set, lemma_key_set_one};
#[verifier::external_body] pub fn vx_set_from_vec<T: VxKey>(x: Vec<T>) -> (r: BTreeSet<T>) ensures r@ == key_set(x@) { unimplemented!() }
/// elements in ascending order, each once
#[verifier::external_body] pub fn vx_set_to_vec<T: VxKey>(x: &BTreeSet<T>) -> (r: Vec<&T>)
  ensures key_set(r@) == x@ { unimplemented!() }
#[verifier::external_body] pub fn vx_eq_set<T: VxKey>(a: &BTreeSet<T>, b: &BTreeSet<T>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
impl<K: VxKey, V> BTreeMap<K, V> {
  pub open spec fn has_key(&self, k: K::K) -> bool { self@.contains_key(k) }
  pub uninterp spec fn view(&self) -> Map<K::K, V>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.insert(k.key(), v), r == (if old(self)@.contains_key(k.key()) { Some(old(self)@[k.key()]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn remove<Q: VxKey<K = K::K> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.remove(k.key()), r == (if old(self)@.contains_key(k.key()) { Some(old(self)@[k.key()]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn contains_key<Q: VxKey<K = K::K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.key()) { unimplemented!() }
  #[verifier::external_body] pub fn get<Q: VxKey<K = K::K> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
    ensures r is Some <==> self@.contains_key(k.key()), r is Some ==> *r->Some_0 == self@[k.key()] { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
/// the entries of a map in the order of their keys, each once
#[verifier::external_body] pub fn vx_map_pairs<K: VxKey, V>(x: &BTreeMap<K, V>) -> (r: Vec<(&K, &V)>)
  ensures r@.len() == x@.dom().len(),
    forall|i: int| 0 <= i < r@.len() ==> x@.contains_key((#[trigger] r@[i]).0.key()) && x@[r@[i].0.key()] == *r@[i].1,
    forall|k: K::K| #[trigger] x@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0.key() == k { unimplemented!() }
#[verifier::external_body] pub fn vx_map_keys<K: VxKey, V>(x: &BTreeMap<K, V>) -> (r: Vec<&K>) ensures key_set(r@) == x@.dom() { unimplemented!() }
#[verifier::external_body] pub fn vx_map_values<K: VxKey, V>(x: &BTreeMap<K, V>) -> (r: Vec<&V>)
  ensures forall|i: int| 0 <= i < r@.len() ==> exists|k: K::K| #[trigger] x@.contains_key(k) && x@[k] == *(#[trigger] r@[i]),
    forall|k: K::K| #[trigger] x@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == x@[k] { unimplemented!() }
} // verus!
