// ---------------------------------------------------------------- the source text, its spans, and what pest's combinators do
// Definitions: character offsets, spans, well-formed nodes, the result of matching. Everything here is defined or proved;
// what is assumed about pest is that its generated parser computes these functions (see DBMLParser::parse).
use vstd::prelude::*;
use super::*;
verus! {
/// bytes of a character in UTF-8
pub open spec fn char_len(c: char) -> nat { if (c as nat) < 0x80 { 1 } else if (c as nat) < 0x800 { 2 } else if (c as nat) < 0x10000 { 3 } else { 4 } }
/// byte offset of the k-th character
#[verifier::opaque] pub closed spec fn off(s: Seq<char>, k: int) -> nat decreases k { if k <= 0 { 0 } else { off(s, k - 1) + char_len(s[k - 1]) } }
/// the length of the text fits a machine word
#[verifier::opaque] pub closed spec fn fits(s: Seq<char>) -> bool { off(s, s.len() as int) <= usize::MAX }
pub proof fn off_mono(s: Seq<char>, a: int, b: int) requires 0 <= a <= b <= s.len() ensures off(s, a) <= off(s, b), off(s, b) - off(s, a) >= b - a decreases b - a {
  reveal_with_fuel(off, 2);
  if a < b { off_mono(s, a, b - 1); }
}
/// `o` is a byte offset of `src` on a character boundary
#[verifier::opaque] pub closed spec fn boundary(src: Seq<char>, o: nat) -> bool { exists|k: int| 0 <= k <= src.len() && #[trigger] off(src, k) == o }
#[verifier::opaque] pub closed spec fn idx(src: Seq<char>, o: nat) -> int { choose|k: int| 0 <= k <= src.len() && #[trigger] off(src, k) == o }
/// the text between two byte offsets
#[verifier::opaque] pub closed spec fn slice(src: Seq<char>, a: nat, b: nat) -> Seq<char> { src.subrange(idx(src, a), idx(src, b)) }
pub proof fn lemma_idx(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures idx(s, off(s, k)) == k {
  reveal(idx);
  let j = idx(s, off(s, k));
  assert(0 <= j <= s.len() && off(s, j) == off(s, k));
  if j < k { off_mono(s, j, k); } else if k < j { off_mono(s, k, j); }
}
pub broadcast proof fn ax_boundary_zero(src: Seq<char>) ensures #[trigger] boundary(src, 0) { reveal(off); reveal(boundary); assert(off(src, 0) == 0); }

/// positions are character boundaries in order and within the parent, and the text is the slice at the span
#[verifier::opaque] pub closed spec fn node_ok(n: Node) -> bool decreases n {
  fits(n.src)
  && (exists|p: int, q: int| 0 <= p <= q <= n.src.len() && n.start == #[trigger] off(n.src, p) && n.end == #[trigger] off(n.src, q) && n.text == n.src.subrange(p, q))
  && (forall|i: int| 0 <= i < n.kids.len() ==> node_ok(#[trigger] n.kids[i]) && n.kids[i].src == n.src && n.start <= n.kids[i].start && n.kids[i].end <= n.end)
}
pub broadcast proof fn ax_node_ok(n: Node)
  requires #[trigger] node_ok(n)
  ensures n.start <= n.end <= usize::MAX, boundary(n.src, n.start), boundary(n.src, n.end), n.text == slice(n.src, n.start, n.end),
    forall|i: int| 0 <= i < n.kids.len() ==> node_ok(#[trigger] n.kids[i]) && n.kids[i].src == n.src && n.start <= n.kids[i].start && n.kids[i].end <= n.end
{
  reveal(node_ok); reveal(boundary); reveal(slice); reveal(fits);
  let (p, q) = choose|p: int, q: int| 0 <= p <= q <= n.src.len() && n.start == #[trigger] off(n.src, p) && n.end == #[trigger] off(n.src, q) && n.text == n.src.subrange(p, q);
  off_mono(n.src, p, q); off_mono(n.src, q, n.src.len() as int);
  lemma_idx(n.src, p); lemma_idx(n.src, q);
}

// the texts of pairs
/// blanks at the start removed
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
pub open spec fn ltrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s[0]) { ltrim(s.subrange(1, s.len() as int)) } else { s } }
/// what stands between an opening mark of a characters and a closing one of b
pub open spec fn between(t: Seq<char>, a: int, b: int) -> Seq<char> { ltrim(t.subrange(a, t.len() - b)) }
/// w does not occur in t
pub open spec fn free_of(t: Seq<char>, w: Seq<char>) -> bool { forall|i: int| 0 <= i && i + w.len() <= t.len() ==> #[trigger] t.subrange(i, i + w.len()) != w }
pub open spec fn is_quoted(n: Node, a: int, b: int) -> bool { n.kids.len() == 1 && n.text.len() >= a + b && n.kids[0].text == between(n.text, a, b) }
pub proof fn lemma_ltrim(w: Seq<char>, v: Seq<char>) requires is_blank(w), v.len() > 0 ==> !blank(v[0]) ensures ltrim(w + v) == v decreases w.len() {
  let t = w + v;
  if w.len() > 0 { assert(blank(w[0])); assert(t[0] == w[0]); let u = w.subrange(1, w.len() as int); assert(is_blank(u)) by { assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == ' ' || u[i] == '\t' || u[i] == '\n' || u[i] == '\r' by { assert(u[i] == w[i + 1]); } } lemma_ltrim(u, v); assert(t.subrange(1, t.len() as int) =~= u + v); }
  else { assert(t =~= v); }
}
pub proof fn lemma_quoted(n: Node, o: Seq<char>, w: Seq<char>, c: Seq<char>)
  requires n.kids.len() == 1, is_blank(w), n.text == o + w + n.kids[0].text + c, n.kids[0].text.len() > 0 ==> !blank(n.kids[0].text[0])
  ensures is_quoted(n, o.len() as int, c.len() as int), forall|i: int| 0 <= i < o.len() ==> n.text[i] == #[trigger] o[i], forall|i: int| 0 <= i < c.len() ==> n.text[n.text.len() - c.len() + i] == #[trigger] c[i]
{
  let v = n.kids[0].text; let t = n.text;
  lemma_ltrim(w, v);
  assert(t.subrange(o.len() as int, t.len() - c.len()) =~= w + v);
}
pub open spec fn is_blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r' }
pub open spec fn is_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
pub open spec fn is_decimal(s: Seq<char>) -> bool { exists|k: int| 0 < k < s.len() && #[trigger] s[k] == '.' && is_digits(s.subrange(0, k)) && (k + 1 == s.len() || is_digits(s.subrange(k + 1, s.len() as int))) }

/// what matching an expression at a position yields
pub struct Mt { pub ok: bool, pub at: int, pub ns: Seq<Node> }
pub open spec fn no() -> Mt { Mt { ok: false, at: 0, ns: Seq::empty() } }
pub open spec fn yes(p: int) -> Mt { Mt { ok: true, at: p, ns: Seq::empty() } }
pub open spec fn then(a: Mt, b: Mt) -> Mt { if b.ok { Mt { ok: true, at: b.at, ns: a.ns + b.ns } } else { no() } }
pub open spec fn or(a: Mt, b: Mt) -> Mt { if a.ok { a } else { b } }
pub open spec fn opt(p: int, a: Mt) -> Mt { if a.ok { a } else { yes(p) } }
pub open spec fn not(p: int, a: Mt) -> Mt { if a.ok { no() } else { yes(p) } }
pub open spec fn peek(p: int, a: Mt) -> Mt { if a.ok { yes(p) } else { no() } }
pub open spec fn one(p: int, b: bool) -> Mt { if b { yes(p + 1) } else { no() } }
/// a rule that yields a pair
pub open spec fn tok(s: Seq<char>, p: int, r: Rule, m: Mt) -> Mt {
  if m.ok { Mt { ok: true, at: m.at, ns: seq![Node { rule: r, start: off(s, p), end: off(s, m.at), text: s.subrange(p, m.at), src: s, kids: m.ns }] } } else { no() }
}
pub open spec fn newline(s: Seq<char>, p: int) -> Mt {
  if p < s.len() && s[p] == '\n' { yes(p + 1) } else if p + 1 < s.len() && s[p] == '\r' && s[p + 1] == '\n' { yes(p + 2) } else if p < s.len() && s[p] == '\r' { yes(p + 1) } else { no() }
}

#[verifier::opaque] pub closed spec fn fine(s: Seq<char>, p: int, q: int, n: Node) -> bool { node_ok(n) && n.src == s && off(s, p) <= n.start && n.end <= off(s, q) }
/// every node lies in the range
#[verifier::opaque] pub closed spec fn ord(s: Seq<char>, p: int, q: int, ns: Seq<Node>) -> bool { forall|i: int| 0 <= i < ns.len() ==> fine(s, p, q, #[trigger] ns[i]) }
/// matched, within the text
pub open spec fn good(s: Seq<char>, p: int, m: Mt) -> bool { p <= m.at <= s.len() && ord(s, p, m.at, m.ns) }
pub proof fn ord_none(s: Seq<char>, p: int, q: int, ns: Seq<Node>) requires ns.len() == 0 ensures ord(s, p, q, ns) { reveal(ord); }
pub proof fn good_yes(s: Seq<char>, p: int) ensures forall|q: int| p <= q <= s.len() ==> #[trigger] good(s, p, yes(q)) { assert forall|q: int| p <= q <= s.len() implies #[trigger] good(s, p, yes(q)) by { ord_none(s, p, q, yes(q).ns); } }
pub proof fn ord_wide(s: Seq<char>, p: int, q: int, a: int, b: int, ns: Seq<Node>) requires 0 <= a <= p <= q <= b <= s.len(), ord(s, p, q, ns) ensures ord(s, a, b, ns) { reveal(ord); reveal(fine); off_mono(s, a, p); off_mono(s, q, b); }
pub proof fn good_then(s: Seq<char>, p: int, a: Mt, k: int, b: Mt) requires 0 <= p, good(s, p, a), a.at <= k <= s.len(), b.ok ==> good(s, k, b) ensures then(a, b).ok ==> good(s, p, then(a, b)) {
  if b.ok { ord_wide(s, p, a.at, p, b.at, a.ns); ord_wide(s, k, b.at, p, b.at, b.ns); let x = a.ns + b.ns; reveal(ord);
    assert forall|i: int| 0 <= i < x.len() implies fine(s, p, b.at, #[trigger] x[i]) by { if i < a.ns.len() { assert(x[i] == a.ns[i]); } else { assert(x[i] == b.ns[i - a.ns.len()]); } } }
}
pub proof fn good_tok(s: Seq<char>, p: int, r: Rule, m: Mt) requires fits(s), 0 <= p, m.ok ==> good(s, p, m)
  ensures m.ok ==> ({ let t = tok(s, p, r, m); good(s, p, t) && t.ns.len() == 1 && t.ns[0].text == s.subrange(p, m.at) && t.ns[0].rule == r && t.ns[0].kids == m.ns && node_ok(t.ns[0]) && t.ns[0].src == s }) {
  if m.ok {
    reveal(ord); reveal(fine); reveal(node_ok); reveal(fits);
    let n = tok(s, p, r, m).ns[0];
    off_mono(s, p, m.at);
    assert(n.start == off(n.src, p) && n.end == off(n.src, m.at) && n.text == n.src.subrange(p, m.at));
    assert forall|i: int| 0 <= i < n.kids.len() implies node_ok(#[trigger] n.kids[i]) && n.kids[i].src == n.src && n.start <= n.kids[i].start && n.kids[i].end <= n.end by { assert(fine(s, p, m.at, m.ns[i])); }
  }
}
