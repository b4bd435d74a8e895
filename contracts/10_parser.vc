## Contracts of the parser: what each function returns, stated on the parse tree pest hands over.
@spec
// ---- decoding of the parse tree (reference semantics)
pub open spec fn at(r: Range<usize>, n: Node) -> bool { r.start == n.start && r.end == n.end }
/// a quoted name without its quotes and leading blanks, a bare name as it stands
pub open spec fn name_of(t: Seq<char>) -> Seq<char> { if t[0] == '"' { between(t, 1, 1) } else { t } }
pub open spec fn name_text(n: Node) -> Seq<char> { name_of(n.text) }
/// the text of a name: a word, or quotes around text without a quote
pub open spec fn is_name_token(t: Seq<char>) -> bool { is_word(t) || is_token(t, '"') }
pub open spec fn is_token(t: Seq<char>, q: char) -> bool { t.len() >= 2 && t[0] == q && t.last() == q && !between(t, 1, 1).contains(q) }
/// the text of a string: one quote or three on each side, the content free of what closes it
pub open spec fn is_triple(t: Seq<char>) -> bool { t.len() >= 6 && t[0] == '\'' && t[1] == '\'' && t[2] == '\'' && t[t.len() - 3] == '\'' && t[t.len() - 2] == '\'' && t[t.len() - 1] == '\'' }
pub open spec fn is_string_token(t: Seq<char>) -> bool { if t.len() > 2 && t[1] == '\'' { is_triple(t) && free_of(between(t, 3, 3), "'''"@) } else { is_token(t, '\'') } }
/// its content
pub open spec fn string_of(t: Seq<char>) -> Seq<char> { if t.len() > 2 && t[1] == '\'' { between(t, 3, 3) } else { between(t, 1, 1) } }
pub proof fn lemma_single(t: Seq<char>) ensures t.len() > 2 && !between(t, 1, 1).contains('\'') ==> t[1] != '\'' {
  if !between(t, 1, 1).contains('\'') && t.len() > 2 && t[1] == '\'' { let u = t.subrange(1, t.len() - 1); assert(u[0] == t[1]); assert(!blank(u[0])); assert(ltrim(u) == u); assert(u.contains('\'')); }
}
pub open spec fn is_ident(v: Ident, n: Node) -> bool { spok_Ident(v, n.src) && at(v.span_range, n.kids[0]) && v.raw@ == n.kids[0].text && v.to_string@ == name_text(n.kids[0]) }
pub open spec fn is_plain(v: Ident, n: Node) -> bool { spok_Ident(v, n.src) && at(v.span_range, n) && v.raw@ == n.text && v.to_string@ == n.text }
/// dotted name: the part before the dot is the schema
pub open spec fn is_dotted(schema: Option<Ident>, name: Ident, n: Node) -> bool {
  if n.kids.len() == 2 { schema is Some && is_ident(schema->Some_0, n.kids[0]) && is_ident(name, n.kids[1]) }
  else { schema is None && is_ident(name, n.kids[0]) }
}
/// a bare name: a letter, then letters, digits and underscores
pub open spec fn is_letter(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
pub open spec fn is_word_char(c: char) -> bool { is_letter(c) || '0' <= c <= '9' || c == '_' }
pub open spec fn is_word(s: Seq<char>) -> bool { s.len() > 0 && is_letter(s[0]) && forall|i: int| 1 <= i < s.len() ==> is_word_char(#[trigger] s[i]) }
/// bare words separated by spaces
pub open spec fn is_words(s: Seq<char>) -> bool { s.len() > 0 && is_letter(s[0]) && forall|i: int| 1 <= i < s.len() ==> is_word_char(#[trigger] s[i]) || s[i] == ' ' }
pub open spec fn is_hex(s: Seq<char>) -> bool { (s.len() == 4 || s.len() == 7) && s[0] == '#' && forall|i: int| 1 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' || 'a' <= s[i] <= 'f' || 'A' <= s[i] <= 'F' }
pub open spec fn string_text(n: Node) -> Seq<char> { string_of(n.text) }
pub open spec fn word_value(s: Seq<char>) -> Option<Value> {
  if s == "true"@ { Some(Value::Bool(true)) } else if s == "false"@ { Some(Value::Bool(false)) } else if s == "null"@ { Some(Value::Null) } else { None }
}
/// the value a literal stands for: told by its first character
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn value_of(v: Value, t: Seq<char>) -> bool {
  if t[0] == '\'' { v matches Value::String(s) && s@ == string_of(t) }
  else if t[0] == '`' { v matches Value::Expr(s) && s@ == between(t, 1, 1) }
  else if t[0] == '#' { v matches Value::HexColor(s) && s@ == t }
  else if is_digit(t[0]) { if is_digits(t) { v matches Value::Integer(x) && x == dec_value(t) } else { v matches Value::Decimal(x) && x == f64_value(t) } }
  else { Some(v) == word_value(t) }
}
/// the text of a literal
pub open spec fn is_value_token(t: Seq<char>) -> bool {
  t.len() > 0 && if t[0] == '\'' { is_string_token(t) } else if t[0] == '`' { is_token(t, '`') } else if t[0] == '#' { is_hex(t) } else if is_digit(t[0]) { is_digits(t) || is_decimal(t) } else { word_value(t) is Some }
}
pub open spec fn is_value(v: Value, n: Node) -> bool { value_of(v, n.text) }
/// the only literals that cannot be represented
pub open spec fn ok_value(n: Node) -> bool { is_digits(n.text) ==> dec_value(n.text) <= i64::MAX }
pub open spec fn is_literal(v: Literal, n: Node) -> bool {
  at(v.span_range, n) && v.raw@ == n.text && match n.rule {
    Rule::value => is_value(v.value, n),
    Rule::spaced_var => v.value matches Value::Enum(s) && s@ == n.text,
    Rule::double_quoted_string => v.value matches Value::String(s) && s@ == between(n.text, 1, 1),
    _ => false,
  }
}
pub open spec fn is_attr(v: Attribute, n: Node) -> bool {
  spok_Attribute(v, n.src) && at(v.span_range, n) && is_plain(v.key, n.kids[0]) && (v.value is Some <==> n.kids.len() == 2) && (v.value is Some ==> is_literal(v.value->Some_0, n.kids[1]))
}
pub open spec fn ok_attr(n: Node) -> bool { n.kids.len() == 2 && n.kids[1].rule == Rule::value ==> ok_value(n.kids[1]) }
pub open spec fn is_prop(v: Property, n: Node) -> bool { spok_Property(v, n.src) && at(v.span_range, n) && is_plain(v.key, n.kids[0]) && is_literal(v.value, n.kids[1]) }
pub open spec fn is_attrs(v: Seq<Attribute>, k: Seq<Node>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> is_attr(#[trigger] v[i], k[i]) }
pub open spec fn ok_attrs(k: Seq<Node>) -> bool { forall|i: int| 0 <= i < k.len() ==> ok_attr(#[trigger] k[i]) }
/// text form of a literal
pub open spec fn value_string(v: Value) -> Seq<char> {
  match v { Value::Enum(s) => s@, Value::String(s) => s@, Value::Integer(x) => i64_string(x), Value::Decimal(x) => f64_string(x), Value::Bool(b) => bool_string(b), Value::HexColor(s) => s@, Value::Expr(s) => s@, Value::Null => "null"@ }
}
pub open spec fn literal_string(n: Node) -> Seq<char> {
  match n.rule {
    Rule::value => { let t = n.text; if t[0] == '\'' { string_of(t) } else if t[0] == '`' { between(t, 1, 1) } else if is_digits(t) { i64_string(dec_value(t) as i64) } else if is_digit(t[0]) { f64_string(f64_value(t)) } else { t } }
    Rule::double_quoted_string => between(n.text, 1, 1),
    _ => n.text,
  }
}
/// the value of the last attribute with the key, as text
pub open spec fn has_key(v: Seq<Attribute>, key: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).key.to_string@ == key }
pub open spec fn last_attr(v: Seq<Attribute>, key: Seq<char>) -> Option<Attribute> decreases v.len() {
  if v.len() == 0 { None } else if v.last().key.to_string@ == key { Some(v.last()) } else { last_attr(v.drop_last(), key) }
}
pub open spec fn last_text(v: Seq<Attribute>, key: Seq<char>) -> Option<Seq<char>> {
  match last_attr(v, key) { Some(a) => match a.value { Some(l) => Some(value_string(l.value)), None => None }, None => None }
}
pub open spec fn last_value(v: Seq<Attribute>, key: Seq<char>) -> Option<Value> {
  match last_attr(v, key) { Some(a) => match a.value { Some(l) => Some(l.value), None => None }, None => None }
}
pub open spec fn same_text(x: Option<String>, y: Option<Seq<char>>) -> bool { (x is Some <==> y is Some) && (x is Some ==> x->Some_0@ == y->Some_0) }
pub broadcast proof fn lemma_last_attr_push(v: Seq<Attribute>, a: Attribute, key: Seq<char>)
  ensures #[trigger] last_attr(v.push(a), key) == (if a.key.to_string@ == key { Some(a) } else { last_attr(v, key) })
{ assert(v.push(a).drop_last() =~= v); }
pub broadcast proof fn lemma_has_key_push(v: Seq<Attribute>, a: Attribute, key: Seq<char>)
  ensures #[trigger] has_key(v.push(a), key) == (a.key.to_string@ == key || has_key(v, key))
{
  if a.key.to_string@ == key { assert(v.push(a)[v.len() as int] == a); }
  if has_key(v, key) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).key.to_string@ == key; assert(v.push(a)[i] == v[i]); }
  if has_key(v.push(a), key) { let i = choose|i: int| 0 <= i < v.push(a).len() && (#[trigger] v.push(a)[i]).key.to_string@ == key; if i < v.len() { assert(v[i] == v.push(a)[i]); } }
}
broadcast use {lemma_last_attr_push, lemma_has_key_push};
/// children of one kind, in order
pub open spec fn sel(k: Seq<Node>, n: int, r: Rule) -> Seq<Node> decreases n {
  if n <= 0 { Seq::empty() } else if k[n - 1].rule == r { sel(k, n - 1, r).push(k[n - 1]) } else { sel(k, n - 1, r) }
}
pub open spec fn last_of(k: Seq<Node>, n: int, r: Rule) -> Option<Node> decreases n {
  if n <= 0 { None } else if k[n - 1].rule == r { Some(k[n - 1]) } else { last_of(k, n - 1, r) }
}
pub open spec fn all_of(k: Seq<Node>, r: Rule) -> Seq<Node> { sel(k, k.len() as int, r) }
pub open spec fn last_one(k: Seq<Node>, r: Rule) -> Option<Node> { last_of(k, k.len() as int, r) }
pub open spec fn firsts(k: Seq<Node>) -> Seq<Node> { Seq::new(k.len(), |i: int| k[i].kids[0]) }
pub broadcast proof fn lemma_sel_bound(k: Seq<Node>, n: int, r: Rule) ensures (#[trigger] sel(k, n, r)).len() <= (if n < 0 { 0 } else { n }) decreases n { if n > 0 { lemma_sel_bound(k, n - 1, r); } }


pub open spec fn is_idents(v: Seq<Ident>, k: Seq<Node>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> is_ident(#[trigger] v[i], k[i]) }
// ---- settings
/// "update" and "delete" of a ref
pub open spec fn last_action(v: Seq<Attribute>, key: Seq<char>) -> Option<ReferentialAction> {
  match last_value(v, key) { Some(Value::Enum(s)) => action_of(s@), _ => None }
}
/// the nullability named last
pub open spec fn last_nullable(v: Seq<Attribute>) -> Option<Nullable> decreases v.len() {
  if v.len() == 0 { None } else if v.last().key.to_string@ == "null"@ { Some(Nullable::Null) } else if v.last().key.to_string@ == "not null"@ { Some(Nullable::NotNull) } else { last_nullable(v.drop_last()) }
}
pub broadcast proof fn lemma_last_nullable_push(v: Seq<Attribute>, a: Attribute)
  ensures #[trigger] last_nullable(v.push(a)) == (if a.key.to_string@ == "null"@ { Some(Nullable::Null) } else if a.key.to_string@ == "not null"@ { Some(Nullable::NotNull) } else { last_nullable(v) })
{ assert(v.push(a).drop_last() =~= v); }
broadcast use lemma_last_nullable_push;
pub proof fn lemma_literal_string(v: Literal, n: Node) requires is_literal(v, n) ensures value_string(v.value) == literal_string(n) {}
pub open spec fn is_table_settings(v: TableSettings, n: Node) -> bool { spok_TableSettings(v, n.src) && at(v.span_range, n) && is_attrs(v.attributes@, n.kids) }
pub open spec fn is_group_settings(v: TableGroupSettings, n: Node) -> bool { spok_TableGroupSettings(v, n.src) && at(v.span_range, n) && is_attrs(v.attributes@, n.kids) }
pub open spec fn ref_flags(v: RefSettings) -> bool { v.on_update == last_action(v.attributes@, "update"@) && v.on_delete == last_action(v.attributes@, "delete"@) }
pub open spec fn is_ref_settings(v: RefSettings, n: Node) -> bool { spok_RefSettings(v, n.src) && at(v.span_range, n) && is_attrs(v.attributes@, n.kids) && ref_flags(v) }
pub open spec fn ok_ref_attr(n: Node) -> bool {
  ok_attr(n) && ((n.kids[0].text == "update"@ || n.kids[0].text == "delete"@) && n.kids.len() == 2 && n.kids[1].rule == Rule::spaced_var ==> action_of(n.kids[1].text) is Some)
}
pub open spec fn ok_ref_settings(n: Node) -> bool { forall|i: int| 0 <= i < n.kids.len() ==> ok_ref_attr(#[trigger] n.kids[i]) }
pub open spec fn index_pk(v: IndexesSettings) -> bool { v.is_pk == has_key(v.attributes@, "pk"@) }
pub open spec fn index_unique(v: IndexesSettings) -> bool { v.is_unique == has_key(v.attributes@, "unique"@) }
pub open spec fn index_the_type(v: IndexesSettings) -> bool { v.r#type == (match last_text(v.attributes@, "type"@) { Some(t) => index_type_of(t), None => None }) }
pub open spec fn index_texts(v: IndexesSettings) -> bool { same_text(v.name, last_text(v.attributes@, "name"@)) && same_text(v.note, last_text(v.attributes@, "note"@)) }
pub open spec fn index_flags(v: IndexesSettings) -> bool { index_pk(v) && index_unique(v) && index_the_type(v) && index_texts(v) }
pub open spec fn is_index_settings(v: IndexesSettings, n: Node) -> bool { spok_IndexesSettings(v, n.src) && at(v.span_range, n) && is_attrs(v.attributes@, n.kids) && index_flags(v) }
pub open spec fn ok_index_attr(n: Node) -> bool { ok_attr(n) && (n.kids[0].text == "type"@ && n.kids.len() == 2 ==> index_type_of(literal_string(n.kids[1])) is Some) }
pub open spec fn ok_index_settings(n: Node) -> bool { forall|i: int| 0 <= i < n.kids.len() ==> ok_index_attr(#[trigger] n.kids[i]) }
pub open spec fn is_enum_settings(v: EnumValueSettings, n: Node) -> bool {
  spok_EnumValueSettings(v, n.src) && at(v.span_range, n) && is_attrs(v.attributes@, n.kids) && same_text(v.note, last_text(v.attributes@, "note"@))
}
pub open spec fn col_pk(v: ColumnSettings) -> bool { v.is_pk == (has_key(v.attributes@, "pk"@) || has_key(v.attributes@, "primary key"@)) }
pub open spec fn col_unique(v: ColumnSettings) -> bool { v.is_unique == has_key(v.attributes@, "unique"@) }
pub open spec fn col_nullable(v: ColumnSettings) -> bool { v.nullable == last_nullable(v.attributes@) }
pub open spec fn col_the_default(v: ColumnSettings) -> bool { v.default == last_value(v.attributes@, "default"@) }
pub open spec fn col_others(v: ColumnSettings) -> bool { v.is_incremental == has_key(v.attributes@, "increment"@) && same_text(v.note, last_text(v.attributes@, "note"@)) }
pub open spec fn col_flags(v: ColumnSettings) -> bool { col_pk(v) && col_unique(v) && col_nullable(v) && col_the_default(v) && col_others(v) }
pub open spec fn is_col_settings(v: ColumnSettings, n: Node) -> bool {
  spok_ColumnSettings(v, n.src) && at(v.span_range, n) && is_attrs(v.attributes@, all_of(firsts(n.kids), Rule::attribute)) && is_ref_inlines(v.refs@, all_of(firsts(n.kids), Rule::ref_inline)) && col_flags(v)
}
pub open spec fn ok_col_attr(n: Node) -> bool { n.kids[0].rule == Rule::attribute ==> ok_attr(n.kids[0]) }
pub open spec fn ok_col_settings(n: Node) -> bool { forall|i: int| 0 <= i < n.kids.len() ==> ok_col_attr(#[trigger] n.kids[i]) }
// ---- refs
pub open spec fn is_ref_ident(v: RefIdent, n: Node) -> bool {
  spok_RefIdent(v, n.src) && at(v.span_range, n) && is_ref_names(v, n) && is_idents(v.compositions@, n.kids.last().kids)
}
pub open spec fn is_ref_names(v: RefIdent, n: Node) -> bool {
  if n.kids.len() == 3 { v.schema is Some && is_ident(v.schema->Some_0, n.kids[0]) && is_ident(v.table, n.kids[1]) } else { v.schema is None && is_ident(v.table, n.kids[0]) }
}
pub open spec fn is_ref_inline(v: RefInline, n: Node) -> bool {
  spok_RefInline(v, n.src) && at(v.span_range, n) && Some(v.rel) == relation_of(n.kids[0].text) && is_ref_ident(v.rhs, n.kids[1])
}
pub open spec fn is_ref_inlines(v: Seq<RefInline>, k: Seq<Node>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> is_ref_inline(#[trigger] v[i], k[i]) }
pub open spec fn is_ref_sides(v: RefBlock, n: Node) -> bool { Some(v.rel) == relation_of(n.kids[1].text) && is_ref_ident(v.lhs, n.kids[0]) && is_ref_ident(v.rhs, n.kids[2]) }
pub open spec fn is_ref_stmt_settings(v: RefBlock, n: Node) -> bool { (v.settings is Some <==> n.kids.len() == 4) && (v.settings is Some ==> is_ref_settings(v.settings->Some_0, n.kids[3])) }
pub open spec fn ok_ref_stmt(n: Node) -> bool { n.kids.len() == 4 ==> ok_ref_settings(n.kids[3]) }
pub open spec fn is_ref(v: RefBlock, n: Node) -> bool {
  let b = n.kids[0]; let s = b.kids.last();
  spok_RefBlock(v, n.src) && at(v.span_range, s) && is_ref_sides(v, s) && is_ref_stmt_settings(v, s) && is_ref_name(v, b)
}
pub open spec fn is_ref_name(v: RefBlock, b: Node) -> bool { (v.name is Some <==> b.kids.len() == 2) && (v.name is Some ==> is_ident(v.name->Some_0, b.kids[0])) }
pub open spec fn ok_ref(n: Node) -> bool { ok_ref_stmt(n.kids[0].kids.last()) }
// ---- notes
pub open spec fn is_note(v: NoteBlock, n: Node) -> bool {
  spok_NoteBlock(v, n.src) && at(v.span_range, n.kids[0]) && at(v.value.span_range, n.kids[0].kids[0]) && v.value.raw@ == n.kids[0].kids[0].text
  && (v.value.value matches Value::String(s) && s@ == string_text(n.kids[0].kids[0]))
}
pub open spec fn is_note_opt(v: Option<NoteBlock>, n: Option<Node>) -> bool { (v is Some <==> n is Some) && (v is Some ==> is_note(v->Some_0, n->Some_0)) }
// ---- column types
pub open spec fn type_text(n: Node) -> Seq<char> {
  if n.kids.len() == 2 { name_text(n.kids[0].kids[0]) + "."@ + n.kids[1].kids[0].text } else { n.kids[0].kids[0].text }
}
pub open spec fn is_values(v: Seq<Value>, k: Seq<Node>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> is_value(#[trigger] v[i], k[i]) }
pub open spec fn is_type_args(v: Seq<Value>, n: Option<Node>) -> bool { match n { Some(a) => is_values(v, a.kids), None => v.len() == 0 } }
pub open spec fn is_type_array(v: Option<u32>, n: Node) -> bool { (v is Some <==> n.kids.len() == 1) && (v is Some ==> v->Some_0 == dec_value(n.kids[0].text)) }
pub open spec fn is_type_arrays(v: Seq<Option<u32>>, k: Seq<Node>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> is_type_array(#[trigger] v[i], k[i]) }
pub open spec fn is_col_type(v: ColumnType, n: Node) -> bool {
  let c = n.kids.last();
  spok_ColumnType(v, n.src) && at(v.span_range, n) && v.raw@ == n.text && (v.type_name matches ColumnTypeName::Raw(s) && s@ == type_text(n))
  && is_type_args(v.args@, last_one(c.kids, Rule::col_type_arg)) && is_type_arrays(v.arrays@, all_of(c.kids, Rule::col_type_array))
}
pub open spec fn ok_type_part(n: Node) -> bool {
  (n.rule == Rule::col_type_arg ==> ok_args(n)) && (n.rule == Rule::col_type_array && n.kids.len() == 1 ==> dec_value(n.kids[0].text) <= u32::MAX)
}
pub open spec fn ok_args(n: Node) -> bool { forall|i: int| 0 <= i < n.kids.len() ==> ok_value(#[trigger] n.kids[i]) }
pub open spec fn ok_col_type(n: Node) -> bool { forall|i: int| 0 <= i < n.kids.last().kids.len() ==> ok_type_part(#[trigger] n.kids.last().kids[i]) }
// ---- columns, indexes, tables
pub open spec fn is_col_settings_opt(v: Option<ColumnSettings>, n: Node) -> bool { (v is Some <==> n.kids.len() == 3) && (v is Some ==> is_col_settings(v->Some_0, n.kids[2])) }
pub open spec fn is_col(v: TableColumn, n: Node) -> bool {
  spok_TableColumn(v, n.src) && at(v.span_range, n) && is_ident(v.name, n.kids[0]) && is_col_type(v.r#type, n.kids[1]) && is_col_settings_opt(v.settings, n)
}
pub open spec fn ok_col(n: Node) -> bool { ok_col_type(n.kids[1]) && (n.kids.len() == 3 ==> ok_col_settings(n.kids[2])) }
pub open spec fn is_index_col(v: IndexesColumnType, n: Node) -> bool {
  let k = n.kids[0];
  spok_IndexesColumnType(v, n.src) && if k.rule == Rule::ident { v matches IndexesColumnType::String(x) && is_ident(x, k) }
  else { v matches IndexesColumnType::Expr(x) && at(x.span_range, k) && x.raw@ == k.text && (x.value matches Value::String(s) && s@ == k.kids[0].text) }
}
pub open spec fn index_has_settings(n: Node) -> bool { n.kids.len() > 0 && n.kids.last().rule == Rule::indexes_settings }
pub open spec fn index_cols(n: Node) -> int { if index_has_settings(n) { n.kids.len() - 1 } else { n.kids.len() as int } }
pub open spec fn is_index_cols(v: Seq<IndexesColumnType>, n: Node, len: int) -> bool { v.len() == len && forall|i: int| 0 <= i < v.len() ==> is_index_col(#[trigger] v[i], n.kids[i]) }
pub open spec fn is_index_def_settings(v: Option<IndexesSettings>, n: Node) -> bool { (v is Some <==> index_has_settings(n)) && (v is Some ==> is_index_settings(v->Some_0, n.kids.last())) }
pub open spec fn is_index_def(v: IndexesDef, n: Node) -> bool {
  spok_IndexesDef(v, n.src) && at(v.span_range, n) && is_index_cols(v.cols@, n, index_cols(n)) && is_index_def_settings(v.settings, n)
}
pub open spec fn ok_index_def(n: Node) -> bool { index_has_settings(n) ==> ok_index_settings(n.kids.last()) }
pub open spec fn is_index_defs(v: Seq<IndexesDef>, k: Seq<Node>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> is_index_def(#[trigger] v[i], k[i]) }
pub open spec fn is_indexes(v: IndexesBlock, n: Node) -> bool { spok_IndexesBlock(v, n.src) && at(v.span_range, n.kids[0]) && is_index_defs(v.defs@, n.kids[0].kids) }
pub open spec fn is_indexes_opt(v: Option<IndexesBlock>, n: Option<Node>) -> bool { (v is Some <==> n is Some) && (v is Some ==> is_indexes(v->Some_0, n->Some_0)) }
pub open spec fn ok_indexes(n: Node) -> bool { forall|i: int| 0 <= i < n.kids[0].kids.len() ==> ok_index_def(#[trigger] n.kids[0].kids[i]) }
pub open spec fn is_cols(v: Seq<TableColumn>, k: Seq<Node>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> is_col(#[trigger] v[i], k[i]) }
pub open spec fn ok_table_part(n: Node) -> bool { (n.rule == Rule::table_col ==> ok_col(n)) && (n.rule == Rule::indexes_decl ==> ok_indexes(n)) }
pub open spec fn ok_table_block(n: Node) -> bool { forall|i: int| 0 <= i < n.kids.len() ==> ok_table_part(#[trigger] n.kids[i]) }
pub open spec fn is_table_alias(v: Option<Ident>, n: Node) -> bool {
  (v is Some <==> n.kids[1].rule == Rule::table_alias) && (v is Some ==> is_ident(v->Some_0, n.kids[1].kids[0]))
}
/// the settings list is the last child before the block, if it is one
pub open spec fn table_has_settings(n: Node) -> bool { n.kids[n.kids.len() - 2].rule == Rule::block_settings }
pub open spec fn is_table_settings_opt(v: Option<TableSettings>, n: Node) -> bool {
  (v is Some <==> table_has_settings(n)) && (v is Some ==> is_table_settings(v->Some_0, n.kids[n.kids.len() - 2]))
}
pub open spec fn is_table(v: TableBlock, n: Node) -> bool {
  let b = n.kids.last().kids;
  spok_TableBlock(v, n.src) && at(v.span_range, n) && at(v.ident.span_range, n.kids[0]) && is_dotted(v.ident.schema, v.ident.name, n.kids[0]) && is_table_alias(v.ident.alias, n)
  && is_cols(v.cols@, all_of(b, Rule::table_col)) && is_note_opt(v.note, last_one(b, Rule::note_decl)) && is_indexes_opt(v.indexes, last_one(b, Rule::indexes_decl)) && is_table_settings_opt(v.settings, n)
}
pub open spec fn ok_table(n: Node) -> bool { ok_table_block(n.kids.last()) && (table_has_settings(n) ==> ok_attrs(n.kids[n.kids.len() - 2].kids)) }
// ---- enums
pub open spec fn is_enum_settings_opt(v: Option<EnumValueSettings>, n: Node) -> bool { (v is Some <==> n.kids.len() == 2) && (v is Some ==> is_enum_settings(v->Some_0, n.kids[1])) }
pub open spec fn is_enum_value(v: EnumValue, n: Node) -> bool { spok_EnumValue(v, n.src) && at(v.span_range, n) && is_ident(v.value, n.kids[0]) && is_enum_settings_opt(v.settings, n) }
pub open spec fn ok_enum_value(n: Node) -> bool { n.kids.len() == 2 ==> ok_attrs(n.kids[1].kids) }
pub open spec fn is_enum_values(v: Seq<EnumValue>, k: Seq<Node>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> is_enum_value(#[trigger] v[i], k[i]) }
pub open spec fn ok_enum_block(n: Node) -> bool { forall|i: int| 0 <= i < n.kids.len() ==> ok_enum_value(#[trigger] n.kids[i]) }
pub open spec fn is_enum(v: EnumBlock, n: Node) -> bool {
  spok_EnumBlock(v, n.src) && at(v.span_range, n) && at(v.ident.span_range, n.kids[0]) && is_dotted(v.ident.schema, v.ident.name, n.kids[0]) && is_enum_values(v.values@, n.kids[1].kids)
}
pub open spec fn ok_enum(n: Node) -> bool { ok_enum_block(n.kids[1]) }
// ---- table groups
pub open spec fn is_group_item(v: TableGroupItem, n: Node) -> bool { spok_TableGroupItem(v, n.src) && at(v.span_range, n) && is_dotted(v.schema, v.ident_alias, n) }
pub open spec fn is_group_items(v: Seq<TableGroupItem>, k: Seq<Node>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> is_group_item(#[trigger] v[i], k[i]) }
pub open spec fn is_group_settings_opt(v: Option<TableGroupSettings>, n: Node) -> bool { (v is Some <==> n.kids.len() == 3) && (v is Some ==> is_group_settings(v->Some_0, n.kids[1])) }
pub open spec fn is_group(v: TableGroupBlock, n: Node) -> bool {
  let b = n.kids.last().kids;
  spok_TableGroupBlock(v, n.src) && at(v.span_range, n) && is_ident(v.ident, n.kids[0]) && is_group_items(v.items@, all_of(b, Rule::decl_ident)) && is_note_opt(v.note, last_one(b, Rule::note_decl)) && is_group_settings_opt(v.settings, n)
}
pub open spec fn ok_group(n: Node) -> bool { n.kids.len() == 3 ==> ok_attrs(n.kids[1].kids) }
// ---- project
/// text of the last property database_type that is a string
pub open spec fn last_db(v: Seq<Property>) -> Option<Seq<char>> decreases v.len() {
  if v.len() == 0 { None } else if v.last().key.to_string@ == "database_type"@ && v.last().value.value is String { Some(v.last().value.value->String_0@) } else { last_db(v.drop_last()) }
}
pub broadcast proof fn lemma_last_db_push(v: Seq<Property>, a: Property)
  ensures #[trigger] last_db(v.push(a)) == (if a.key.to_string@ == "database_type"@ && a.value.value is String { Some(a.value.value->String_0@) } else { last_db(v) })
{ assert(v.push(a).drop_last() =~= v); }
broadcast use lemma_last_db_push;
pub open spec fn is_db(v: Option<DatabaseType>, t: Option<Seq<char>>) -> bool { (v is Some <==> t is Some) && (v is Some ==> is_database_type(v->Some_0, t->Some_0)) }
pub open spec fn is_props(v: Seq<Property>, k: Seq<Node>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> is_prop(#[trigger] v[i], k[i]) }
pub open spec fn ok_project_part(n: Node) -> bool { n.rule == Rule::property ==> ok_attr(n) }
pub open spec fn ok_project(n: Node) -> bool { forall|i: int| 0 <= i < n.kids[1].kids.len() ==> ok_project_part(#[trigger] n.kids[1].kids[i]) }
pub open spec fn is_project(v: ProjectBlock, n: Node) -> bool {
  let b = n.kids[1].kids;
  spok_ProjectBlock(v, n.src) && at(v.span_range, n) && is_ident(v.ident, n.kids[0]) && is_props(v.properties@, all_of(b, Rule::property)) && is_note_opt(v.note, last_one(b, Rule::note_decl)) && is_db(v.database_type, last_db(v.properties@))
}
// ---- document
pub open spec fn is_block(v: TopLevelBlock, n: Node) -> bool {
  match n.rule {
    Rule::project_decl => v matches TopLevelBlock::Project(x) && is_project(x, n),
    Rule::table_decl => v matches TopLevelBlock::Table(x) && is_table(x, n),
    Rule::enum_decl => v matches TopLevelBlock::Enum(x) && is_enum(x, n),
    Rule::ref_decl => v matches TopLevelBlock::Ref(x) && is_ref(x, n),
    Rule::note_decl => v matches TopLevelBlock::Note(x) && is_note(x, n),
    Rule::table_group_decl => v matches TopLevelBlock::TableGroup(x) && is_group(x, n),
    _ => false,
  }
}
pub open spec fn ok_block(n: Node) -> bool {
  match n.rule { Rule::project_decl => ok_project(n), Rule::table_decl => ok_table(n), Rule::enum_decl => ok_enum(n), Rule::ref_decl => ok_ref(n), Rule::table_group_decl => ok_group(n), _ => true }
}
pub open spec fn is_blocks(v: Seq<TopLevelBlock>, n: Node, len: int) -> bool { v.len() == len && forall|i: int| 0 <= i < len ==> is_block(#[trigger] v[i], n.kids[i]) }
pub open spec fn is_schema(v: SchemaBlock, n: Node) -> bool { spok_SchemaBlock(v, n.src) && at(v.span_range, n) && is_blocks(v.blocks@, n, n.kids.len() - 1) }
pub open spec fn ok_schema(n: Node) -> bool { forall|i: int| 0 <= i < n.kids.len() ==> ok_block(#[trigger] n.kids[i]) }

/// a call of the unchecked parser on the text returned r
pub uninterp spec fn parsed(s: Seq<char>, r: ParserResult<SchemaBlock>) -> bool;
// ---- errors found while parsing: something that cannot be represented, and the error is at it
pub open spec fn err_at(e: Error, n: Node) -> bool { e.custom() && e.s() == n.start && e.e() == n.end }
pub open spec fn value_err(e: Error, n: Node) -> bool { !ok_value(n) && err_at(e, n.kids[0].kids[0]) }
pub open spec fn attr_err(e: Error, n: Node) -> bool { !ok_attr(n) && value_err(e, n.kids[1]) }
pub open spec fn attrs_err(e: Error, k: Seq<Node>) -> bool { exists|i: int| 0 <= i < k.len() && attr_err(e, #[trigger] k[i]) }
pub open spec fn ref_attr_err(e: Error, n: Node) -> bool { attr_err(e, n) || (ok_attr(n) && !ok_ref_attr(n) && err_at(e, n)) }
pub open spec fn ref_settings_err(e: Error, n: Node) -> bool { exists|i: int| 0 <= i < n.kids.len() && ref_attr_err(e, #[trigger] n.kids[i]) }
pub open spec fn index_attr_err(e: Error, n: Node) -> bool { attr_err(e, n) || (ok_attr(n) && !ok_index_attr(n) && err_at(e, n)) }
pub open spec fn index_settings_err(e: Error, n: Node) -> bool { exists|i: int| 0 <= i < n.kids.len() && index_attr_err(e, #[trigger] n.kids[i]) }
pub open spec fn col_attr_err(e: Error, n: Node) -> bool { n.kids[0].rule == Rule::attribute && attr_err(e, n.kids[0]) }
pub open spec fn col_settings_err(e: Error, n: Node) -> bool { exists|i: int| 0 <= i < n.kids.len() && col_attr_err(e, #[trigger] n.kids[i]) }
pub open spec fn ref_stmt_err(e: Error, n: Node) -> bool { n.kids.len() == 4 && ref_settings_err(e, n.kids[3]) }
pub open spec fn ref_err(e: Error, n: Node) -> bool { ref_stmt_err(e, n.kids[0].kids.last()) }
pub open spec fn args_err(e: Error, n: Node) -> bool { exists|i: int| 0 <= i < n.kids.len() && value_err(e, #[trigger] n.kids[i]) }
pub open spec fn type_part_err(e: Error, n: Node) -> bool {
  (n.rule == Rule::col_type_arg && args_err(e, n)) || (n.rule == Rule::col_type_array && !ok_type_part(n) && err_at(e, n.kids[0]))
}
pub open spec fn type_err(e: Error, n: Node) -> bool { exists|i: int| 0 <= i < n.kids.last().kids.len() && type_part_err(e, #[trigger] n.kids.last().kids[i]) }
pub open spec fn col_err(e: Error, n: Node) -> bool { type_err(e, n.kids[1]) || (n.kids.len() == 3 && col_settings_err(e, n.kids[2])) }
pub open spec fn index_def_err(e: Error, n: Node) -> bool { index_has_settings(n) && index_settings_err(e, n.kids.last()) }
pub open spec fn index_defs_err(e: Error, k: Seq<Node>) -> bool { exists|i: int| 0 <= i < k.len() && index_def_err(e, #[trigger] k[i]) }
pub open spec fn table_part_err(e: Error, n: Node) -> bool { (n.rule == Rule::table_col && col_err(e, n)) || (n.rule == Rule::indexes_decl && index_defs_err(e, n.kids[0].kids)) }
pub open spec fn table_block_err(e: Error, n: Node) -> bool { exists|i: int| 0 <= i < n.kids.len() && table_part_err(e, #[trigger] n.kids[i]) }
pub open spec fn table_err(e: Error, n: Node) -> bool { table_block_err(e, n.kids.last()) || (table_has_settings(n) && attrs_err(e, n.kids[n.kids.len() - 2].kids)) }
pub open spec fn enum_value_err(e: Error, n: Node) -> bool { n.kids.len() == 2 && attrs_err(e, n.kids[1].kids) }
pub open spec fn enum_block_err(e: Error, n: Node) -> bool { exists|i: int| 0 <= i < n.kids.len() && enum_value_err(e, #[trigger] n.kids[i]) }
pub open spec fn group_err(e: Error, n: Node) -> bool { n.kids.len() == 3 && attrs_err(e, n.kids[1].kids) }
pub open spec fn project_part_err(e: Error, n: Node) -> bool { n.rule == Rule::property && attr_err(e, n) }
pub open spec fn proj_err(e: Error, n: Node) -> bool { exists|i: int| 0 <= i < n.kids[1].kids.len() && project_part_err(e, #[trigger] n.kids[1].kids[i]) }
pub open spec fn block_err(e: Error, n: Node) -> bool {
  match n.rule { Rule::project_decl => proj_err(e, n), Rule::table_decl => table_err(e, n), Rule::enum_decl => enum_block_err(e, n.kids[1]), Rule::ref_decl => ref_err(e, n), Rule::table_group_decl => group_err(e, n), _ => false }
}
pub open spec fn schema_err(e: Error, n: Node) -> bool { exists|i: int| 0 <= i < n.kids.len() && block_err(e, #[trigger] n.kids[i]) }

@fn throw_rules
ensures: r is Err
@fn throw_msg
ensures: r is Err && r->Err_0.custom() && r->Err_0.msg() == msg@ && r->Err_0.s() == pair@.start && r->Err_0.e() == pair@.end
@fn s2r
ensures: r.start == span.s() && r.end == span.e()

@fn parse_ident
ensures [C04]: is_name_token(pair@.text)
requires: wf_ident(pair@) && node_ok(pair@)
ensures [C01]: r is Ok
ensures [C04 C02]: is_ident(r->Ok_0, pair@)
ensures [C01 C02]: spok_Ident(r->Ok_0, pair@.src)

@hint parse_ident:start
/* wf_double_quoted_value */ assert(wf_ident(pair@)); assert(wf_var(pair@.kids[0]) || wf_double_quoted_string(pair@.kids[0]));
assert(wf_double_quoted_string(pair@.kids[0]) ==> wf_double_quoted_value(pair@.kids[0].kids[0]));
@fn parse_decl_ident
requires: wf_decl_ident(pair@) && node_ok(pair@)
ensures [C01]: r is Ok
ensures [C04]: is_dotted(r->Ok_0.0, r->Ok_0.1, pair@)
ensures [C01 C02]: spok_Ident(r->Ok_0.1, pair@.src) && (r->Ok_0.0 is Some ==> spok_Ident(r->Ok_0.0->Some_0, pair@.src))
@loop parse_decl_ident/p1
invariant: tmp_tokens@.len() == vx_i_p1
invariant [C04]: forall|j: int| 0 <= j < vx_i_p1 ==> is_ident(#[trigger] tmp_tokens@[j], pair@.kids[j])
invariant [C01 C02]: forall|j: int| 0 <= j < vx_i_p1 ==> spok_Ident(#[trigger] tmp_tokens@[j], pair@.src)

@fn parse_string_value
requires: wf_string_value(pair@) && node_ok(pair@)
ensures [C01]: r is Ok
ensures [C05]: r->Ok_0@ == string_text(pair@)
ensures [C05]: is_string_token(pair@.text)
@loop parse_string_value/p1
invariant: vx_i_p1 > 0 ==> out@ == string_text(pair@)
@loop parse_string_value/p2
invariant: vx_i_p2 > 0 ==> out@ == string_text(pair@)
@loop parse_string_value/p2_2
invariant: vx_i_p2_2 > 0 ==> out@ == string_text(pair@)
@fn parse_value
requires: wf_value(pair@) && node_ok(pair@)
ensures [C05]: r is Ok <==> ok_value(pair@)
ensures [C22]: r matches Err(e) ==> value_err(e, pair@)
ensures [C05]: r matches Ok(v) ==> is_value(v, pair@)
ensures [C05]: is_value_token(pair@.text)

@hint parse_value:start
proof { reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("null"); lemma_single(pair@.text); }
/* wf_integer wf_decimal wf_backquoted_quoted_value wf_single_quoted_string wf_single_quoted_value wf_triple_quoted_string wf_triple_quoted_value */
@fn parse_attribute
requires: (wf_attribute(pair@) || wf_property(pair@)) && node_ok(pair@)
ensures [C05 C06]: r is Ok <==> ok_attr(pair@)
ensures [C22]: r matches Err(e) ==> attr_err(e, pair@)
ensures [C05 C06]: r matches Ok(v) ==> is_attr(v, pair@)
ensures [C06]: r matches Ok(v) ==> is_words(v.key.to_string@)
ensures [C01 C02]: r matches Ok(v) ==> spok_Attribute(v, pair@.src)
@loop parse_attribute/p1
invariant [C02]: at(init.span_range, pair@)
invariant: vx_i_p1 == 0 ==> init.key.raw@.len() == 0
invariant: vx_i_p1 >= 1 ==> is_plain(init.key, pair@.kids[0])
invariant: vx_i_p1 <= 1 ==> init.value is None
invariant: vx_i_p1 >= 2 ==> init.value is Some && is_literal(init.value->Some_0, pair@.kids[1]) && ok_attr(pair@)
invariant [C01 C02]: vx_i_p1 >= 1 ==> spok_Ident(init.key, pair@.src)
invariant [C01 C02]: vx_i_p1 >= 2 ==> spok_Literal(init.value->Some_0, pair@.src)

@fn parse_property
requires: wf_property(pair@) && node_ok(pair@)
ensures [C05 C06]: r is Ok <==> ok_attr(pair@)
ensures [C22]: r matches Err(e) ==> attr_err(e, pair@)
ensures [C05 C06]: r matches Ok(v) ==> is_prop(v, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_Property(v, pair@.src)


@fn parse_table_settings
requires: wf_block_settings(pair@) && node_ok(pair@)
ensures [C03 C06]: r is Ok <==> ok_attrs(pair@.kids)
ensures [C22]: r matches Err(e) ==> attrs_err(e, pair@.kids)
ensures [C03 C06]: r matches Ok(v) ==> is_attrs(v.attributes@, pair@.kids)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_TableSettings(v, pair@.src)
@loop parse_table_settings/collect parse_table_group_settings/collect
invariant: vx_c_collect@.len() == vx_i_collect
invariant: forall|j: int| 0 <= j < vx_i_collect ==> is_attr(#[trigger] vx_c_collect@[j], pair@.kids[j])
invariant: forall|j: int| 0 <= j < vx_i_collect ==> ok_attr(#[trigger] pair@.kids[j])
@fn parse_table_group_settings
requires: wf_block_settings(pair@) && node_ok(pair@)
ensures [C03 C06]: r is Ok <==> ok_attrs(pair@.kids)
ensures [C22]: r matches Err(e) ==> attrs_err(e, pair@.kids)
ensures [C03 C06]: r matches Ok(v) ==> is_attrs(v.attributes@, pair@.kids)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_TableGroupSettings(v, pair@.src)

@fn parse_note_decl
requires: wf_note_decl(pair@) && node_ok(pair@)
ensures [C01]: r is Ok
ensures [C01 C02]: r matches Ok(v) ==> spok_NoteBlock(v, pair@.src)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@.kids[0]) && at(v.value.span_range, pair@.kids[0].kids[0]) && v.value.raw@ == pair@.kids[0].kids[0].text
ensures [C05]: r matches Ok(v) ==> v.value.value matches Value::String(s) && s@ == string_text(pair@.kids[0].kids[0])
@loop parse_note_decl/p1
invariant: vx_i_p1 == 0
@loop parse_note_decl/p2
invariant: vx_i_p2 == 0

@fn parse_ref_ident
requires: wf_ref_ident(pair@) && node_ok(pair@)
ensures [C01]: r is Ok
ensures [C04 C07]: r matches Ok(v) ==> is_ref_names(v, pair@)
ensures [C03 C07]: r matches Ok(v) ==> is_idents(v.compositions@, pair@.kids.last().kids)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_RefIdent(v, pair@.src)
@loop parse_ref_ident/p1
invariant: at(out.span_range, pair@) && out.schema is None
invariant: tmp_tokens@.len() == (if vx_i_p1 < pair@.kids.len() { vx_i_p1 as int } else { pair@.kids.len() - 1 })
invariant: forall|j: int| 0 <= j < tmp_tokens@.len() ==> is_ident(#[trigger] tmp_tokens@[j], pair@.kids[j])
invariant: vx_i_p1 < pair@.kids.len() ==> out.compositions@.len() == 0
invariant: vx_i_p1 == pair@.kids.len() ==> is_idents(out.compositions@, pair@.kids.last().kids)
@loop parse_ref_ident/p2
invariant: out.schema is None && at(out.span_range, pair@)
invariant: out.compositions@.len() == vx_i_p2 && forall|j: int| 0 <= j < vx_i_p2 ==> is_ident(#[trigger] out.compositions@[j], pair@.kids.last().kids[j])

@fn parse_ref_inline
requires: wf_ref_inline(pair@) && node_ok(pair@)
ensures [C01]: r is Ok
ensures [C01]: r matches Ok(v) ==> !(v.rel is Undef)
ensures [C07 C20 C21]: r matches Ok(v) ==> Some(v.rel) == relation_of(pair@.kids[0].text)
ensures [C07]: r matches Ok(v) ==> is_ref_ident(v.rhs, pair@.kids[1])
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_RefInline(v, pair@.src)
@loop parse_ref_inline/p1
invariant [C02]: at(acc.span_range, pair@)
invariant: vx_i_p1 >= 1 ==> Some(acc.rel) == relation_of(pair@.kids[0].text)
invariant: vx_i_p1 >= 2 ==> is_ref_ident(acc.rhs, pair@.kids[1])
@fn parse_ref_stmt
requires: wf_ref_stmt(pair@) && node_ok(pair@)
ensures [C06]: r is Ok <==> ok_ref_stmt(pair@)
ensures [C22]: r matches Err(e) ==> ref_stmt_err(e, pair@)
ensures [C07 C20 C21]: r matches Ok(v) ==> is_ref_sides(v, pair@)
ensures [C01]: r matches Ok(v) ==> !(v.rel is Undef)
ensures [C06]: r matches Ok(v) ==> is_ref_stmt_settings(v, pair@)
ensures [C04]: r matches Ok(v) ==> v.name is None
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_RefBlock(v, pair@.src)
@loop parse_ref_stmt/p1
invariant: at(acc.span_range, pair@) && acc.name is None
invariant: vx_i_p1 >= 1 ==> is_ref_ident(acc.lhs, pair@.kids[0])
invariant: vx_i_p1 <= 1 ==> acc.rel == Relation::Undef
invariant: vx_i_p1 >= 2 ==> Some(acc.rel) == relation_of(pair@.kids[1].text) && acc.rel != Relation::Undef
invariant: vx_i_p1 >= 3 ==> is_ref_ident(acc.rhs, pair@.kids[2])
invariant: vx_i_p1 <= 3 ==> acc.settings is None
invariant: vx_i_p1 >= 4 ==> acc.settings is Some && is_ref_settings(acc.settings->Some_0, pair@.kids[3]) && ok_ref_settings(pair@.kids[3])
@fn parse_rel_settings
requires: wf_rel_settings(pair@) && node_ok(pair@)
ensures [C06]: r is Ok <==> ok_ref_settings(pair@)
ensures [C22]: r matches Err(e) ==> ref_settings_err(e, pair@)
ensures [C03 C06]: r matches Ok(v) ==> is_attrs(v.attributes@, pair@.kids)
ensures [C06]: r matches Ok(v) ==> ref_flags(v)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_RefSettings(v, pair@.src)
@hint parse_rel_settings:start
proof { lemma_keys(); }
@loop parse_rel_settings/p1
invariant [C02]: at(acc.span_range, pair@)
invariant: acc.attributes@.len() == vx_i_p1
invariant: forall|j: int| 0 <= j < vx_i_p1 ==> is_attr(#[trigger] acc.attributes@[j], pair@.kids[j])
invariant: forall|j: int| 0 <= j < vx_i_p1 ==> ok_ref_attr(#[trigger] pair@.kids[j])
invariant [C06]: ref_flags(acc)
@fn parse_ref_decl
requires: wf_ref_decl(pair@) && node_ok(pair@)
ensures [C06]: r is Ok <==> ok_ref(pair@)
ensures [C22]: r matches Err(e) ==> ref_err(e, pair@)
ensures [C07 C20 C21]: r matches Ok(v) ==> is_ref_sides(v, pair@.kids[0].kids.last())
ensures [C06]: r matches Ok(v) ==> is_ref_stmt_settings(v, pair@.kids[0].kids.last())
ensures [C04]: r matches Ok(v) ==> is_ref_name(v, pair@.kids[0])
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@.kids[0].kids.last())
ensures [C01 C02]: r matches Ok(v) ==> spok_RefBlock(v, pair@.src)
@loop parse_ref_decl/p1
invariant: vx_i_p1 == 0
@loop parse_ref_decl/p2
invariant: vx_i_p2 < vx_s_p2@.len()
invariant: vx_i_p2 == 0 ==> name is None
invariant: vx_i_p2 == 1 ==> name is Some && is_ident(name->Some_0, pair@.kids[0].kids[0])

@fn build_type_name_with_schema
ensures [C08]: r@ == (match schema { Some(s) => s.to_string@ + "."@ + type_name@.text, None => type_name@.text })
@fn parse_col_type_arg
requires: wf_col_type_arg(pair@) && node_ok(pair@)
ensures [C05 C08]: r is Ok <==> ok_args(pair@)
ensures [C22]: r matches Err(e) ==> args_err(e, pair@)
ensures [C08]: r matches Ok(v) ==> is_values(v@, pair@.kids)
@loop parse_col_type_arg/p1
invariant: acc@.len() == vx_i_p1 && forall|j: int| 0 <= j < vx_i_p1 ==> is_value(#[trigger] acc@[j], pair@.kids[j])
invariant: forall|j: int| 0 <= j < vx_i_p1 ==> ok_value(#[trigger] pair@.kids[j])
@fn parse_col_type
requires: wf_col_type(pair@) && node_ok(pair@)
ensures [C05 C08]: r is Ok <==> ok_col_type(pair@)
ensures [C22]: r matches Err(e) ==> type_err(e, pair@)
ensures [C02 C08]: r matches Ok(v) ==> v.raw@ == pair@.text
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_ColumnType(v, pair@.src)
ensures [C01]: r matches Ok(v) ==> v.type_name is Raw
ensures [C08 C17 C18 C19]: r matches Ok(v) ==> v.type_name matches ColumnTypeName::Raw(s) && s@ == type_text(pair@)
ensures [C08 C17 C18 C19]: r matches Ok(v) ==> is_type_args(v.args@, last_one(pair@.kids.last().kids, Rule::col_type_arg))
ensures [C08 C15 C19]: r matches Ok(v) ==> is_type_arrays(v.arrays@, all_of(pair@.kids.last().kids, Rule::col_type_array))
@loop parse_col_type/p1
invariant: at(out.span_range, pair@) && out.raw@ == pair@.text
invariant: vx_i_p1 == 0 ==> schema is None
invariant: vx_i_p1 == 1 && pair@.kids.len() == 2 ==> schema is Some && is_ident(schema->Some_0, pair@.kids[0])
invariant: vx_i_p1 < pair@.kids.len() ==> out.args@.len() == 0 && out.arrays@.len() == 0
invariant: vx_i_p1 == pair@.kids.len() ==> is_col_type(out, pair@) && ok_col_type(pair@)
@loop parse_col_type/p2
invariant: at(out.span_range, pair@) && out.raw@ == pair@.text
invariant: vx_i_p2 >= 1 ==> (out.type_name matches ColumnTypeName::Raw(s) && s@ == type_text(pair@))
invariant: is_type_args(out.args@, last_of(pair@.kids.last().kids, vx_i_p2 as int, Rule::col_type_arg))
invariant: is_type_arrays(out.arrays@, sel(pair@.kids.last().kids, vx_i_p2 as int, Rule::col_type_array))
invariant: forall|j: int| 0 <= j < vx_i_p2 ==> ok_type_part(#[trigger] pair@.kids.last().kids[j])
@loop parse_col_type/p3
invariant: vx_i_p3 == 0 ==> vx_acc is None
invariant: vx_i_p3 == 1 ==> vx_s_p3@.len() == 1 && dec_value(vx_s_p3@[0]@.text) <= u32::MAX && vx_acc == Some(dec_value(vx_s_p3@[0]@.text) as u32)
@fn parse_col_settings
requires: wf_col_settings(pair@) && node_ok(pair@)
ensures [C05 C06]: r is Ok <==> ok_col_settings(pair@)
ensures [C22]: r matches Err(e) ==> col_settings_err(e, pair@)
ensures [C03 C06]: r matches Ok(v) ==> is_attrs(v.attributes@, all_of(firsts(pair@.kids), Rule::attribute))
ensures [C03 C07]: r matches Ok(v) ==> is_ref_inlines(v.refs@, all_of(firsts(pair@.kids), Rule::ref_inline))
ensures [C06 C15 C20]: r matches Ok(v) ==> col_pk(v)
ensures [C06 C16 C20]: r matches Ok(v) ==> col_unique(v)
ensures [C06 C15 C18]: r matches Ok(v) ==> col_nullable(v)
ensures [C01 C06 C18 C22]: r matches Ok(v) ==> col_the_default(v)
ensures [C06]: r matches Ok(v) ==> col_others(v)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_ColumnSettings(v, pair@.src)
@hint parse_col_settings:start
proof { lemma_keys(); }
@loop parse_col_settings/p1
invariant [C02]: at(acc.span_range, pair@)
invariant: is_attrs(acc.attributes@, sel(firsts(pair@.kids), vx_i_p1 as int, Rule::attribute))
invariant [C03 C07]: is_ref_inlines(acc.refs@, sel(firsts(pair@.kids), vx_i_p1 as int, Rule::ref_inline))
invariant: forall|j: int| 0 <= j < vx_i_p1 ==> ok_col_attr(#[trigger] pair@.kids[j])
invariant [C06 C15 C20]: col_pk(acc)
invariant [C06 C16 C20]: col_unique(acc)
invariant [C06 C15 C18]: col_nullable(acc)
invariant [C01 C06 C18 C22]: col_the_default(acc)
invariant [C06]: col_others(acc)
invariant [C01 C02]: spok_ColumnSettings(acc, pair@.src)
@loop parse_col_settings/p2
invariant [C02]: at(acc.span_range, pair@)
invariant: is_attrs(acc.attributes@, sel(firsts(pair@.kids), vx_i_p1 + vx_i_p2 - 1, Rule::attribute))
invariant [C03 C07]: is_ref_inlines(acc.refs@, sel(firsts(pair@.kids), vx_i_p1 + vx_i_p2 - 1, Rule::ref_inline))
invariant: forall|j: int| 0 <= j < vx_i_p1 + vx_i_p2 - 1 ==> ok_col_attr(#[trigger] pair@.kids[j])
invariant [C06 C15 C20]: col_pk(acc)
invariant [C06 C16 C20]: col_unique(acc)
invariant [C06 C15 C18]: col_nullable(acc)
invariant [C01 C06 C18 C22]: col_the_default(acc)
invariant [C06]: col_others(acc)
invariant [C01 C02]: spok_ColumnSettings(acc, pair@.src)
@fn parse_table_col
requires: wf_table_col(pair@) && node_ok(pair@)
ensures [C05]: r is Ok <==> ok_col(pair@)
ensures [C22]: r matches Err(e) ==> col_err(e, pair@)
ensures [C04]: r matches Ok(v) ==> is_ident(v.name, pair@.kids[0])
ensures [C08]: r matches Ok(v) ==> is_col_type(v.r#type, pair@.kids[1])
ensures [C06]: r matches Ok(v) ==> is_col_settings_opt(v.settings, pair@)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_TableColumn(v, pair@.src)
@loop parse_table_col/p1
invariant [C02]: at(acc.span_range, pair@)
invariant: vx_i_p1 >= 1 ==> is_ident(acc.name, pair@.kids[0])
invariant: vx_i_p1 >= 2 ==> is_col_type(acc.r#type, pair@.kids[1]) && ok_col_type(pair@.kids[1])
invariant: vx_i_p1 <= 2 ==> acc.settings is None
invariant: vx_i_p1 >= 3 ==> acc.settings is Some && is_col_settings(acc.settings->Some_0, pair@.kids[2]) && ok_col_settings(pair@.kids[2])

@fn parse_indexes_ident
requires: wf_indexes_ident(pair@) && node_ok(pair@)
ensures [C01]: r is Ok
ensures [C02 C03 C04]: r matches Ok(v) ==> is_index_col(v, pair@)
@fn parse_indexes_settings
requires: wf_indexes_settings(pair@) && node_ok(pair@)
ensures [C05 C06]: r is Ok <==> ok_index_settings(pair@)
ensures [C22]: r matches Err(e) ==> index_settings_err(e, pair@)
ensures [C03 C06]: r matches Ok(v) ==> is_attrs(v.attributes@, pair@.kids)
ensures [C06 C15 C16 C20]: r matches Ok(v) ==> index_pk(v)
ensures [C06 C16 C20]: r matches Ok(v) ==> index_unique(v)
ensures [C06 C16]: r matches Ok(v) ==> index_the_type(v)
ensures [C06]: r matches Ok(v) ==> index_texts(v)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_IndexesSettings(v, pair@.src)
@hint parse_indexes_settings:start
proof { lemma_keys(); }
@loop parse_indexes_settings/p1
invariant [C02]: at(acc.span_range, pair@)
invariant: acc.attributes@.len() == vx_i_p1
invariant: forall|j: int| 0 <= j < vx_i_p1 ==> is_attr(#[trigger] acc.attributes@[j], pair@.kids[j])
invariant: forall|j: int| 0 <= j < vx_i_p1 ==> ok_index_attr(#[trigger] pair@.kids[j])
invariant [C06 C15 C16 C20]: index_pk(acc)
invariant [C06 C16 C20]: index_unique(acc)
invariant [C06 C16]: index_the_type(acc)
invariant [C06]: index_texts(acc)
@fn parse_indexes_single_multi
requires: (wf_indexes_single(pair@) || wf_indexes_multi(pair@)) && node_ok(pair@)
ensures [C06]: r is Ok <==> ok_index_def(pair@)
ensures [C22]: r matches Err(e) ==> index_def_err(e, pair@)
ensures [C03]: r matches Ok(v) ==> is_index_cols(v.cols@, pair@, index_cols(pair@))
ensures [C06]: r matches Ok(v) ==> is_index_def_settings(v.settings, pair@)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_IndexesDef(v, pair@.src)
@loop parse_indexes_single_multi/p1
invariant [C02]: at(acc.span_range, pair@)
invariant: acc.cols@.len() == (if vx_i_p1 <= index_cols(pair@) { vx_i_p1 as int } else { index_cols(pair@) })
invariant: forall|j: int| 0 <= j < acc.cols@.len() ==> is_index_col(#[trigger] acc.cols@[j], pair@.kids[j])
invariant: vx_i_p1 <= index_cols(pair@) ==> acc.settings is None
invariant: vx_i_p1 > index_cols(pair@) ==> acc.settings is Some && is_index_settings(acc.settings->Some_0, pair@.kids.last()) && ok_index_settings(pair@.kids.last())
@fn parse_indexes_block
requires: wf_indexes_block(pair@) && node_ok(pair@)
ensures [C06]: r is Ok <==> forall|i: int| 0 <= i < pair@.kids.len() ==> ok_index_def(#[trigger] pair@.kids[i])
ensures [C22]: r matches Err(e) ==> index_defs_err(e, pair@.kids)
ensures [C03]: r matches Ok(v) ==> is_index_defs(v.defs@, pair@.kids)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_IndexesBlock(v, pair@.src)
@loop parse_indexes_block/p1
invariant [C02]: at(acc.span_range, pair@)
invariant: acc.defs@.len() == vx_i_p1
invariant: forall|j: int| 0 <= j < vx_i_p1 ==> is_index_def(#[trigger] acc.defs@[j], pair@.kids[j])
invariant: forall|j: int| 0 <= j < vx_i_p1 ==> ok_index_def(#[trigger] pair@.kids[j])
@fn parse_indexes_decl
requires: wf_indexes_decl(pair@) && node_ok(pair@)
ensures [C06]: r is Ok <==> ok_indexes(pair@)
ensures [C22]: r matches Err(e) ==> index_defs_err(e, pair@.kids[0].kids)
ensures [C03]: r matches Ok(v) ==> is_index_defs(v.defs@, pair@.kids[0].kids)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@.kids[0])
ensures [C01 C02]: r matches Ok(v) ==> spok_IndexesBlock(v, pair@.src)

@fn parse_table_decl
requires: wf_table_decl(pair@) && node_ok(pair@)
ensures [C05 C06]: r is Ok <==> ok_table(pair@)
ensures [C22]: r matches Err(e) ==> table_err(e, pair@)
ensures [C04]: r matches Ok(v) ==> is_dotted(v.ident.schema, v.ident.name, pair@.kids[0]) && is_table_alias(v.ident.alias, pair@)
ensures [C03]: r matches Ok(v) ==> is_cols(v.cols@, all_of(pair@.kids.last().kids, Rule::table_col))
ensures [C03]: r matches Ok(v) ==> is_note_opt(v.note, last_one(pair@.kids.last().kids, Rule::note_decl))
ensures [C03]: r matches Ok(v) ==> is_indexes_opt(v.indexes, last_one(pair@.kids.last().kids, Rule::indexes_decl))
ensures [C06]: r matches Ok(v) ==> is_table_settings_opt(v.settings, pair@)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@) && at(v.ident.span_range, pair@.kids[0])
ensures [C01 C02]: r matches Ok(v) ==> spok_TableBlock(v, pair@.src)
@loop parse_table_decl/p1
invariant [C01 C02]: spok_TableBlock(acc, pair@.src)
invariant [C02]: at(acc.span_range, pair@)
invariant: vx_i_p1 >= 1 ==> at(acc.ident.span_range, pair@.kids[0]) && is_dotted(acc.ident.schema, acc.ident.name, pair@.kids[0])
invariant: vx_i_p1 <= 1 ==> acc.ident.alias is None
invariant: vx_i_p1 >= 2 ==> is_table_alias(acc.ident.alias, pair@)
invariant: vx_i_p1 < pair@.kids.len() - 1 ==> acc.settings is None
invariant: vx_i_p1 >= pair@.kids.len() - 1 ==> is_table_settings_opt(acc.settings, pair@) && (table_has_settings(pair@) ==> ok_attrs(pair@.kids[pair@.kids.len() - 2].kids))
invariant: vx_i_p1 < pair@.kids.len() ==> acc.cols@.len() == 0 && acc.note is None && acc.indexes is None
invariant: vx_i_p1 == pair@.kids.len() ==> is_cols(acc.cols@, all_of(pair@.kids.last().kids, Rule::table_col))
invariant: vx_i_p1 == pair@.kids.len() ==> is_note_opt(acc.note, last_one(pair@.kids.last().kids, Rule::note_decl))
invariant: vx_i_p1 == pair@.kids.len() ==> is_indexes_opt(acc.indexes, last_one(pair@.kids.last().kids, Rule::indexes_decl))
invariant: vx_i_p1 == pair@.kids.len() ==> ok_table_block(pair@.kids.last())
@loop parse_table_decl/p2
invariant [C01 C02]: spok_TableBlock(acc, pair@.src)
invariant: at(acc.span_range, pair@) && at(acc.ident.span_range, pair@.kids[0]) && is_dotted(acc.ident.schema, acc.ident.name, pair@.kids[0])
invariant: acc.settings is None && acc.cols@.len() == 0 && acc.note is None && acc.indexes is None
invariant: vx_i_p2 == 0 ==> acc.ident.alias is None
invariant: vx_i_p2 >= 1 ==> acc.ident.alias is Some && is_ident(acc.ident.alias->Some_0, pair@.kids[1].kids[0])
@loop parse_table_decl/p2_2
invariant [C01 C02]: spok_TableBlock(acc, pair@.src)
invariant: at(acc.span_range, pair@) && at(acc.ident.span_range, pair@.kids[0]) && is_dotted(acc.ident.schema, acc.ident.name, pair@.kids[0])
invariant: is_table_alias(acc.ident.alias, pair@)
invariant: is_table_settings_opt(acc.settings, pair@)
invariant: is_cols(acc.cols@, sel(pair@.kids.last().kids, vx_i_p2_2 as int, Rule::table_col))
invariant: is_note_opt(acc.note, last_of(pair@.kids.last().kids, vx_i_p2_2 as int, Rule::note_decl))
invariant: is_indexes_opt(acc.indexes, last_of(pair@.kids.last().kids, vx_i_p2_2 as int, Rule::indexes_decl))
invariant: forall|j: int| 0 <= j < vx_i_p2_2 ==> ok_table_part(#[trigger] pair@.kids.last().kids[j])

@fn parse_enum_value
requires: wf_enum_value(pair@) && node_ok(pair@)
ensures [C06]: r is Ok <==> ok_enum_value(pair@)
ensures [C22]: r matches Err(e) ==> enum_value_err(e, pair@)
ensures [C04]: r matches Ok(v) ==> is_ident(v.value, pair@.kids[0])
ensures [C06]: r matches Ok(v) ==> is_enum_settings_opt(v.settings, pair@)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_EnumValue(v, pair@.src)
@loop parse_enum_value/p1
invariant [C02]: at(acc.span_range, pair@)
invariant: vx_i_p1 >= 1 ==> is_ident(acc.value, pair@.kids[0])
invariant: vx_i_p1 <= 1 ==> acc.settings is None
invariant: vx_i_p1 >= 2 ==> is_enum_settings_opt(acc.settings, pair@) && ok_enum_value(pair@)
@loop parse_enum_value/p2
invariant [C02]: at(settings.span_range, pair@.kids[1])
invariant: settings.attributes@.len() == vx_i_p2
invariant: forall|j: int| 0 <= j < vx_i_p2 ==> is_attr(#[trigger] settings.attributes@[j], pair@.kids[1].kids[j])
invariant: forall|j: int| 0 <= j < vx_i_p2 ==> ok_attr(#[trigger] pair@.kids[1].kids[j])
invariant [C06]: same_text(settings.note, last_text(settings.attributes@, "note"@))
@fn parse_enum_block
requires: wf_enum_block(pair@) && node_ok(pair@)
ensures [C06]: r is Ok <==> ok_enum_block(pair@)
ensures [C22]: r matches Err(e) ==> enum_block_err(e, pair@)
ensures [C03]: r matches Ok(v) ==> is_enum_values(v@, pair@.kids)
@loop parse_enum_block/collect
invariant: vx_c_collect@.len() == vx_i_collect
invariant: forall|j: int| 0 <= j < vx_i_collect ==> is_enum_value(#[trigger] vx_c_collect@[j], pair@.kids[j])
invariant: forall|j: int| 0 <= j < vx_i_collect ==> ok_enum_value(#[trigger] pair@.kids[j])
@fn parse_enum_decl
requires: wf_enum_decl(pair@) && node_ok(pair@)
ensures [C06]: r is Ok <==> ok_enum(pair@)
ensures [C22]: r matches Err(e) ==> enum_block_err(e, pair@.kids[1])
ensures [C04]: r matches Ok(v) ==> is_dotted(v.ident.schema, v.ident.name, pair@.kids[0])
ensures [C03]: r matches Ok(v) ==> is_enum_values(v.values@, pair@.kids[1].kids)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@) && at(v.ident.span_range, pair@.kids[0])
ensures [C01 C02]: r matches Ok(v) ==> spok_EnumBlock(v, pair@.src)
@loop parse_enum_decl/p1
invariant [C02]: at(acc.span_range, pair@)
invariant: vx_i_p1 >= 1 ==> at(acc.ident.span_range, pair@.kids[0]) && is_dotted(acc.ident.schema, acc.ident.name, pair@.kids[0])
invariant: vx_i_p1 >= 2 ==> is_enum_values(acc.values@, pair@.kids[1].kids) && ok_enum_block(pair@.kids[1])

@fn parse_table_group_decl
requires: wf_table_group_decl(pair@) && node_ok(pair@)
ensures [C06]: r is Ok <==> ok_group(pair@)
ensures [C22]: r matches Err(e) ==> group_err(e, pair@)
ensures [C04]: r matches Ok(v) ==> is_ident(v.ident, pair@.kids[0])
ensures [C03 C04]: r matches Ok(v) ==> is_group_items(v.items@, all_of(pair@.kids.last().kids, Rule::decl_ident))
ensures [C03]: r matches Ok(v) ==> is_note_opt(v.note, last_one(pair@.kids.last().kids, Rule::note_decl))
ensures [C06]: r matches Ok(v) ==> is_group_settings_opt(v.settings, pair@)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_TableGroupBlock(v, pair@.src)
@loop parse_table_group_decl/p1
invariant [C01 C02]: spok_TableGroupBlock(acc, pair@.src)
invariant [C02]: at(acc.span_range, pair@)
invariant: vx_i_p1 >= 1 ==> is_ident(acc.ident, pair@.kids[0])
invariant: vx_i_p1 < pair@.kids.len() - 1 ==> acc.settings is None
invariant: vx_i_p1 >= pair@.kids.len() - 1 ==> is_group_settings_opt(acc.settings, pair@) && ok_group(pair@)
invariant: vx_i_p1 < pair@.kids.len() ==> acc.items@.len() == 0 && acc.note is None
invariant: vx_i_p1 == pair@.kids.len() ==> is_group_items(acc.items@, all_of(pair@.kids.last().kids, Rule::decl_ident))
invariant: vx_i_p1 == pair@.kids.len() ==> is_note_opt(acc.note, last_one(pair@.kids.last().kids, Rule::note_decl))
@loop parse_table_group_decl/p2
invariant [C01 C02]: spok_TableGroupBlock(acc, pair@.src)
invariant: at(acc.span_range, pair@) && is_ident(acc.ident, pair@.kids[0]) && is_group_settings_opt(acc.settings, pair@) && ok_group(pair@)
invariant: is_group_items(acc.items@, sel(pair@.kids.last().kids, vx_i_p2 as int, Rule::decl_ident))
invariant: is_note_opt(acc.note, last_of(pair@.kids.last().kids, vx_i_p2 as int, Rule::note_decl))

@fn parse_project_decl
requires: wf_project_decl(pair@) && node_ok(pair@)
ensures [C05]: r is Ok <==> ok_project(pair@)
ensures [C22]: r matches Err(e) ==> proj_err(e, pair@)
ensures [C04]: r matches Ok(v) ==> is_ident(v.ident, pair@.kids[0])
ensures [C03 C06]: r matches Ok(v) ==> is_props(v.properties@, all_of(pair@.kids[1].kids, Rule::property))
ensures [C03]: r matches Ok(v) ==> is_note_opt(v.note, last_one(pair@.kids[1].kids, Rule::note_decl))
ensures [C06]: r matches Ok(v) ==> is_db(v.database_type, last_db(v.properties@))
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_ProjectBlock(v, pair@.src)
@loop parse_project_decl/p1
invariant [C01 C02]: spok_ProjectBlock(acc, pair@.src)
invariant [C02]: at(acc.span_range, pair@)
invariant: vx_i_p1 >= 1 ==> is_ident(acc.ident, pair@.kids[0])
invariant: vx_i_p1 <= 1 ==> acc.properties@.len() == 0 && acc.note is None && acc.database_type is None
invariant: vx_i_p1 == 2 ==> is_props(acc.properties@, all_of(pair@.kids[1].kids, Rule::property)) && is_db(acc.database_type, last_db(acc.properties@))
invariant: vx_i_p1 == 2 ==> is_note_opt(acc.note, last_one(pair@.kids[1].kids, Rule::note_decl)) && ok_project(pair@)
@loop parse_project_decl/p2
invariant [C01 C02]: spok_ProjectBlock(acc, pair@.src)
invariant: at(acc.span_range, pair@) && is_ident(acc.ident, pair@.kids[0])
invariant: is_props(acc.properties@, sel(pair@.kids[1].kids, vx_i_p2 as int, Rule::property))
invariant: is_note_opt(acc.note, last_of(pair@.kids[1].kids, vx_i_p2 as int, Rule::note_decl))
invariant [C06]: is_db(acc.database_type, last_db(acc.properties@))
invariant: forall|j: int| 0 <= j < vx_i_p2 ==> ok_project_part(#[trigger] pair@.kids[1].kids[j])

@fn parse_schema
requires: wf_schema(pair@) && node_ok(pair@) && input@ == pair@.src
ensures [C05 C06]: r is Ok <==> ok_schema(pair@)
ensures [C22]: r matches Err(e) ==> schema_err(e, pair@)
ensures [C03]: r matches Ok(v) ==> is_blocks(v.blocks@, pair@, pair@.kids.len() - 1)
ensures [C02]: r matches Ok(v) ==> at(v.span_range, pair@)
ensures [C01 C02]: r matches Ok(v) ==> spok_SchemaBlock(v, pair@.src)
ensures [C02]: r matches Ok(v) ==> v.input@ == input@
@loop parse_schema/p1
invariant: at(acc.span_range, pair@) && acc.input@ == input@
invariant: is_blocks(acc.blocks@, pair@, if vx_i_p1 < pair@.kids.len() { vx_i_p1 as int } else { pair@.kids.len() - 1 })
invariant: forall|j: int| 0 <= j < vx_i_p1 ==> ok_block(#[trigger] pair@.kids[j])
@fn parse
ensures [C01 C05 C06]: r is Ok <==> grammar_accepts(Rule::schema, input@) && ok_schema(grammar_tree(Rule::schema, input@))
ensures [C02 C03]: r matches Ok(v) ==> is_schema(v, grammar_tree(Rule::schema, input@)) && v.input@ == input@
ensures [C01 C02]: r matches Ok(v) ==> spok_SchemaBlock(v, input@)
ensures [C22]: r matches Err(e) ==> !grammar_accepts(Rule::schema, input@) || schema_err(e, grammar_tree(Rule::schema, input@))
ensures: r is Ok ==> grammar_tree(Rule::schema, input@).src == input@
names: parsed(input@, r)
