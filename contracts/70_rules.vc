## The rules on a document as a whole.
@spec
// ---- a document as the parser yields it
pub open spec fn wf_col(c: TableColumn) -> bool { c.r#type.type_name is Raw && (c.settings is Some ==> c.settings->Some_0.default == last_value(c.settings->Some_0.attributes@, "default"@)) }
pub open spec fn wf_table(t: TableBlock) -> bool {
  (forall|j: int| 0 <= j < t.cols@.len() ==> wf_col(#[trigger] t.cols@[j])) && forall|j: int, i: int| 0 <= j < t.cols@.len() && 0 <= i < col_refs(t.cols@[j]).len() ==> !((#[trigger] col_refs(t.cols@[j])[i]).rel is Undef)
}
pub open spec fn wf_doc(d: SchemaBlock) -> bool {
  spok_SchemaBlock(d, d.input@) && (forall|i: int| 0 <= i < doc_tables(d).len() ==> wf_table(#[trigger] doc_tables(d)[i])) && (forall|i: int| 0 <= i < doc_refs(d).len() ==> !((#[trigger] doc_refs(d)[i]).rel is Undef))
}
pub open spec fn spok_doc(d: SchemaBlock) -> bool {
  (forall|i: int| 0 <= i < doc_projects(d).len() ==> spok_ProjectBlock(#[trigger] doc_projects(d)[i], d.input@))
  && (forall|i: int| 0 <= i < doc_tables(d).len() ==> spok_TableBlock(#[trigger] doc_tables(d)[i], d.input@))
  && (forall|i: int| 0 <= i < doc_groups(d).len() ==> spok_TableGroupBlock(#[trigger] doc_groups(d)[i], d.input@))
  && (forall|i: int| 0 <= i < doc_refs(d).len() ==> spok_RefBlock(#[trigger] doc_refs(d)[i], d.input@))
  && (forall|i: int| 0 <= i < doc_enums(d).len() ==> spok_EnumBlock(#[trigger] doc_enums(d)[i], d.input@))
}
#[verifier::spinoff_prover] pub proof fn lemma_spok_of(b: Seq<TopLevelBlock>, n: int, src: Seq<char>)
  requires 0 <= n <= b.len(), forall|i: int| 0 <= i < b.len() ==> spok_TopLevelBlock(#[trigger] b[i], src)
  ensures
    forall|i: int| 0 <= i < projects_of(b, n).len() ==> spok_ProjectBlock(#[trigger] projects_of(b, n)[i], src),
    forall|i: int| 0 <= i < tables_of(b, n).len() ==> spok_TableBlock(#[trigger] tables_of(b, n)[i], src),
    forall|i: int| 0 <= i < groups_of(b, n).len() ==> spok_TableGroupBlock(#[trigger] groups_of(b, n)[i], src),
    forall|i: int| 0 <= i < refs_of(b, n).len() ==> spok_RefBlock(#[trigger] refs_of(b, n)[i], src),
    forall|i: int| 0 <= i < enums_of(b, n).len() ==> spok_EnumBlock(#[trigger] enums_of(b, n)[i], src),
  decreases n
{
  if n > 0 {
    lemma_spok_of(b, n - 1, src); assert(spok_TopLevelBlock(b[n - 1], src));
    match b[n - 1] {
      TopLevelBlock::Project(x) => { assert(projects_of(b, n) == projects_of(b, n - 1).push(x)); }
      TopLevelBlock::Table(x) => { assert(tables_of(b, n) == tables_of(b, n - 1).push(x)); }
      TopLevelBlock::TableGroup(x) => { assert(groups_of(b, n) == groups_of(b, n - 1).push(x)); }
      TopLevelBlock::Ref(x) => { assert(refs_of(b, n) == refs_of(b, n - 1).push(x)); }
      TopLevelBlock::Enum(x) => { assert(enums_of(b, n) == enums_of(b, n - 1).push(x)); }
      _ => { }
    }
  }
}
pub proof fn lemma_spok_doc(d: SchemaBlock) requires spok_SchemaBlock(d, d.input@) ensures spok_doc(d) { lemma_spok_of(d.blocks@, d.blocks@.len() as int, d.input@); }
// ---- the refs of a document: blocks in order, then the inline ones in order
pub enum RefSrc { Block(RefBlock), Inline(RefInline, TableIdent, Ident) }
pub open spec fn col_refs(c: TableColumn) -> Seq<RefInline> { match c.settings { Some(s) => s.refs@, None => Seq::empty() } }
pub open spec fn col_srcs(t: TableBlock, c: TableColumn) -> Seq<RefSrc> { Seq::new(col_refs(c).len(), |i: int| RefSrc::Inline(col_refs(c)[i], t.ident, c.name)) }
pub open spec fn table_srcs(t: TableBlock, n: int) -> Seq<RefSrc> decreases n { if n <= 0 { Seq::empty() } else { table_srcs(t, n - 1) + col_srcs(t, t.cols@[n - 1]) } }
pub open spec fn inline_srcs(ts: Seq<TableBlock>, n: int) -> Seq<RefSrc> decreases n { if n <= 0 { Seq::empty() } else { inline_srcs(ts, n - 1) + table_srcs(ts[n - 1], ts[n - 1].cols@.len() as int) } }
pub open spec fn block_srcs(rs: Seq<RefBlock>) -> Seq<RefSrc> { Seq::new(rs.len(), |i: int| RefSrc::Block(rs[i])) }
pub open spec fn doc_srcs(d: SchemaBlock) -> Seq<RefSrc> { block_srcs(doc_refs(d)) + inline_srcs(doc_tables(d), doc_tables(d).len() as int) }
pub open spec fn match_src(s: RefSrc, r: IndexedRef) -> bool { match s { RefSrc::Block(x) => block_ref(x, r), RefSrc::Inline(x, t, c) => inline_ref(x, t, c, r) } }
pub open spec fn refs_are(s: Seq<RefSrc>, r: Seq<IndexedRef>) -> bool { s.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> match_src(s[i], #[trigger] r[i]) }
pub proof fn lemma_refs_add(s: Seq<RefSrc>, r: Seq<IndexedRef>, s2: Seq<RefSrc>, r2: Seq<IndexedRef>)
  requires refs_are(s, r), refs_are(s2, r2) ensures refs_are(s + s2, r + r2)
{ let a = s + s2; let b = r + r2; assert forall|i: int| 0 <= i < b.len() implies match_src(a[i], #[trigger] b[i]) by { if i < r.len() { assert(match_src(s[i], r[i])); } else { assert(match_src(s2[i - r.len()], r2[i - r.len()])); } } }
// ---- primary keys and nullability
pub open spec fn pk_col(c: TableColumn) -> bool { c.settings is Some && c.settings->Some_0.is_pk }
pub open spec fn col_pks(t: TableBlock) -> Seq<bool> { Seq::new(t.cols@.len(), |i: int| pk_col(t.cols@[i])) }
pub open spec fn pk_def(d: IndexesDef) -> bool { d.settings is Some && d.settings->Some_0.is_pk }
pub open spec fn def_pks(x: IndexesBlock) -> Seq<bool> { Seq::new(x.defs@.len(), |i: int| pk_def(x.defs@[i])) }
pub open spec fn pk_col_ok(t: TableBlock, i: int) -> bool {
  pk_col(t.cols@[i]) ==> !among(col_pks(t), i, true) && t.cols@[i].settings->Some_0.nullable != Some(Nullable::Null) && t.cols@[i].r#type.arrays@.len() == 0
}
pub open spec fn both_nulls(s: ColumnSettings) -> bool { has_key(s.attributes@, "null"@) && has_key(s.attributes@, "not null"@) }
pub open spec fn nulls_ok(c: TableColumn) -> bool { c.settings is Some ==> !both_nulls(c.settings->Some_0) }
pub open spec fn pk_def_ok(t: TableBlock, x: IndexesBlock, i: int) -> bool { pk_def(x.defs@[i]) ==> !among(col_pks(t), t.cols@.len() as int, true) && !among(def_pks(x), i, true) }
pub open spec fn table_pk_ok(t: TableBlock) -> bool {
  (forall|i: int| #![trigger t.cols@[i]] 0 <= i < t.cols@.len() ==> pk_col_ok(t, i) && nulls_ok(t.cols@[i])) && (t.indexes is Some ==> forall|i: int| 0 <= i < t.indexes->Some_0.defs@.len() ==> #[trigger] pk_def_ok(t, t.indexes->Some_0, i))
}
// ---- indexes
pub open spec fn names_ok(t: TableBlock, d: IndexesDef) -> bool { forall|j: int| 0 <= j < d.cols@.len() ==> name_ok(t, #[trigger] d.cols@[j]) }
pub open spec fn name_ok(t: TableBlock, c: IndexesColumnType) -> bool { match c { IndexesColumnType::String(s) => among(col_names(t), t.cols@.len() as int, s.to_string@), IndexesColumnType::Expr(_) => true } }
pub open spec fn one_role(s: IndexesSettings) -> bool { !(s.is_pk && s.is_unique) && !(s.is_pk && s.r#type is Some) && !(s.is_unique && s.r#type is Some) }
pub open spec fn unique_col(c: TableColumn) -> Option<Set<Seq<char>>> { if c.settings is Some && c.settings->Some_0.is_unique { Some(Set::<Seq<char>>::empty().insert(c.name.to_string@)) } else { None } }
pub open spec fn unique_def(d: IndexesDef) -> Option<Set<Seq<char>>> { if d.settings is Some && d.settings->Some_0.is_unique { Some(index_names(d.cols@).to_set()) } else { None } }
pub open spec fn col_uniques(t: TableBlock) -> Seq<Option<Set<Seq<char>>>> { Seq::new(t.cols@.len(), |i: int| unique_col(t.cols@[i])) }
pub open spec fn def_uniques(x: IndexesBlock) -> Seq<Option<Set<Seq<char>>>> { Seq::new(x.defs@.len(), |i: int| unique_def(x.defs@[i])) }
/// columns and type of an index that is typed or without settings
pub open spec fn listed(d: IndexesDef) -> Option<(Seq<Seq<char>>, Option<IndexesType>)> {
  match d.settings { None => Some((index_names(d.cols@), None)), Some(s) => if s.r#type is Some { Some((index_names(d.cols@), s.r#type)) } else { None } }
}
pub open spec fn listed_names(d: IndexesDef) -> Option<Seq<Seq<char>>> { match listed(d) { Some(x) => Some(x.0), None => None } }
pub open spec fn lists(x: IndexesBlock) -> Seq<Option<(Seq<Seq<char>>, Option<IndexesType>)>> { Seq::new(x.defs@.len(), |i: int| listed(x.defs@[i])) }
pub open spec fn list_names(x: IndexesBlock) -> Seq<Option<Seq<Seq<char>>>> { Seq::new(x.defs@.len(), |i: int| listed_names(x.defs@[i])) }
pub open spec fn unique_fresh(t: TableBlock, x: IndexesBlock, i: int) -> bool {
  unique_def(x.defs@[i]) is Some ==> !among(col_uniques(t), t.cols@.len() as int, unique_def(x.defs@[i])) && !among(def_uniques(x), i, unique_def(x.defs@[i]))
}
pub open spec fn list_fresh(x: IndexesBlock, i: int) -> bool {
  match x.defs@[i].settings {
    Some(s) => s.r#type is Some ==> !among(lists(x), i, listed(x.defs@[i])),
    None => !among(list_names(x), i, listed_names(x.defs@[i])),
  }
}
pub open spec fn index_ok(t: TableBlock, x: IndexesBlock, i: int) -> bool {
  x.defs@[i].cols@.len() > 0 && names_ok(t, x.defs@[i]) && (x.defs@[i].settings is Some ==> one_role(x.defs@[i].settings->Some_0)) && unique_fresh(t, x, i) && list_fresh(x, i)
}
pub open spec fn table_indexes_ok(t: TableBlock) -> bool { t.indexes is Some ==> forall|i: int| 0 <= i < t.indexes->Some_0.defs@.len() ==> #[trigger] index_ok(t, t.indexes->Some_0, i) }
pub open spec fn def_attrs_ok(d: IndexesDef) -> bool { d.settings is Some ==> distinct(attr_keys(d.settings->Some_0.attributes@)) }
pub open spec fn index_attrs_ok(t: TableBlock) -> bool { t.indexes is Some ==> forall|i: int| 0 <= i < t.indexes->Some_0.defs@.len() ==> def_attrs_ok(#[trigger] t.indexes->Some_0.defs@[i]) }
/// the rule on keys, nullability or indexes of a table that is broken, and where
pub open spec fn keys_broken(t: TableBlock, k: AErr, sp: Range<usize>) -> bool {
  match k {
    AErr::NullablePrimaryKey => exists|m: int| #[trigger] vx_at(m) && 0 < m <= t.cols@.len() && pk_col(t.cols@[m - 1]) && t.cols@[m - 1].settings->Some_0.nullable == Some(Nullable::Null) && sp == t.cols@[m - 1].span_range,
    AErr::ArrayPrimaryKey => exists|m: int| #[trigger] vx_at(m) && 0 < m <= t.cols@.len() && pk_col(t.cols@[m - 1]) && t.cols@[m - 1].r#type.arrays@.len() > 0 && sp == t.cols@[m - 1].span_range,
    AErr::ConflictNullableSetting => exists|m: int| #[trigger] vx_at(m) && 0 < m <= t.cols@.len() && !nulls_ok(t.cols@[m - 1]) && sp == t.cols@[m - 1].settings->Some_0.span_range,
    AErr::DuplicatePrimaryKey => (exists|m: int| #[trigger] vx_at(m) && 0 < m <= t.cols@.len() && pk_col(t.cols@[m - 1]) && among(col_pks(t), m - 1, true) && sp == t.cols@[m - 1].span_range)
      || (t.indexes is Some && exists|m: int| #[trigger] vx_at(m) && 0 < m <= t.indexes->Some_0.defs@.len() && !pk_def_ok(t, t.indexes->Some_0, m - 1) && sp == t.indexes->Some_0.defs@[m - 1].span_range),
    AErr::EmptyIndexesBlock => t.indexes is Some && sp == t.indexes->Some_0.span_range && exists|m: int| #[trigger] vx_at(m) && 0 < m <= t.indexes->Some_0.defs@.len() && t.indexes->Some_0.defs@[m - 1].cols@.len() == 0,
    AErr::ColumnNotFound => t.indexes is Some && exists|m: int, n: int| #[trigger] vx_at(m) && #[trigger] vx_at(n) && 0 < m <= t.indexes->Some_0.defs@.len() && 0 < n <= t.indexes->Some_0.defs@[m - 1].cols@.len()
      && !name_ok(t, t.indexes->Some_0.defs@[m - 1].cols@[n - 1]) && sp == t.indexes->Some_0.defs@[m - 1].cols@[n - 1]->String_0.span_range,
    AErr::DuplicateAttributeKey => t.indexes is Some && exists|m: int| #[trigger] vx_at(m) && 0 < m <= t.indexes->Some_0.defs@.len() && t.indexes->Some_0.defs@[m - 1].settings is Some && attr_broken(t.indexes->Some_0.defs@[m - 1].settings->Some_0.attributes@, k, sp),
    AErr::InvalidIndexesSetting => t.indexes is Some && exists|m: int| #[trigger] vx_at(m) && 0 < m <= t.indexes->Some_0.defs@.len() && t.indexes->Some_0.defs@[m - 1].settings is Some && !one_role(t.indexes->Some_0.defs@[m - 1].settings->Some_0) && sp == t.indexes->Some_0.defs@[m - 1].settings->Some_0.span_range,
    AErr::DuplicateUniqueKey => t.indexes is Some && exists|m: int| #[trigger] vx_at(m) && 0 < m <= t.indexes->Some_0.defs@.len() && !unique_fresh(t, t.indexes->Some_0, m - 1) && sp == t.indexes->Some_0.defs@[m - 1].span_range,
    AErr::DuplicateIndexKey => t.indexes is Some && exists|m: int| #[trigger] vx_at(m) && 0 < m <= t.indexes->Some_0.defs@.len() && !list_fresh(t.indexes->Some_0, m - 1) && sp == t.indexes->Some_0.defs@[m - 1].span_range,
    _ => false,
  }
}
pub open spec fn keys_err(e: Error, ts: Seq<TableBlock>) -> bool { exists|m: int, k: AErr, sp: Range<usize>| #[trigger] vx_at(m) && 0 < m <= ts.len() && #[trigger] is_err(e, k, sp) && keys_broken(ts[m - 1], k, sp) }
// ---- column types and defaults
pub open spec fn raw_name(c: TableColumn) -> Seq<char> { c.r#type.type_name->Raw_0@ }
/// the enum a type that is not built in names
pub open spec fn enum_key(raw: Seq<char>) -> Key { if split(raw, '.').len() == 2 { (split(raw, '.')[0], split(raw, '.')[1]) } else { ("public"@, raw) } }
pub open spec fn typed_name(c: TableColumn) -> ColumnTypeName {
  match column_type_of(raw_name(c)) { Some(t) => t, None => ColumnTypeName::Enum(str_of(enum_key(raw_name(c)).0 + "."@ + enum_key(raw_name(c)).1)) }
}
/// the column with its type resolved
pub open spec fn typed_col(c: TableColumn) -> TableColumn { TableColumn { r#type: ColumnType { type_name: typed_name(c), ..c.r#type }, ..c } }
pub open spec fn typed_cols(t: TableBlock) -> Seq<TableColumn> { Seq::new(t.cols@.len(), |i: int| typed_col(t.cols@[i])) }
pub open spec fn typed_table(t: TableBlock) -> TableBlock { TableBlock { cols: vec_of(typed_cols(t)), ..t } }
pub open spec fn typed(ts: Seq<TableBlock>) -> Seq<TableBlock> { Seq::new(ts.len(), |i: int| typed_table(ts[i])) }
pub open spec fn arg_count(t: ColumnTypeName) -> nat {
  match t {
    ColumnTypeName::VarChar | ColumnTypeName::Char | ColumnTypeName::Time | ColumnTypeName::Timestamp | ColumnTypeName::Timetz | ColumnTypeName::Timestamptz | ColumnTypeName::Bit | ColumnTypeName::Varbit => 1,
    ColumnTypeName::Decimal => 2,
    _ => 0,
  }
}
pub open spec fn all_integers(v: Seq<Value>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] is Integer }
pub open spec fn args_ok(c: TableColumn) -> bool {
  column_type_of(raw_name(c)) is Some && c.r#type.args@.len() > 0 ==> c.r#type.args@.len() == arg_count(column_type_of(raw_name(c))->Some_0) && all_integers(c.r#type.args@)
}
pub open spec fn first_integer(v: Seq<Value>) -> Option<i64> { if v.len() > 0 { match v[0] { Value::Integer(n) => Some(n), _ => None } } else { None } }
pub open spec fn col_default(c: TableColumn) -> Option<Value> { match c.settings { Some(s) => s.default, None => None } }
pub open spec fn string_default_ok(t: ColumnTypeName, n: Option<i64>, s: Seq<char>) -> bool {
  match t {
    ColumnTypeName::Bit | ColumnTypeName::Char => n is Some ==> s.len() == n->Some_0,
    ColumnTypeName::Varbit | ColumnTypeName::VarChar => n is Some ==> s.len() <= n->Some_0,
    _ => true,
  }
}
pub open spec fn integer_default_ok(t: ColumnTypeName, n: i64) -> bool {
  match t { ColumnTypeName::SmallInt => -0x8000 <= n <= 0x7fff, ColumnTypeName::Integer => -0x8000_0000 <= n <= 0x7fff_ffff, _ => true }
}
pub open spec fn default_ok(ix: Indexer, c: TableColumn) -> bool {
  match col_default(c) {
    None => true,
    Some(v) => (column_type_of(raw_name(c)) is None ==> split(raw_name(c), '.').len() <= 2 && has_value(ix, enum_key(raw_name(c)), value_string(v))) && match v {
      Value::String(s) => string_default_ok(typed_name(c), first_integer(c.r#type.args@), s@),
      Value::Integer(n) => integer_default_ok(typed_name(c), n),
      Value::Bool(_) => typed_name(c) is Bool,
      Value::Null => c.settings->Some_0.nullable == Some(Nullable::Null),
      _ => true,
    },
  }
}
pub open spec fn default_at(c: TableColumn, sp: Range<usize>) -> bool {
  c.settings is Some && exists|m: int| #[trigger] vx_at(m) && 0 < m <= c.settings->Some_0.attributes@.len() && c.settings->Some_0.attributes@[m - 1].key.to_string@ == "default"@
    && c.settings->Some_0.attributes@[m - 1].value is Some && sp == c.settings->Some_0.attributes@[m - 1].value->Some_0.span_range
}
/// the rule on the type or default of a column that is broken, and where
pub open spec fn type_broken(ix: Indexer, c: TableColumn, k: AErr, sp: Range<usize>) -> bool {
  let t = column_type_of(raw_name(c)); let ek = enum_key(raw_name(c));
  match k {
    AErr::InvalidDataTypeArguments { raw_type, n_arg } => t is Some && c.r#type.args@.len() > 0 && n_arg == arg_count(t->Some_0) && c.r#type.args@.len() != n_arg && raw_type@ == raw_name(c) && sp == c.r#type.span_range,
    AErr::InvalidArgumentValue => t is Some && !all_integers(c.r#type.args@) && sp == c.r#type.span_range,
    AErr::InvalidEnum => t is None && split(raw_name(c), '.').len() > 2 && sp == c.r#type.span_range,
    AErr::SchemaNotFound => t is None && col_default(c) is Some && !has_schema(ix, ek.0) && sp == c.r#type.span_range,
    AErr::EnumNotFound => t is None && col_default(c) is Some && !has_enum(ix, ek.0, ek.1) && sp == c.r#type.span_range,
    AErr::EnumValueNotFound => t is None && col_default(c) is Some && has_enum(ix, ek.0, ek.1) && !has_value(ix, ek, value_string(col_default(c)->Some_0)) && default_at(c, sp),
    AErr::InvalidDefaultValue { raw_value, raw_type } => (match col_default(c) {
        Some(Value::String(s)) => raw_value@ == s@ && !string_default_ok(typed_name(c), first_integer(c.r#type.args@), s@),
        Some(Value::Bool(b)) => raw_value@ == bool_string(b) && !(typed_name(c) is Bool),
        _ => false,
      }) && raw_type@ == c.r#type.raw@ && default_at(c, sp),
    AErr::DataTypeExceeded { raw_type } => (col_default(c) matches Some(Value::Integer(n)) && !integer_default_ok(typed_name(c), n)) && raw_type@ == c.r#type.raw@ && default_at(c, sp),
    AErr::DefaultNullInNonNullable => col_default(c) == Some(Value::Null) && c.settings->Some_0.nullable != Some(Nullable::Null) && default_at(c, sp),
    _ => false,
  }
}
pub open spec fn types_err(e: Error, ix: Indexer, ts: Seq<TableBlock>) -> bool {
  exists|m: int, n: int, k: AErr, sp: Range<usize>| #[trigger] vx_at(m) && #[trigger] vx_at(n) && 0 < m <= ts.len() && 0 < n <= ts[m - 1].cols@.len() && #[trigger] is_err(e, k, sp) && type_broken(ix, ts[m - 1].cols@[n - 1], k, sp)
}
pub open spec fn table_args_ok(t: TableBlock) -> bool { forall|j: int| 0 <= j < t.cols@.len() ==> args_ok(#[trigger] t.cols@[j]) }
pub open spec fn table_defaults_ok(ix: Indexer, t: TableBlock) -> bool { forall|j: int| 0 <= j < t.cols@.len() ==> default_ok(ix, #[trigger] t.cols@[j]) }
/// no type names more than a schema and a name
pub open spec fn table_types_ok(t: TableBlock) -> bool { forall|j: int| 0 <= j < t.cols@.len() ==> column_type_of(raw_name(#[trigger] t.cols@[j])) is Some || split(raw_name(t.cols@[j]), '.').len() <= 2 }
pub proof fn lemma_default(a: Seq<Attribute>, key: Seq<char>, i: int)
  requires distinct(attr_keys(a)), 0 <= i < a.len(), a[i].key.to_string@ == key ensures last_attr(a, key) == Some(a[i]) decreases a.len()
{
  if i < a.len() - 1 {
    let b = a.drop_last();
    if a.last().key.to_string@ == key { assert(attr_keys(a)[i] == key); assert(among(attr_keys(a), a.len() - 1, key)); assert(attr_keys(a)[a.len() - 1] == key); assert(repeats(attr_keys(a), a.len() - 1)); assert(false); }
    assert forall|j: int| 0 <= j < b.len() implies !#[trigger] repeats(attr_keys(b), j) by {
      if repeats(attr_keys(b), j) { let x = choose|x: int| 0 <= x < j && #[trigger] attr_keys(b)[x] == attr_keys(b)[j]; assert(attr_keys(a)[x] == attr_keys(a)[j]); assert(among(attr_keys(a), j, attr_keys(a)[j])); assert(repeats(attr_keys(a), j)); }
    }
    lemma_default(b, key, i);
  }
}
pub proof fn lemma_no_default(a: Seq<Attribute>, key: Seq<char>)
  requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).key.to_string@ != key ensures last_attr(a, key) is None decreases a.len()
{ if a.len() > 0 { lemma_no_default(a.drop_last(), key); } }
// ---- what the name index holds
pub open spec fn indexed(ix: Indexer, d: SchemaBlock) -> bool {
  ix_tables(ix, doc_tables(d), doc_tables(d).len() as int) && ix_enums(ix, doc_enums(d), doc_enums(d).len() as int)
  && forall|s: Seq<char>| #[trigger] has_schema(ix, s) <==> schema_used(table_keys(doc_tables(d)), doc_tables(d).len() as int, s) || schema_used(enum_keys(doc_enums(d)), doc_enums(d).len() as int, s)
}
pub proof fn lemma_same_groups(a: Indexer, b: Indexer, gs: Seq<TableGroupBlock>)
  requires same_index(a, b), groups_ok(a, gs) ensures groups_ok(b, gs)
{
  assert forall|i: int| 0 <= i < gs.len() implies group_items_ok(b, #[trigger] gs[i]) by {
    assert(group_items_ok(a, gs[i])); assert(item_keys(a, gs[i]) =~= item_keys(b, gs[i]));
    assert forall|j: int| 0 <= j < gs[i].items@.len() implies item_key(b, #[trigger] gs[i].items@[j]) is Some by { assert(item_key(a, gs[i].items@[j]) is Some); }
  }
}
// ---- refs
pub open spec fn ref_attrs_ok(r: RefBlock) -> bool { r.settings is Some ==> distinct(attr_keys(r.settings->Some_0.attributes@)) }
pub open spec fn nconf(ix: Indexer, v: Seq<IndexedRef>, i: int, n: int) -> nat decreases n { if n <= 0 { 0 } else { nconf(ix, v, i, n - 1) + (if conflict(ix, v[i], v[n - 1]) { 1nat } else { 0 }) } }
pub open spec fn alone(ix: Indexer, v: Seq<IndexedRef>, i: int, n: int) -> bool { forall|j: int| 0 <= j < n && j != i ==> !conflict(ix, v[i], #[trigger] v[j]) }
pub proof fn lemma_nconf(ix: Indexer, v: Seq<IndexedRef>, i: int, n: int)
  requires 0 <= i < v.len(), n <= v.len(), conflict(ix, v[i], v[i])
  ensures nconf(ix, v, i, n) >= (if i < n { 1int } else { 0 }), nconf(ix, v, i, n) == (if i < n { 1int } else { 0 }) <==> alone(ix, v, i, n)
  decreases n
{ if n > 0 { lemma_nconf(ix, v, i, n - 1); assert(alone(ix, v, i, n) <==> alone(ix, v, i, n - 1) && (n - 1 != i ==> !conflict(ix, v[i], v[n - 1]))); } }
pub open spec fn no_conflicts(ix: Indexer, v: Seq<IndexedRef>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] alone(ix, v, i, v.len() as int) }
pub open spec fn ref_rule_broken(ix: Indexer, ts: Seq<TableBlock>, v: Seq<IndexedRef>, i: int, k: AErr, sp: Range<usize>) -> bool {
  match k {
    AErr::DuplicateAttributeKey => v[i].settings is Some && attr_broken(v[i].settings->Some_0.attributes@, k, sp),
    AErr::ConflictRelation => !alone(ix, v, i, v.len() as int) && sp == v[i].span_range,
    _ => ref_broken(ix, ts, v[i], k, sp),
  }
}
pub open spec fn refs_err(e: Error, ix: Indexer, d: SchemaBlock) -> bool {
  exists|v: Seq<IndexedRef>, m: int, k: AErr, sp: Range<usize>| #[trigger] refs_are(doc_srcs(d), v) && #[trigger] vx_at(m) && 0 < m <= v.len() && #[trigger] is_err(e, k, sp) && ref_rule_broken(ix, typed(doc_tables(d)), v, m - 1, k, sp)
}
// ---- the document
pub open spec fn project_ok(d: SchemaBlock) -> bool { doc_projects(d).len() == 1 && distinct(prop_keys(doc_projects(d)[0].properties@)) }
pub open spec fn project_broken(d: SchemaBlock, k: AErr, sp: Range<usize>) -> bool {
  match k {
    AErr::DuplicateProjectSetting => doc_projects(d).len() > 1 && sp == d.span_range,
    AErr::ProjectSettingNotFound => doc_projects(d).len() == 0 && sp == d.span_range,
    AErr::DuplicatePropertyKey => doc_projects(d).len() > 0 && prop_broken(doc_projects(d)[0].properties@, k, sp),
    _ => false,
  }
}
pub open spec fn project_err(e: Error, d: SchemaBlock) -> bool { exists|k: AErr, sp: Range<usize>| #[trigger] is_err(e, k, sp) && project_broken(d, k, sp) }
#[verifier::opaque] pub open spec fn doc_err(e: Error, d: SchemaBlock) -> bool {
  project_err(e, d) || tables_err(e, doc_tables(d)) || enums_err(e, doc_enums(d)) || keys_err(e, doc_tables(d))
  || exists|ix: Indexer| #![trigger indexed(ix, d)] #![trigger groups_err(e, ix, doc_groups(d))] indexed(ix, d) && (groups_err(e, ix, doc_groups(d)) || types_err(e, ix, doc_tables(d)) || refs_err(e, ix, d))
}
pub proof fn lemma_project_err(d: SchemaBlock) ensures forall|e: Error, k: AErr, sp: Range<usize>| #[trigger] is_err(e, k, sp) && project_broken(d, k, sp) ==> doc_err(e, d) { reveal(doc_err); }
pub proof fn lemma_tables_err(d: SchemaBlock) ensures forall|e: Error| #[trigger] tables_err(e, doc_tables(d)) ==> doc_err(e, d) { reveal(doc_err); }
pub proof fn lemma_enums_err(d: SchemaBlock) ensures forall|e: Error| #[trigger] enums_err(e, doc_enums(d)) ==> doc_err(e, d) { reveal(doc_err); }
pub proof fn lemma_groups_err(d: SchemaBlock, ix: Indexer) requires indexed(ix, d) ensures forall|e: Error| #[trigger] groups_err(e, ix, doc_groups(d)) ==> doc_err(e, d) { reveal(doc_err); }
pub proof fn lemma_keys_err(d: SchemaBlock, m: int)
  requires 0 < m <= doc_tables(d).len(), vx_at(m)
  ensures forall|e: Error, k: AErr, sp: Range<usize>| #[trigger] is_err(e, k, sp) && keys_broken(doc_tables(d)[m - 1], k, sp) ==> doc_err(e, d)
{ reveal(doc_err); }
pub proof fn lemma_types_err(d: SchemaBlock, ix: Indexer, m: int, n: int)
  requires indexed(ix, d), 0 < m <= doc_tables(d).len(), vx_at(m), 0 < n <= doc_tables(d)[m - 1].cols@.len(), vx_at(n)
  ensures forall|e: Error, k: AErr, sp: Range<usize>| #[trigger] is_err(e, k, sp) && type_broken(ix, doc_tables(d)[m - 1].cols@[n - 1], k, sp) ==> doc_err(e, d)
{ reveal(doc_err); }
pub proof fn lemma_refs_err(d: SchemaBlock, ix: Indexer, v: Seq<IndexedRef>, m: int)
  requires indexed(ix, d), refs_are(doc_srcs(d), v), 0 < m <= v.len(), vx_at(m)
  ensures forall|e: Error, k: AErr, sp: Range<usize>| #[trigger] is_err(e, k, sp) && ref_rule_broken(ix, typed(doc_tables(d)), v, m - 1, k, sp) ==> doc_err(e, d)
{ reveal(doc_err); }
pub broadcast proof fn lemma_same_tables(a: Indexer, b: Indexer, ts: Seq<TableBlock>, n: int) requires #[trigger] ix_tables(a, ts, n), #[trigger] same_tables(a, b) ensures ix_tables(b, ts, n)
{
  assert forall|x: Seq<char>| #![trigger b.table_alias_map@.contains_key(x)] #![trigger b.table_alias_map@[x]] #![trigger alias_key(ts, n, x)] alias_of(b, x) == alias_key(ts, n, x) by { assert(alias_of(a, x) == alias_key(ts, n, x)); }
}
pub broadcast proof fn lemma_same_index(a: Indexer, b: Indexer) requires #[trigger] same_index(a, b) ensures same_tables(a, b), forall|s: Seq<char>| #[trigger] has_schema(a, s) == has_schema(b, s) { }
pub broadcast proof fn lemma_same_enums(a: Indexer, b: Indexer, es: Seq<EnumBlock>, n: int) requires #[trigger] ix_enums(a, es, n), #[trigger] same_index(a, b) ensures ix_enums(b, es, n) {
  assert forall|s: Seq<char>, t: Seq<char>| #![trigger has_enum(b, s, t)] #![trigger among(enum_keys(es), n, (s, t))] has_enum(b, s, t) <==> among(enum_keys(es), n, (s, t)) by { assert(has_enum(a, s, t) <==> among(enum_keys(es), n, (s, t))); }
  assert forall|i: int, c: Seq<char>| #![trigger has_value(b, enum_keys(es)[i], c)] #![trigger among(value_names(es[i]), es[i].values@.len() as int, c)] 0 <= i < n implies (has_value(b, enum_keys(es)[i], c) <==> among(value_names(es[i]), es[i].values@.len() as int, c)) by { assert(has_value(a, enum_keys(es)[i], c) <==> among(value_names(es[i]), es[i].values@.len() as int, c)); }
}
pub proof fn lemma_same_indexed(a: Indexer, b: Indexer, d: SchemaBlock) requires indexed(a, d), same_index(a, b) ensures indexed(b, d)
{
  lemma_same_index(a, b); lemma_same_tables(a, b, doc_tables(d), doc_tables(d).len() as int); lemma_same_enums(a, b, doc_enums(d), doc_enums(d).len() as int);
  assert forall|s: Seq<char>| #[trigger] has_schema(b, s) <==> schema_used(table_keys(doc_tables(d)), doc_tables(d).len() as int, s) || schema_used(enum_keys(doc_enums(d)), doc_enums(d).len() as int, s) by { assert(has_schema(a, s) <==> has_schema(b, s)); }
}
pub broadcast group same_index_lemmas { lemma_same_tables, lemma_same_index, lemma_same_enums }
pub open spec fn tables_all(ts: Seq<TableBlock>, f: spec_fn(TableBlock) -> bool) -> bool { forall|i: int| 0 <= i < ts.len() ==> f(#[trigger] ts[i]) }
// ---- bookkeeping of a table while it is checked
pub open spec fn sets_of(v: Seq<BTreeSet<String>>) -> Seq<Set<Seq<char>>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn entries_of(v: Seq<(Vec<String>, Option<IndexesType>)>) -> Seq<(Seq<Seq<char>>, Option<IndexesType>)> { Seq::new(v.len(), |i: int| (keys(v[i].0@), v[i].1)) }
pub open spec fn entry_names(v: Seq<(Vec<String>, Option<IndexesType>)>) -> Seq<Seq<Seq<char>>> { Seq::new(v.len(), |i: int| keys(v[i].0@)) }
pub proof fn lemma_among_push<T>(s: Seq<T>, x: T, k: T) ensures among(s.push(x), s.len() as int + 1, k) <==> (among(s, s.len() as int, k) || x == k)
{
  let p = s.push(x);
  if among(s, s.len() as int, k) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == k; assert(p[i] == k); }
  if x == k { assert(p[s.len() as int] == k); }
  if among(p, s.len() as int + 1, k) { let i = choose|i: int| 0 <= i < s.len() + 1 && #[trigger] p[i] == k; if i < s.len() { assert(s[i] == k); } }
}
pub broadcast proof fn lemma_sets_push(v: Seq<BTreeSet<String>>, x: BTreeSet<String>, n: int, k: Set<Seq<char>>)
  requires n == v.len() + 1 ensures #[trigger] among(sets_of(v.push(x)), n, k) <==> (among(sets_of(v), v.len() as int, k) || x@ == k)
{ assert(sets_of(v.push(x)) =~= sets_of(v).push(x@)); lemma_among_push(sets_of(v), x@, k); }
pub broadcast proof fn lemma_entries_push(v: Seq<(Vec<String>, Option<IndexesType>)>, x: (Vec<String>, Option<IndexesType>), n: int, k: (Seq<Seq<char>>, Option<IndexesType>))
  requires n == v.len() + 1 ensures #[trigger] among(entries_of(v.push(x)), n, k) <==> (among(entries_of(v), v.len() as int, k) || (keys(x.0@), x.1) == k)
{ assert(entries_of(v.push(x)) =~= entries_of(v).push((keys(x.0@), x.1))); lemma_among_push(entries_of(v), (keys(x.0@), x.1), k); }
pub broadcast proof fn lemma_names_push(v: Seq<(Vec<String>, Option<IndexesType>)>, x: (Vec<String>, Option<IndexesType>), n: int, k: Seq<Seq<char>>)
  requires n == v.len() + 1 ensures #[trigger] among(entry_names(v.push(x)), n, k) <==> (among(entry_names(v), v.len() as int, k) || keys(x.0@) == k)
{ assert(entry_names(v.push(x)) =~= entry_names(v).push(keys(x.0@))); lemma_among_push(entry_names(v), keys(x.0@), k); }
pub proof fn lemma_vec_eq(a: Vec<String>, b: Vec<String>) ensures a == b <==> keys(a@) == keys(b@)
{
  broadcast use vx_ax::vx_axioms;
  if keys(a@) == keys(b@) {
    assert(a@.len() == keys(a@).len() && b@.len() == keys(b@).len());
    assert forall|i: int| 0 <= i < a@.len() implies a@[i] == b@[i] by { assert(keys(a@)[i] == keys(b@)[i]); assert(str_of(a@[i]@) == a@[i]); assert(str_of(b@[i]@) == b@[i]); }
    assert(a@ =~= b@); assert(vec_of(a@) == a); assert(vec_of(b@) == b);
  }
}
pub proof fn lemma_pair_len(s: Set<Seq<char>>, a: Seq<char>, b: Seq<char>)
  requires a != b, forall|k: Seq<char>| #[trigger] s.contains(k) ==> k == a || k == b ensures s.len() == 2 <==> s.contains(a) && s.contains(b)
{
  broadcast use vstd::set::group_set_lemmas;
  let e = Set::<Seq<char>>::empty();
  if s.contains(a) && s.contains(b) { assert(s =~= e.insert(a).insert(b)); }
  else if s.contains(a) { assert(s =~= e.insert(a)); } else if s.contains(b) { assert(s =~= e.insert(b)); } else { assert(s =~= e); }
}
broadcast use {lemma_sets_push, lemma_entries_push, lemma_names_push};
pub proof fn lemma_has_key(v: Seq<Attribute>, key: Seq<char>) ensures has_key(v, key) <==> among(attr_keys(v), v.len() as int, key)
{
  if has_key(v, key) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).key.to_string@ == key; assert(attr_keys(v)[i] == key); }
  if among(attr_keys(v), v.len() as int, key) { let i = choose|i: int| 0 <= i < v.len() && #[trigger] attr_keys(v)[i] == key; assert(v[i].key.to_string@ == key); }
}
// ---- every ref has a relation
pub open spec fn src_rel(s: RefSrc) -> Relation { match s { RefSrc::Block(x) => x.rel, RefSrc::Inline(x, _, _) => x.rel } }
pub open spec fn rels_ok(s: Seq<RefSrc>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(src_rel(#[trigger] s[i]) is Undef) }
pub proof fn lemma_rels_add(a: Seq<RefSrc>, b: Seq<RefSrc>) requires rels_ok(a), rels_ok(b) ensures rels_ok(a + b)
{ let s = a + b; assert forall|i: int| 0 <= i < s.len() implies !(src_rel(#[trigger] s[i]) is Undef) by { if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); } } }
pub proof fn lemma_table_rels(t: TableBlock, n: int) requires wf_table(t), n <= t.cols@.len() ensures rels_ok(table_srcs(t, n)) decreases n
{
  if n > 0 {
    let c = t.cols@[n - 1];
    lemma_table_rels(t, n - 1);
    assert forall|i: int| 0 <= i < col_srcs(t, c).len() implies !(src_rel(#[trigger] col_srcs(t, c)[i]) is Undef) by { assert(!(col_refs(t.cols@[n - 1])[i].rel is Undef)); }
    lemma_rels_add(table_srcs(t, n - 1), col_srcs(t, c));
  }
}
pub proof fn lemma_inline_rels(ts: Seq<TableBlock>, n: int) requires n <= ts.len(), forall|i: int| 0 <= i < ts.len() ==> wf_table(#[trigger] ts[i]) ensures rels_ok(inline_srcs(ts, n)) decreases n
{ if n > 0 { lemma_inline_rels(ts, n - 1); lemma_table_rels(ts[n - 1], ts[n - 1].cols@.len() as int); lemma_rels_add(inline_srcs(ts, n - 1), table_srcs(ts[n - 1], ts[n - 1].cols@.len() as int)); } }
pub proof fn lemma_rels(d: SchemaBlock, v: Seq<IndexedRef>, i: int) requires wf_doc(d), refs_are(doc_srcs(d), v), 0 <= i < v.len() ensures !(v[i].rel is Undef)
{
  assert forall|i: int| 0 <= i < block_srcs(doc_refs(d)).len() implies !(src_rel(#[trigger] block_srcs(doc_refs(d))[i]) is Undef) by { assert(!(doc_refs(d)[i].rel is Undef)); }
  lemma_inline_rels(doc_tables(d), doc_tables(d).len() as int);
  lemma_rels_add(block_srcs(doc_refs(d)), inline_srcs(doc_tables(d), doc_tables(d).len() as int));
  assert(match_src(doc_srcs(d)[i], v[i])); assert(!(src_rel(doc_srcs(d)[i]) is Undef));
}
pub proof fn lemma_self_conflict(ix: Indexer, x: IndexedRef) requires !(x.rel is Undef) ensures conflict(ix, x, x) { }

// ---- the result of the analysis
/// the rules that need the name index and the refs
pub open spec fn analyzed(a: AnalyzedIndexer, d: SchemaBlock) -> bool {
  indexed(a.indexer, d) && refs_are(doc_srcs(d), a.indexed_refs@)
}
pub open spec fn ends_all_ok(a: AnalyzedIndexer, d: SchemaBlock) -> bool { forall|i: int| 0 <= i < a.indexed_refs@.len() ==> ends_ok(a.indexer, typed(doc_tables(d)), #[trigger] a.indexed_refs@[i]) }
pub open spec fn keys_all_ok(a: AnalyzedIndexer, d: SchemaBlock) -> bool { forall|i: int| 0 <= i < a.indexed_refs@.len() ==> ref_keys_ok(a.indexer, typed(doc_tables(d)), #[trigger] a.indexed_refs@[i]) }
pub open spec fn defaults_all_ok(a: AnalyzedIndexer, d: SchemaBlock) -> bool { forall|i: int| 0 <= i < doc_tables(d).len() ==> table_defaults_ok(a.indexer, #[trigger] doc_tables(d)[i]) }
