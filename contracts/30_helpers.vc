## Accessors, errors, duplicate-key helpers and the name index.
@spec
pub open spec fn derefs<T>(v: Seq<&T>) -> Seq<T> { Seq::new(v.len(), |i: int| *v[i]) }
pub broadcast proof fn lemma_derefs_push<T>(v: Seq<&T>, x: &T) ensures #[trigger] derefs(v.push(x)) == derefs(v).push(*x) { assert(derefs(v.push(x)) =~= derefs(v).push(*x)); }
pub broadcast proof fn lemma_derefs_empty<T>(v: Seq<&T>) requires v.len() == 0 ensures #[trigger] derefs(v) == Seq::<T>::empty() { assert(derefs(v) =~= Seq::<T>::empty()); }
pub broadcast proof fn lemma_derefs_at<T>(v: Seq<&T>, i: int) ensures #![trigger derefs(v), v[i]] 0 <= i < v.len() ==> derefs(v)[i] == *v[i] { }
broadcast use {lemma_derefs_push, lemma_derefs_empty, lemma_derefs_at};
// ---- blocks of one kind, in order
pub open spec fn projects_of(b: Seq<TopLevelBlock>, n: int) -> Seq<ProjectBlock> decreases n { if n <= 0 { Seq::empty() } else { match b[n - 1] { TopLevelBlock::Project(x) => projects_of(b, n - 1).push(x), _ => projects_of(b, n - 1) } } }
pub open spec fn tables_of(b: Seq<TopLevelBlock>, n: int) -> Seq<TableBlock> decreases n { if n <= 0 { Seq::empty() } else { match b[n - 1] { TopLevelBlock::Table(x) => tables_of(b, n - 1).push(x), _ => tables_of(b, n - 1) } } }
pub open spec fn groups_of(b: Seq<TopLevelBlock>, n: int) -> Seq<TableGroupBlock> decreases n { if n <= 0 { Seq::empty() } else { match b[n - 1] { TopLevelBlock::TableGroup(x) => groups_of(b, n - 1).push(x), _ => groups_of(b, n - 1) } } }
pub open spec fn refs_of(b: Seq<TopLevelBlock>, n: int) -> Seq<RefBlock> decreases n { if n <= 0 { Seq::empty() } else { match b[n - 1] { TopLevelBlock::Ref(x) => refs_of(b, n - 1).push(x), _ => refs_of(b, n - 1) } } }
pub open spec fn enums_of(b: Seq<TopLevelBlock>, n: int) -> Seq<EnumBlock> decreases n { if n <= 0 { Seq::empty() } else { match b[n - 1] { TopLevelBlock::Enum(x) => enums_of(b, n - 1).push(x), _ => enums_of(b, n - 1) } } }
pub open spec fn doc_projects(s: SchemaBlock) -> Seq<ProjectBlock> { projects_of(s.blocks@, s.blocks@.len() as int) }
pub open spec fn doc_tables(s: SchemaBlock) -> Seq<TableBlock> { tables_of(s.blocks@, s.blocks@.len() as int) }
pub open spec fn doc_groups(s: SchemaBlock) -> Seq<TableGroupBlock> { groups_of(s.blocks@, s.blocks@.len() as int) }
pub open spec fn doc_refs(s: SchemaBlock) -> Seq<RefBlock> { refs_of(s.blocks@, s.blocks@.len() as int) }
pub open spec fn doc_enums(s: SchemaBlock) -> Seq<EnumBlock> { enums_of(s.blocks@, s.blocks@.len() as int) }
// ---- errors: the rule that is broken and the place
pub open spec fn is_err(e: Error, k: AErr, sp: Range<usize>) -> bool { e.custom() && e.msg() == err_msg(k) && e.s() == sp.start && e.e() == sp.end }
// ---- repetition
pub open spec fn among<T>(s: Seq<T>, n: int, k: T) -> bool { exists|i: int| 0 <= i < n && #[trigger] s[i] == k }
pub broadcast proof fn lemma_among_step<T>(s: Seq<T>, m: int, k: T)
  ensures #![trigger vx_at(m), among(s, m, k)] m > 0 ==> (among(s, m, k) <==> (among(s, m - 1, k) || s[m - 1] == k))
{
  if m > 0 { if among(s, m, k) { let i = choose|i: int| 0 <= i < m && #[trigger] s[i] == k; if i < m - 1 { assert(among(s, m - 1, k)); } } if s[m - 1] == k { assert(among(s, m, k)); } if among(s, m - 1, k) { let i = choose|i: int| 0 <= i < m - 1 && #[trigger] s[i] == k; assert(among(s, m, k)); } }
}
pub broadcast proof fn lemma_among_none<T>(s: Seq<T>, m: int, k: T) requires m <= 0 ensures !#[trigger] among(s, m, k) { }
broadcast use {lemma_among_step, lemma_among_none};
pub open spec fn repeats<T>(s: Seq<T>, j: int) -> bool { 0 <= j < s.len() && among(s, j, s[j]) }
pub open spec fn distinct<T>(s: Seq<T>) -> bool { forall|j: int| 0 <= j < s.len() ==> !#[trigger] repeats(s, j) }
pub open spec fn attr_keys(v: Seq<Attribute>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].key.to_string@) }
pub open spec fn prop_keys(v: Seq<Property>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].key.to_string@) }
pub open spec fn attr_broken(v: Seq<Attribute>, k: AErr, sp: Range<usize>) -> bool { k == AErr::DuplicateAttributeKey && exists|m: int| #[trigger] vx_at(m) && repeats(attr_keys(v), m - 1) && sp == v[m - 1].span_range }
pub open spec fn prop_broken(v: Seq<Property>, k: AErr, sp: Range<usize>) -> bool { k == AErr::DuplicatePropertyKey && exists|m: int| #[trigger] vx_at(m) && repeats(prop_keys(v), m - 1) && sp == v[m - 1].span_range }
// ---- names
pub open spec fn sch(x: Option<Ident>) -> Seq<char> { match x { Some(i) => i.to_string@, None => "public"@ } }
pub type Key = (Seq<char>, Seq<char>);
pub open spec fn tkey(t: TableBlock) -> Key { (sch(t.ident.schema), t.ident.name.to_string@) }
pub open spec fn ekey(t: EnumBlock) -> Key { (sch(t.ident.schema), t.ident.name.to_string@) }
pub open spec fn talias(t: TableBlock) -> Option<Seq<char>> { match t.ident.alias { Some(a) => Some(a.to_string@), None => None } }
pub open spec fn table_keys(ts: Seq<TableBlock>) -> Seq<Key> { Seq::new(ts.len(), |i: int| tkey(ts[i])) }
pub open spec fn enum_keys(ts: Seq<EnumBlock>) -> Seq<Key> { Seq::new(ts.len(), |i: int| ekey(ts[i])) }
pub open spec fn col_names(t: TableBlock) -> Seq<Seq<char>> { Seq::new(t.cols@.len(), |i: int| t.cols@[i].name.to_string@) }
pub open spec fn value_names(t: EnumBlock) -> Seq<Seq<char>> { Seq::new(t.values@.len(), |i: int| t.values@[i].value.to_string@) }
pub open spec fn group_names(gs: Seq<TableGroupBlock>) -> Seq<Seq<char>> { Seq::new(gs.len(), |i: int| gs[i].ident.to_string@) }
/// the table an alias stands for
pub open spec fn alias_key(ts: Seq<TableBlock>, n: int, a: Seq<char>) -> Option<Key> decreases n {
  if n <= 0 { None } else { match alias_key(ts, n - 1, a) { Some(k) => Some(k), None => if talias(ts[n - 1]) == Some(a) { Some(tkey(ts[n - 1])) } else { None } } }
}
// ---- the name index
pub open spec fn has_schema(ix: Indexer, s: Seq<char>) -> bool { ix.schema_map@.contains_key(s) }
pub open spec fn has_table(ix: Indexer, s: Seq<char>, t: Seq<char>) -> bool { ix.schema_map@.contains_key(s) && ix.schema_map@[s].table_map@.contains_key(t) }
pub open spec fn has_enum(ix: Indexer, s: Seq<char>, t: Seq<char>) -> bool { ix.schema_map@.contains_key(s) && ix.schema_map@[s].enum_map@.contains_key(t) }
pub open spec fn has_col(ix: Indexer, k: Key, c: Seq<char>) -> bool { has_table(ix, k.0, k.1) && ix.schema_map@[k.0].table_map@[k.1]@.contains(c) }
pub open spec fn has_value(ix: Indexer, k: Key, c: Seq<char>) -> bool { has_enum(ix, k.0, k.1) && ix.schema_map@[k.0].enum_map@[k.1]@.contains(c) }
pub open spec fn alias_of(ix: Indexer, a: Seq<char>) -> Option<Key> { if ix.table_alias_map@.contains_key(a) { Some(ix.table_alias_map@[a].key()) } else { None } }
pub open spec fn ix_tables(ix: Indexer, ts: Seq<TableBlock>, n: int) -> bool {
  (forall|s: Seq<char>, t: Seq<char>| #![trigger has_table(ix, s, t)] #![trigger among(table_keys(ts), n, (s, t))] has_table(ix, s, t) <==> among(table_keys(ts), n, (s, t)))
  && (forall|i: int, c: Seq<char>| #![trigger has_col(ix, table_keys(ts)[i], c)] #![trigger among(col_names(ts[i]), ts[i].cols@.len() as int, c)] 0 <= i < n ==> (has_col(ix, table_keys(ts)[i], c) <==> among(col_names(ts[i]), ts[i].cols@.len() as int, c)))
  && (forall|a: Seq<char>| #![trigger ix.table_alias_map@.contains_key(a)] #![trigger ix.table_alias_map@[a]] #![trigger alias_key(ts, n, a)] alias_of(ix, a) == alias_key(ts, n, a))
}
pub open spec fn ix_enums(ix: Indexer, es: Seq<EnumBlock>, n: int) -> bool {
  (forall|s: Seq<char>, t: Seq<char>| #![trigger has_enum(ix, s, t)] #![trigger among(enum_keys(es), n, (s, t))] has_enum(ix, s, t) <==> among(enum_keys(es), n, (s, t)))
  && (forall|i: int, c: Seq<char>| #![trigger has_value(ix, enum_keys(es)[i], c)] #![trigger among(value_names(es[i]), es[i].values@.len() as int, c)] 0 <= i < n ==> (has_value(ix, enum_keys(es)[i], c) <==> among(value_names(es[i]), es[i].values@.len() as int, c)))
}
pub open spec fn schema_used(ks: Seq<Key>, n: int, s: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] ks[i]).0 == s }
pub open spec fn no_enums(ix: Indexer) -> bool { forall|s: Seq<char>, t: Seq<char>| ix.schema_map@.contains_key(s) ==> !#[trigger] ix.schema_map@[s].enum_map@.contains_key(t) }
pub broadcast proof fn lemma_schema_used_step(ks: Seq<Key>, m: int, s: Seq<char>)
  ensures #![trigger vx_at(m), schema_used(ks, m, s)] m > 0 ==> (schema_used(ks, m, s) <==> (schema_used(ks, m - 1, s) || ks[m - 1].0 == s))
{
  if m > 0 { if schema_used(ks, m, s) { let i = choose|i: int| 0 <= i < m && (#[trigger] ks[i]).0 == s; if i < m - 1 { assert(schema_used(ks, m - 1, s)); } } if ks[m - 1].0 == s { assert(schema_used(ks, m, s)); } if schema_used(ks, m - 1, s) { let i = choose|i: int| 0 <= i < m - 1 && (#[trigger] ks[i]).0 == s; assert(schema_used(ks, m, s)); } }
}
broadcast use lemma_schema_used_step;
// ---- rules on tables
pub open spec fn table_ok_at(ts: Seq<TableBlock>, i: int) -> bool {
  !repeats(table_keys(ts), i) && distinct(col_names(ts[i])) && (talias(ts[i]) is Some ==> alias_key(ts, i, talias(ts[i])->Some_0) is None)
}
pub open spec fn tables_unique(ts: Seq<TableBlock>) -> bool { forall|i: int| 0 <= i < ts.len() ==> #[trigger] table_ok_at(ts, i) }
pub open spec fn col_attrs_ok(c: TableColumn) -> bool { c.settings is Some ==> distinct(attr_keys(c.settings->Some_0.attributes@)) }
pub open spec fn table_attrs_ok(t: TableBlock) -> bool {
  (t.settings is Some ==> distinct(attr_keys(t.settings->Some_0.attributes@))) && forall|j: int| 0 <= j < t.cols@.len() ==> col_attrs_ok(#[trigger] t.cols@[j])
}
pub open spec fn tables_attrs_ok(ts: Seq<TableBlock>) -> bool { forall|i: int| 0 <= i < ts.len() ==> table_attrs_ok(#[trigger] ts[i]) }
pub open spec fn col_attr_broken(c: TableColumn, k: AErr, sp: Range<usize>) -> bool { c.settings is Some && attr_broken(c.settings->Some_0.attributes@, k, sp) }
pub open spec fn table_broken(ts: Seq<TableBlock>, i: int, k: AErr, sp: Range<usize>) -> bool {
  0 <= i < ts.len() && match k {
    AErr::DuplicateAttributeKey => (ts[i].settings is Some && attr_broken(ts[i].settings->Some_0.attributes@, k, sp)) || exists|m: int| #[trigger] vx_at(m) && 0 < m <= ts[i].cols@.len() && col_attr_broken(ts[i].cols@[m - 1], k, sp),
    AErr::DuplicateTableName => repeats(table_keys(ts), i) && sp == ts[i].ident.span_range,
    AErr::DuplicateColumnName => exists|m: int| #[trigger] vx_at(m) && repeats(col_names(ts[i]), m - 1) && sp == ts[i].cols@[m - 1].span_range,
    AErr::DuplicateAlias => ts[i].ident.alias is Some && alias_key(ts, i, ts[i].ident.alias->Some_0.to_string@) is Some && sp == ts[i].ident.alias->Some_0.span_range,
    _ => false,
  }
}
pub open spec fn tables_err(e: Error, ts: Seq<TableBlock>) -> bool { exists|m: int, k: AErr, sp: Range<usize>| #[trigger] vx_at(m) && #[trigger] is_err(e, k, sp) && table_broken(ts, m - 1, k, sp) }
// ---- rules on enums
pub open spec fn value_attrs_ok(c: EnumValue) -> bool { c.settings is Some ==> distinct(attr_keys(c.settings->Some_0.attributes@)) }
pub open spec fn enum_ok_at(es: Seq<EnumBlock>, i: int) -> bool { !repeats(enum_keys(es), i) && distinct(value_names(es[i])) }
pub open spec fn enums_unique(es: Seq<EnumBlock>) -> bool { forall|i: int| 0 <= i < es.len() ==> #[trigger] enum_ok_at(es, i) }
pub open spec fn enum_attrs_ok(e: EnumBlock) -> bool { forall|j: int| 0 <= j < e.values@.len() ==> value_attrs_ok(#[trigger] e.values@[j]) }
pub open spec fn enums_attrs_ok(es: Seq<EnumBlock>) -> bool { forall|i: int| 0 <= i < es.len() ==> enum_attrs_ok(#[trigger] es[i]) }
pub open spec fn value_attr_broken(c: EnumValue, k: AErr, sp: Range<usize>) -> bool { c.settings is Some && attr_broken(c.settings->Some_0.attributes@, k, sp) }
pub open spec fn enum_broken(es: Seq<EnumBlock>, i: int, k: AErr, sp: Range<usize>) -> bool {
  0 <= i < es.len() && match k {
    AErr::DuplicateAttributeKey => exists|m: int| #[trigger] vx_at(m) && 0 < m <= es[i].values@.len() && value_attr_broken(es[i].values@[m - 1], k, sp),
    AErr::DuplicateEnumName => repeats(enum_keys(es), i) && sp == es[i].ident.span_range,
    AErr::DuplicateEnumValue => exists|m: int| #[trigger] vx_at(m) && repeats(value_names(es[i]), m - 1) && sp == es[i].values@[m - 1].span_range,
    _ => false,
  }
}
pub open spec fn enums_err(e: Error, es: Seq<EnumBlock>) -> bool { exists|m: int, k: AErr, sp: Range<usize>| #[trigger] vx_at(m) && #[trigger] is_err(e, k, sp) && enum_broken(es, m - 1, k, sp) }
// ---- rules on table groups, given the names of tables and aliases
/// the table a group item denotes
pub open spec fn item_key(ix: Indexer, it: TableGroupItem) -> Option<Key> {
  let name = it.ident_alias.to_string@;
  match it.schema {
    Some(s) => if has_table(ix, s.to_string@, name) { Some((s.to_string@, name)) } else { None },
    None => match alias_of(ix, name) { Some(k) => Some(k), None => if has_table(ix, "public"@, name) { Some(("public"@, name)) } else { None } },
  }
}
pub open spec fn item_keys(ix: Indexer, g: TableGroupBlock) -> Seq<Option<Key>> { Seq::new(g.items@.len(), |i: int| item_key(ix, g.items@[i])) }
pub open spec fn group_items_ok(ix: Indexer, g: TableGroupBlock) -> bool { distinct(item_keys(ix, g)) && forall|j: int| 0 <= j < g.items@.len() ==> item_key(ix, #[trigger] g.items@[j]) is Some }
pub open spec fn groups_ok(ix: Indexer, gs: Seq<TableGroupBlock>) -> bool { distinct(group_names(gs)) && forall|i: int| 0 <= i < gs.len() ==> group_items_ok(ix, #[trigger] gs[i]) }
pub open spec fn group_attrs_ok(g: TableGroupBlock) -> bool { g.settings is Some ==> distinct(attr_keys(g.settings->Some_0.attributes@)) }
pub open spec fn groups_attrs_ok(gs: Seq<TableGroupBlock>) -> bool { forall|i: int| 0 <= i < gs.len() ==> group_attrs_ok(#[trigger] gs[i]) }
pub open spec fn group_broken(ix: Indexer, gs: Seq<TableGroupBlock>, i: int, k: AErr, sp: Range<usize>) -> bool {
  0 <= i < gs.len() && match k {
    AErr::DuplicateAttributeKey => gs[i].settings is Some && attr_broken(gs[i].settings->Some_0.attributes@, k, sp),
    AErr::DuplicateTableGroupName => repeats(group_names(gs), i) && sp == gs[i].ident.span_range,
    AErr::TableNotFound => exists|m: int| #[trigger] vx_at(m) && 0 < m <= gs[i].items@.len() && item_key(ix, gs[i].items@[m - 1]) is None && sp == gs[i].items@[m - 1].span_range,
    AErr::DuplicateTableGroupItem => exists|m: int| #[trigger] vx_at(m) && repeats(item_keys(ix, gs[i]), m - 1) && sp == gs[i].items@[m - 1].span_range,
    _ => false,
  }
}
pub open spec fn groups_err(e: Error, ix: Indexer, gs: Seq<TableGroupBlock>) -> bool { exists|m: int, k: AErr, sp: Range<usize>| #[trigger] vx_at(m) && #[trigger] is_err(e, k, sp) && group_broken(ix, gs, m - 1, k, sp) }

@fn throw_err
requires [C01]: span_ok(*span_range, input@)
ensures [C22]: r is Err && is_err(r->Err_0, err, *span_range)

@fn SchemaBlock::projects
ensures [C09 C10]: derefs(r@) == doc_projects(*self)
@loop SchemaBlock::projects/collect
invariant: derefs(vx_c_collect@) == projects_of(self.blocks@, vx_i_collect as int)
@fn SchemaBlock::tables
ensures [C09 C11]: derefs(r@) == doc_tables(*self)
@loop SchemaBlock::tables/collect
invariant: derefs(vx_c_collect@) == tables_of(self.blocks@, vx_i_collect as int)
@fn SchemaBlock::table_groups
ensures [C09 C14]: derefs(r@) == doc_groups(*self)
@loop SchemaBlock::table_groups/collect
invariant: derefs(vx_c_collect@) == groups_of(self.blocks@, vx_i_collect as int)
@fn SchemaBlock::refs
ensures [C09 C19]: derefs(r@) == doc_refs(*self)
@loop SchemaBlock::refs/collect
invariant: derefs(vx_c_collect@) == refs_of(self.blocks@, vx_i_collect as int)
@fn SchemaBlock::enums
ensures [C09 C12]: derefs(r@) == doc_enums(*self)
@loop SchemaBlock::enums/collect
invariant: derefs(vx_c_collect@) == enums_of(self.blocks@, vx_i_collect as int)

@fn check_attr_duplicate_keys
requires: forall|i: int| 0 <= i < attrs@.len() ==> spok_Attribute(#[trigger] attrs@[i], input@)
ensures [C13]: r is Ok ==> distinct(attr_keys(attrs@))
ensures [C22]: r matches Err(e) ==> exists|sp: Range<usize>| #[trigger] is_err(e, AErr::DuplicateAttributeKey, sp) && attr_broken(attrs@, AErr::DuplicateAttributeKey, sp)
@loop check_attr_duplicate_keys/dup_keys
invariant: forall|k: Seq<char>| #[trigger] acc@.contains(k) <==> among(attr_keys(attrs@), vx_i_dup_keys as int, k)
invariant [C13]: vx_c_dup_keys@.len() == 0 ==> forall|j: int| 0 <= j < vx_i_dup_keys ==> !#[trigger] repeats(attr_keys(attrs@), j)
invariant [C22]: vx_c_dup_keys@.len() > 0 ==> exists|m: int| #[trigger] vx_at(m) && repeats(attr_keys(attrs@), m - 1) && vx_c_dup_keys@[0] == attrs@[m - 1]
@fn check_prop_duplicate_keys
requires: forall|i: int| 0 <= i < attrs@.len() ==> spok_Property(#[trigger] attrs@[i], input@)
ensures [C10]: r is Ok ==> distinct(prop_keys(attrs@))
ensures [C22]: r matches Err(e) ==> exists|sp: Range<usize>| #[trigger] is_err(e, AErr::DuplicatePropertyKey, sp) && prop_broken(attrs@, AErr::DuplicatePropertyKey, sp)
@loop check_prop_duplicate_keys/dup_keys
invariant: forall|k: Seq<char>| #[trigger] acc@.contains(k) <==> among(prop_keys(attrs@), vx_i_dup_keys as int, k)
invariant [C10]: vx_c_dup_keys@.len() == 0 ==> forall|j: int| 0 <= j < vx_i_dup_keys ==> !#[trigger] repeats(prop_keys(attrs@), j)
invariant [C22]: vx_c_dup_keys@.len() > 0 ==> exists|m: int| #[trigger] vx_at(m) && repeats(prop_keys(attrs@), m - 1) && vx_c_dup_keys@[0] == attrs@[m - 1]

@fn eq_elements
ensures [C16 C20 C21]: r == (key_set(lhs@) == key_set(rhs@))
@fn schema_name
ensures [C19 C21 C24]: r@ == sch(*schema)

@fn Indexer::contains_table
ensures [C11 C14]: r == has_table(*self, schema@, name@)
@fn Indexer::contains_enum
ensures [C12]: r == has_enum(*self, schema@, name@)
@fn Indexer::resolve_alias
ensures [C14 C19 C21 C24]: r is Some <==> alias_of(*self, table_alias@) is Some
ensures [C14 C19 C21 C24]: r is Some ==> r->Some_0.key() == alias_of(*self, table_alias@)->Some_0

@fn Indexer::index_table
requires: old(self).schema_map@ == Map::<Seq<char>, IndexedSchemaBlock>::empty() && old(self).table_alias_map@ == Map::<Seq<char>, (String, String)>::empty()
requires: forall|i: int| 0 <= i < tables@.len() ==> spok_TableBlock(*#[trigger] tables@[i], input@)
ensures [C11]: r is Ok ==> tables_unique(derefs(tables@))
ensures [C13]: r is Ok ==> tables_attrs_ok(derefs(tables@))
ensures [C14 C19 C21 C24]: r is Ok ==> ix_tables(*final(self), derefs(tables@), tables@.len() as int)
ensures [C22]: r is Ok ==> forall|s: Seq<char>| #[trigger] has_schema(*final(self), s) <==> schema_used(table_keys(derefs(tables@)), tables@.len() as int, s)
ensures [C12]: r is Ok ==> no_enums(*final(self))
ensures [C14]: final(self).table_group_map@ == old(self).table_group_map@
ensures [C22]: r matches Err(e) ==> tables_err(e, derefs(tables@))
@loop Indexer::index_table/table
invariant: ix_tables(*self, derefs(tables@), vx_i_table as int)
invariant: no_enums(*self)
invariant: self.table_group_map@ == old(self).table_group_map@
invariant: forall|s: Seq<char>| #![trigger self.schema_map@.contains_key(s)] #![trigger schema_used(table_keys(derefs(tables@)), vx_i_table as int, s)] self.schema_map@.contains_key(s) <==> schema_used(table_keys(derefs(tables@)), vx_i_table as int, s)
invariant [C11]: forall|j: int| 0 <= j < vx_i_table ==> #[trigger] table_ok_at(derefs(tables@), j)
invariant [C13]: forall|j: int| 0 <= j < vx_i_table ==> table_attrs_ok(#[trigger] derefs(tables@)[j])
@loop Indexer::index_table/col
invariant: forall|k: Seq<char>| #[trigger] indexed_cols@.contains(k) <==> among(col_names(**table), vx_i_col as int, k)
invariant [C11]: forall|j: int| 0 <= j < vx_i_col ==> !#[trigger] repeats(col_names(**table), j)
invariant [C13]: forall|j: int| 0 <= j < vx_i_col ==> col_attrs_ok(#[trigger] table.cols@[j])
