## Enums, table groups and lookups of the name index.
@spec
pub open spec fn same_tables(a: Indexer, b: Indexer) -> bool {
  (forall|s: Seq<char>, t: Seq<char>| #![trigger has_table(a, s, t)] #![trigger has_table(b, s, t)] has_table(a, s, t) == has_table(b, s, t))
  && (forall|k: Key, c: Seq<char>| #![trigger has_col(a, k, c)] #![trigger has_col(b, k, c)] has_col(a, k, c) == has_col(b, k, c))
  && a.table_alias_map@ == b.table_alias_map@
}
pub open spec fn same_index(a: Indexer, b: Indexer) -> bool { a.schema_map@ == b.schema_map@ && a.table_alias_map@ == b.table_alias_map@ }
// ---- endpoints
/// the table an endpoint of a ref denotes
pub open spec fn resolved(ix: Indexer, r: RefIdent) -> Key {
  if r.schema is None && alias_of(ix, r.table.to_string@) is Some { alias_of(ix, r.table.to_string@)->Some_0 } else { (sch(r.schema), r.table.to_string@) }
}
pub open spec fn rkey(r: RefIdent) -> Key { (sch(r.schema), r.table.to_string@) }
pub open spec fn idents(v: Seq<Ident>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].to_string@) }
/// what is missing in a list of columns of a table
pub open spec fn fields_broken(ix: Indexer, schema: Option<Ident>, table: Ident, fields: Seq<Ident>, k: AErr, sp: Range<usize>) -> bool {
  match k {
    AErr::SchemaNotFound => !has_schema(ix, sch(schema)) && sp == (match schema { Some(s) => s.span_range, None => table.span_range }),
    AErr::TableNotFound => has_schema(ix, sch(schema)) && !has_table(ix, sch(schema), table.to_string@) && sp == table.span_range,
    AErr::ColumnNotFound => has_table(ix, sch(schema), table.to_string@) && exists|m: int| #[trigger] vx_at(m) && 0 < m <= fields.len() && !has_col(ix, (sch(schema), table.to_string@), fields[m - 1].to_string@) && sp == fields[m - 1].span_range,
    _ => false,
  }
}
pub open spec fn fields_ok(ix: Indexer, k: Key, fields: Seq<Ident>) -> bool { has_table(ix, k.0, k.1) && forall|i: int| 0 <= i < fields.len() ==> #[trigger] has_col(ix, k, fields[i].to_string@) }
pub open spec fn inline_ref(x: RefInline, t: TableIdent, c: Ident, r: IndexedRef) -> bool {
  r.span_range == x.span_range && r.rel == x.rel && r.rhs == x.rhs && r.settings is None
  && r.lhs.span_range == x.span_range && r.lhs.schema is Some && rkey(r.lhs) == (sch(t.schema), t.name.to_string@) && r.lhs.compositions@ =~= seq![c]
}
pub open spec fn block_ref(x: RefBlock, r: IndexedRef) -> bool { r.span_range == x.span_range && r.rel == x.rel && r.lhs == x.lhs && r.rhs == x.rhs && r.settings == x.settings }

@fn Indexer::index_enums
requires: no_enums(*old(self))
requires: forall|i: int| 0 <= i < enums@.len() ==> spok_EnumBlock(*#[trigger] enums@[i], input@)
ensures [C12]: r is Ok ==> enums_unique(derefs(enums@))
ensures [C13]: r is Ok ==> enums_attrs_ok(derefs(enums@))
ensures [C18 C22]: r is Ok ==> ix_enums(*final(self), derefs(enums@), enums@.len() as int)
ensures [C14 C19 C21 C22 C24]: r is Ok ==> same_tables(*old(self), *final(self))
ensures [C22]: r is Ok ==> final(self).table_group_map@ == old(self).table_group_map@
ensures [C22]: r is Ok ==> forall|s: Seq<char>| #[trigger] has_schema(*final(self), s) <==> has_schema(*old(self), s) || schema_used(enum_keys(derefs(enums@)), enums@.len() as int, s)
ensures [C22]: r matches Err(e) ==> enums_err(e, derefs(enums@))
@loop Indexer::index_enums/enum
invariant: ix_enums(*self, derefs(enums@), vx_i_enum as int)
invariant: same_tables(*old(self), *self)
invariant: self.table_group_map@ == old(self).table_group_map@
invariant: forall|s: Seq<char>| #![trigger self.schema_map@.contains_key(s)] #![trigger schema_used(enum_keys(derefs(enums@)), vx_i_enum as int, s)] self.schema_map@.contains_key(s) <==> old(self).schema_map@.contains_key(s) || schema_used(enum_keys(derefs(enums@)), vx_i_enum as int, s)
invariant [C12]: forall|j: int| 0 <= j < vx_i_enum ==> #[trigger] enum_ok_at(derefs(enums@), j)
invariant [C13]: forall|j: int| 0 <= j < vx_i_enum ==> enum_attrs_ok(#[trigger] derefs(enums@)[j])
@loop Indexer::index_enums/value
invariant: forall|k: Seq<char>| #[trigger] value_sets@.contains(k) <==> among(value_names(**raw_enum), vx_i_value as int, k)
invariant [C12]: forall|j: int| 0 <= j < vx_i_value ==> !#[trigger] repeats(value_names(**raw_enum), j)
invariant [C13]: forall|j: int| 0 <= j < vx_i_value ==> value_attrs_ok(#[trigger] raw_enum.values@[j])

@fn Indexer::index_table_groups
requires: old(self).table_group_map@ == Map::<Seq<char>, BTreeSet<(String, String)>>::empty()
requires: forall|i: int| 0 <= i < table_groups@.len() ==> spok_TableGroupBlock(*#[trigger] table_groups@[i], input@)
ensures [C14]: r is Ok ==> groups_ok(*final(self), derefs(table_groups@))
ensures [C13]: r is Ok ==> groups_attrs_ok(derefs(table_groups@))
ensures [C18 C19 C21 C22 C24]: same_index(*old(self), *final(self))
ensures [C22]: r matches Err(e) ==> groups_err(e, *old(self), derefs(table_groups@))
@hint Indexer::index_table_groups:ret
proof { if vx_ret is Ok { lemma_same_groups(*old(self), *self, derefs(table_groups@)); } }
@loop Indexer::index_table_groups/table_group
invariant: same_index(*old(self), *self)
invariant [C14]: forall|k: Seq<char>| #![trigger self.table_group_map@.contains_key(k)] #![trigger among(group_names(derefs(table_groups@)), vx_i_table_group as int, k)] self.table_group_map@.contains_key(k) <==> among(group_names(derefs(table_groups@)), vx_i_table_group as int, k)
invariant [C14]: forall|j: int| 0 <= j < vx_i_table_group ==> !#[trigger] repeats(group_names(derefs(table_groups@)), j)
invariant [C14]: forall|j: int| 0 <= j < vx_i_table_group ==> group_items_ok(*old(self), #[trigger] derefs(table_groups@)[j])
invariant [C13]: forall|j: int| 0 <= j < vx_i_table_group ==> group_attrs_ok(#[trigger] derefs(table_groups@)[j])
@loop Indexer::index_table_groups/group_item
invariant [C14]: forall|k: Key| #![trigger indexed_items@.contains(k)] #![trigger among(item_keys(*old(self), **table_group), vx_i_group_item as int, Some(k))] indexed_items@.contains(k) <==> among(item_keys(*old(self), **table_group), vx_i_group_item as int, Some(k))
invariant [C14]: forall|j: int| 0 <= j < vx_i_group_item ==> !#[trigger] repeats(item_keys(*old(self), **table_group), j)
invariant [C14]: forall|j: int| 0 <= j < vx_i_group_item ==> item_key(*old(self), #[trigger] table_group.items@[j]) is Some

@fn Indexer::lookup_enum_values
ensures [C18 C22]: r.0 == has_schema(*self, match *schema { Some(s) => s@, None => "public"@ })
ensures [C18 C22]: r.1.0 == has_enum(*self, match *schema { Some(s) => s@, None => "public"@ }, enum_name@)
ensures [C18 C22]: r.1.1@.len() == values@.len()
ensures [C18 C22]: forall|i: int| 0 <= i < values@.len() ==> #[trigger] r.1.1@[i] == has_value(*self, (match *schema { Some(s) => s@, None => "public"@ }, enum_name@), values@[i]@)
@loop Indexer::lookup_enum_values/results
invariant: vx_c_results@.len() == vx_i_results
invariant: forall|i: int| 0 <= i < vx_i_results ==> #[trigger] vx_c_results@[i] == value_set@.contains(values@[i]@)

@fn Indexer::lookup_table_fields
requires [C01]: (schema is Some ==> spok_Ident(schema->Some_0, input@)) && spok_Ident(*table, input@)
requires [C01]: forall|i: int| 0 <= i < fields@.len() ==> spok_Ident(#[trigger] fields@[i], input@)
ensures [C19]: r is Ok ==> fields_ok(*self, (sch(*schema), table.to_string@), fields@)
ensures [C22]: r matches Err(e) ==> exists|k: AErr, sp: Range<usize>| #[trigger] is_err(e, k, sp) && fields_broken(*self, *schema, *table, fields@, k, sp)
@loop Indexer::lookup_table_fields/unlisted_fields
invariant [C19]: vx_c_unlisted_fields@.len() == 0 ==> forall|i: int| 0 <= i < vx_i_unlisted_fields ==> col_set@.contains((#[trigger] fields@[i]).to_string@)
invariant [C22]: vx_c_unlisted_fields@.len() > 0 ==> exists|m: int| #[trigger] vx_at(m) && 0 < m <= fields@.len() && !col_set@.contains(fields@[m - 1].to_string@) && vx_c_unlisted_fields@[0] == fields@[m - 1]

@fn Indexer::resolve_ref_alias
ensures [C19 C21 C24]: rkey(r) == resolved(*self, *ident)
ensures [C19 C20 C21 C22]: r.compositions@ == ident.compositions@
ensures [C22]: r.span_range == ident.span_range
ensures [C22]: r == *ident || (r.schema is Some && r.schema->Some_0.span_range == ident.span_range && r.table.span_range == ident.span_range)
ensures [C01]: forall|src: Seq<char>| spok_RefIdent(*ident, src) ==> #[trigger] spok_RefIdent(r, src)

@fn IndexedRef::from_inline
ensures [C19 C20 C21 C24]: r@.len() == ref_blocks@.len()
ensures [C19 C20 C21 C24]: forall|i: int| 0 <= i < ref_blocks@.len() ==> inline_ref(ref_blocks@[i], *table_ident, *col_name, #[trigger] r@[i])
ensures [C01]: forall|src: Seq<char>, i: int| 0 <= i < ref_blocks@.len() && spok_RefInline(ref_blocks@[i], src) && spok_TableIdent(*table_ident, src) && spok_Ident(*col_name, src) ==> #[trigger] spok_IndexedRef(r@[i], src)
@loop IndexedRef::from_inline/collect
invariant: vx_c_collect@.len() == vx_i_collect
invariant [C19 C20 C21 C24]: forall|i: int| 0 <= i < vx_i_collect ==> inline_ref(vx_s_collect@[i], *table_ident, *col_name, #[trigger] vx_c_collect@[i])
invariant [C01]: forall|src: Seq<char>, i: int| 0 <= i < vx_i_collect && spok_RefInline(vx_s_collect@[i], src) && spok_TableIdent(*table_ident, src) && spok_Ident(*col_name, src) ==> #[trigger] spok_IndexedRef(vx_c_collect@[i], src)

@fn IndexedRef::from
ensures [C19 C20 C21 C24]: block_ref(ref_block, r)
ensures [C01]: forall|src: Seq<char>| spok_RefBlock(ref_block, src) ==> #[trigger] spok_IndexedRef(r, src)
