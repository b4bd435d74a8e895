## analyze: the rules hold for an accepted document, and a rejected one breaks the rule it is rejected for.
@fn analyze
requires [C01]: wf_doc(*schema_block)
ensures [C10]: r is Ok ==> project_ok(*schema_block)
ensures [C11]: r is Ok ==> tables_unique(doc_tables(*schema_block))
ensures [C12]: r is Ok ==> enums_unique(doc_enums(*schema_block))
ensures [C13]: r is Ok ==> tables_attrs_ok(doc_tables(*schema_block)) && enums_attrs_ok(doc_enums(*schema_block)) && groups_attrs_ok(doc_groups(*schema_block))
ensures [C13]: r is Ok ==> forall|i: int| 0 <= i < doc_tables(*schema_block).len() ==> index_attrs_ok(#[trigger] doc_tables(*schema_block)[i])
ensures [C13]: r is Ok ==> forall|i: int| 0 <= i < doc_refs(*schema_block).len() ==> ref_attrs_ok(#[trigger] doc_refs(*schema_block)[i])
ensures [C14]: r is Ok ==> groups_ok(r->Ok_0.indexer, doc_groups(*schema_block))
ensures [C15]: r is Ok ==> forall|i: int| 0 <= i < doc_tables(*schema_block).len() ==> table_pk_ok(#[trigger] doc_tables(*schema_block)[i])
ensures [C16]: r is Ok ==> forall|i: int| 0 <= i < doc_tables(*schema_block).len() ==> table_indexes_ok(#[trigger] doc_tables(*schema_block)[i])
ensures [C17]: r is Ok ==> forall|i: int| 0 <= i < doc_tables(*schema_block).len() ==> table_args_ok(#[trigger] doc_tables(*schema_block)[i])
ensures [C18]: r matches Ok(a) ==> defaults_all_ok(a, *schema_block)
ensures [C19]: r is Ok ==> forall|i: int| 0 <= i < doc_tables(*schema_block).len() ==> table_types_ok(#[trigger] doc_tables(*schema_block)[i])
ensures [C14 C18 C19 C20 C21 C24]: r matches Ok(a) ==> analyzed(a, *schema_block)
ensures [C19]: r matches Ok(a) ==> ends_all_ok(a, *schema_block)
ensures [C20]: r matches Ok(a) ==> keys_all_ok(a, *schema_block)
ensures [C21]: r is Ok ==> no_conflicts(r->Ok_0.indexer, r->Ok_0.indexed_refs@)
ensures [C22]: r matches Err(e) ==> doc_err(e, *schema_block)
@hint analyze:start
proof { lemma_spok_doc(*schema_block); lemma_project_err(*schema_block); lemma_tables_err(*schema_block); lemma_enums_err(*schema_block); reveal_strlit("null"); reveal_strlit("not null"); }

@loop analyze/indexed_refs
invariant: vx_c_indexed_refs@.len() == vx_i_indexed_refs
invariant: forall|i: int| 0 <= i < vx_i_indexed_refs ==> block_ref(doc_refs(*schema_block)[i], #[trigger] vx_c_indexed_refs@[i])
invariant: forall|i: int| 0 <= i < vx_i_indexed_refs ==> spok_IndexedRef(#[trigger] vx_c_indexed_refs@[i], schema_block.input@)

@hint analyze/call_index_table_groups:before
proof { broadcast use same_index_lemmas; lemma_groups_err(*schema_block, indexer); }
let ghost vx_before = indexer;
@hint analyze/call_index_table_groups:after
proof { lemma_same_indexed(vx_before, indexer, *schema_block); }
@hint analyze/table:before
proof { assert(tables_attrs_ok(doc_tables(*schema_block))); assert(inline_srcs(doc_tables(*schema_block), 0) =~= Seq::<RefSrc>::empty()); assert(block_srcs(doc_refs(*schema_block)) + Seq::<RefSrc>::empty() =~= block_srcs(doc_refs(*schema_block))); }
@loop analyze/table
opt: isolate
invariant: vx_s_table == &tables && derefs(tables@) == doc_tables(*schema_block) && input == schema_block.input && wf_doc(*schema_block) && spok_doc(*schema_block)
invariant [C19 C20 C21 C24]: refs_are(block_srcs(doc_refs(*schema_block)) + inline_srcs(doc_tables(*schema_block), vx_i_table as int), indexed_refs@)
invariant [C01]: forall|i: int| 0 <= i < indexed_refs@.len() ==> spok_IndexedRef(#[trigger] indexed_refs@[i], schema_block.input@)
invariant [C13]: forall|i: int| 0 <= i < vx_i_table ==> index_attrs_ok(#[trigger] doc_tables(*schema_block)[i])
invariant [C15]: forall|i: int| 0 <= i < vx_i_table ==> table_pk_ok(#[trigger] doc_tables(*schema_block)[i])
invariant [C16]: forall|i: int| 0 <= i < vx_i_table ==> table_indexes_ok(#[trigger] doc_tables(*schema_block)[i])

@loop analyze/col
opt: isolate
invariant: vx_s_col == &table.cols && 0 < vx_i_table <= doc_tables(*schema_block).len() && **table == doc_tables(*schema_block)[vx_i_table - 1] && vx_at(vx_i_table as int) && input == schema_block.input && spok_TableBlock(**table, schema_block.input@)
invariant [C15 C22]: tmp_table_indexer.pk_list@.len() > 0 <==> among(col_pks(**table), vx_i_col as int, true)
invariant [C15]: forall|i: int| #![trigger table.cols@[i]] 0 <= i < vx_i_col ==> pk_col_ok(**table, i) && nulls_ok(table.cols@[i])
invariant [C16 C22]: forall|s: Set<Seq<char>>| #![trigger among(sets_of(tmp_table_indexer.unique_list@), tmp_table_indexer.unique_list@.len() as int, s)] #![trigger among(col_uniques(**table), vx_i_col as int, Some(s))] among(sets_of(tmp_table_indexer.unique_list@), tmp_table_indexer.unique_list@.len() as int, s) <==> among(col_uniques(**table), vx_i_col as int, Some(s))
invariant [C16 C22]: tmp_table_indexer.indexed_list@.len() == 0
invariant [C19 C20 C21 C24]: refs_are(block_srcs(doc_refs(*schema_block)) + inline_srcs(doc_tables(*schema_block), vx_i_table - 1) + table_srcs(**table, vx_i_col as int), indexed_refs@)
invariant [C01]: forall|i: int| 0 <= i < indexed_refs@.len() ==> spok_IndexedRef(#[trigger] indexed_refs@[i], schema_block.input@)
@hint analyze/col:start
proof { lemma_keys_err(*schema_block, vx_i_table as int); }
@loop analyze/filtered
invariant [C15 C22]: forall|k: Seq<char>| #![trigger vx_c_filtered@.contains(k)] #![trigger among(attr_keys(settings.attributes@), vx_i_filtered as int, k)] vx_c_filtered@.contains(k) <==> ((k == "null"@ || k == "not null"@) && among(attr_keys(settings.attributes@), vx_i_filtered as int, k))
@hint analyze/filtered:after
proof { lemma_keys(); lemma_pair_len(vx_c_filtered@, "null"@, "not null"@); lemma_has_key(settings.attributes@, "null"@); lemma_has_key(settings.attributes@, "not null"@); }

@loop analyze/def
opt: isolate
invariant: vx_s_def == &indexes_block.defs && table.indexes == Some(*indexes_block) && 0 < vx_i_table <= doc_tables(*schema_block).len() && **table == doc_tables(*schema_block)[vx_i_table - 1] && vx_at(vx_i_table as int) && input == schema_block.input && spok_TableBlock(**table, schema_block.input@)
invariant [C15 C22]: tmp_table_indexer.pk_list@.len() > 0 <==> among(col_pks(**table), table.cols@.len() as int, true) || among(def_pks(*indexes_block), vx_i_def as int, true)
invariant [C16 C22]: forall|s: Set<Seq<char>>| #![trigger among(sets_of(tmp_table_indexer.unique_list@), tmp_table_indexer.unique_list@.len() as int, s)] #![trigger among(def_uniques(*indexes_block), vx_i_def as int, Some(s))] among(sets_of(tmp_table_indexer.unique_list@), tmp_table_indexer.unique_list@.len() as int, s) <==> among(col_uniques(**table), table.cols@.len() as int, Some(s)) || among(def_uniques(*indexes_block), vx_i_def as int, Some(s))
invariant [C16 C22]: forall|x: (Seq<Seq<char>>, Option<IndexesType>)| #![trigger among(entries_of(tmp_table_indexer.indexed_list@), tmp_table_indexer.indexed_list@.len() as int, x)] #![trigger among(lists(*indexes_block), vx_i_def as int, Some(x))] among(entries_of(tmp_table_indexer.indexed_list@), tmp_table_indexer.indexed_list@.len() as int, x) <==> among(lists(*indexes_block), vx_i_def as int, Some(x))
invariant [C16 C22]: forall|x: Seq<Seq<char>>| #![trigger among(entry_names(tmp_table_indexer.indexed_list@), tmp_table_indexer.indexed_list@.len() as int, x)] #![trigger among(list_names(*indexes_block), vx_i_def as int, Some(x))] among(entry_names(tmp_table_indexer.indexed_list@), tmp_table_indexer.indexed_list@.len() as int, x) <==> among(list_names(*indexes_block), vx_i_def as int, Some(x))
invariant [C13]: forall|i: int| 0 <= i < vx_i_def ==> def_attrs_ok(#[trigger] indexes_block.defs@[i])
invariant [C15]: forall|i: int| 0 <= i < vx_i_def ==> #[trigger] pk_def_ok(**table, *indexes_block, i)
invariant [C16]: forall|i: int| 0 <= i < vx_i_def ==> #[trigger] index_ok(**table, *indexes_block, i)
@hint analyze/def:start
proof { lemma_keys_err(*schema_block, vx_i_table as int); }
@loop analyze/ident_strings
invariant [C16 C22]: vx_c_ident_strings@.len() == vx_i_ident_strings
invariant [C16 C22]: forall|j: int| 0 <= j < vx_i_ident_strings ==> (#[trigger] vx_c_ident_strings@[j])@ == index_name(def.cols@[j])
@hint analyze/ident_strings:after
proof { assert(keys(vx_c_ident_strings@) =~= index_names(def.cols@)); }
@loop analyze/ident
invariant [C16]: forall|j: int| 0 <= j < vx_i_ident ==> name_ok(**table, #[trigger] def.cols@[j])
@loop analyze/any_2
invariant [C16 C22]: vx_r_any == among(col_names(**table), vx_i_any_2 as int, col_name.to_string@)
@loop analyze/count_2
invariant [C16 C22]: vx_i_count_2 == 0 ==> vx_r_count == 0
invariant [C16 C22]: vx_i_count_2 == 1 ==> vx_r_count == (if settings.is_pk { 1int } else { 0 })
invariant [C16 C22]: vx_i_count_2 == 2 ==> vx_r_count == (if settings.is_pk { 1int } else { 0 }) + (if settings.is_unique { 1int } else { 0 })
invariant [C16 C22]: vx_i_count_2 == 3 ==> (vx_r_count > 1 <==> !one_role(*settings))
@loop analyze/any_4
invariant [C16 C22]: vx_r_any_3 == among(sets_of(tmp_table_indexer.unique_list@), vx_i_any_4 as int, index_names(def.cols@).to_set())
@loop analyze/iter
invariant [C16 C22]: vx_i_iter == ident_strings@.len() ==> keys(vx_c_iterv@) =~= keys(ident_strings@)
@loop analyze/collect
invariant [C16 C22]: forall|k: Seq<char>| #![trigger vx_c_collect@.contains(k)] #![trigger among(keys(ident_strings@), vx_i_collect as int, k)] vx_c_collect@.contains(k) <==> among(keys(ident_strings@), vx_i_collect as int, k)
@hint analyze/collect:after
proof { assert forall|k: Seq<char>| vx_c_collect@.contains(k) <==> key_set(ident_strings@).contains(k) by { lemma_key_set(ident_strings@, k); if among(keys(ident_strings@), ident_strings@.len() as int, k) { let i = choose|i: int| 0 <= i < ident_strings@.len() && #[trigger] keys(ident_strings@)[i] == k; assert(ident_strings@[i].key() == k); } if key_set(ident_strings@).contains(k) { let i = choose|i: int| 0 <= i < ident_strings@.len() && (#[trigger] ident_strings@[i]).key() == k; assert(keys(ident_strings@)[i] == k); } } assert(vx_c_collect@ =~= key_set(ident_strings@)); }
@loop analyze/any_6
invariant [C16 C22]: vx_r_any_5 == among(entries_of(tmp_table_indexer.indexed_list@), vx_i_any_6 as int, (keys(ident_strings@), settings.r#type))
@hint analyze/any_6:start
proof { lemma_vec_eq(vx_s_any_6@[vx_i_any_6 - 1].0, ident_strings); }
@loop analyze/any_8
invariant [C16 C22]: vx_r_any_7 == among(entry_names(tmp_table_indexer.indexed_list@), vx_i_any_8 as int, keys(ident_strings@))
@hint analyze/any_8:start
proof { lemma_vec_eq(vx_s_any_8@[vx_i_any_8 - 1].0, ident_strings); }

@loop analyze/tables
opt: isolate
invariant: derefs(vx_s_tables@) == doc_tables(*schema_block) && input == schema_block.input && wf_doc(*schema_block) && spok_doc(*schema_block) && indexed(indexer, *schema_block) && tables_attrs_ok(doc_tables(*schema_block))
invariant [C19 C20]: vx_c_tables@.len() == vx_i_tables
invariant [C19 C20]: forall|i: int| 0 <= i < vx_i_tables ==> #[trigger] vx_c_tables@[i] == typed_table(doc_tables(*schema_block)[i])
invariant [C17]: forall|i: int| 0 <= i < vx_i_tables ==> table_args_ok(#[trigger] doc_tables(*schema_block)[i])
invariant [C18]: forall|i: int| 0 <= i < vx_i_tables ==> table_defaults_ok(indexer, #[trigger] doc_tables(*schema_block)[i])
invariant [C19]: forall|i: int| 0 <= i < vx_i_tables ==> table_types_ok(#[trigger] doc_tables(*schema_block)[i])

@hint analyze/tables:after
proof { assert(vx_c_tables@ =~= typed(doc_tables(*schema_block))); }
@loop analyze/cols
opt: isolate
invariant: vx_s_cols == table.cols && 0 < vx_i_tables <= doc_tables(*schema_block).len() && *table == doc_tables(*schema_block)[vx_i_tables - 1] && vx_at(vx_i_tables as int) && input == schema_block.input && spok_TableBlock(*table, schema_block.input@) && wf_table(*table) && indexed(indexer, *schema_block) && table_attrs_ok(*table)
invariant [C19 C20]: vx_c_cols@.len() == vx_i_cols
invariant [C19 C20]: forall|j: int| 0 <= j < vx_i_cols ==> #[trigger] vx_c_cols@[j] == typed_col(table.cols@[j])
invariant [C17]: forall|j: int| 0 <= j < vx_i_cols ==> args_ok(#[trigger] table.cols@[j])
invariant [C18]: forall|j: int| 0 <= j < vx_i_cols ==> default_ok(indexer, #[trigger] table.cols@[j])
invariant [C19]: forall|j: int| 0 <= j < vx_i_cols ==> column_type_of(raw_name(#[trigger] table.cols@[j])) is Some || split(raw_name(table.cols@[j]), '.').len() <= 2
@hint analyze/cols:after
proof { assert(vx_c_cols@ =~= typed_cols(*table)); assert(vec_of(vx_c_cols@) == vx_c_cols); }
@hint analyze/cols:start
proof { lemma_types_err(*schema_block, indexer, vx_i_tables as int, vx_i_cols as int); }
@hint analyze/any_10:after
proof { assert(vx_s_any_10@.len() == 1); assert(!vx_r_any_9 ==> vx_s_any_10@[0]); }
@hint analyze/cols:end
proof { assert(default_ok(indexer, table.cols@[vx_i_cols - 1])); }
@loop analyze/default_value_span
invariant [C01 C22]: vx_r_find_map is None ==> forall|j: int| 0 <= j < vx_i_default_value_span ==> (#[trigger] attributes@[j]).key.to_string@ != "default"@
invariant [C01 C22]: vx_r_find_map is Some ==> vx_i_default_value_span > 0 && vx_at(vx_i_default_value_span as int) && attributes@[vx_i_default_value_span - 1].key.to_string@ == "default"@ && (vx_r_find_map->Some_0 is Some <==> attributes@[vx_i_default_value_span - 1].value is Some) && (vx_r_find_map->Some_0 is Some ==> *(vx_r_find_map->Some_0->Some_0) == attributes@[vx_i_default_value_span - 1].value->Some_0.span_range)
@hint analyze/default_value_span:after
proof { if vx_r_find_map is Some { lemma_default(attributes@, "default"@, vx_i_default_value_span - 1); assert(vx_at(vx_i_default_value_span as int)); if vx_r_find_map->Some_0 is Some { assert(default_at(table.cols@[vx_i_cols - 1], *vx_r_find_map->Some_0->Some_0)); } } else { lemma_no_default(attributes@, "default"@); } }
@loop analyze/span_range
invariant [C01 C22]: vx_r_find_map_2 is None ==> forall|j: int| 0 <= j < vx_i_span_range ==> (#[trigger] attributes@[j]).key.to_string@ != "default"@
invariant [C01 C22]: vx_r_find_map_2 is Some ==> vx_i_span_range > 0 && vx_at(vx_i_span_range as int) && attributes@[vx_i_span_range - 1].key.to_string@ == "default"@ && (vx_r_find_map_2->Some_0 is Some <==> attributes@[vx_i_span_range - 1].value is Some) && (vx_r_find_map_2->Some_0 is Some ==> *(vx_r_find_map_2->Some_0->Some_0) == attributes@[vx_i_span_range - 1].value->Some_0.span_range)
@hint analyze/span_range:after
proof { if vx_r_find_map_2 is Some { lemma_default(attributes@, "default"@, vx_i_span_range - 1); assert(vx_at(vx_i_span_range as int)); if vx_r_find_map_2->Some_0 is Some { assert(default_at(table.cols@[vx_i_cols - 1], *vx_r_find_map_2->Some_0->Some_0)); } } else { lemma_no_default(attributes@, "default"@); } }

@loop analyze/indexed_ref
opt: isolate
invariant: vx_s_indexed_ref == &indexed_refs && input == schema_block.input && indexed(indexer, *schema_block) && wf_doc(*schema_block)
invariant: tables@ == typed(doc_tables(*schema_block))
invariant: refs_are(doc_srcs(*schema_block), indexed_refs@)
invariant [C01]: forall|i: int| 0 <= i < indexed_refs@.len() ==> spok_IndexedRef(#[trigger] indexed_refs@[i], schema_block.input@)
invariant [C13]: forall|i: int| 0 <= i < vx_i_indexed_ref && i < doc_refs(*schema_block).len() ==> ref_attrs_ok(#[trigger] doc_refs(*schema_block)[i])
invariant [C19]: forall|i: int| 0 <= i < vx_i_indexed_ref ==> ends_ok(indexer, typed(doc_tables(*schema_block)), #[trigger] indexed_refs@[i])
invariant [C20]: forall|i: int| 0 <= i < vx_i_indexed_ref ==> ref_keys_ok(indexer, typed(doc_tables(*schema_block)), #[trigger] indexed_refs@[i])
invariant [C21]: forall|i: int| 0 <= i < vx_i_indexed_ref ==> #[trigger] alone(indexer, indexed_refs@, i, indexed_refs@.len() as int)
@hint analyze/indexed_ref:start
proof { lemma_refs_err(*schema_block, indexer, indexed_refs@, vx_i_indexed_ref as int); }
@loop analyze/count_4
invariant [C21 C22]: vx_r_count_3 == nconf(indexer, indexed_refs@, vx_i_indexed_ref - 1, vx_i_count_4 as int)
@hint analyze/count_4:after
proof { lemma_rels(*schema_block, indexed_refs@, vx_i_indexed_ref - 1); lemma_self_conflict(indexer, indexed_refs@[vx_i_indexed_ref - 1]); lemma_nconf(indexer, indexed_refs@, vx_i_indexed_ref - 1, indexed_refs@.len() as int); }
