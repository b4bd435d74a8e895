## The relations of a table, and the list of refs of a document.
@spec
pub open spec fn ident_key(t: TableIdent) -> Key { (sch(t.schema), t.name.to_string@) }
pub open spec fn self_refs(ix: Indexer, v: Seq<IndexedRef>, n: int, k: Key) -> Seq<IndexedRef> decreases n {
  if n <= 0 { Seq::empty() } else if resolved(ix, v[n - 1].lhs) == k && resolved(ix, v[n - 1].rhs) == k { self_refs(ix, v, n - 1, k).push(v[n - 1]) } else { self_refs(ix, v, n - 1, k) }
}
pub open spec fn to_refs(ix: Indexer, v: Seq<IndexedRef>, n: int, k: Key) -> Seq<IndexedRef> decreases n {
  if n <= 0 { Seq::empty() } else if resolved(ix, v[n - 1].lhs) == k && resolved(ix, v[n - 1].rhs) != k { to_refs(ix, v, n - 1, k).push(v[n - 1]) } else { to_refs(ix, v, n - 1, k) }
}
pub open spec fn by_refs(ix: Indexer, v: Seq<IndexedRef>, n: int, k: Key) -> Seq<IndexedRef> decreases n {
  if n <= 0 { Seq::empty() } else if resolved(ix, v[n - 1].lhs) != k && resolved(ix, v[n - 1].rhs) == k { by_refs(ix, v, n - 1, k).push(v[n - 1]) } else { by_refs(ix, v, n - 1, k) }
}

@fn get_table_refs__eq
ensures [C24]: r == (ident_key(*table_ident) == rkey(*ref_ident))
@fn get_table_refs
ensures [C24]: r.ref_self@ == self_refs(analyzed_indexer.indexer, analyzed_indexer.indexed_refs@, analyzed_indexer.indexed_refs@.len() as int, ident_key(*table_ident))
ensures [C24]: r.ref_to@ == to_refs(analyzed_indexer.indexer, analyzed_indexer.indexed_refs@, analyzed_indexer.indexed_refs@.len() as int, ident_key(*table_ident))
ensures [C24]: r.ref_by@ == by_refs(analyzed_indexer.indexer, analyzed_indexer.indexed_refs@, analyzed_indexer.indexed_refs@.len() as int, ident_key(*table_ident))
@loop get_table_refs/ref_block
invariant [C24]: ref_self_blocks@ == self_refs(analyzed_indexer.indexer, analyzed_indexer.indexed_refs@, vx_i_ref_block as int, ident_key(*table_ident))
invariant [C24]: ref_to_blocks@ == to_refs(analyzed_indexer.indexer, analyzed_indexer.indexed_refs@, vx_i_ref_block as int, ident_key(*table_ident))
invariant [C24]: ref_by_blocks@ == by_refs(analyzed_indexer.indexer, analyzed_indexer.indexed_refs@, vx_i_ref_block as int, ident_key(*table_ident))
