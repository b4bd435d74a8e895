## Validity of refs and conflicts between them.
@spec
// ---- first of a name
pub open spec fn find_table(ts: Seq<TableBlock>, i: int, k: Key) -> Option<TableBlock> decreases ts.len() - i {
  if i < 0 || i >= ts.len() { None } else if tkey(ts[i]) == k { Some(ts[i]) } else { find_table(ts, i + 1, k) }
}
pub open spec fn find_col(cs: Seq<TableColumn>, i: int, c: Seq<char>) -> Option<TableColumn> decreases cs.len() - i {
  if i < 0 || i >= cs.len() { None } else if cs[i].name.to_string@ == c { Some(cs[i]) } else { find_col(cs, i + 1, c) }
}
pub open spec fn the_table(ts: Seq<TableBlock>, k: Key) -> Option<TableBlock> { find_table(ts, 0, k) }
pub open spec fn the_col(t: TableBlock, c: Seq<char>) -> Option<TableColumn> { find_col(t.cols@, 0, c) }
// ---- keys
pub open spec fn index_name(c: IndexesColumnType) -> Seq<char> { match c { IndexesColumnType::String(s) => s.to_string@, IndexesColumnType::Expr(e) => e.raw@ } }
pub open spec fn index_names(v: Seq<IndexesColumnType>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| index_name(v[i])) }
pub open spec fn no_exprs(v: Seq<IndexesColumnType>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] is String }
pub open spec fn key_index(d: IndexesDef, comps: Seq<Ident>) -> bool {
  comps.len() == d.cols@.len() && d.settings is Some && (d.settings->Some_0.is_pk || d.settings->Some_0.is_unique) && no_exprs(d.cols@) && idents(comps).to_set() == index_names(d.cols@).to_set()
}
pub open spec fn has_key_index(x: Option<IndexesBlock>, comps: Seq<Ident>) -> bool { x is Some && exists|m: int| #[trigger] vx_at(m) && 0 < m <= x->Some_0.defs@.len() && key_index(x->Some_0.defs@[m - 1], comps) }
pub open spec fn key_col(c: Option<TableColumn>) -> bool { c is Some && c->Some_0.settings is Some && (c->Some_0.settings->Some_0.is_pk || c->Some_0.settings->Some_0.is_unique) }
/// the columns of a side of a ref are a key of its table
pub open spec fn is_key(t: Option<TableBlock>, comps: Seq<Ident>) -> bool { t is Some && ((comps.len() == 1 && key_col(the_col(t->Some_0, comps[0].to_string@))) || has_key_index(t->Some_0.indexes, comps)) }
pub open spec fn keys_ok(rel: Relation, l: bool, r: bool) -> bool { match rel { Relation::One2One => l || r, Relation::Many2Many => l && r, Relation::One2Many => l, Relation::Many2One => r, Relation::Undef => true } }
// ---- types
pub open spec fn same_type(l: ColumnType, r: ColumnType) -> bool { l.type_name == r.type_name && l.args == r.args && l.arrays == r.arrays }
pub open spec fn pair_ok(lt: Option<TableBlock>, rt: Option<TableBlock>, l: Seq<Ident>, r: Seq<Ident>, i: int) -> bool {
  lt is Some && rt is Some && the_col(lt->Some_0, l[i].to_string@) is Some && the_col(rt->Some_0, r[i].to_string@) is Some
  && same_type(the_col(lt->Some_0, l[i].to_string@)->Some_0.raw_type, the_col(rt->Some_0, r[i].to_string@)->Some_0.raw_type)
}
// ---- a ref as a whole
pub open spec fn side(ix: Indexer, ts: Seq<TableBlock>, r: RefIdent) -> Option<TableBlock> { the_table(ts, resolved(ix, r)) }
pub open spec fn ends_ok(ix: Indexer, ts: Seq<TableBlock>, x: IndexedRef) -> bool {
  x.lhs.compositions@.len() == x.rhs.compositions@.len() && fields_ok(ix, resolved(ix, x.lhs), x.lhs.compositions@) && fields_ok(ix, resolved(ix, x.rhs), x.rhs.compositions@)
  && forall|i: int| 0 <= i < x.lhs.compositions@.len() ==> #[trigger] pair_ok(side(ix, ts, x.lhs), side(ix, ts, x.rhs), x.lhs.compositions@, x.rhs.compositions@, i)
}
pub open spec fn ref_keys_ok(ix: Indexer, ts: Seq<TableBlock>, x: IndexedRef) -> bool {
  x.lhs.compositions@.len() > 0 ==> keys_ok(x.rel, is_key(side(ix, ts, x.lhs), x.lhs.compositions@), is_key(side(ix, ts, x.rhs), x.rhs.compositions@))
}
// ---- what a rejected ref breaks, and where
pub open spec fn end_span(x: RefIdent, sp: Range<usize>) -> bool { sp == x.span_range || sp == x.table.span_range || (x.schema is Some && sp == x.schema->Some_0.span_range) }
pub open spec fn end_broken(ix: Indexer, ts: Seq<TableBlock>, x: RefIdent, k: AErr, sp: Range<usize>) -> bool {
  match k {
    AErr::SchemaNotFound => !has_schema(ix, resolved(ix, x).0) && end_span(x, sp),
    AErr::TableNotFound => (!has_table(ix, resolved(ix, x).0, resolved(ix, x).1) || side(ix, ts, x) is None) && end_span(x, sp),
    AErr::ColumnNotFound => exists|m: int| #[trigger] vx_at(m) && 0 < m <= x.compositions@.len() && sp == x.compositions@[m - 1].span_range
      && (!has_col(ix, resolved(ix, x), x.compositions@[m - 1].to_string@) || (side(ix, ts, x) is Some && the_col(side(ix, ts, x)->Some_0, x.compositions@[m - 1].to_string@) is None)),
    _ => false,
  }
}
pub open spec fn ref_broken(ix: Indexer, ts: Seq<TableBlock>, x: IndexedRef, k: AErr, sp: Range<usize>) -> bool {
  match k {
    AErr::MismatchedCompositeForeignKey => x.lhs.compositions@.len() != x.rhs.compositions@.len() && sp == x.span_range,
    AErr::MismatchedForeignKeyType { r_ident, l_ident, r_type, l_type } => exists|m: int| #[trigger] vx_at(m) && 0 < m <= x.lhs.compositions@.len() && m <= x.rhs.compositions@.len() && !pair_ok(side(ix, ts, x.lhs), side(ix, ts, x.rhs), x.lhs.compositions@, x.rhs.compositions@, m - 1) && sp == x.span_range
      && col_named(side(ix, ts, x.lhs), x.lhs.compositions@[m - 1], l_ident@, l_type@) && col_named(side(ix, ts, x.rhs), x.rhs.compositions@[m - 1], r_ident@, r_type@),
    AErr::InvalidForeignKey { err } => !ref_keys_ok(ix, ts, x) && fk_kind(x.rel, x.lhs.compositions@.len() > 1, err) && sp == (match x.rel { Relation::One2Many => x.lhs.span_range, Relation::Many2One => x.rhs.span_range, _ => x.span_range }),
    _ => end_broken(ix, ts, x.lhs, k, sp) || end_broken(ix, ts, x.rhs, k, sp),
  }
}
/// the message names column c of table t and the written text of its type
pub open spec fn col_named(t: Option<TableBlock>, c: Ident, name: Seq<char>, ty: Seq<char>) -> bool {
  name == c.to_string@ && t is Some && the_col(t->Some_0, c.to_string@) is Some && ty == the_col(t->Some_0, c.to_string@)->Some_0.raw_type.raw@
}
/// the message names the relation and whether the ref is composite
pub open spec fn fk_kind(rel: Relation, composite: bool, e: InvalidForeignKeyErr) -> bool {
  match rel {
    Relation::One2One => if composite { e is One2OneComposite } else { e is One2One },
    Relation::Many2Many => if composite { e is Many2ManyComposite } else { e is Many2Many },
    _ => if composite { e is NitherUniqueKeyNorPrimaryKeyComposite } else { e is NitherUniqueKeyNorPrimaryKey },
  }
}
// ---- conflicts
pub open spec fn same_end(ix: Indexer, a: RefIdent, b: RefIdent) -> bool { resolved(ix, a) == resolved(ix, b) && idents(a.compositions@).to_set() == idents(b.compositions@).to_set() }
pub open spec fn fk_side(x: IndexedRef) -> Option<RefIdent> { match x.rel { Relation::Many2One => Some(x.lhs), Relation::One2Many => Some(x.rhs), _ => None } }
pub open spec fn conflict(ix: Indexer, a: IndexedRef, b: IndexedRef) -> bool {
  if (a.rel is Many2Many && b.rel is Many2Many) || (a.rel is One2One && b.rel is One2One) { (same_end(ix, a.lhs, b.lhs) || same_end(ix, a.lhs, b.rhs)) && (same_end(ix, a.rhs, b.lhs) || same_end(ix, a.rhs, b.rhs)) }
  else { fk_side(a) is Some && fk_side(b) is Some && same_end(ix, fk_side(a)->Some_0, fk_side(b)->Some_0) }
}

@fn occupy_same_column__eq_ident
ensures [C21]: r == (rkey(*lhs) == rkey(*rhs) && idents(lhs.compositions@).to_set() == idents(rhs.compositions@).to_set())
@loop occupy_same_column__eq_ident/iter
invariant [C21]: vx_i_iter == lhs.compositions@.len() ==> keys(vx_c_iterv@) =~= idents(lhs.compositions@)
@loop occupy_same_column__eq_ident/iter_2
invariant [C21]: vx_i_iter_2 == rhs.compositions@.len() ==> keys(vx_c_iterv_2@) =~= idents(rhs.compositions@)

@fn IndexedRef::occupy_same_column
ensures [C21 C22]: r == conflict(*indexer, *self, *other)
@loop IndexedRef::occupy_same_column/all_2
invariant: vx_i_all_2 == 0 ==> vx_r_all
invariant [C21 C22]: vx_i_all_2 == 1 ==> vx_r_all == (same_end(*indexer, self.lhs, other.lhs) || same_end(*indexer, self.lhs, other.rhs))
invariant [C21 C22]: vx_i_all_2 == 2 ==> vx_r_all == conflict(*indexer, *self, *other)
@loop IndexedRef::occupy_same_column/any_2
invariant: vx_i_any_2 == 0 ==> !vx_r_any
invariant [C21 C22]: vx_i_any_2 == 1 ==> vx_r_any == same_end(*indexer, **self_side, other.lhs)
invariant [C21 C22]: vx_i_any_2 == 2 ==> vx_r_any == (same_end(*indexer, **self_side, other.lhs) || same_end(*indexer, **self_side, other.rhs))

@fn validate_ref_type__find_ref_table
requires [C01]: spok_RefIdent(*ref_ident, input@)
ensures [C19 C20]: r is Ok ==> the_table(tables@, rkey(*ref_ident)) == Some(*r->Ok_0)
ensures [C22]: r matches Err(e) ==> is_err(e, AErr::TableNotFound, ref_ident.span_range) && the_table(tables@, rkey(*ref_ident)) is None
@loop validate_ref_type__find_ref_table/find_2
invariant [C19 C20 C22]: the_table(tables@, rkey(*ref_ident)) == (match vx_r_find { Some(x) => Some(*x), None => find_table(tables@, vx_i_find_2 as int, rkey(*ref_ident)) })

@fn validate_ref_type__find_ref_col
requires [C01]: spok_Ident(*col_ident, input@)
ensures [C19 C20]: r is Ok ==> the_col(*table, col_ident.to_string@) == Some(r->Ok_0)
ensures [C22]: r matches Err(e) ==> is_err(e, AErr::ColumnNotFound, col_ident.span_range) && the_col(*table, col_ident.to_string@) is None
@loop validate_ref_type__find_ref_col/col
invariant [C19 C20 C22]: the_col(*table, col_ident.to_string@) == (match vx_r_find { Some(x) => Some(*x), None => find_col(table.cols@, vx_i_col as int, col_ident.to_string@) })

@fn validate_ref_type__is_valid_composite
ensures [C20]: r ==> has_key_index(*table_indexes, compositions@)
ensures [C22]: !r ==> !has_key_index(*table_indexes, compositions@)
@loop validate_ref_type__is_valid_composite/any_2
invariant [C20]: vx_r_any ==> has_key_index(*table_indexes, compositions@)
invariant [C22]: !vx_r_any ==> forall|j: int| 0 <= j < vx_i_any_2 ==> !key_index(#[trigger] indexes.defs@[j], compositions@)
@loop validate_ref_type__is_valid_composite/iter
invariant [C20 C22]: vx_i_iter == compositions@.len() ==> keys(vx_c_iterv@) =~= idents(compositions@)
@loop validate_ref_type__is_valid_composite/iter_2
invariant [C20 C22]: vx_c_iterv_2@.len() == vx_i_iter_2
invariant [C20 C22]: forall|j: int| 0 <= j < vx_i_iter_2 ==> (#[trigger] vx_c_iterv_2@[j])@ == index_name(def_item.cols@[j])
invariant [C20 C22]: vx_i_iter_2 == def_item.cols@.len() ==> keys(vx_c_iterv_2@) =~= index_names(def_item.cols@)

@fn IndexedRef::validate_ref_type
requires [C01]: spok_IndexedRef(*self, input@)
ensures [C19]: r is Ok ==> ends_ok(*indexer, tables@, *self)
ensures [C20]: r is Ok ==> ref_keys_ok(*indexer, tables@, *self)
ensures [C22]: r matches Err(e) ==> exists|k: AErr, sp: Range<usize>| #[trigger] is_err(e, k, sp) && ref_broken(*indexer, tables@, *self, k, sp)
@loop IndexedRef::validate_ref_type/l
invariant [C19]: forall|i: int| 0 <= i < vx_i_l ==> #[trigger] pair_ok(side(*indexer, tables@, self.lhs), side(*indexer, tables@, self.rhs), self.lhs.compositions@, self.rhs.compositions@, i)
invariant [C20]: composition_len == 1 && vx_i_l == 1 ==> ref_keys_ok(*indexer, tables@, *self)
