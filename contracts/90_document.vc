## Checked parsing: the rules of every property on the tree that is returned.
@spec
pub open spec fn wf_block(b: TopLevelBlock) -> bool { match b { TopLevelBlock::Table(t) => wf_table(t), TopLevelBlock::Ref(r) => !(r.rel is Undef), _ => true } }
#[verifier::spinoff_prover] pub proof fn lemma_wf_blocks(b: Seq<TopLevelBlock>, n: int)
  requires 0 <= n <= b.len(), forall|i: int| 0 <= i < b.len() ==> wf_block(#[trigger] b[i])
  ensures forall|i: int| 0 <= i < tables_of(b, n).len() ==> wf_table(#[trigger] tables_of(b, n)[i]), forall|i: int| 0 <= i < refs_of(b, n).len() ==> !((#[trigger] refs_of(b, n)[i]).rel is Undef)
  decreases n
{
  if n > 0 {
    lemma_wf_blocks(b, n - 1); assert(wf_block(b[n - 1]));
    match b[n - 1] {
      TopLevelBlock::Table(x) => { assert(tables_of(b, n) == tables_of(b, n - 1).push(x)); }
      TopLevelBlock::Ref(x) => { assert(refs_of(b, n) == refs_of(b, n - 1).push(x)); }
      _ => { }
    }
  }
}
pub proof fn lemma_wf_table(t: TableBlock, n: Node) requires is_table(t, n) ensures wf_table(t)
{
  let k = all_of(n.kids.last().kids, Rule::table_col);
  assert forall|j: int| 0 <= j < t.cols@.len() implies wf_col(#[trigger] t.cols@[j]) by { assert(is_col(t.cols@[j], k[j])); }
  assert forall|j: int, i: int| 0 <= j < t.cols@.len() && 0 <= i < col_refs(t.cols@[j]).len() implies !((#[trigger] col_refs(t.cols@[j])[i]).rel is Undef) by {
    assert(is_col(t.cols@[j], k[j])); let s = t.cols@[j].settings->Some_0; let q = all_of(firsts(k[j].kids[2].kids), Rule::ref_inline);
    assert(is_ref_inlines(s.refs@, q)); assert(is_ref_inline(s.refs@[i], q[i]));
  }
}
/// what the parser yields is what the analyzer needs
pub proof fn lemma_wf_doc(d: SchemaBlock, n: Node) requires is_schema(d, n), n.src == d.input@ ensures wf_doc(d)
{
  assert forall|i: int| 0 <= i < d.blocks@.len() implies wf_block(#[trigger] d.blocks@[i]) by {
    assert(is_block(d.blocks@[i], n.kids[i]));
    match d.blocks@[i] { TopLevelBlock::Table(t) => { lemma_wf_table(t, n.kids[i]); } _ => { } }
  }
  lemma_wf_blocks(d.blocks@, d.blocks@.len() as int);
}

@fn parse_dbml
ensures [C01 C09]: r is Ok ==> grammar_accepts(Rule::schema, input@) && ok_schema(grammar_tree(Rule::schema, input@))
ensures [C02 C03 C04 C05 C06 C07 C08 C09]: r matches Ok(v) ==> is_schema(v, grammar_tree(Rule::schema, input@)) && v.input@ == input@
ensures [C09]: exists|q: ParserResult<SchemaBlock>| #[trigger] parsed(input@, q) && (q is Err ==> r == q) && (r is Ok ==> r == q)
ensures [C10]: r matches Ok(d) ==> project_ok(d)
ensures [C11]: r matches Ok(d) ==> tables_unique(doc_tables(d))
ensures [C12]: r matches Ok(d) ==> enums_unique(doc_enums(d))
ensures [C13]: r matches Ok(d) ==> tables_attrs_ok(doc_tables(d)) && enums_attrs_ok(doc_enums(d)) && groups_attrs_ok(doc_groups(d))
ensures [C13]: r matches Ok(d) ==> forall|i: int| 0 <= i < doc_tables(d).len() ==> index_attrs_ok(#[trigger] doc_tables(d)[i])
ensures [C13]: r matches Ok(d) ==> forall|i: int| 0 <= i < doc_refs(d).len() ==> ref_attrs_ok(#[trigger] doc_refs(d)[i])
ensures [C14]: r matches Ok(d) ==> exists|a: AnalyzedIndexer| #[trigger] analyzed(a, d) && groups_ok(a.indexer, doc_groups(d))
ensures [C15]: r matches Ok(d) ==> forall|i: int| 0 <= i < doc_tables(d).len() ==> table_pk_ok(#[trigger] doc_tables(d)[i])
ensures [C16]: r matches Ok(d) ==> forall|i: int| 0 <= i < doc_tables(d).len() ==> table_indexes_ok(#[trigger] doc_tables(d)[i])
ensures [C17]: r matches Ok(d) ==> forall|i: int| 0 <= i < doc_tables(d).len() ==> table_args_ok(#[trigger] doc_tables(d)[i])
ensures [C18]: r matches Ok(d) ==> exists|a: AnalyzedIndexer| #[trigger] analyzed(a, d) && defaults_all_ok(a, d)
ensures [C19]: r matches Ok(d) ==> exists|a: AnalyzedIndexer| #[trigger] analyzed(a, d) && ends_all_ok(a, d)
ensures [C20]: r matches Ok(d) ==> exists|a: AnalyzedIndexer| #[trigger] analyzed(a, d) && keys_all_ok(a, d)
ensures [C21]: r matches Ok(d) ==> exists|a: AnalyzedIndexer| #[trigger] analyzed(a, d) && no_conflicts(a.indexer, a.indexed_refs@)
ensures [C22]: r matches Err(e) ==> !grammar_accepts(Rule::schema, input@) || schema_err(e, grammar_tree(Rule::schema, input@)) || exists|d: SchemaBlock| #[trigger] is_schema(d, grammar_tree(Rule::schema, input@)) && doc_err(e, d)
@hint parse_dbml/call_parse:after
proof { lemma_wf_doc(ast, grammar_tree(Rule::schema, input@)); }
