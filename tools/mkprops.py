import json
P=[]
def p(id,title,st,q,why,files,mech,obs,hook=None,over=("inputs",)):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=list(over),text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook)))
PA="src/parser/mod.rs"; AN="src/analyzer/mod.rs"; IX="src/analyzer/indexer.rs"; HE="src/analyzer/helper.rs"; ER="src/analyzer/err.rs"; G="src/dbml.pest"
ANY="every UTF-8 input text"
p("C01","Parsing never panics","For every input text, checked parsing and unchecked parsing return a result or an error; neither ever panics, overflows or fails to terminate.",ANY,
  "the tests parse about fifty fixed documents; the panicking paths (unreachable arms, missing defaults, span construction, index operations) need unusual literals or combinations",
  [PA,AN,IX,ER],[("unreachable!/unwrap/remove/index sites",PA),("unreachable!/index sites",AN),("Span::new(..).unwrap()",ER)],["parse_dbml","parse_dbml_unchecked"])
p("C02","Spans and raw texts match the source","Every span recorded in a returned tree is a valid range of the input that lies on character boundaries and encloses the spans of its parts, and every recorded raw text is exactly the slice of the input at its span. The span of a block or element is that of the element in the source it describes.",ANY,
  "the golden files fix spans of a few documents, nearly all ASCII",[PA,"src/parser/helper.rs"],[("s2r(pair.as_span()) / as_str()",PA)],["spans and raw fields of SchemaBlock"])
p("C03","The tree lists exactly what is declared, in order","The parsed tree contains one top-level block per declared project, table, enum, ref, table group and note, in source order and of the right kind; each table contains exactly its columns and index definitions, each index its columns or expressions, each enum its values, each group its items and each settings list its attributes, in source order. Nothing is dropped, duplicated, reordered or moved to another parent (where a block may hold at most one note or indexes section and repeats it, the last one is kept).","every syntactically valid document",
  "golden files sample a few shapes and counts",[PA],[("try_fold accumulators / collect",PA)],["SchemaBlock.blocks and nested lists"])
p("C04","Names, schemas and aliases are decoded correctly","A bare name is kept as written and a double-quoted name is kept without its quotes and otherwise verbatim (apart from leading whitespace, which is trimmed); in a dotted name the part before the dot becomes the schema and the part after it the name. An undotted name has no schema; the alias, the project, ref and group names, and the schema, table and columns of a ref endpoint each land in their own field.","every syntactically valid document",
  "golden files use few quoted or dotted names",[PA],[("parse_ident",PA),("parse_decl_ident",PA),("parse_ref_ident",PA)],["Ident.to_string, schema/name/alias fields"])
p("C05","Literal values keep their kind and exact content","A literal is typed by its form: quoted text is a string whose content is the text between the quotes verbatim apart from leading whitespace, backquoted text an expression, digits an integer of exactly that value, digits with a point the nearest decimal number, a hex color a color, the words true, false and null a boolean or null, and any other bare words or double-quoted text in an attribute an enum word or a string. An integer that does not fit 64 bits (32 bits for an array size) is reported as an error, never wrapped, truncated or approximated.","every literal in every position",
  "tests contain a handful of literals, none at the numeric limits",[PA,G],[("parse_value",PA),("parse_string_value",PA),("parse_attribute",PA)],["Value and Literal in the tree"])
p("C06","Settings take effect exactly as written","Each column, index, ref and enum-value setting sets exactly the flag or value it names (primary key by either spelling, unique, null, not null, increment, default, note, index type, index name, update and delete action) and nothing else; a setting that is absent leaves its flag unset. Every attribute is also kept verbatim with its key and value, unknown ones included, and an unknown index type or referential action is an error.","every settings list",
  "tests use few combinations of settings",[PA],[("parse_col_settings",PA),("parse_indexes_settings",PA),("parse_rel_settings",PA),("parse_enum_value",PA)],["ColumnSettings, IndexesSettings, RefSettings, EnumValueSettings"])
p("C07","Refs keep relation kind and sides","In a parsed ref the relation is one-to-many for '<', many-to-one for '>', one-to-one for '-' and many-to-many for '<>', the left endpoint is the one written on the left and the right one on the right, with composite columns in written order. An inline ref keeps its relation and target and stays on the column that declares it.","every ref, in block, short and inline form",
  "tests have few refs, mostly many-to-one",[PA,"src/ast/refs.rs"],[("parse_ref_stmt",PA),("parse_ref_inline",PA),("Relation::from_str","src/ast/refs.rs")],["RefBlock, RefInline"])
p("C08","Column types are decoded completely","A column's type keeps its written text, its name (prefixed by its schema when written with one), its arguments in order with their values, and one array dimension per bracket pair in order, each with its size or none. This holds for quoted and unquoted types.","every column type",
  "tests have few argument and array combinations",[PA],[("parse_col_type",PA),("parse_col_type_arg",PA)],["ColumnType"])
p("C09","Checked parsing returns the unchecked tree","Checked parsing succeeds only if unchecked parsing succeeds, and then returns the same tree, unchanged; if unchecked parsing fails, checked parsing fails with the same error. The tree's accessors for projects, tables, table groups, refs and enums return exactly the blocks of that kind in order.",ANY,
  "the tests never compare the two entry points or call the accessors",["src/lib.rs","src/ast/schema.rs"],[("parse_dbml","src/lib.rs"),("SchemaBlock::tables etc.","src/ast/schema.rs")],["parse_dbml vs parse_dbml_unchecked","SchemaBlock accessors"])
p("C10","An accepted document has exactly one project","Checked parsing accepts only documents with exactly one project block, whose property keys are pairwise distinct.","every document accepted by checked parsing",
  "validator tests hold one rejected sample per rule at most",[AN,HE],[("projects check",AN),("check_prop_duplicate_keys",HE)],["parse_dbml Ok"])
p("C11","Table, column and alias names are unique when accepted","In an accepted document no two tables have the same schema and name (a table without schema belongs to the schema public), no table has two columns of the same name, and no two tables have the same alias.","every document accepted by checked parsing",
  "duplicates may be any distance apart and spelled differently (quoted, explicit default schema)",[IX],[("index_table",IX)],["parse_dbml Ok"])
p("C12","Enum and enum value names are unique when accepted","In an accepted document no two enums have the same schema and name (an enum without schema belongs to the schema public) and no enum has two values of the same name.","every document accepted by checked parsing",
  "one sample each in the validator directory",[IX],[("index_enums",IX)],["parse_dbml Ok"])
p("C13","Attribute keys are unique in every accepted settings list","In an accepted document the attribute keys of each settings list (of a table, a column, an index, an enum value, a ref or a table group) are pairwise distinct.","every document accepted by checked parsing",
  "tests hold one sample",[HE,IX,AN],[("check_attr_duplicate_keys",HE)],["parse_dbml Ok"])
p("C14","Table groups refer to existing tables, each once","In an accepted document table group names are unique, each group item denotes a declared table (by alias, or by name in the given schema or else in public), and no group lists the same table twice, however it is spelled.","every document accepted by checked parsing",
  "the spelling combinations (alias, default schema, explicit schema) are not in the tests",[IX],[("index_table_groups",IX)],["parse_dbml Ok"])
p("C15","Primary keys are single and well formed when accepted","In an accepted document a table has at most one primary key counting column settings and the indexes section together, a column marked primary key is neither explicitly nullable nor an array, and no column is marked both null and not null.","every document accepted by checked parsing",
  "few samples; the count spans two sections of the table",[AN],[("TableIndexer.pk_list",AN)],["parse_dbml Ok"])
p("C16","Index definitions are well formed when accepted","In an accepted document every index definition is non-empty, names only columns of its table and has at most one of primary key, unique and type. No unique index repeats the column and expression set of an earlier unique index or unique column of the table, no typed index repeats the column list and type of an earlier typed one, and an index without settings does not repeat the column list of an earlier index that is typed or without settings.","every document accepted by checked parsing",
  "few samples; duplicates may be any distance apart",[AN],[("indexes block validation",AN)],["parse_dbml Ok"])
p("C17","Type arguments fit the type when accepted","In an accepted document arguments on a built-in type are given only to types that take them, in the required number (one for char, varchar, bit, varbit and the time types, two for decimal), and are integers.","every document accepted by checked parsing",
  "few samples per type",[AN,"src/ast/table.rs"],[("column type validation",AN)],["parse_dbml Ok"])
p("C18","Default values fit the column when accepted","In an accepted document a default is consistent with its column: a string default of a bit or char type has exactly the declared length and of a varbit or varchar type at most that length (in characters), an integer default of smallint or integer type is in range, a boolean default is only on a boolean type, a null default only on a column marked null, and the default of a column whose type is not built in is a value of that declared enum.","every document accepted by checked parsing",
  "tests have one sample per rule and none at the limits",[AN,IX],[("default value validation",AN),("lookup_enum_values",IX)],["parse_dbml Ok"])
p("C19","Ref endpoints resolve and agree when accepted","In an accepted document each endpoint of every ref, inline refs included, denotes an existing table (by name and schema, default public, or by alias) and existing columns of it; both sides have the same number of columns and pairwise the same type, arguments and array dimensions. Types that are not built in agree only if they name the same enum of the same schema.","every document accepted by checked parsing",
  "alias, default schema and composite spellings are hardly tested",[IX],[("validate_ref_type",IX),("lookup_table_fields",IX),("resolve_ref_alias",IX)],["parse_dbml Ok"])
p("C20","Ref targets are keys when accepted","In an accepted document the '<' ref has a key on its left, '>' on its right, '-' on at least one side and '<>' on both sides, where a key is a column marked primary key or unique, or an index over exactly those columns (in any order, no expressions) that is primary key or unique.","every document accepted by checked parsing",
  "few samples",[IX],[("validate_ref_type",IX),("is_valid_composite",IX)],["parse_dbml Ok"])
p("C21","No two accepted refs conflict","In an accepted document no two refs, block or inline, give the same column set of the same table two foreign keys (the left side of '>' and the right side of '<'), and no two one-to-one refs and no two many-to-many refs relate the same two endpoints. Endpoints are compared after resolving aliases and the default schema.","every document accepted by checked parsing",
  "conflicts may be far apart and spelled differently",[IX,AN],[("occupy_same_column",IX),("conflict count",AN)],["parse_dbml Ok"])
p("C22","Every rejection is justified and points at the offender","When checked parsing rejects a syntactically valid document, the document really breaks the rule its message names, so a document that breaks no rule is accepted; the error's location is that of the offending element, not of an unrelated one.","every document rejected by checked parsing after unchecked parsing succeeded",
  "tests contain six accepted documents and only check that the rejected ones are rejected",[AN,IX,HE,ER],[("throw_err call sites",AN),("throw_err call sites",IX)],["parse_dbml Err: message and location"])
p("C23","Keyword vocabularies are exact","Converting text to a column type, relation, referential action, index type, literal word or database type accepts exactly the documented spellings and maps each to its own meaning; converting a referential action to text and back gives the same action, and a literal's text form is its content.","every string",
  "tests reach some spellings only",["src/ast/table.rs","src/ast/refs.rs","src/ast/indexes.rs","src/ast/unit.rs","src/ast/project.rs"],[("FromStr/ToString impls","src/ast")],["FromStr and ToString of the public enums"])
p("C24","A table's relations are partitioned correctly","For an analyzed document, the relations reported for a table are exactly the document's refs, block and inline, that have the table as an endpoint: as self-references if both endpoints are the table, as outgoing if only the left one is and as incoming if only the right one is, in source order. Endpoints and the table are compared after resolving aliases and the default schema.","every accepted document and every table",
  "no test calls it",["src/utils/mod.rs",IX,AN],[("get_table_refs","src/utils/mod.rs"),("IndexedRef::from_inline",IX),("analyze: indexed_refs",AN)],["get_table_refs"],"cfg(dbml_verif) re-export of analyze and get_table_refs")
p("C25","Comments and layout do not change meaning","Adding, removing or changing comments, blanks and line breaks between tokens changes neither whether a document is accepted nor the parsed tree apart from spans and raw texts.","every pair of documents that differ only in layout",
  "tests compare no pairs of documents",[G],[("implicit WHITESPACE and COMMENT",G)],["parse_dbml_unchecked"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), max(len(x['title']) for x in P), [x['id'] for x in P if x['statement'].count('. ')>2])
