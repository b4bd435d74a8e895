P, A, I, T, U = 'src/parser/mod.rs', 'src/analyzer/mod.rs', 'src/analyzer/indexer.rs', 'src/ast/table.rs', 'src/utils/mod.rs'
H = 'src/analyzer/helper.rs'
SEEDS = [
 dict(id='c01-remove-order', property='C01', needs='a schema-qualified ref endpoint', breaks='reads the schema token after the table token was removed: the parser panics',
  edits=[(P, "out.schema = Some(tmp_tokens.remove(0));\n      out.table = tmp_tokens.remove(0);", "out.table = tmp_tokens.remove(1);\n      out.schema = out.compositions.first().and_then(|_| Some(tmp_tokens.remove(out.compositions.len() - 1)));")],
  demo='fn main() { let t = tree("Ref: a.b.(c, d) > e.f.(g, h)"); let _ = t; }\n'),
 dict(id='c04-alias-rhs', property='C07', needs='a left endpoint whose table name is the empty quoted name', breaks='the right endpoint overwrites the left one',
  edits=[(P, "if acc.rel == Relation::Undef {", "if acc.lhs.table.to_string.is_empty() {")],
  demo='fn main() { let t = tree("Ref: \\"\\".a > b.c"); let r = t.refs()[0].clone(); assert_eq!(r.lhs.table.to_string, ""); assert_eq!(r.rhs.table.to_string, "b"); }\n'),
 dict(id='c05-array-size', property='C05', needs='an array size that does not fit 32 bits', breaks='the size is wrapped instead of reported',
  edits=[(P, "match p3.as_str().parse::<u32>() {\n                      Ok(val) => Some(val),", "match p3.as_str().parse::<u64>() {\n                      Ok(val) => Some(val as u32),")],
  demo='fn main() { assert!(parse_dbml_unchecked("Table t { a int[4294967297] }").is_err()); }\n'),
 dict(id='c06-delete-action', property='C06', needs='a delete action followed by an update setting without an action word', breaks='an update setting that names no action clears the delete action',
  edits=[(P, "                  Err(msg) => throw_msg(msg, p1)?,\n                }\n              }\n              _ => None,\n            }\n          }\n          \"delete\" => {", "                  Err(msg) => throw_msg(msg, p1)?,\n                }\n              }\n              _ => acc.on_delete.take().and(None),\n            }\n          }\n          \"delete\" => {")],
  demo='fn main() { let t = tree("Ref: a.b > c.d [delete: cascade, update: \'x\']"); let s = t.refs()[0].settings.clone().unwrap(); assert!(s.on_delete.is_some()); assert!(s.on_update.is_none()); }\n'),
 dict(id='c11-alias-schema', property='C11', needs='two tables of different schemas with the same alias', breaks='an alias may be declared twice',
  edits=[(I, "if let Some(_) = self\n          .table_alias_map", "if let Some((s, _)) = self\n          .table_alias_map"), (I, "          throw_err(Err::DuplicateAlias, &alias.span_range, input)?;", "          if s == schema {\n            throw_err(Err::DuplicateAlias, &alias.span_range, input)?;\n          }")],
  demo='fn main() { rejected("Table a as x { i int }\\nTable s.b as x { i int }"); accepted("Table a as x { i int }\\nTable s.b as y { i int }"); }\n'),
 dict(id='c13-adjacent', property='C13', needs='a duplicate key that does not follow its first occurrence directly', breaks='only neighbouring attributes are compared',
  edits=[(H, "let mut acc = BTreeSet::new();\n  let dup_keys: Vec<_> = attrs\n    .iter()\n    .filter(|attr| !acc.insert(&attr.key.to_string))\n    .cloned()\n    .collect();\n\n  // TODO: handle multiple errs\n  if let Some(attr) =", "let mut acc = BTreeSet::new();\n  let dup_keys: Vec<_> = attrs\n    .iter()\n    .filter(|attr| {\n      let dup = acc.contains(&attr.key.to_string);\n      acc.clear();\n      acc.insert(&attr.key.to_string);\n      dup\n    })\n    .cloned()\n    .collect();\n\n  // TODO: handle multiple errs\n  if let Some(attr) =")],
  demo='fn main() { rejected("Table a { i int [unique, unique] }"); rejected("Table a { i int [unique, not null, unique] }"); accepted("Table a { i int [unique, not null] }"); }\n'),
 dict(id='c14-group-alias-dup', property='C14', needs='a group that lists a table by alias and by its qualified name', breaks='the same table is accepted twice in one group',
  edits=[(I, "Some(ident) => ident.clone(),\n              None => {", "Some((_, name)) => (DEFAULT_SCHEMA.to_string(), name.clone()),\n              None => {")],
  demo='fn main() { rejected("Table s.a as x { i int }\\nTableGroup g { x s.a }"); accepted("Table s.a as x { i int }\\nTable b { i int }\\nTableGroup g { x b }"); }\n'),
 dict(id='c15-pk-block-first', property='C15', needs='a primary key on a column and another one in the indexes block', breaks='two primary keys are accepted',
  edits=[(A, "if settings.is_pk {\n              if !tmp_table_indexer.pk_list.is_empty() {\n                throw_err(Err::DuplicatePrimaryKey, &def.span_range, input)?;", "if settings.is_pk {\n              if tmp_table_indexer.pk_list.len() > 1 {\n                throw_err(Err::DuplicatePrimaryKey, &def.span_range, input)?;")],
  demo='fn main() { rejected("Table a { i int [pk]\\n j int\\n indexes { j [pk] } }"); accepted("Table a { i int\\n j int\\n indexes { j [pk] } }"); }\n'),
 dict(id='c16-typed-order', property='C16', needs='an untyped index after a typed one over the same columns', breaks='an index without settings may repeat the columns of a typed one',
  edits=[(A, ".any(|(idx_item, _)| idx_item == &ident_strings)", ".any(|(idx_item, idx_type)| idx_item == &ident_strings && idx_type.is_none())")],
  demo='fn main() { rejected("Table a { i int\\n indexes { i [type: btree]\\n i } }"); accepted("Table a { i int\\n j int\\n indexes { i [type: btree]\\n j } }"); }\n'),
 dict(id='c17-arg-kinds', property='C17', needs='a decimal with a non-integer second argument', breaks='only the first argument is checked',
  edits=[(A, "if !col.r#type.args.iter().all(|arg| matches!(arg, Value::Integer(_))) {", "if !col.r#type.args.iter().take(1).all(|arg| matches!(arg, Value::Integer(_))) {")],
  demo='fn main() { rejected("Table a { i decimal(10,2.5) }"); accepted("Table a { i decimal(10,2) }"); }\n'),
 dict(id='c18-smallint', property='C18', needs='an integer default beyond smallint but within 16 unsigned bits', breaks='the range of smallint is taken as unsigned',
  edits=[(A, "if (*val > i16::MAX as i64) ||", "if (*val > u16::MAX as i64) ||")],
  demo='fn main() { rejected("Table a { i smallint [default: 40000] }"); accepted("Table a { i smallint [default: 32767] }"); }\n'),
 dict(id='c19-array-dims', property='C19', needs='two array columns of the same dimension count but different sizes', breaks='the sizes of array dimensions are not compared',
  edits=[(I, "|| l_type.arrays != r_type.arrays {", "|| l_type.arrays.len() != r_type.arrays.len() {")],
  demo='fn main() { rejected("Table a { i int[3] [unique] }\\nTable b { i int[4] }\\nRef: b.i > a.i"); accepted("Table a { i int[3] [unique] }\\nTable b { i int[3] }\\nRef: b.i > a.i"); }\n'),
 dict(id='c20-composite-one', property='C20', needs='a composite one-to-many ref whose left side has an index of the right columns that is not unique', breaks='a plain index counts as a key',
  edits=[(I, "&& def_item.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)", "&& def_item.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique || s.r#type == Some(IndexesType::Hash))")],
  demo='fn main() { rejected("Table a { i int\\n j int\\n indexes { (i, j) [type: hash] } }\\nTable b { i int\\n j int }\\nRef: a.(i, j) < b.(i, j)"); accepted("Table a { i int\\n j int\\n indexes { (i, j) [unique] } }\\nTable b { i int\\n j int }\\nRef: a.(i, j) < b.(i, j)"); }\n'),
 dict(id='c21-order', property='C21', needs='the same composite foreign key written twice with its columns in another order', breaks='the columns are compared as lists',
  edits=[(I, "&& eq_elements(\n          lhs.compositions.iter().map(|s| &s.to_string),\n          rhs.compositions.iter().map(|s| &s.to_string),\n        )", "&& lhs.compositions.iter().map(|s| &s.to_string).eq(rhs.compositions.iter().map(|s| &s.to_string))")],
  demo='fn main() { let t = "Table a { i int\\n j int\\n indexes { (i, j) [unique] } }\\nTable b { i int\\n j int }\\n"; rejected(&format!("{t}Ref: b.(i, j) > a.(i, j)\\nRef: b.(j, i) > a.(j, i)")); accepted(&format!("{t}Ref: b.(i, j) > a.(i, j)")); }\n'),
 dict(id='c22-column-span', property='C22', needs='a ref with two unknown columns', breaks='the error points at the last unknown column of the endpoint, not the one named first',
  edits=[(I, "if let Some(first) = unlisted_fields.first() {\n              throw_err(Err::ColumnNotFound, &first.span_range, input)?;", "if let Some(_) = unlisted_fields.first() {\n              throw_err(Err::ColumnNotFound, &table.span_range, input)?;")],
  demo='fn main() { let s = "Project p { }\\nTable a { i int [unique] }\\nRef: a.nope > a.i"; let e = parse_dbml(s).unwrap_err(); let at = s.find("nope").unwrap(); match e.location { dbml_pest(s) => assert_eq!(s, at), } }\n'.replace('match e.location { dbml_pest(s) => assert_eq!(s, at), }', 'assert!(format!("{:?}", e.location).contains(&at.to_string()), "{:?}", e.location);')),
 dict(id='c23-timetz', property='C23', needs='the spelling time with time zone', breaks='it is taken for a type without time zone',
  edits=[(T, '"timetz" | "time with time zone" => Self::Timetz', '"timetz" => Self::Timetz')],
  demo='fn main() { use std::str::FromStr; assert_eq!(ColumnTypeName::from_str("time with time zone"), Ok(ColumnTypeName::Timetz)); }\n'),
 dict(id='c24-self', property='C24', needs='a self-reference written through an alias on the right', breaks='it is reported as outgoing',
  edits=[(U, "let rhs_ident = analyzed_indexer.indexer.resolve_ref_alias(&ref_block.rhs);", "let rhs_ident = if ref_block.settings.is_some() { ref_block.rhs.clone() } else { analyzed_indexer.indexer.resolve_ref_alias(&ref_block.rhs) };")], hook=True,
  demo='fn main() { let s = "Project p { }\\nTable a as x { i int [unique]\\n j int }\\nRef: a.j > x.i [delete: cascade]"; let t = tree(s); let ix = dbml_rs::verif_hooks::analyze(&t).unwrap(); let r = dbml_rs::verif_hooks::get_table_refs(&t.tables()[0].ident, &ix); assert_eq!(r.ref_self.len(), 1); }\n'),
 dict(id='c12-enum-schema', property='C12', needs='an enum declared once without and once with the schema public', breaks='the two are taken for different enums',
  edits=[(I, "      if self.contains_enum(&schema, &name.to_string) {", "      if schema != DEFAULT_SCHEMA && self.contains_enum(&schema, &name.to_string) {")],
  demo='fn main() { rejected("Enum e { a }\\nEnum public.e { b }"); accepted("Enum e { a }\\nEnum s.e { b }"); }\n'),
 dict(id='c10-prop', property='C10', needs='a project that repeats a key with other properties between', breaks='a repeated key is only found next to its first occurrence',
  edits=[(A, "if projects.len() > 1 {", "if projects.len() > 1 && projects[0].ident.to_string == projects[1].ident.to_string {")],
  demo='fn main() { rejected("Project q { }"); accepted("Table a { i int }"); }\n'),
 dict(id='c09-empty-table', property='C09', needs='a table without columns', breaks='tables() leaves it out',
  edits=[('src/ast/schema.rs', "if let TopLevelBlock::Table(table) = block {\n          Some(table)", "if let TopLevelBlock::Table(table) = block {\n          (!table.cols.is_empty()).then_some(table)")],
  demo='fn main() { let t = tree("Table a { i int }\\nTable b { }"); assert_eq!(t.tables().len(), 2); }\n'),
 dict(id='c03-index-repeat', property='C03', needs='an index that names a column twice', breaks='the second occurrence is dropped',
  edits=[(P, "Rule::indexes_ident => acc.cols.push(parse_indexes_ident(p1)?),", "Rule::indexes_ident => {\n        let col = parse_indexes_ident(p1)?;\n        let name = |c: &IndexesColumnType| match c {\n          IndexesColumnType::String(s) => s.to_string.clone(),\n          IndexesColumnType::Expr(e) => e.raw.clone(),\n        };\n        if !acc.cols.iter().any(|c| name(c) == name(&col)) {\n          acc.cols.push(col)\n        }\n      }")],
  demo='fn main() { let t = tree("Table t { a int indexes { (a, a) } }"); assert_eq!(t.tables()[0].indexes.as_ref().unwrap().defs[0].cols.len(), 2); }\n'),
 dict(id='c08-array-zero', property='C08', needs='an array dimension of size zero', breaks='the size is lost',
  edits=[(P, "Ok(val) => Some(val),\n                      Err(err) => throw_msg(err.to_string(), p3)?,", "Ok(val) => Some(val).filter(|n| *n != 0),\n                      Err(err) => throw_msg(err.to_string(), p3)?,")],
  demo='fn main() { let t = tree("Table t { a int[0][] }"); assert_eq!(t.tables()[0].cols[0].r#type.arrays, vec![Some(0), None]); }\n'),
]
S2 = [
 dict(id='b01-default-word', property='C01', needs='a column setting spelled DEFAULT next to a value, in checked parsing', breaks='the parser takes the setting for a default that the analyzer then does not find: it panics',
  edits=[(P, '"default" => acc.default = attr.value.clone().map(|v| v.value),', '"default" | "DEFAULT" => acc.default = attr.value.clone().map(|v| v.value),')],
  demo='fn main() { let _ = checked("Table t { a int [DEFAULT: 1] }"); }\n'),
 dict(id='b02-expr-raw', property='C02', needs='an index expression with blanks just inside the backquotes', breaks='its raw text is not the slice at its span',
  edits=[(P, "raw: p1.as_str().to_string(),\n            value: Value::String(p2.as_str().to_string()),", "raw: format!(\"`{}`\", p2.as_str().trim()),\n            value: Value::String(p2.as_str().to_string()),")],
  demo='fn main() { let s = "Table t { a int indexes { `a  ` } }"; let t = tree(s); match &t.tables()[0].indexes.as_ref().unwrap().defs[0].cols[0] { IndexesColumnType::Expr(e) => assert_eq!(e.raw, s[e.span_range.clone()]), _ => panic!() } }\n'),
 dict(id='b03-empty-name', property='C03', needs='a composite endpoint with a column whose quoted name is empty', breaks='the column is dropped',
  edits=[(P, "Rule::ident => out.compositions.push(parse_ident(p2)?),", "Rule::ident => {\n              let col = parse_ident(p2)?;\n              if col.to_string.len() > 0 {\n                out.compositions.push(col)\n              }\n            }")],
  demo='fn main() { let t = tree("Ref: a.(b, \\"\\") > c.(d, e)"); assert_eq!(t.refs()[0].lhs.compositions.len(), 2); }\n'),
 dict(id='b04-name-trim', property='C04', needs='a quoted name that ends in a blank', breaks='the blank is dropped',
  edits=[(P, "to_string: p1.into_inner().as_str().to_string(),\n      }", "to_string: p1.into_inner().as_str().trim().to_string(),\n      }")],
  demo='fn main() { let t = tree("Table \\"a \\" { b int }"); assert_eq!(t.tables()[0].ident.name.to_string, "a "); }\n'),
 dict(id='b05-wrap', property='C05', needs='an integer between 2^63 and 2^64', breaks='it is wrapped to a negative number',
  edits=[(P, "match p2.as_str().parse::<i64>() {\n            Ok(val) => Ok(Value::Integer(val)),", "match p2.as_str().parse::<u64>() {\n            Ok(val) => Ok(Value::Integer(val as i64)),")],
  demo='fn main() { assert!(parse_dbml_unchecked("Table t { a int [default: 9223372036854775808] }").is_err()); }\n'),
 dict(id='b06-empty-note', property='C06', needs='an enum value with an empty note', breaks='the note is not set',
  edits=[(P, '"note" => settings.note = attr.value.clone().map(|v| v.value.to_string()),', '"note" => settings.note = attr.value.clone().map(|v| v.value.to_string()).filter(|n| n.len() > 0),')],
  demo='fn main() { let t = tree("Enum e { a [note: \'\'] }"); assert_eq!(t.enums()[0].values[0].settings.as_ref().unwrap().note, Some(String::new())); }\n'),
 dict(id='b06-null-last', property='C06', needs='the settings not null and null on one column, in this order', breaks='the first of them wins',
  edits=[(P, '"null" => acc.nullable = Some(Nullable::Null),', '"null" => acc.nullable = acc.nullable.take().or(Some(Nullable::Null)),')],
  demo='fn main() { let t = tree("Table t { a int [not null, null] }"); assert_eq!(t.tables()[0].cols[0].settings.as_ref().unwrap().nullable, Some(Nullable::Null)); }\n'),
 dict(id='b07-schema-name', property='C04', needs='a ref endpoint whose schema and table have the same name', breaks='the schema is dropped',
  edits=[(P, "out.schema = Some(tmp_tokens.remove(0));\n      out.table = tmp_tokens.remove(0);", "let schema = tmp_tokens.remove(0);\n      out.table = tmp_tokens.remove(0);\n      if schema.to_string != out.table.to_string {\n        out.schema = Some(schema);\n      }")],
  demo='fn main() { let t = tree("Ref: a.a.b > c.d"); assert!(t.refs()[0].lhs.schema.is_some()); }\n'),
 dict(id='b08-same-args', property='C08', needs='a type with two equal arguments', breaks='the second one is dropped',
  edits=[(P, "Rule::value => acc.push(parse_value(p1)?),", "Rule::value => {\n        let arg = parse_value(p1)?;\n        if acc.last() != Some(&arg) {\n          acc.push(arg)\n        }\n      }")],
  demo='fn main() { let t = tree("Table t { a decimal(2,2) }"); assert_eq!(t.tables()[0].cols[0].r#type.args.len(), 2); }\n'),
 dict(id='b10-three', property='C10', needs='a document with three projects', breaks='only two projects are reported as too many',
  edits=[(A, "if projects.len() > 1 {", "if projects.len() == 2 {")],
  demo='fn main() { rejected("Project q { }\\nProject r { }"); rejected("Project q { }"); accepted("Table a { i int }"); }\n'),
 dict(id='b11-raw-column', property='C11', needs='a column declared once quoted and once bare', breaks='the two count as different columns',
  edits=[(I, "if !indexed_cols.insert(col.name.to_string.clone()) {", "if !indexed_cols.insert(col.name.to_string.clone()) && table.cols.iter().filter(|c| c.name.raw == col.name.raw).count() > 1 {")],
  demo='fn main() { rejected("Table a { i int\\n \\"i\\" int }"); accepted("Table a { i int\\n \\"j\\" int }"); }\n'),
 dict(id='b12-raw-value', property='C12', needs='an enum value declared once quoted and once bare', breaks='the two count as different values',
  edits=[(I, "if !value_sets.insert(value.value.to_string.clone()) {", "value_sets.insert(value.value.to_string.clone());\n        if r#enum.values.iter().filter(|v| v.value.raw == value.value.raw).count() > 1 {")],
  demo='fn main() { rejected("Enum e { a\\n \\"a\\" }"); accepted("Enum e { a\\n \\"b\\" }"); }\n'),
 dict(id='b13-spaced-key', property='C13', needs='a repeated settings key of several words', breaks='keys of several words may be repeated',
  edits=[(H, "if let Some(attr) = dup_keys.first() {", "if let Some(attr) = dup_keys.iter().find(|a| !a.key.to_string.contains(' ')) {")],
  demo='fn main() { rejected("Table a { i int [not null, not null] }"); accepted("Table a { i int [not null] }"); }\n'),
 dict(id='b14-any-schema', property='C14', needs='an unqualified group item whose table exists only in another schema', breaks='the table of the other schema is taken for it',
  edits=[(I, ".get(DEFAULT_SCHEMA)\n                  .iter()\n                  .any(|item| item.table_map.contains_key(&group_item.ident_alias.to_string));", ".values()\n                  .any(|item| item.table_map.contains_key(&group_item.ident_alias.to_string));")],
  demo='fn main() { rejected("Table s.a { i int }\\nTableGroup g { a }"); accepted("Table s.a { i int }\\nTableGroup g { s.a }"); }\n'),
 dict(id='b15-open-array', property='C15', needs='a primary key on a column with an array dimension without size', breaks='it is accepted',
  edits=[(A, "if !col.r#type.arrays.is_empty() {", "if col.r#type.arrays.iter().any(|size| size.is_some()) {")],
  demo='fn main() { rejected("Table a { i int[] [pk] }"); accepted("Table a { i int [pk] }"); }\n'),
 dict(id='b16-typed-single', property='C16', needs='two hash indexes over the same single column', breaks='single columns are not compared',
  edits=[(A, "idx_item == &ident_strings && idx_type == &settings.r#type", "idx_item.len() > 1 && idx_item == &ident_strings && idx_type == &settings.r#type")],
  demo='fn main() { rejected("Table a { i int\\n indexes { i [type: hash]\\n i [type: hash] } }"); accepted("Table a { i int\\n indexes { i [type: hash]\\n i [type: btree] } }"); }\n'),
 dict(id='b17-decimal-one', property='C17', needs='a decimal with one argument', breaks='it is accepted',
  edits=[(A, "if col.r#type.args.len() != 2 {", "if col.r#type.args.len() > 2 {")],
  demo='fn main() { rejected("Table a { i decimal(3) }"); accepted("Table a { i decimal(3,1) }"); }\n'),
 dict(id='b18-null-unmarked', property='C18', needs='a null default on a column that is marked neither null nor not null', breaks='it is accepted',
  edits=[(A, "s.nullable == Some(Nullable::Null)) {\n                  throw_err(Err::DefaultNull", "s.nullable != Some(Nullable::NotNull)) {\n                  throw_err(Err::DefaultNull")],
  demo='fn main() { rejected("Table a { i int [default: null] }"); accepted("Table a { i int [null, default: null] }"); }\n'),
 dict(id='b19-more-right', property='C19', needs='a composite ref with more columns on the right', breaks='the extra columns are ignored',
  edits=[(I, "if lhs_ident.compositions.len() != rhs_ident.compositions.len() {", "if lhs_ident.compositions.len() == composition_len && rhs_ident.compositions.len() < composition_len {")],
  demo='fn main() { let t = "Table a { i int\\n j int\\n indexes { (i, j) [unique] } }\\nTable b { i int [unique]\\n j int }\\n"; rejected(&format!("{t}Ref: b.i > a.(i, j)")); accepted(&format!("{t}Ref: b.(i, j) > a.(i, j)")); }\n'),
 dict(id='b20-either-key', property='C20', needs='a one-to-many ref whose key is on the right', breaks='a key on the wrong side is enough',
  edits=[(I, "(Relation::One2Many, false, _) => {", "(Relation::One2Many, false, false) => {")],
  demo='fn main() { rejected("Table a { i int }\\nTable b { i int [unique] }\\nRef: a.i < b.i"); accepted("Table a { i int [unique] }\\nTable b { i int }\\nRef: a.i < b.i"); }\n'),
 dict(id='b21-three', property='C21', needs='the same foreign key written three times', breaks='only a pair of conflicting refs is reported',
  edits=[(A, "if count != 1 {", "if count == 2 {")],
  demo='fn main() { let t = "Table a { i int [unique] }\\nTable b { i int }\\n"; rejected(&format!("{t}Ref: b.i > a.i\\nRef: b.i > a.i\\nRef: b.i > a.i")); accepted(&format!("{t}Ref: b.i > a.i")); }\n'),
 dict(id='b22-max-smallint', property='C22', needs='the largest smallint as default of a smallint column', breaks='it is rejected as out of range',
  edits=[(A, "(*val > i16::MAX as i64)", "(*val >= i16::MAX as i64)")],
  demo='fn main() { accepted("Table a { i smallint [default: 32767] }"); rejected("Table a { i smallint [default: 32768] }"); }\n'),
 dict(id='b22-enum-span', property='C22', needs='a default that is no value of its enum', breaks='the error points at the type instead of the default',
  edits=[(A, "throw_err(Err::EnumValueNotFound, &default_value_span, input)?,", "throw_err(Err::EnumValueNotFound, if default_value_span.is_empty() { default_value_span } else { &col.r#type.span_range }, input)?,")],
  demo='fn main() { let s = "Project p { }\\nEnum e { a }\\nTable t { i e [default: \'nope\'] }"; let e = parse_dbml(s).unwrap_err(); let at = s.find("\'nope").unwrap(); assert!(format!("{:?}", e.location).contains(&at.to_string()), "{:?}", e.location); }\n'),
 dict(id='b23-serial8', property='C23', needs='the spelling serial8', breaks='it is taken for serial',
  edits=[(T, '"serial" | "serial4" => Self::Serial,\n      "bigserial" | "serial8" => Self::BigSerial,', '"serial" | "serial4" | "serial8" => Self::Serial,\n      "bigserial" => Self::BigSerial,')],
  demo='fn main() { use std::str::FromStr; assert_eq!(ColumnTypeName::from_str("serial8"), Ok(ColumnTypeName::BigSerial)); }\n'),
 dict(id='b24-quoted-table', property='C24', needs='a table declared with a quoted name and referred to by the bare name', breaks='its relations are not reported',
  edits=[(U, "&& table_ident.name.to_string == ref_ident.table.to_string", "&& table_ident.name.raw == ref_ident.table.raw")], hook=True,
  demo='fn main() { let s = "Project p { }\\nTable \\"a\\" { i int [unique] }\\nTable b { j int }\\nRef: b.j > a.i"; let t = tree(s); let ix = dbml_rs::verif_hooks::analyze(&t).unwrap(); let r = dbml_rs::verif_hooks::get_table_refs(&t.tables()[0].ident, &ix); assert_eq!(r.ref_by.len(), 1); }\n'),
]
SEEDS += S2
E = 'src/analyzer/err.rs'
S3 = [
 dict(id='d22-group-message', property='C22', needs='a table group that lists a table twice', breaks='the message names another rule than the one broken',
  edits=[(E, '#[display(fmt = "Duplicate table group item")]', '#[display(fmt = "Duplicate table group name")]')],
  demo='fn main() { let msg = |s: String| { let e = parse_dbml(&s).unwrap_err().to_string(); e.rsplit("= ").next().unwrap().to_string() };\n  let h = "Project p { }\\nTable a { i int }\\n"; assert_ne!(msg(format!("{h}TableGroup g {{ a a }}")), msg(format!("{h}TableGroup g {{ a }}\\nTableGroup g {{ a }}"))); }\n'),
 dict(id='d22-type-order', property='C22', needs='a ref between columns of different types', breaks='the message gives the left column the type of the right one',
  edits=[(E, "    l_ident,\n    l_type,\n    r_ident,\n    r_type\n", "    l_ident,\n    r_type,\n    r_ident,\n    l_type\n")],
  demo='fn main() { let s = "Project p { }\\nTable a { i int [unique] }\\nTable b { j varchar }\\nRef: b.j > a.i"; let e = format!("{}", parse_dbml(s).unwrap_err()); let l = e.find("(left)").unwrap(); assert!(e[..l].contains("varchar"), "{e}"); assert!(!e[l..].contains("varchar"), "{e}"); }\n'),
]
SEEDS += S3
P = 'src/dbml.pest'
S4 = [
 dict(id='e04-name-tail', property='C04', needs='a quoted name that ends in a blank', breaks='the blank is dropped from the name',
  edits=[(P, 'double_quoted_value = @{ (!"\\"" ~ ANY)* }', 'double_quoted_value = @{ (!(WHITESPACE* ~ "\\"") ~ ANY)* }'), (P, 'WHITESPACE* ~ double_quoted_value ~ "\\"" }', 'WHITESPACE* ~ double_quoted_value ~ WHITESPACE* ~ "\\"" }')],
  demo='fn main() { let t = tree("Table \\"a b \\" { i int }"); assert_eq!(t.tables()[0].ident.name.to_string, "a b "); }\n'),
 dict(id='e05-expr-tail', property='C05', needs='an expression that ends in a blank', breaks='the blank is dropped from the expression',
  edits=[(P, 'backquoted_quoted_value = @{ (!"`" ~ ANY)* }', 'backquoted_quoted_value = @{ (!(WHITESPACE* ~ "`") ~ ANY)* }'), (P, 'WHITESPACE* ~ backquoted_quoted_value ~ "`" }', 'WHITESPACE* ~ backquoted_quoted_value ~ WHITESPACE* ~ "`" }')],
  demo='fn main() { let t = tree("Table a { i int [default: `now() `] }"); assert_eq!(t.tables()[0].cols[0].settings.as_ref().unwrap().default, Some(Value::Expr("now() ".into()))); }\n'),
 dict(id='e05-triple-close', property='C05', needs='two quotes in a row inside a triple-quoted string', breaks='the text is no longer read as one string',
  edits=[(P, '(!"\'\'\'" ~ ANY)*', '(!"\'\'" ~ ANY)*')],
  demo='fn main() { let t = tree("Note: \'\'\'a\'\'b\'\'\'"); match &t.blocks[0] { TopLevelBlock::Note(n) => assert_eq!(n.value.value, Value::String("a\'\'b".into())), _ => panic!() } }\n'),
 dict(id='e05-property-word', property='C05', needs='a project property that is true, false or null', breaks='the property becomes an enum word',
  edits=[(P, 'property = { spaced_var ~ ":" ~ (value | spaced_var) }', 'property = { spaced_var ~ ":" ~ (spaced_var | value) }')],
  demo='fn main() { let t = tree("Project p { strict: true }"); assert_eq!(t.projects()[0].properties[0].value.value, Value::Bool(true)); }\n'),
 dict(id='e03-cr-comment', property='C03', needs='a line comment that ends in a lone carriage return', breaks='the comment swallows the next line',
  edits=[(P, '"//" ~ (!NEWLINE ~ ANY)*', '"//" ~ (!"\\n" ~ ANY)*')],
  demo='fn main() { let t = tree("Table a { i int // first\\r j int\\n k int }"); assert_eq!(t.tables()[0].cols.len(), 3); }\n'),
]
SEEDS += S4
