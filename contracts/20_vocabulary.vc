## Vocabularies: which texts each word list accepts and what they mean.
@spec
pub open spec fn relation_of(s: Seq<char>) -> Option<Relation> {
  if s == "<"@ { Some(Relation::One2Many) } else if s == ">"@ { Some(Relation::Many2One) } else if s == "-"@ { Some(Relation::One2One) } else if s == "<>"@ { Some(Relation::Many2Many) } else { None }
}
pub open spec fn action_of(s: Seq<char>) -> Option<ReferentialAction> {
  if s == "no action"@ { Some(ReferentialAction::NoAction) } else if s == "cascade"@ { Some(ReferentialAction::Cascade) } else if s == "restrict"@ { Some(ReferentialAction::Restrict) }
  else if s == "set null"@ { Some(ReferentialAction::SetNull) } else if s == "set default"@ { Some(ReferentialAction::SetDefault) } else { None }
}
pub open spec fn action_text(a: ReferentialAction) -> Seq<char> {
  match a { ReferentialAction::NoAction => "no action"@, ReferentialAction::Cascade => "cascade"@, ReferentialAction::Restrict => "restrict"@, ReferentialAction::SetNull => "set null"@, ReferentialAction::SetDefault => "set default"@ }
}
/// text form and back gives the same action
pub proof fn lemma_action_round_trip(a: ReferentialAction) ensures action_of(action_text(a)) == Some(a) {
  reveal_strlit("no action"); reveal_strlit("cascade"); reveal_strlit("restrict"); reveal_strlit("set null"); reveal_strlit("set default");
  assert("no action"@[0] == 'n' && "no action"@[4] == 'c'); assert("cascade"@[0] == 'c' && "cascade"@[4] == 'a'); assert("restrict"@[0] == 'r' && "restrict"@[4] == 'r'); assert("set null"@[0] == 's' && "set null"@[4] == 'n'); assert("set default"@[0] == 's' && "set default"@[4] == 'd');
}
pub open spec fn index_type_of(s: Seq<char>) -> Option<IndexesType> {
  if s == "btree"@ { Some(IndexesType::BTree) } else if s == "gin"@ { Some(IndexesType::Gin) } else if s == "gist"@ { Some(IndexesType::Gist) } else if s == "hash"@ { Some(IndexesType::Hash) } else { None }
}
pub open spec fn is_database_type(v: DatabaseType, s: Seq<char>) -> bool {
  if s == "PostgreSQL"@ { v == DatabaseType::PostgreSQL } else { v matches DatabaseType::Unknown(t) && t@ == s }
}
pub open spec fn column_type_of(s: Seq<char>) -> Option<ColumnTypeName> {
  if s == "bit"@ { Some(ColumnTypeName::Bit) }
  else if s == "varbit"@ || s == "bit varying"@ { Some(ColumnTypeName::Varbit) }
  else if s == "char"@ || s == "character"@ { Some(ColumnTypeName::Char) }
  else if s == "varchar"@ || s == "character varying"@ { Some(ColumnTypeName::VarChar) }
  else if s == "box"@ { Some(ColumnTypeName::Box) }
  else if s == "cidr"@ { Some(ColumnTypeName::Cidr) }
  else if s == "circle"@ { Some(ColumnTypeName::Circle) }
  else if s == "inet"@ { Some(ColumnTypeName::Inet) }
  else if s == "line"@ { Some(ColumnTypeName::Line) }
  else if s == "lseg"@ { Some(ColumnTypeName::LineSegment) }
  else if s == "macaddr"@ { Some(ColumnTypeName::MacAddr) }
  else if s == "macaddr8"@ { Some(ColumnTypeName::MacAddr8) }
  else if s == "money"@ { Some(ColumnTypeName::Money) }
  else if s == "path"@ { Some(ColumnTypeName::Path) }
  else if s == "pg_lsn"@ { Some(ColumnTypeName::PGLongSequenceNumber) }
  else if s == "pg_snapshot"@ { Some(ColumnTypeName::PGSnapshot) }
  else if s == "point"@ { Some(ColumnTypeName::Point) }
  else if s == "polygon"@ { Some(ColumnTypeName::Polygon) }
  else if s == "tsquery"@ { Some(ColumnTypeName::TSQuery) }
  else if s == "tsvector"@ { Some(ColumnTypeName::TSVector) }
  else if s == "smallserial"@ || s == "serial2"@ { Some(ColumnTypeName::SmallSerial) }
  else if s == "serial"@ || s == "serial4"@ { Some(ColumnTypeName::Serial) }
  else if s == "bigserial"@ || s == "serial8"@ { Some(ColumnTypeName::BigSerial) }
  else if s == "smallint"@ || s == "int2"@ { Some(ColumnTypeName::SmallInt) }
  else if s == "integer"@ || s == "int"@ || s == "int4"@ { Some(ColumnTypeName::Integer) }
  else if s == "bigint"@ || s == "int8"@ { Some(ColumnTypeName::BigInt) }
  else if s == "real"@ || s == "float4"@ { Some(ColumnTypeName::Real) }
  else if s == "double precision"@ || s == "float8"@ { Some(ColumnTypeName::DoublePrecision) }
  else if s == "bool"@ || s == "boolean"@ { Some(ColumnTypeName::Bool) }
  else if s == "bytea"@ { Some(ColumnTypeName::ByteArray) }
  else if s == "date"@ { Some(ColumnTypeName::Date) }
  else if s == "text"@ { Some(ColumnTypeName::Text) }
  else if s == "time"@ || s == "time without time zone"@ { Some(ColumnTypeName::Time) }
  else if s == "timetz"@ || s == "time with time zone"@ { Some(ColumnTypeName::Timetz) }
  else if s == "timestamp"@ || s == "timestamp without time zone"@ { Some(ColumnTypeName::Timestamp) }
  else if s == "timestamptz"@ || s == "timestamp with time zone"@ { Some(ColumnTypeName::Timestamptz) }
  else if s == "uuid"@ { Some(ColumnTypeName::Uuid) }
  else if s == "json"@ { Some(ColumnTypeName::Json) }
  else if s == "jsonb"@ { Some(ColumnTypeName::Jsonb) }
  else if s == "decimal"@ || s == "numeric"@ { Some(ColumnTypeName::Decimal) }
  else if s == "xml"@ { Some(ColumnTypeName::Xml) }
  else { None }
}
/// the setting names are different words
pub proof fn lemma_keys()
  ensures "update"@ != "delete"@, "update"@ != "unique"@, "update"@ != "pk"@, "update"@ != "primary key"@, "update"@ != "null"@, "update"@ != "not null"@, "update"@ != "increment"@, "update"@ != "default"@, "update"@ != "note"@, "update"@ != "type"@, "update"@ != "name"@, "update"@ != "database_type"@, "delete"@ != "unique"@, "delete"@ != "pk"@, "delete"@ != "primary key"@, "delete"@ != "null"@, "delete"@ != "not null"@, "delete"@ != "increment"@, "delete"@ != "default"@, "delete"@ != "note"@, "delete"@ != "type"@, "delete"@ != "name"@, "delete"@ != "database_type"@, "unique"@ != "pk"@, "unique"@ != "primary key"@, "unique"@ != "null"@, "unique"@ != "not null"@, "unique"@ != "increment"@, "unique"@ != "default"@, "unique"@ != "note"@, "unique"@ != "type"@, "unique"@ != "name"@, "unique"@ != "database_type"@, "pk"@ != "primary key"@, "pk"@ != "null"@, "pk"@ != "not null"@, "pk"@ != "increment"@, "pk"@ != "default"@, "pk"@ != "note"@, "pk"@ != "type"@, "pk"@ != "name"@, "pk"@ != "database_type"@, "primary key"@ != "null"@, "primary key"@ != "not null"@, "primary key"@ != "increment"@, "primary key"@ != "default"@, "primary key"@ != "note"@, "primary key"@ != "type"@, "primary key"@ != "name"@, "primary key"@ != "database_type"@, "null"@ != "not null"@, "null"@ != "increment"@, "null"@ != "default"@, "null"@ != "note"@, "null"@ != "type"@, "null"@ != "name"@, "null"@ != "database_type"@, "not null"@ != "increment"@, "not null"@ != "default"@, "not null"@ != "note"@, "not null"@ != "type"@, "not null"@ != "name"@, "not null"@ != "database_type"@, "increment"@ != "default"@, "increment"@ != "note"@, "increment"@ != "type"@, "increment"@ != "name"@, "increment"@ != "database_type"@, "default"@ != "note"@, "default"@ != "type"@, "default"@ != "name"@, "default"@ != "database_type"@, "note"@ != "type"@, "note"@ != "name"@, "note"@ != "database_type"@, "type"@ != "name"@, "type"@ != "database_type"@, "name"@ != "database_type"@
{ reveal_strlit("update"); reveal_strlit("delete"); reveal_strlit("unique"); reveal_strlit("pk"); reveal_strlit("primary key"); reveal_strlit("null"); reveal_strlit("not null"); reveal_strlit("increment"); reveal_strlit("default"); reveal_strlit("note"); reveal_strlit("type"); reveal_strlit("name"); reveal_strlit("database_type"); assert("update"@[0] == 'u' && "update"@[1] == 'p'); assert("delete"@.len() == 6 && "delete"@[0] == 'd' && "delete"@[1] == 'e'); assert("unique"@[0] == 'u' && "unique"@[1] == 'n'); assert("pk"@[0] == 'p' && "pk"@[1] == 'k'); assert("primary key"@[0] == 'p' && "primary key"@[1] == 'r'); assert("null"@.len() == 4 && "null"@[0] == 'n' && "null"@[1] == 'u'); assert("not null"@.len() == 8 && "not null"@[0] == 'n' && "not null"@[1] == 'o'); assert("increment"@[0] == 'i' && "increment"@[1] == 'n'); assert("default"@.len() == 7 && "default"@[0] == 'd' && "default"@[1] == 'e'); assert("note"@.len() == 4 && "note"@[0] == 'n' && "note"@[1] == 'o'); assert("type"@[0] == 't' && "type"@[1] == 'y'); assert("name"@.len() == 4 && "name"@[0] == 'n' && "name"@[1] == 'a'); assert("database_type"@[0] == 'd' && "database_type"@[1] == 'a'); }

@fn Relation::from_str
ensures [C23 C07]: r is Ok <==> relation_of(s@) is Some
ensures [C23 C07]: r matches Ok(v) ==> relation_of(s@) == Some(v)
@hint Relation::from_str:start
proof { reveal_strlit("<"); reveal_strlit(">"); reveal_strlit("-"); reveal_strlit("<>"); }
@fn ReferentialAction::from_str
ensures [C23 C06]: r is Ok <==> action_of(s@) is Some
ensures [C23 C06]: r matches Ok(v) ==> action_of(s@) == Some(v)
@hint ReferentialAction::from_str:start
proof { reveal_strlit("no action"); reveal_strlit("cascade"); reveal_strlit("restrict"); reveal_strlit("set null"); reveal_strlit("set default"); }
@fn ReferentialAction::to_string
ensures [C23]: r@ == action_text(*self)
ensures [C23]: action_of(r@) == Some(*self)
@hint ReferentialAction::to_string:start
proof { lemma_action_round_trip(*self); }
@fn IndexesType::from_str
ensures [C23 C06]: r is Ok <==> index_type_of(s@) is Some
ensures [C23 C06]: r matches Ok(v) ==> index_type_of(s@) == Some(v)
@hint IndexesType::from_str:start
proof { reveal_strlit("btree"); reveal_strlit("gin"); reveal_strlit("gist"); reveal_strlit("hash"); }
@fn DatabaseType::from_str
ensures [C23 C06]: r matches Ok(v) && is_database_type(v, s@)
@fn Value::from_str
ensures [C23 C05]: r is Ok <==> word_value(s@) is Some
ensures [C23 C05]: r matches Ok(v) ==> word_value(s@) == Some(v)
@hint Value::from_str:start
proof { reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("null"); }
@fn Value::to_string
ensures [C23 C06]: r@ == value_string(*self)
@fn ColumnTypeName::from_str
ensures [C23]: r is Ok <==> column_type_of(s@) is Some
ensures [C23]: r matches Ok(v) ==> column_type_of(s@) == Some(v)
@hint ColumnTypeName::from_str:start
proof { reveal_strlit("bit"); reveal_strlit("varbit"); reveal_strlit("bit varying"); reveal_strlit("char"); reveal_strlit("character"); reveal_strlit("varchar"); reveal_strlit("character varying"); reveal_strlit("box"); reveal_strlit("cidr"); reveal_strlit("circle"); reveal_strlit("inet"); reveal_strlit("line"); reveal_strlit("lseg"); reveal_strlit("macaddr"); reveal_strlit("macaddr8"); reveal_strlit("money"); reveal_strlit("path"); reveal_strlit("pg_lsn"); reveal_strlit("pg_snapshot"); reveal_strlit("point"); reveal_strlit("polygon"); reveal_strlit("tsquery"); reveal_strlit("tsvector"); reveal_strlit("smallserial"); reveal_strlit("serial2"); reveal_strlit("serial"); reveal_strlit("serial4"); reveal_strlit("bigserial"); reveal_strlit("serial8"); reveal_strlit("smallint"); reveal_strlit("int2"); reveal_strlit("integer"); reveal_strlit("int"); reveal_strlit("int4"); reveal_strlit("bigint"); reveal_strlit("int8"); reveal_strlit("real"); reveal_strlit("float4"); reveal_strlit("double precision"); reveal_strlit("float8"); reveal_strlit("bool"); reveal_strlit("boolean"); reveal_strlit("bytea"); reveal_strlit("date"); reveal_strlit("text"); reveal_strlit("time"); reveal_strlit("time without time zone"); reveal_strlit("timetz"); reveal_strlit("time with time zone"); reveal_strlit("timestamp"); reveal_strlit("timestamp without time zone"); reveal_strlit("timestamptz"); reveal_strlit("timestamp with time zone"); reveal_strlit("uuid"); reveal_strlit("json"); reveal_strlit("jsonb"); reveal_strlit("decimal"); reveal_strlit("numeric"); reveal_strlit("xml"); }
