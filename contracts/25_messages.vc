## What the errors of the checked parser say.
@spec
#[verifier::opaque] pub open spec fn key_err_text(e: InvalidForeignKeyErr) -> Seq<char> {
  match e {
    InvalidForeignKeyErr::NitherUniqueKeyNorPrimaryKey => "the referenced column is neither a primary key or a unique key"@,
    InvalidForeignKeyErr::NitherUniqueKeyNorPrimaryKeyComposite => "the referenced column is neither a composite primary key or a composite unique key"@,
    InvalidForeignKeyErr::One2One => "either side of the one-to-one relation must be a primary key or a unique key"@,
    InvalidForeignKeyErr::One2OneComposite => "either side of the composite one-to-one relation must be a composite primary key or a composite unique key"@,
    InvalidForeignKeyErr::Many2Many => "both sides of the many-to-many relation must be a primary key or a unique key"@,
    InvalidForeignKeyErr::Many2ManyComposite => "both sides of the composite many-to-many relation must be either a composite primary key or a composite unique key"@,
  }
}
#[verifier::opaque] pub open spec fn err_msg(e: AErr) -> Seq<char> {
  match e {
    AErr::NullablePrimaryKey => "Nullable primary key: a nullable primary is not allowed"@,
    AErr::ArrayPrimaryKey => "Array primary key: an array with primary is not allowed"@,
    AErr::InvalidIndexesSetting => "Invalid indexes setting: can specify either 'pk', 'unique', or 'type' within a setting"@,
    AErr::DuplicateAttributeKey => "Duplicate attribute key"@,
    AErr::DuplicatePropertyKey => "Duplicate property key"@,
    AErr::DuplicateProjectSetting => "Duplicate project setting"@,
    AErr::DuplicatePrimaryKey => "Duplicate primary key"@,
    AErr::DuplicateUniqueKey => "Duplicate unique key"@,
    AErr::DuplicateIndexKey => "Duplicate index key"@,
    AErr::DuplicateTableName => "Duplicate table name"@,
    AErr::DuplicateColumnName => "Duplicate column name"@,
    AErr::ConflictRelation => "Conflict relation"@,
    AErr::DuplicateEnumName => "Duplicate enum name"@,
    AErr::DuplicateEnumValue => "Duplicate enum value"@,
    AErr::DuplicateTableGroupName => "Duplicate table group name"@,
    AErr::DuplicateTableGroupItem => "Duplicate table group item"@,
    AErr::DuplicateAlias => "Duplicate alias"@,
    AErr::ConflictNullableSetting => "Conflict nullable setting: 'null' and 'not null' must not appear within the same setting"@,
    AErr::ProjectSettingNotFound => "Project setting not found"@,
    AErr::EmptyIndexesBlock => "Empty indexes block"@,
    AErr::InvalidEnum => "Invalid enum"@,
    AErr::InvalidDataType => "Invalid data type"@,
    AErr::InvalidDataTypeArguments { raw_type, n_arg } => "Invalid data type arguments: '"@ + raw_type@ + "' requires only "@ + u32_string(n_arg) + " argument(s)"@,
    AErr::InvalidArgumentValue => "Invalid argument value: the value for the argument is not integer"@,
    AErr::InvalidDefaultValue { raw_value, raw_type } => "Invalid default value: the defualt value '"@ + raw_value@ + "' is not associated with '"@ + raw_type@ + "'"@,
    AErr::DefaultNullInNonNullable => "Default null in non-nullable: the default value cannot be null in non-nullable field"@,
    AErr::DataTypeExceeded { raw_type } => "Data type exceeded: the default value exceeds the maximum value of '"@ + raw_type@ + "'"@,
    AErr::TableGroupNotFound => "Table group not found"@,
    AErr::SchemaNotFound => "Schema not found"@,
    AErr::TableNotFound => "Table not found"@,
    AErr::ColumnNotFound => "Column not found"@,
    AErr::EnumNotFound => "Enum not found"@,
    AErr::EnumValueNotFound => "Enum value not found"@,
    AErr::MismatchedForeignKeyType { r_ident, l_ident, r_type, l_type } => "Mismatched foreign key type: '"@ + l_ident@ + "': '"@ + l_type@ + "' (left) and '"@ + r_ident@ + "': '"@ + r_type@ + "' (right) are incompatible"@,
    AErr::InvalidForeignKey { err } => "Invalid foreign key: "@ + key_err_text(err),
    AErr::MismatchedCompositeForeignKey => "Mismatched composite foreign key"@,
  }
}
/// the rule a message names, read off its first letters
pub open spec fn named_rule(t: Seq<char>) -> int { if t[10] == ' ' { if t[0] == 'C' { 30 } else if t[0] == 'E' { 32 } else if t[0] == 'M' { if t[11] == 'c' { 35 } else if t[11] == 'f' { 33 } else { -1 } } else if t[0] == 'S' { 28 } else { -1 } } else if t[10] == 'a' { if t[11] == 'l' { 16 } else if t[11] == 'r' { 1 } else if t[11] == 't' { 3 } else { -1 } } else if t[10] == 'c' { 10 } else if t[10] == 'd' { 2 } else if t[10] == 'e' { if t[15] == 'd' { 26 } else if t[15] == 'n' { 12 } else if t[15] == 'o' { 11 } else if t[15] == 'v' { 13 } else { -1 } } else if t[10] == 'f' { if t[0] == 'I' { 24 } else if t[0] == 'T' { 29 } else { -1 } } else if t[10] == 'g' { 23 } else if t[10] == 'i' { 8 } else if t[10] == 'l' { 25 } else if t[10] == 'o' { 31 } else if t[10] == 'p' { if t[13] == 'j' { 5 } else if t[13] == 'm' { 6 } else if t[13] == 'o' { 27 } else if t[13] == 'p' { 4 } else { -1 } } else if t[10] == 'r' { if t[0] == 'I' { 34 } else if t[0] == 'N' { 0 } else { -1 } } else if t[10] == 't' { if t[0] == 'D' { if t[16] == 'g' { if t[22] == 'i' { 15 } else if t[22] == 'n' { 14 } else { -1 } } else if t[16] == 'n' { 9 } else { -1 } } else if t[0] == 'I' { if t.len() == 17 { 21 } else { 22 } } else if t[0] == 'P' { 18 } else { -1 } } else if t[10] == 'u' { if t[0] == 'C' { 17 } else if t[0] == 'D' { 7 } else if t[0] == 'I' { 20 } else { -1 } } else if t[10] == 'x' { 19 } else { -1 } }
pub open spec fn rule_no(e: AErr) -> int {
  match e { AErr::NullablePrimaryKey => 0, AErr::ArrayPrimaryKey => 1, AErr::InvalidIndexesSetting => 2, AErr::DuplicateAttributeKey => 3, AErr::DuplicatePropertyKey => 4, AErr::DuplicateProjectSetting => 5, AErr::DuplicatePrimaryKey => 6, AErr::DuplicateUniqueKey => 7, AErr::DuplicateIndexKey => 8, AErr::DuplicateTableName => 9, AErr::DuplicateColumnName => 10, AErr::ConflictRelation => 11, AErr::DuplicateEnumName => 12, AErr::DuplicateEnumValue => 13, AErr::DuplicateTableGroupName => 14, AErr::DuplicateTableGroupItem => 15, AErr::DuplicateAlias => 16, AErr::ConflictNullableSetting => 17, AErr::ProjectSettingNotFound => 18, AErr::EmptyIndexesBlock => 19, AErr::InvalidEnum => 20, AErr::InvalidDataType => 21, AErr::InvalidDataTypeArguments { .. } => 22, AErr::InvalidArgumentValue => 23, AErr::InvalidDefaultValue { .. } => 24, AErr::DefaultNullInNonNullable => 25, AErr::DataTypeExceeded { .. } => 26, AErr::TableGroupNotFound => 27, AErr::SchemaNotFound => 28, AErr::TableNotFound => 29, AErr::ColumnNotFound => 30, AErr::EnumNotFound => 31, AErr::EnumValueNotFound => 32, AErr::MismatchedForeignKeyType { .. } => 33, AErr::InvalidForeignKey { .. } => 34, AErr::MismatchedCompositeForeignKey => 35 }
}
#[verifier::spinoff_prover] pub proof fn lemma_message_names_rule(e: AErr)
  ensures named_rule(err_msg(e)) == rule_no(e)
{
  reveal(err_msg);
  match e {
    AErr::NullablePrimaryKey => { reveal_strlit("Nullable primary key: a nullable primary is not allowed"); }
    AErr::ArrayPrimaryKey => { reveal_strlit("Array primary key: an array with primary is not allowed"); }
    AErr::InvalidIndexesSetting => { reveal_strlit("Invalid indexes setting: can specify either 'pk', 'unique', or 'type' within a setting"); }
    AErr::DuplicateAttributeKey => { reveal_strlit("Duplicate attribute key"); }
    AErr::DuplicatePropertyKey => { reveal_strlit("Duplicate property key"); }
    AErr::DuplicateProjectSetting => { reveal_strlit("Duplicate project setting"); }
    AErr::DuplicatePrimaryKey => { reveal_strlit("Duplicate primary key"); }
    AErr::DuplicateUniqueKey => { reveal_strlit("Duplicate unique key"); }
    AErr::DuplicateIndexKey => { reveal_strlit("Duplicate index key"); }
    AErr::DuplicateTableName => { reveal_strlit("Duplicate table name"); }
    AErr::DuplicateColumnName => { reveal_strlit("Duplicate column name"); }
    AErr::ConflictRelation => { reveal_strlit("Conflict relation"); }
    AErr::DuplicateEnumName => { reveal_strlit("Duplicate enum name"); }
    AErr::DuplicateEnumValue => { reveal_strlit("Duplicate enum value"); }
    AErr::DuplicateTableGroupName => { reveal_strlit("Duplicate table group name"); }
    AErr::DuplicateTableGroupItem => { reveal_strlit("Duplicate table group item"); }
    AErr::DuplicateAlias => { reveal_strlit("Duplicate alias"); }
    AErr::ConflictNullableSetting => { reveal_strlit("Conflict nullable setting: 'null' and 'not null' must not appear within the same setting"); }
    AErr::ProjectSettingNotFound => { reveal_strlit("Project setting not found"); }
    AErr::EmptyIndexesBlock => { reveal_strlit("Empty indexes block"); }
    AErr::InvalidEnum => { reveal_strlit("Invalid enum"); }
    AErr::InvalidDataType => { reveal_strlit("Invalid data type"); }
    AErr::InvalidDataTypeArguments { .. } => { reveal_strlit("Invalid data type arguments: '"); }
    AErr::InvalidArgumentValue => { reveal_strlit("Invalid argument value: the value for the argument is not integer"); }
    AErr::InvalidDefaultValue { .. } => { reveal_strlit("Invalid default value: the defualt value '"); }
    AErr::DefaultNullInNonNullable => { reveal_strlit("Default null in non-nullable: the default value cannot be null in non-nullable field"); }
    AErr::DataTypeExceeded { .. } => { reveal_strlit("Data type exceeded: the default value exceeds the maximum value of '"); }
    AErr::TableGroupNotFound => { reveal_strlit("Table group not found"); }
    AErr::SchemaNotFound => { reveal_strlit("Schema not found"); }
    AErr::TableNotFound => { reveal_strlit("Table not found"); }
    AErr::ColumnNotFound => { reveal_strlit("Column not found"); }
    AErr::EnumNotFound => { reveal_strlit("Enum not found"); }
    AErr::EnumValueNotFound => { reveal_strlit("Enum value not found"); }
    AErr::MismatchedForeignKeyType { .. } => { reveal_strlit("Mismatched foreign key type: '"); }
    AErr::InvalidForeignKey { .. } => { reveal_strlit("Invalid foreign key: "); }
    AErr::MismatchedCompositeForeignKey => { reveal_strlit("Mismatched composite foreign key"); }
  }
}
/// no two rules share a message
pub proof fn lemma_messages_differ(a: AErr, b: AErr) requires err_msg(a) == err_msg(b) ensures rule_no(a) == rule_no(b)
{ lemma_message_names_rule(a); lemma_message_names_rule(b); }
@fn AErr::to_string
ensures [C22]: r@ == err_msg(*self)
@hint AErr::to_string:start
proof { reveal(err_msg); }
@fn InvalidForeignKeyErr::to_string
ensures [C22]: r@ == key_err_text(*self)
@hint InvalidForeignKeyErr::to_string:start
proof { reveal(key_err_text); }
