//! The checker's own picture of a document: built by the generator (expected) or read off the crate's tree (actual).
use dbml_rs::ast as a;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Sp { pub s: usize, pub e: usize }
impl From<&core::ops::Range<usize>> for Sp { fn from(r: &core::ops::Range<usize>) -> Sp { Sp { s: r.start, e: r.end } } }

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Id { pub sp: Sp, pub raw: String, pub name: String }
#[derive(Clone, Debug, PartialEq)]
pub enum Val { Enum(String), Str(String), Int(i64), Dec(f64), Bool(bool), Hex(String), Expr(String), Null }
#[derive(Clone, Debug, PartialEq)]
pub struct Lit { pub sp: Sp, pub raw: String, pub val: Val }
#[derive(Clone, Debug, PartialEq)]
pub struct Attr { pub sp: Sp, pub key: Id, pub val: Option<Lit> }
#[derive(Clone, Debug, PartialEq)]
pub struct Note { pub sp: Sp, pub val: Lit }
#[derive(Clone, Debug, PartialEq)]
pub struct Project { pub sp: Sp, pub ident: Id, pub props: Vec<Attr>, pub db: Option<String>, pub note: Option<Note> }
#[derive(Clone, Debug, PartialEq)]
pub struct Settings { pub sp: Sp, pub attrs: Vec<Attr> }
#[derive(Clone, Debug, PartialEq)]
pub struct ColType { pub sp: Sp, pub raw: String, pub name: String, pub args: Vec<Val>, pub arrays: Vec<Option<u32>> }
#[derive(Clone, Debug, PartialEq)]
pub struct ColSettings { pub sp: Sp, pub attrs: Vec<Attr>, pub pk: bool, pub unique: bool, pub nullable: Option<bool>, pub incr: bool, pub note: Option<String>, pub default: Option<Val>, pub refs: Vec<RefInline> }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rel { Undef, OO, OM, MO, MM }
#[derive(Clone, Debug, PartialEq)]
pub struct RefId { pub sp: Sp, pub schema: Option<Id>, pub table: Id, pub cols: Vec<Id> }
#[derive(Clone, Debug, PartialEq)]
pub struct RefInline { pub sp: Sp, pub rel: Rel, pub rhs: RefId }
#[derive(Clone, Debug, PartialEq)]
pub struct Col { pub sp: Sp, pub name: Id, pub ty: ColType, pub settings: Option<ColSettings> }
#[derive(Clone, Debug, PartialEq)]
pub enum IxCol { Name(Id), Expr(Lit) }
#[derive(Clone, Debug, PartialEq)]
pub struct IxSettings { pub sp: Sp, pub attrs: Vec<Attr>, pub ty: Option<String>, pub unique: bool, pub pk: bool, pub note: Option<String>, pub name: Option<String> }
#[derive(Clone, Debug, PartialEq)]
pub struct IxDef { pub sp: Sp, pub cols: Vec<IxCol>, pub settings: Option<IxSettings> }
#[derive(Clone, Debug, PartialEq)]
pub struct Indexes { pub sp: Sp, pub defs: Vec<IxDef> }
#[derive(Clone, Debug, PartialEq)]
pub struct Table { pub sp: Sp, pub isp: Sp, pub name: Id, pub schema: Option<Id>, pub alias: Option<Id>, pub cols: Vec<Col>, pub note: Option<Note>, pub indexes: Option<Indexes>, pub settings: Option<Settings> }
#[derive(Clone, Debug, PartialEq)]
pub struct Item { pub sp: Sp, pub schema: Option<Id>, pub name: Id }
#[derive(Clone, Debug, PartialEq)]
pub struct Group { pub sp: Sp, pub ident: Id, pub note: Option<Note>, pub items: Vec<Item>, pub settings: Option<Settings> }
#[derive(Clone, Debug, PartialEq)]
pub struct RefSettings { pub sp: Sp, pub attrs: Vec<Attr>, pub upd: Option<String>, pub del: Option<String> }
#[derive(Clone, Debug, PartialEq)]
pub struct Ref { pub sp: Sp, pub name: Option<Id>, pub rel: Rel, pub lhs: RefId, pub rhs: RefId, pub settings: Option<RefSettings> }
#[derive(Clone, Debug, PartialEq)]
pub struct EnumVal { pub sp: Sp, pub value: Id, pub settings: Option<(Settings, Option<String>)> }
#[derive(Clone, Debug, PartialEq)]
pub struct Enum { pub sp: Sp, pub isp: Sp, pub schema: Option<Id>, pub name: Id, pub values: Vec<EnumVal> }
#[derive(Clone, Debug, PartialEq)]
pub enum Block { Project(Project), Table(Table), Group(Group), Note(Note), Ref(Ref), Enum(Enum) }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Doc { pub sp: Sp, pub blocks: Vec<Block> }

impl Doc {
  pub fn tables(&self) -> Vec<&Table> { self.blocks.iter().filter_map(|b| if let Block::Table(x) = b { Some(x) } else { None }).collect() }
  pub fn enums(&self) -> Vec<&Enum> { self.blocks.iter().filter_map(|b| if let Block::Enum(x) = b { Some(x) } else { None }).collect() }
  pub fn groups(&self) -> Vec<&Group> { self.blocks.iter().filter_map(|b| if let Block::Group(x) = b { Some(x) } else { None }).collect() }
  pub fn refs(&self) -> Vec<&Ref> { self.blocks.iter().filter_map(|b| if let Block::Ref(x) = b { Some(x) } else { None }).collect() }
  pub fn projects(&self) -> Vec<&Project> { self.blocks.iter().filter_map(|b| if let Block::Project(x) = b { Some(x) } else { None }).collect() }
}

// ------------------------------------------------------------------ reading the crate's tree
pub fn id(x: &a::Ident) -> Id { Id { sp: (&x.span_range).into(), raw: x.raw.clone(), name: x.to_string.clone() } }
pub fn val(x: &a::Value) -> Val {
  match x {
    a::Value::Enum(v) => Val::Enum(v.clone()),
    a::Value::String(v) => Val::Str(v.clone()),
    a::Value::Integer(v) => Val::Int(*v),
    a::Value::Decimal(v) => Val::Dec(*v),
    a::Value::Bool(v) => Val::Bool(*v),
    a::Value::HexColor(v) => Val::Hex(v.clone()),
    a::Value::Expr(v) => Val::Expr(v.clone()),
    a::Value::Null => Val::Null,
  }
}
pub fn lit(x: &a::Literal) -> Lit { Lit { sp: (&x.span_range).into(), raw: x.raw.clone(), val: val(&x.value) } }
pub fn attr(x: &a::Attribute) -> Attr { Attr { sp: (&x.span_range).into(), key: id(&x.key), val: x.value.as_ref().map(lit) } }
fn attrs(x: &[a::Attribute]) -> Vec<Attr> { x.iter().map(attr).collect() }
fn note(x: &a::NoteBlock) -> Note { Note { sp: (&x.span_range).into(), val: lit(&x.value) } }
pub fn rel(x: &a::Relation) -> Rel {
  match x { a::Relation::Undef => Rel::Undef, a::Relation::One2One => Rel::OO, a::Relation::One2Many => Rel::OM, a::Relation::Many2One => Rel::MO, a::Relation::Many2Many => Rel::MM }
}
pub fn refid(x: &a::RefIdent) -> RefId { RefId { sp: (&x.span_range).into(), schema: x.schema.as_ref().map(id), table: id(&x.table), cols: x.compositions.iter().map(id).collect() } }
fn inline(x: &a::RefInline) -> RefInline { RefInline { sp: (&x.span_range).into(), rel: rel(&x.rel), rhs: refid(&x.rhs) } }
fn typename(x: &a::ColumnTypeName) -> String { match x { a::ColumnTypeName::Raw(s) => s.clone(), o => format!("<{o:?}>") } }
fn coltype(x: &a::ColumnType) -> ColType { ColType { sp: (&x.span_range).into(), raw: x.raw.clone(), name: typename(&x.type_name), args: x.args.iter().map(val).collect(), arrays: x.arrays.clone() } }
fn col(x: &a::TableColumn) -> Col {
  Col {
    sp: (&x.span_range).into(), name: id(&x.name), ty: coltype(&x.r#type),
    settings: x.settings.as_ref().map(|s| ColSettings {
      sp: (&s.span_range).into(), attrs: attrs(&s.attributes), pk: s.is_pk, unique: s.is_unique,
      nullable: s.nullable.as_ref().map(|n| matches!(n, a::Nullable::Null)), incr: s.is_incremental, note: s.note.clone(),
      default: s.default.as_ref().map(val), refs: s.refs.iter().map(inline).collect(),
    }),
  }
}
fn ixtype(x: &a::IndexesType) -> String { match x { a::IndexesType::BTree => "btree", a::IndexesType::Gin => "gin", a::IndexesType::Gist => "gist", a::IndexesType::Hash => "hash" }.into() }
fn indexes(x: &a::IndexesBlock) -> Indexes {
  Indexes {
    sp: (&x.span_range).into(),
    defs: x.defs.iter().map(|d| IxDef {
      sp: (&d.span_range).into(),
      cols: d.cols.iter().map(|c| match c { a::IndexesColumnType::String(i) => IxCol::Name(id(i)), a::IndexesColumnType::Expr(l) => IxCol::Expr(lit(l)) }).collect(),
      settings: d.settings.as_ref().map(|s| IxSettings { sp: (&s.span_range).into(), attrs: attrs(&s.attributes), ty: s.r#type.as_ref().map(ixtype), unique: s.is_unique, pk: s.is_pk, note: s.note.clone(), name: s.name.clone() }),
    }).collect(),
  }
}
pub fn action(x: &a::ReferentialAction) -> String {
  match x { a::ReferentialAction::NoAction => "no action", a::ReferentialAction::Cascade => "cascade", a::ReferentialAction::Restrict => "restrict", a::ReferentialAction::SetNull => "set null", a::ReferentialAction::SetDefault => "set default" }.into()
}
pub fn doc(x: &a::SchemaBlock) -> Doc {
  Doc {
    sp: (&x.span_range).into(),
    blocks: x.blocks.iter().map(|b| match b {
      a::TopLevelBlock::Project(p) => Block::Project(Project {
        sp: (&p.span_range).into(), ident: id(&p.ident),
        props: p.properties.iter().map(|q| Attr { sp: (&q.span_range).into(), key: id(&q.key), val: Some(lit(&q.value)) }).collect(),
        db: p.database_type.as_ref().map(|d| match d { a::DatabaseType::PostgreSQL => "<PostgreSQL>".to_string(), a::DatabaseType::Unknown(s) => s.clone() }),
        note: p.note.as_ref().map(note),
      }),
      a::TopLevelBlock::Table(t) => Block::Table(Table {
        sp: (&t.span_range).into(), isp: (&t.ident.span_range).into(), name: id(&t.ident.name), schema: t.ident.schema.as_ref().map(id), alias: t.ident.alias.as_ref().map(id),
        cols: t.cols.iter().map(col).collect(), note: t.note.as_ref().map(note), indexes: t.indexes.as_ref().map(indexes),
        settings: t.settings.as_ref().map(|s| Settings { sp: (&s.span_range).into(), attrs: attrs(&s.attributes) }),
      }),
      a::TopLevelBlock::TableGroup(g) => Block::Group(Group {
        sp: (&g.span_range).into(), ident: id(&g.ident), note: g.note.as_ref().map(note),
        items: g.items.iter().map(|i| Item { sp: (&i.span_range).into(), schema: i.schema.as_ref().map(id), name: id(&i.ident_alias) }).collect(),
        settings: g.settings.as_ref().map(|s| Settings { sp: (&s.span_range).into(), attrs: attrs(&s.attributes) }),
      }),
      a::TopLevelBlock::Note(n) => Block::Note(note(n)),
      a::TopLevelBlock::Ref(r) => Block::Ref(Ref {
        sp: (&r.span_range).into(), name: r.name.as_ref().map(id), rel: rel(&r.rel), lhs: refid(&r.lhs), rhs: refid(&r.rhs),
        settings: r.settings.as_ref().map(|s| RefSettings { sp: (&s.span_range).into(), attrs: attrs(&s.attributes), upd: s.on_update.as_ref().map(action), del: s.on_delete.as_ref().map(action) }),
      }),
      a::TopLevelBlock::Enum(e) => Block::Enum(Enum {
        sp: (&e.span_range).into(), isp: (&e.ident.span_range).into(), schema: e.ident.schema.as_ref().map(id), name: id(&e.ident.name),
        values: e.values.iter().map(|v| EnumVal { sp: (&v.span_range).into(), value: id(&v.value), settings: v.settings.as_ref().map(|s| (Settings { sp: (&s.span_range).into(), attrs: attrs(&s.attributes) }, s.note.clone())) }).collect(),
      }),
    }).collect(),
  }
}
