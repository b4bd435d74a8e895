use pest_derive::Parser;
#[derive(Parser)]
#[grammar = "/repo/src/dbml.pest"]
pub struct DBMLParser;
