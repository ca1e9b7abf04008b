#![allow(dead_code, unused)]
use static_xml_derive::*;
#[derive(Deserialize, Serialize)]
struct A {}
#[derive(Deserialize, Serialize)]
enum B { #[static_xml(rename = "x")] X }
