#![allow(dead_code, unused)]
use static_xml_derive::*;
#[derive(Deserialize, Serialize)]
struct A { r#type: u32, #[static_xml(attribute)] r#fn: String }
#[derive(Deserialize, Serialize)]
enum r#struct { r#if(u32), r#else }
#[derive(ParseText, ToText)]
#[static_xml(mode = "restriction")]
enum T { r#true, r#false }
