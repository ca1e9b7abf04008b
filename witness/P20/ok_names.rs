#![allow(dead_code, unused)]
use static_xml_derive::*;
#[derive(Deserialize, Serialize)]
#[static_xml(rename = "a", prefix = "x", namespace = "x: http://x", namespace = "y: http://y", default_namespace = "http://d")]
struct A {
    #[static_xml(attribute, prefix = "xml")] lang: Option<String>,
    #[static_xml(prefix = "")] b: u32,
    #[static_xml(prefix = "y", rename = "b")] b2: Vec<u32>,
    #[static_xml(prefix = "x")] b3: Option<u32>,
}
