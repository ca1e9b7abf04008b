#![allow(dead_code, unused)]
use static_xml_derive::*;
#[derive(Deserialize, Serialize)]
struct A { out: u32, child: u32, name: String, #[static_xml(attribute)] value: u32, #[static_xml(attribute)] builder: u32, writer: u32, element: u32, _phantom: u32, ELEMENTS: u32 }
