#![allow(dead_code, unused)]
#[derive(static_xml_derive::ParseText)]

#[static_xml(mode = "restriction")]
#[static_xml(mode = "union")] //BAD
enum A { B, C }
