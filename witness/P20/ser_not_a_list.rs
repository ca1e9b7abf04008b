#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

#[static_xml = "x"] //BAD
#[static_xml(rename = "x")] //GOOD
struct A { a: u32 }
