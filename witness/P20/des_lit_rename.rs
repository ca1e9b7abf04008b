#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

#[static_xml(rename = 1)] //BAD
#[static_xml(rename = "x")] //GOOD
struct A { b: u32 }
