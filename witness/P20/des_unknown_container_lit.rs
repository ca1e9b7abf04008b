#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

#[static_xml("x")] //BAD
struct A { a: u32 }
