#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

#[static_xml] //BAD
#[static_xml()] //GOOD
struct A { a: u32 }
