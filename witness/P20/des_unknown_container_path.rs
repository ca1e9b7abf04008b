#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

#[static_xml(skip)] //BAD
struct A { a: u32 }
