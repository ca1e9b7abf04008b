#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

#[static_xml(skip)] //BAD
struct A { a: u32 }
