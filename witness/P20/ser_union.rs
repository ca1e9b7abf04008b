#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

union A { b: u32 } //BAD
struct A { b: u32 } //GOOD
