#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

struct A(u32); //BAD
struct A { b: u32 } //GOOD
