#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

struct A(u32); //BAD
struct A { b: u32 } //GOOD
