#![allow(dead_code, unused)]
#[derive(static_xml_derive::ToText)]

#[static_xml(mode = "restriction")]
struct A { b: u32 } //BAD
enum A { B } //GOOD
