#![allow(dead_code, unused)]
#[derive(static_xml_derive::ToText)]

#[static_xml(mode = "union")]
struct A(u32); //BAD
enum A { B(u32) } //GOOD
