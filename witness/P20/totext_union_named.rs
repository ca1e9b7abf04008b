#![allow(dead_code, unused)]
#[derive(static_xml_derive::ToText)]

#[static_xml(mode = "union")]
enum A {
    B { b: u32 }, //BAD
    B(u32), //GOOD
    C(String) }
