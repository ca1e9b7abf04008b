#![allow(dead_code, unused)]
#[derive(static_xml_derive::ParseText)]

#[static_xml(mode = "union")]
enum A {
    B(u32, u32), //BAD
    B(u32), //GOOD
    C(String) }
