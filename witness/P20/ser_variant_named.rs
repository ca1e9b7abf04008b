#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

enum A {
    B { b: u32 }, //BAD
    B(u32), //GOOD
}
