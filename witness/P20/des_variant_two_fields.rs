#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

enum A {
    B(u32, u32), //BAD
    B(u32), //GOOD
}
