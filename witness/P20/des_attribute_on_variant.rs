#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

enum A {
    #[static_xml(attribute)] //BAD
    B(u32), C }
