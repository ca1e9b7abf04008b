#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

enum A {
    #[static_xml(renamed = "b")] //BAD
    #[static_xml(rename = "b")] //GOOD
    B(u32), C }
