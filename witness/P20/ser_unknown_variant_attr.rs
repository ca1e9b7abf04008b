#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

enum A {
    #[static_xml(renamed = "b")] //BAD
    #[static_xml(rename = "b")] //GOOD
    B(u32), C }
