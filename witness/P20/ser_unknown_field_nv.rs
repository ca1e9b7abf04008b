#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

struct A {
    #[static_xml(name = "b")] //BAD
    #[static_xml(rename = "b")] //GOOD
    a: u32 }
