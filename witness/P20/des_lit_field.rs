#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

struct A {
    #[static_xml(rename = 1)] //BAD
    #[static_xml(rename = "x")] //GOOD
    b: u32 }
