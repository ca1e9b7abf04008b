#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

struct A {
    #[static_xml(skip)] //BAD
    #[static_xml(default)] //GOOD
    a: u32 }
