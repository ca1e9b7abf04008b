#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

struct A {
    #[static_xml(attributes)] //BAD
    #[static_xml(attribute)] //GOOD
    a: u32 }
