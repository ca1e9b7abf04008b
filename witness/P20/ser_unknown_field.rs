#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

struct A {
    #[static_xml(attributes)] //BAD
    #[static_xml(attribute)] //GOOD
    a: u32 }
