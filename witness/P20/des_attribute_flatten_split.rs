#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]
struct B { b: u32 }
#[derive(static_xml_derive::Deserialize)]

struct A {
    #[static_xml(attribute)] //BAD
    #[static_xml(flatten)]
    b: B }
