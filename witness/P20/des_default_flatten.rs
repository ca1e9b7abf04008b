#![allow(dead_code, unused)]
#[derive(Default, static_xml_derive::Deserialize)]
struct B { b: u32 }
#[derive(static_xml_derive::Deserialize)]

struct A {
    #[static_xml(flatten, default)] //BAD
    #[static_xml(flatten)] //GOOD
    b: B }
