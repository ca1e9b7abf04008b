#![allow(dead_code, unused)]
#[derive(Default, static_xml_derive::Serialize)]
struct B { b: u32 }
#[derive(static_xml_derive::Serialize)]

struct A {
    #[static_xml(flatten, default)] //BAD
    #[static_xml(flatten)] //GOOD
    b: B }
