#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]
struct B { b: u32 }
#[derive(static_xml_derive::Serialize)]
struct A {
    #[static_xml(attribute)]
    a: B, //BAD
    a: String, //GOOD
}
