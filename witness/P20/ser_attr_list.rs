#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]
struct A {
    #[static_xml(attribute)]
    a: Vec<String>, //BAD
    a: Option<String>, //GOOD
}
