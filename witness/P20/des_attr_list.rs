#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]
struct A {
    #[static_xml(attribute)]
    a: Vec<String>, //BAD
    a: Option<String>, //GOOD
}
