#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]
struct A {
    #[static_xml(text)]
    a: String,
    #[static_xml(text)] //BAD
    b: String,
}
