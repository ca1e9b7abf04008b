#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

struct A {
    #[static_xml(text, attribute)] //BAD
    #[static_xml(attribute)] //GOOD
    b: String }
