#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

struct A {
    #[static_xml(text, attribute)] //BAD
    #[static_xml(attribute)] //GOOD
    b: String }
