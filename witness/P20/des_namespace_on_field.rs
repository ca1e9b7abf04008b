#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

struct A {
    #[static_xml(namespace = "b: http://x")] //BAD
    #[static_xml(rename = "b")] //GOOD
    a: u32 }
