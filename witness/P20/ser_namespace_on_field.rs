#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

struct A {
    #[static_xml(namespace = "b: http://x")] //BAD
    #[static_xml(rename = "b")] //GOOD
    a: u32 }
