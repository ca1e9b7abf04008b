#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

#[static_xml(namespace = 1)] //BAD
#[static_xml(namespace = "x")] //GOOD
struct A { b: u32 }
