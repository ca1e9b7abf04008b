#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

#[static_xml(default_namespace = 1)] //BAD
#[static_xml(default_namespace = "x")] //GOOD
struct A { b: u32 }
