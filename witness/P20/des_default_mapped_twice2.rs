#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

#[static_xml(default_namespace = "http://foo")]
#[static_xml(namespace = "http://bar")] //BAD
#[static_xml(namespace = "b: http://bar")] //GOOD
struct A { b: u32 }
