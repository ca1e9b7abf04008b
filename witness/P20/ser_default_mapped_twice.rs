#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

#[static_xml(default_namespace = "http://foo")]
#[static_xml(default_namespace = "http://bar")] //BAD
struct A { b: u32 }
