#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

#[static_xml(prefix = "bar")] //BAD
#[static_xml(namespace = "foo: http://foo")]
enum A { B(u32) }
