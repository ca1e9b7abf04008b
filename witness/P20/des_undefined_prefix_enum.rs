#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

#[static_xml(prefix = "bar")] //BAD
#[static_xml(namespace = "foo: http://foo")]
enum A { B(u32) }
