#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

#[static_xml(prefix = "bar", namespace = "foo: http://foo")] //BAD
#[static_xml(prefix = "foo", namespace = "foo: http://foo")] //GOOD
struct A { b: u32 }
