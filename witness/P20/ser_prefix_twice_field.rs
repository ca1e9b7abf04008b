#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

#[static_xml(namespace = "foo: http://foo", namespace = "bar: http://bar")]
struct A {
    #[static_xml(prefix = "bar")]
    #[static_xml(prefix = "foo")] //BAD
    b: u32 }
