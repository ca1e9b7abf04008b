#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

#[static_xml(namespace = "foo: http://foo", namespace = "bar: http://bar")]
enum A {
    #[static_xml(prefix = "foo", prefix = "bar")] //BAD
    #[static_xml(prefix = "foo")] //GOOD
    B(u32) }
