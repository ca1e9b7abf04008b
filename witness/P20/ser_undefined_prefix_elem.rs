#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

#[static_xml(namespace = "foo: http://foo")]
struct A {
    #[static_xml(prefix = "bar")] //BAD
    #[static_xml(prefix = "foo")] //GOOD
    b: u32 }
