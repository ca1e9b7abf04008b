#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

#[static_xml(namespace = "foo: http://foo")]
#[static_xml(namespace = " foo : http://bar")] //BAD
#[static_xml(namespace = " fooo : http://bar")] //GOOD
struct A { b: u32 }
