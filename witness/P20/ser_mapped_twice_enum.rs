#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

#[static_xml(namespace = "foo: http://foo", namespace = "foo: http://bar")] //BAD
#[static_xml(namespace = "foo: http://foo", namespace = "bar: http://bar")] //GOOD
enum A { B }
