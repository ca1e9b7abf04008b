#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

enum A {
    B(), //BAD
    B, //GOOD
}
