#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

enum A {
    B(), //BAD
    B, //GOOD
}
