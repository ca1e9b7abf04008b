#![allow(dead_code, unused)]
#[derive(static_xml_derive::ToText)]

#[static_xml(mode = "restriction")]
enum A {
    B(String), //BAD
    B, //GOOD
    C }
