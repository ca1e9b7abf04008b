#![allow(dead_code, unused)]
#[derive(static_xml_derive::ToText)]

#[static_xml(mode = "restriction")]
enum A {
    #[static_xml(skip)] //BAD
    B, C }
