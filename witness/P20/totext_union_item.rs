#![allow(dead_code, unused)]
#[derive(static_xml_derive::ToText)]

#[static_xml(mode = "union")]
enum A {
    #[static_xml(rename = "x")] //BAD
    B(u32),
    C(String) }
