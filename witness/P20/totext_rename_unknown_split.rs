#![allow(dead_code, unused)]
#[derive(static_xml_derive::ToText)]

#[static_xml(mode = "restriction")]
enum A {
    B,
    #[static_xml(rename = "x")] //BAD
    #[static_xml(unknown)]
    C(String),
}
