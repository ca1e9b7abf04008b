#![allow(dead_code, unused)]
#[derive(static_xml_derive::ParseText)]

#[static_xml(mode = "restriction")]
enum A {
    B,
    #[static_xml(unknown, rename = "x")] //BAD
    #[static_xml(unknown)] //GOOD
    C(String),
}
