#![allow(dead_code, unused)]
#[derive(static_xml_derive::ParseText)]

#[static_xml(mode = "restriction")]
enum A {
    B,
    #[static_xml(unknown)]
    C(String, String), //BAD
    C(String), //GOOD
}
