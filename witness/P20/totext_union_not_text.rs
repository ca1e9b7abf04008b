#![allow(dead_code, unused)]
struct N;
#[derive(static_xml_derive::ToText)]

#[static_xml(mode = "union")]
enum A {
    B(N), //BAD
    B(u32), //GOOD
    C(String) }
