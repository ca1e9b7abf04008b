#![allow(dead_code, unused)]
#[derive(static_xml_derive::ToText)]

#[static_xml(mode = 1)] //BAD
#[static_xml(mode = "union")] //GOOD
enum A { B(u32) }
