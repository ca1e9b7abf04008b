#![allow(dead_code, unused)]
#[derive(static_xml_derive::ToText)]

#[static_xml(mode = "restrict")] //BAD
#[static_xml(mode = "restriction")] //GOOD
enum A { B, C }
