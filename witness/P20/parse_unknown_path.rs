#![allow(dead_code, unused)]
#[derive(static_xml_derive::ParseText)]

#[static_xml(restriction)] //BAD
#[static_xml(mode = "restriction")] //GOOD
enum A { B, C }
