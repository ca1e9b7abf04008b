#![allow(dead_code, unused)]
#[derive(static_xml_derive::ParseText)]

#[static_xml(mode = "restriction", whitespace = "trim")] //BAD
#[static_xml(mode = "restriction", whitespace = "collapse")] //GOOD
enum A { B, C }
