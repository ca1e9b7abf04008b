#![allow(dead_code, unused)]
#[derive(static_xml_derive::ToText)]

#[static_xml(mode = "restriction", whitespace = true)] //BAD
#[static_xml(mode = "restriction", whitespace = "replace")] //GOOD
enum A { B, C }
