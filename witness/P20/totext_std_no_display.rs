#![allow(dead_code, unused)]
#[derive(static_xml_derive::ToText)]
#[static_xml(mode = "std")]
struct A(u32);
impl std::fmt::Display for A { //GOOD
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } //GOOD
} //GOOD
