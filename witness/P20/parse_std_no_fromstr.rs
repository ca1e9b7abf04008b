#![allow(dead_code, unused)]
#[derive(static_xml_derive::ParseText)]
#[static_xml(mode = "std")]
struct A(u32);
impl std::str::FromStr for A { //GOOD
    type Err = std::num::ParseIntError; //GOOD
    fn from_str(s: &str) -> Result<Self, Self::Err> { Ok(A(s.parse()?)) } //GOOD
} //GOOD
