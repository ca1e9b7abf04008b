#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]
#[repr(packed(2), C)] //BAD
#[repr(C)] //GOOD
struct A { a: u8, b: u32 }
