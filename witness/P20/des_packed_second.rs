#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]
#[repr(C)]
#[repr(packed)] //BAD
struct A { a: u8, b: u32 }
