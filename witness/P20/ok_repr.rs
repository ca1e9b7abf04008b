#![allow(dead_code, unused)]
use static_xml_derive::*;
#[derive(Deserialize, Serialize)]
#[repr(C, align(16))]
struct A { a: u8, b: u64 }
#[derive(Serialize)]
#[repr(C)]
struct B { a: u8 }
