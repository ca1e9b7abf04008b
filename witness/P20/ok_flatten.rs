#![allow(dead_code, unused)]
use static_xml_derive::*;
#[derive(Deserialize, Serialize)]
struct B { b: u32, #[static_xml(attribute)] c: Option<u32> }
#[derive(Deserialize, Serialize)]
enum C { X, Y(u32) }
#[derive(Deserialize, Serialize)]
struct A { #[static_xml(flatten)] b: B, #[static_xml(flatten)] c: C, a: String }
#[derive(Deserialize, Serialize)]
struct D { #[static_xml(flatten)] a: A }
