#![allow(dead_code, unused)]
use static_xml_derive::*;
#[derive(Deserialize, Serialize)]
struct A { #[static_xml(default)] a: u32, #[static_xml(default, attribute)] b: u32, #[static_xml(default)] c: Vec<u32>, #[static_xml(default)] d: Option<u32> }
