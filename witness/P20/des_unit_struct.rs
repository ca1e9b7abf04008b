#![allow(dead_code, unused)]
#[derive(static_xml_derive::Deserialize)]

struct A; //BAD
struct A {} //GOOD
