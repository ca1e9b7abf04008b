#![allow(dead_code, unused)]
#[derive(static_xml_derive::Serialize)]

struct A; //BAD
struct A {} //GOOD
