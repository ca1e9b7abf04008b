#![allow(dead_code, unused)]
use static_xml_derive::*;
struct Opaque;
#[derive(Deserialize, Serialize)]
enum A { B(u32), #[static_xml(skip)] C(Opaque, Opaque), #[static_xml(skip)] D { x: u32 }, E }
