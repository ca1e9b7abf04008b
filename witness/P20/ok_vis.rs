#![allow(dead_code, unused)]
use static_xml_derive::*;
pub mod m {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct P { pub a: u32 }
    #[derive(Deserialize, Serialize)]
    pub(crate) struct Q { a: u32 }
    #[derive(Deserialize, Serialize)]
    pub(super) enum R { A, B(u32) }
    #[derive(Deserialize, Serialize)]
    enum S { A, B(u32) }
}
use m::*;
#[derive(Deserialize, Serialize)]
pub struct T { p: P, #[static_xml(flatten)] q: P }
