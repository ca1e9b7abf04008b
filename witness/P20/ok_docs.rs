#![allow(dead_code, unused)]
use static_xml_derive::*;
/// Documented.
#[derive(Deserialize, Serialize)]
#[allow(clippy::all)]
struct A {
    /// A field.
    #[allow(unused)]
    a: u32,
}
