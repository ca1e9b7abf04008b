#![allow(dead_code, unused)]
use static_xml_derive::*;
#[derive(Serialize)]
struct A { #[static_xml(text)] t: String, #[static_xml(attribute)] a: u32 }
#[derive(ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "preserve")]
enum R { A, #[static_xml(rename = "b c")] B, #[static_xml(rename = "")] C, #[static_xml(unknown)] U(String) }
#[derive(ParseText, ToText)]
#[static_xml(whitespace = "replace", mode = "union")]
enum U { R(R), N(u32), B(bool) }
#[derive(ParseText, ToText)]
#[static_xml(mode = "std")]
struct S(u32);
impl std::str::FromStr for S { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Self, Self::Err> { Ok(S(s.parse()?)) } }
impl std::fmt::Display for S { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
#[derive(Deserialize, Serialize)]
struct F { #[static_xml(attribute)] r: R, u: Option<U>, s: Vec<S> }
