#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
fn f(mut r: ElementReader<'_>) {
    std::thread::spawn(move || r.read_string()).join(); //BAD
    r.read_string(); //GOOD
}
