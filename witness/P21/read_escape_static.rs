#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
fn f(mut r: ElementReader<'_>) -> ElementReader<'static> { //BAD
fn f(mut r: ElementReader<'_>) -> ElementReader<'_> { //GOOD
    r
}
