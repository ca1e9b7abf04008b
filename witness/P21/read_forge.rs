#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
fn f<'a>(mut r: ElementReader<'a>) -> ElementReader<'a> {
    ElementReader { ..r } //BAD
    r //GOOD
}
