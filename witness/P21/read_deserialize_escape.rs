#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
struct A(ElementReader<'static>); //BAD
struct A(String); //GOOD
impl Deserialize for A {
    fn deserialize(mut element: ElementReader<'_>) -> Result<Self, VisitorError> {
        Ok(A(element)) //BAD
        Ok(A(element.read_string()?)) //GOOD
    }
}
