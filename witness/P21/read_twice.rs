#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
fn f(mut r: ElementReader<'_>) -> Result<(), VisitorError> {
    let mut v = V;
    r.read_to(&mut v)?;
    r.read_to(&mut v)?; //BAD
    Ok(())
}
