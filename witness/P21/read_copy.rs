#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
fn f(mut r: ElementReader<'_>) -> Result<(), VisitorError> {
    let s = r;
    s.read_string()?;
    r.read_string()?; //BAD
    Ok(())
}
