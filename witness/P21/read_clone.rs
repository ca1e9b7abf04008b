#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
fn f(mut r: ElementReader<'_>) -> Result<(), VisitorError> {
    let s = r.clone(); //BAD
    let s = r; //GOOD
    s.read_string()?;
    Ok(())
}
