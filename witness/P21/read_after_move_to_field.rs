#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
fn f(mut r: ElementReader<'_>) -> Result<(), VisitorError> {
    let a = <u32 as DeserializeElementField>::init(r)?;
    let mut b = <u32 as DeserializeElementField>::init(r)?; //BAD
    Ok(())
}
