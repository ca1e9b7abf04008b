#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
fn f(
    r: &mut ElementReader<'_> //BAD
    mut r: ElementReader<'_> //GOOD
) -> Result<(), VisitorError> {
    let a = r.read_string()?;
    Ok(())
}
