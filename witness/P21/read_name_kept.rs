#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
fn f<'x>(mut r: ElementReader<'x>) -> Result<(), VisitorError> {
    let n = r.expanded_name();
    r.read_string()?; //BAD
    println!("{}", n);
    r.read_string()?; //GOOD
    Ok(())
}
