#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
struct K<'k> { child: Option<ElementReader<'k>> }
impl<'k> ElementVisitor for K<'k> {
    fn element<'a>(&mut self, mut child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        self.child = Some(child); //BAD
        child.read_string()?; //GOOD
        Ok(None)
    }
}
