#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
struct K<'k> { n: Option<ExpandedNameRef<'k>>, s: Option<String> }
impl<'k> ElementVisitor for K<'k> {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        self.n = Some(*name); //BAD
        self.s = Some(value); //GOOD
        Ok(None)
    }
}
