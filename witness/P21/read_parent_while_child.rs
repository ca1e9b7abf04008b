#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
struct K<'k, 'r>(&'k mut Option<ElementReader<'r>>);
impl<'k, 'r> ElementVisitor for K<'k, 'r> {
    fn element<'a>(&mut self, mut child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        let _ = self.0.take();
        Ok(Some(child))
    }
}
fn f(mut r: ElementReader<'_>) -> Result<(), VisitorError> {
    let mut o = Some(r);
    let mut k = K(&mut o);
    o.take().unwrap().read_to(&mut k)?; //BAD
    let mut other = None; //GOOD
    k.0 = &mut other; //GOOD
    drop(k); //GOOD
    o.take().unwrap().read_to(&mut V)?; //GOOD
    Ok(())
}
