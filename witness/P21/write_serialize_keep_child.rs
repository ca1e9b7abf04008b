#![allow(dead_code, unused)]
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
fn n() -> ExpandedNameRef<'static> { ExpandedNameRef { local_name: "a", namespace: "" } }
struct A<'k>(std::cell::RefCell<Option<ElementWriter<'k>>>);
impl<'k> Serialize for A<'k> {
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        *self.0.borrow_mut() = Some(w.element(n()).start()?); //BAD
        w.element(n()).start()?.finish()?; //GOOD
        Ok(())
    }
}
