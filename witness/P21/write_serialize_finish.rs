#![allow(dead_code, unused)]
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
fn n() -> ExpandedNameRef<'static> { ExpandedNameRef { local_name: "a", namespace: "" } }
struct A;
impl Serialize for A {
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        w.finish() //BAD
        w.text("x") //GOOD
    }
}
