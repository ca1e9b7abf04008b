#![allow(dead_code, unused)]
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
fn n() -> ExpandedNameRef<'static> { ExpandedNameRef { local_name: "a", namespace: "" } }
fn f(
    w: &mut ElementWriter<'_> //BAD
    mut w: ElementWriter<'_> //GOOD
) -> Result<(), Error> {
    w.finish()
}
