#![allow(dead_code, unused)]
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
fn n() -> ExpandedNameRef<'static> { ExpandedNameRef { local_name: "a", namespace: "" } }
fn f(
    b: &mut ElementBuilder<'_> //BAD
    mut b: ElementBuilder<'_> //GOOD
) -> Result<(), Error> {
    b.start()?.finish()
}
