#![allow(dead_code, unused)]
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
fn n() -> ExpandedNameRef<'static> { ExpandedNameRef { local_name: "a", namespace: "" } }
fn f(mut b: ElementBuilder<'_>) -> Result<(), Error> {
    b.element(n()).start()?.finish()?; //BAD
    b.start()?.finish()
}
