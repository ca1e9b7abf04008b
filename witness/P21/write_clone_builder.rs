#![allow(dead_code, unused)]
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
fn n() -> ExpandedNameRef<'static> { ExpandedNameRef { local_name: "a", namespace: "" } }
fn f(mut b: ElementBuilder<'_>) -> Result<(), Error> {
    let mut c = b.clone(); //BAD
    let mut c = b; //GOOD
    c.start()?.finish()
}
