#![allow(dead_code, unused)]
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
fn n() -> ExpandedNameRef<'static> { ExpandedNameRef { local_name: "a", namespace: "" } }
fn f(mut b: ElementBuilder<'_>) -> Result<(), Error> {
    let mut w = b.start()?;
    b.attribute(n(), String::new())?; //BAD
    w.finish()
}
