#![allow(dead_code, unused)]
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
fn n() -> ExpandedNameRef<'static> { ExpandedNameRef { local_name: "a", namespace: "" } }
fn f(mut w: ElementWriter<'_>) -> Result<(), Error> {
    let mut c = w.clone(); //BAD
    let mut c = w; //GOOD
    c.finish()
}
