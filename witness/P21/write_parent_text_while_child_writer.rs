#![allow(dead_code, unused)]
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
fn n() -> ExpandedNameRef<'static> { ExpandedNameRef { local_name: "a", namespace: "" } }
fn f(mut w: ElementWriter<'_>) -> Result<(), Error> {
    let mut c = w.element(n()).start()?;
    w.text("x")?; //BAD
    c.finish()?;
    w.text("x")?; //GOOD
    w.finish()
}
