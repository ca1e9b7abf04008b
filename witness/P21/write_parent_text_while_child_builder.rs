#![allow(dead_code, unused)]
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
fn n() -> ExpandedNameRef<'static> { ExpandedNameRef { local_name: "a", namespace: "" } }
fn f(mut w: ElementWriter<'_>) -> Result<(), Error> {
    let mut c = w.element(n());
    w.text("x")?; //BAD
    c.start()?.finish()?;
    w.text("x")?; //GOOD
    w.finish()
}
