#![allow(dead_code, unused)]
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
fn n() -> ExpandedNameRef<'static> { ExpandedNameRef { local_name: "a", namespace: "" } }
fn f(mut w: ElementWriter<'_>) -> Result<(), Error> {
    let mut c = w.element(n()).start()?;
    w.element(n()).start()?.finish()?; //BAD
    c.finish()?;
    w.element(n()).start()?.finish()?; //GOOD
    w.finish()
}
