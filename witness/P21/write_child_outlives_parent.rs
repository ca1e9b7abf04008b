#![allow(dead_code, unused)]
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
fn n() -> ExpandedNameRef<'static> { ExpandedNameRef { local_name: "a", namespace: "" } }
fn f<'a>(mut w: ElementWriter<'a>) -> Result<(), Error> {
    let mut c = w.element(n()).start()?;
    drop(w); //BAD
    c.finish()?;
    w.finish()?; //GOOD
    Ok(())
}
