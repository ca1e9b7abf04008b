#![allow(dead_code, unused)]
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
fn n() -> ExpandedNameRef<'static> { ExpandedNameRef { local_name: "a", namespace: "" } }
fn copy<T: Copy>(_t: T) {} //BAD
fn copy<T>(_t: T) {} //GOOD
fn f(mut b: ElementBuilder<'_>) { copy(b) }
