#![allow(dead_code, unused)]
use static_xml::de::*;
use static_xml::{ExpandedNameRef, BoxedStdError};
struct V;
impl ElementVisitor for V {}
fn copy<T: Copy>(_t: T) {} //BAD
fn copy<T>(_t: T) {} //GOOD
fn f(mut r: ElementReader<'_>) { copy(r) }
