"""Writes fixtures/xml/src/lib.rs from sx/corpus_xml.py."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sx')
from corpus_xml import TYPES, TEXT_TYPES, declare

o = '''//! Roots for the analysis of derived element types. Never linked or run: the
//! `extern` functions stand for anything that may happen, `ev_*` are observers.
//! Written by tools/gen_xml.py.
#![allow(dead_code, improper_ctypes, non_camel_case_types)]
mod sxm;
use static_xml::de::*;
use static_xml::ser::{ElementBuilder, ElementWriter, Serialize, SerializeRoot, ToText};
use static_xml::{BoxedStdError, ExpandedNameRef, TextPosition};
use static_xml_derive::{Deserialize, Serialize};
use std::mem::MaybeUninit;

type End = (xml::name::OwnedName, xml::namespace::Namespace, TextPosition);
type SerError = static_xml::ser::Error;

extern "Rust" {
    fn nd() -> bool;
    fn any_attribute() -> (ExpandedNameRef<'static>, String);
    fn any_child<'a>() -> ElementReader<'a>;
    fn any_characters() -> (String, TextPosition);
    fn any_end() -> Result<End, VisitorError>;
    fn ev_attribute(r: &Result<Option<String>, VisitorError>);
    fn ev_element(r: &Result<Option<ElementReader<'_>>, VisitorError>);
    fn ev_characters(r: &Result<Option<String>, BoxedStdError>);

    fn any_el(r: ElementReader<'_>) -> Result<El, VisitorError>;
    fn any_el_default() -> El;
    fn any_at(t: String) -> Result<At, BoxedStdError>;
    fn any_at_default() -> At;
    fn el_attributes(v: &El, b: &mut ElementBuilder) -> Result<(), SerError>;
    fn el_children(v: &El, w: &mut ElementWriter) -> Result<(), SerError>;
    fn at_text(v: &At) -> Result<String, SerError>;
}

/// Stands for `ElementReader::read_to`.
pub fn root_aux_read_to(visitor: &mut dyn ElementVisitor) -> Result<End, VisitorError> {
    unsafe {
        while nd() {
            let (name, value) = any_attribute();
            let r = visitor.attribute(&name, value);
            ev_attribute(&r);
            r?;
        }
        loop {
            if nd() {
                let r = visitor.element(any_child());
                ev_element(&r);
                r?;
            } else if nd() {
                let (s, pos) = any_characters();
                let r = visitor.characters(s, pos);
                ev_characters(&r);
                r.map_err(VisitorError::Wrap)?;
            } else {
                return any_end();
            }
        }
    }
}

pub fn root_aux_cmp(a: &ExpandedNameRef<'_>, b: &ExpandedNameRef<'_>) -> std::cmp::Ordering {
    Ord::cmp(a, b)
}

/// A visitor driven by hand, by someone who goes on after errors.
pub fn aux_drive(visitor: &mut dyn ElementVisitor) {
    unsafe {
        loop {
            if nd() {
                let (name, value) = any_attribute();
                let r = visitor.attribute(&name, value);
                ev_attribute(&r);
            } else if nd() {
                let r = visitor.element(any_child());
                ev_element(&r);
            } else if nd() {
                let (s, pos) = any_characters();
                let r = visitor.characters(s, pos);
                ev_characters(&r);
            } else {
                return;
            }
        }
    }
}

/// An element type that does anything.
pub struct El(u8);
impl static_xml::de::Deserialize for El {
    fn deserialize(r: ElementReader<'_>) -> Result<Self, VisitorError> {
        unsafe { any_el(r) }
    }
}
impl Default for El {
    fn default() -> El {
        unsafe { any_el_default() }
    }
}
impl static_xml::ser::Serialize for El {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), SerError> {
        unsafe { el_attributes(self, b) }
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), SerError> {
        unsafe { el_children(self, w) }
    }
}

/// A text type that does anything.
pub struct At(u8);
impl ParseText for At {
    fn parse(t: String) -> Result<Self, BoxedStdError> {
        unsafe { any_at(t) }
    }
}
impl Default for At {
    fn default() -> At {
        unsafe { any_at_default() }
    }
}
impl ToText for At {
    fn to_text(&self) -> Result<String, SerError> {
        unsafe { at_text(self) }
    }
}

macro_rules! flattenable {
    ($t:ident, $v:ident, $element:ident, $attribute:ident, $characters:ident, $finalize:ident, $wa:ident, $wc:ident) => {
        extern "Rust" {
            fn $element<'a>(c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError>;
            fn $attribute(name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError>;
            fn $characters(s: String, pos: TextPosition) -> Result<Option<String>, BoxedStdError>;
            fn $finalize() -> Result<$t, VisitorError>;
            fn $wa(v: &$t, b: &mut ElementBuilder) -> Result<(), SerError>;
            fn $wc(v: &$t, w: &mut ElementWriter) -> Result<(), SerError>;
        }
        /// A flattened field that does anything.
        pub struct $t(u8);
        pub struct $v<'out>(&'out mut MaybeUninit<$t>);
        impl<'out> ElementVisitor for $v<'out> {
            fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
                unsafe { $element(c) }
            }
            fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
                unsafe { $attribute(name, value) }
            }
            fn characters(&mut self, s: String, pos: TextPosition) -> Result<Option<String>, BoxedStdError> {
                unsafe { $characters(s, pos) }
            }
        }
        unsafe impl<'out> RawDeserializeVisitor<'out> for $v<'out> {
            type Out = $t;
            fn new(out: &'out mut MaybeUninit<$t>) -> Self {
                $v(out)
            }
            fn finalize(self, _default: Option<fn() -> $t>) -> Result<(), VisitorError> {
                self.0.write(unsafe { $finalize()? });
                Ok(())
            }
        }
        impl<'out> RawDeserialize<'out> for $t {
            type Visitor = $v<'out>;
        }
        impl static_xml::ser::Serialize for $t {
            fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), SerError> {
                unsafe { $wa(self, b) }
            }
            fn write_children(&self, w: &mut ElementWriter) -> Result<(), SerError> {
                unsafe { $wc(self, w) }
            }
        }
    };
}
flattenable!(Fl1, Fl1V, fl1_element, fl1_attribute, fl1_characters, fl1_finalize, fl1_wattributes, fl1_wchildren);
flattenable!(Fl2, Fl2V, fl2_element, fl2_attribute, fl2_characters, fl2_finalize, fl2_wattributes, fl2_wchildren);
flattenable!(Fl3, Fl3V, fl3_element, fl3_attribute, fl3_characters, fl3_finalize, fl3_wattributes, fl3_wchildren);

'''
for n, t in TYPES.items():
    o += 'pub mod %s {\n    use super::*;\n' % n.lower()
    o += ''.join('    ' + l + '\n' if l else '\n' for l in declare(n, t).rstrip('\n').split('\n'))
    o += '}\nuse %s::%s;\n' % (n.lower(), n)
    o += 'pub fn root_read_%s(r: ElementReader<\'_>) -> Result<%s, VisitorError> {\n    <%s as static_xml::de::Deserialize>::deserialize(r)\n}\n' % (n, n, n)
    d = 'None'
    if t.kind == 'enum':
        o += 'extern "Rust" {\n    fn any_default_%s() -> %s;\n}\nfn default_%s() -> %s {\n    unsafe { any_default_%s() }\n}\n' % (n, n, n, n, n)
        d = 'if unsafe { nd() } { Some(default_%s as fn() -> %s) } else { None }' % (n, n)
    o += '''pub fn root_drive_%s() -> Result<%s, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<%s as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(%s)?;
    Ok(unsafe { out.assume_init() })
}
''' % (n, n, n, d)
for n, t in TEXT_TYPES.items():
    o += declare(n, t, 'Serialize')
for n in list(TYPES) + list(TEXT_TYPES):
    o += 'pub fn root_wattr_%s(v: &%s, b: &mut ElementBuilder) -> Result<(), SerError> {\n    v.write_attributes(b)\n}\n' % (n, n)
    o += 'pub fn root_wchild_%s(v: &%s, w: &mut ElementWriter) -> Result<(), SerError> {\n    v.write_children(w)\n}\n' % (n, n)
    o += 'pub fn root_name_%s(v: &%s) -> ExpandedNameRef<\'_> {\n    SerializeRoot::root(v)\n}\n' % (n, n)
os.makedirs(V + '/fixtures/xml/src', exist_ok=True)
open(V + '/fixtures/xml/src/lib.rs', 'w').write(o)
