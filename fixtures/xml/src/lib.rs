//! Roots for the analysis of derived element types. Never linked or run: the
//! `extern` functions stand for anything that may happen, `ev_*` are observers.
//! Written by tools/gen_xml.py.
#![allow(dead_code, improper_ctypes, non_camel_case_types)]
mod sxm;
use static_xml::de::*;
use static_xml::ser::{ElementBuilder, ElementWriter, Serialize, SerializeRoot, ToText};
use static_xml::{BoxedStdError, ExpandedNameRef, TextPosition};
use static_xml_derive::{Deserialize, Serialize};
use std::mem::MaybeUninit;

type End = (xml::name::OwnedName, xml::namespace::Namespace, TextPosition);
type SerError = static_xml::ser::Error;

extern "Rust" {
    fn nd() -> bool;
    fn any_attribute() -> (ExpandedNameRef<'static>, String);
    fn any_child<'a>() -> ElementReader<'a>;
    fn any_characters() -> (String, TextPosition);
    fn any_end() -> Result<End, VisitorError>;
    fn ev_attribute(r: &Result<Option<String>, VisitorError>);
    fn ev_element(r: &Result<Option<ElementReader<'_>>, VisitorError>);
    fn ev_characters(r: &Result<Option<String>, BoxedStdError>);

    fn any_el(r: ElementReader<'_>) -> Result<El, VisitorError>;
    fn any_el_default() -> El;
    fn any_at(t: String) -> Result<At, BoxedStdError>;
    fn any_at_default() -> At;
    fn el_attributes(v: &El, b: &mut ElementBuilder) -> Result<(), SerError>;
    fn el_children(v: &El, w: &mut ElementWriter) -> Result<(), SerError>;
    fn at_text(v: &At) -> Result<String, SerError>;
}

/// Stands for `ElementReader::read_to`.
pub fn root_aux_read_to(visitor: &mut dyn ElementVisitor) -> Result<End, VisitorError> {
    unsafe {
        while nd() {
            let (name, value) = any_attribute();
            let r = visitor.attribute(&name, value);
            ev_attribute(&r);
            r?;
        }
        loop {
            if nd() {
                let r = visitor.element(any_child());
                ev_element(&r);
                r?;
            } else if nd() {
                let (s, pos) = any_characters();
                let r = visitor.characters(s, pos);
                ev_characters(&r);
                r.map_err(VisitorError::Wrap)?;
            } else {
                return any_end();
            }
        }
    }
}

pub fn root_aux_cmp(a: &ExpandedNameRef<'_>, b: &ExpandedNameRef<'_>) -> std::cmp::Ordering {
    Ord::cmp(a, b)
}

/// A visitor driven by hand, by someone who goes on after errors.
pub fn aux_drive(visitor: &mut dyn ElementVisitor) {
    unsafe {
        loop {
            if nd() {
                let (name, value) = any_attribute();
                let r = visitor.attribute(&name, value);
                ev_attribute(&r);
            } else if nd() {
                let r = visitor.element(any_child());
                ev_element(&r);
            } else if nd() {
                let (s, pos) = any_characters();
                let r = visitor.characters(s, pos);
                ev_characters(&r);
            } else {
                return;
            }
        }
    }
}

/// An element type that does anything.
pub struct El(u8);
impl static_xml::de::Deserialize for El {
    fn deserialize(r: ElementReader<'_>) -> Result<Self, VisitorError> {
        unsafe { any_el(r) }
    }
}
impl Default for El {
    fn default() -> El {
        unsafe { any_el_default() }
    }
}
impl static_xml::ser::Serialize for El {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), SerError> {
        unsafe { el_attributes(self, b) }
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), SerError> {
        unsafe { el_children(self, w) }
    }
}

/// A text type that does anything.
pub struct At(u8);
impl ParseText for At {
    fn parse(t: String) -> Result<Self, BoxedStdError> {
        unsafe { any_at(t) }
    }
}
impl Default for At {
    fn default() -> At {
        unsafe { any_at_default() }
    }
}
impl ToText for At {
    fn to_text(&self) -> Result<String, SerError> {
        unsafe { at_text(self) }
    }
}

macro_rules! flattenable {
    ($t:ident, $v:ident, $element:ident, $attribute:ident, $characters:ident, $finalize:ident, $wa:ident, $wc:ident) => {
        extern "Rust" {
            fn $element<'a>(c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError>;
            fn $attribute(name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError>;
            fn $characters(s: String, pos: TextPosition) -> Result<Option<String>, BoxedStdError>;
            fn $finalize() -> Result<$t, VisitorError>;
            fn $wa(v: &$t, b: &mut ElementBuilder) -> Result<(), SerError>;
            fn $wc(v: &$t, w: &mut ElementWriter) -> Result<(), SerError>;
        }
        /// A flattened field that does anything.
        pub struct $t(u8);
        pub struct $v<'out>(&'out mut MaybeUninit<$t>);
        impl<'out> ElementVisitor for $v<'out> {
            fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
                unsafe { $element(c) }
            }
            fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
                unsafe { $attribute(name, value) }
            }
            fn characters(&mut self, s: String, pos: TextPosition) -> Result<Option<String>, BoxedStdError> {
                unsafe { $characters(s, pos) }
            }
        }
        unsafe impl<'out> RawDeserializeVisitor<'out> for $v<'out> {
            type Out = $t;
            fn new(out: &'out mut MaybeUninit<$t>) -> Self {
                $v(out)
            }
            fn finalize(self, _default: Option<fn() -> $t>) -> Result<(), VisitorError> {
                self.0.write(unsafe { $finalize()? });
                Ok(())
            }
        }
        impl<'out> RawDeserialize<'out> for $t {
            type Visitor = $v<'out>;
        }
        impl static_xml::ser::Serialize for $t {
            fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), SerError> {
                unsafe { $wa(self, b) }
            }
            fn write_children(&self, w: &mut ElementWriter) -> Result<(), SerError> {
                unsafe { $wc(self, w) }
            }
        }
    };
}
flattenable!(Fl1, Fl1V, fl1_element, fl1_attribute, fl1_characters, fl1_finalize, fl1_wattributes, fl1_wchildren);
flattenable!(Fl2, Fl2V, fl2_element, fl2_attribute, fl2_characters, fl2_finalize, fl2_wattributes, fl2_wchildren);
flattenable!(Fl3, Fl3V, fl3_element, fl3_attribute, fl3_characters, fl3_finalize, fl3_wattributes, fl3_wchildren);

pub mod x1 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct X1 {
        pub b: El,
        pub a: Option<El>,
        pub c: Vec<El>,
    }
}
use x1::X1;
pub fn root_read_X1(r: ElementReader<'_>) -> Result<X1, VisitorError> {
    <X1 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_X1() -> Result<X1, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<X1 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod x2 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct X2 {
        #[static_xml(attribute)]
        pub y: At,
        #[static_xml(attribute)]
        pub z: Option<At>,
        #[static_xml(attribute, default)]
        pub x: At,
    }
}
use x2::X2;
pub fn root_read_X2(r: ElementReader<'_>) -> Result<X2, VisitorError> {
    <X2 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_X2() -> Result<X2, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<X2 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod x3 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct X3 {
        #[static_xml(default)]
        pub one: El,
        #[static_xml(default)]
        pub list: Vec<El>,
        #[static_xml(default)]
        pub maybe: Option<El>,
    }
}
use x3::X3;
pub fn root_read_X3(r: ElementReader<'_>) -> Result<X3, VisitorError> {
    <X3 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_X3() -> Result<X3, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<X3 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod x4 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct X4 {
        pub t: At,
        pub s: Option<At>,
        pub u: Vec<At>,
        #[static_xml(attribute, rename = "t")]
        pub t2: At,
    }
}
use x4::X4;
pub fn root_read_X4(r: ElementReader<'_>) -> Result<X4, VisitorError> {
    <X4 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_X4() -> Result<X4, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<X4 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod x5 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct X5 {
        #[static_xml(attribute, default)]
        pub k: Option<At>,
        #[static_xml(rename = "k")]
        pub k2: El,
    }
}
use x5::X5;
pub fn root_read_X5(r: ElementReader<'_>) -> Result<X5, VisitorError> {
    <X5 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_X5() -> Result<X5, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<X5 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod n1 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    #[static_xml(namespace = "p: urn:p", namespace = "q: urn:q", rename = "root", prefix = "q")]
    pub struct N1 {
        #[static_xml(prefix = "q")]
        pub a: Option<El>,
        #[static_xml(rename = "a", prefix = "p")]
        pub b: Option<El>,
        #[static_xml(rename = "a")]
        pub c: Option<El>,
        #[static_xml(prefix = "p")]
        pub d: Option<El>,
    }
}
use n1::N1;
pub fn root_read_N1(r: ElementReader<'_>) -> Result<N1, VisitorError> {
    <N1 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_N1() -> Result<N1, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<N1 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod n2 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    #[static_xml(namespace = "p: urn:p", namespace = "q: urn:q", default_namespace = "urn:d", prefix = "")]
    pub struct N2 {
        #[static_xml(prefix = "")]
        pub r#type: El,
        pub r#fn: Option<El>,
        #[static_xml(attribute, prefix = "p")]
        pub r#match: At,
        #[static_xml(attribute)]
        pub r#in: Option<At>,
    }
}
use n2::N2;
pub fn root_read_N2(r: ElementReader<'_>) -> Result<N2, VisitorError> {
    <N2 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_N2() -> Result<N2, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<N2 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod n3 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct N3 {
        pub ab: Option<El>,
        pub a: Option<El>,
        #[static_xml(rename = "a-b")]
        pub x: Vec<El>,
        #[static_xml(rename = "A")]
        pub upper: Option<El>,
    }
}
use n3::N3;
pub fn root_read_N3(r: ElementReader<'_>) -> Result<N3, VisitorError> {
    <N3 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_N3() -> Result<N3, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<N3 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod n4 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    #[static_xml(namespace = "p: urn:p", namespace = "q: urn:q")]
    pub struct N4 {
        #[static_xml(attribute, prefix = "p")]
        pub c: Option<At>,
        #[static_xml(attribute, rename = "c", prefix = "q")]
        pub c2: Option<At>,
        #[static_xml(attribute, rename = "c")]
        pub c3: Option<At>,
        #[static_xml(attribute, prefix = "xml")]
        pub lang: Option<At>,
    }
}
use n4::N4;
pub fn root_read_N4(r: ElementReader<'_>) -> Result<N4, VisitorError> {
    <N4 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_N4() -> Result<N4, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<N4 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod n5 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    #[static_xml(namespace = "z: urn:a", namespace = "b: urn:z", namespace = "a: ")]
    pub struct N5 {
        #[static_xml(prefix = "z")]
        pub z: Option<El>,
        #[static_xml(prefix = "b")]
        pub a: Option<El>,
        #[static_xml(prefix = "a")]
        pub y: Option<El>,
    }
}
use n5::N5;
pub fn root_read_N5(r: ElementReader<'_>) -> Result<N5, VisitorError> {
    <N5 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_N5() -> Result<N5, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<N5 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod n6 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    #[static_xml(default_namespace = "urn:d", rename = "r#odd name")]
    pub struct N6 {
        #[static_xml(prefix = "")]
        pub solo: El,
    }
}
use n6::N6;
pub fn root_read_N6(r: ElementReader<'_>) -> Result<N6, VisitorError> {
    <N6 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_N6() -> Result<N6, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<N6 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod n7 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct N7 {
    }
}
use n7::N7;
pub fn root_read_N7(r: ElementReader<'_>) -> Result<N7, VisitorError> {
    <N7 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_N7() -> Result<N7, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<N7 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod n8 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct N8 {
        #[static_xml(rename = "m")]
        pub e0: Vec<El>,
        #[static_xml(attribute, rename = "m")]
        pub a0: Option<At>,
        pub f_present: Option<El>,
        pub f: El,
    }
}
use n8::N8;
pub fn root_read_N8(r: ElementReader<'_>) -> Result<N8, VisitorError> {
    <N8 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_N8() -> Result<N8, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<N8 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod n10 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    #[static_xml(namespace = "p: urn:p", default_namespace = "urn:d")]
    pub struct N10 {
        #[static_xml(attribute, prefix = "")]
        pub plain: At,
        #[static_xml(attribute, prefix = "p")]
        pub other: Option<At>,
        #[static_xml(attribute)]
        pub bare: Option<At>,
        #[static_xml(rename = "plain")]
        pub plain_: Option<El>,
        #[static_xml(rename = "other", prefix = "")]
        pub other_: Option<El>,
    }
}
use n10::N10;
pub fn root_read_N10(r: ElementReader<'_>) -> Result<N10, VisitorError> {
    <N10 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_N10() -> Result<N10, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<N10 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod n11 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct N11 {
        #[static_xml(rename = "c0")]
        pub f0: Option<El>,
        #[static_xml(rename = "a1")]
        pub f1: Vec<El>,
        #[static_xml(rename = "b2")]
        pub f2: Option<El>,
        #[static_xml(rename = "c3")]
        pub f3: Vec<El>,
        #[static_xml(rename = "a4")]
        pub f4: Option<El>,
        #[static_xml(rename = "b5")]
        pub f5: Vec<El>,
        #[static_xml(rename = "c6")]
        pub f6: Option<El>,
        #[static_xml(rename = "a7")]
        pub f7: Vec<El>,
        #[static_xml(rename = "b8")]
        pub f8: Option<El>,
        #[static_xml(rename = "c9")]
        pub f9: Vec<El>,
        #[static_xml(rename = "a10")]
        pub f10: Option<El>,
        #[static_xml(rename = "b11")]
        pub f11: Vec<El>,
        #[static_xml(rename = "c12")]
        pub f12: Option<El>,
        #[static_xml(rename = "a13")]
        pub f13: Vec<El>,
        #[static_xml(attribute, rename = "t0")]
        pub g0: Option<At>,
        #[static_xml(attribute, rename = "s1")]
        pub g1: Option<At>,
        #[static_xml(attribute, rename = "u2")]
        pub g2: Option<At>,
        #[static_xml(attribute, rename = "t3")]
        pub g3: Option<At>,
        #[static_xml(attribute, rename = "s4")]
        pub g4: Option<At>,
        #[static_xml(attribute, rename = "u5")]
        pub g5: Option<At>,
        #[static_xml(attribute, rename = "t6")]
        pub g6: Option<At>,
        #[static_xml(attribute, rename = "s7")]
        pub g7: Option<At>,
        #[static_xml(attribute, rename = "u8")]
        pub g8: Option<At>,
        #[static_xml(attribute, rename = "t9")]
        pub g9: Option<At>,
        #[static_xml(attribute, rename = "s10")]
        pub g10: Option<At>,
        #[static_xml(attribute, rename = "u11")]
        pub g11: Option<At>,
    }
}
use n11::N11;
pub fn root_read_N11(r: ElementReader<'_>) -> Result<N11, VisitorError> {
    <N11 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_N11() -> Result<N11, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<N11 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod e1 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub enum E1 {
        Two(Vec<El>),
        One(El),
        Unit,
        Opt(Option<El>),
        #[static_xml(skip)]
        Gone(El),
    }
}
use e1::E1;
pub fn root_read_E1(r: ElementReader<'_>) -> Result<E1, VisitorError> {
    <E1 as static_xml::de::Deserialize>::deserialize(r)
}
extern "Rust" {
    fn any_default_E1() -> E1;
}
fn default_E1() -> E1 {
    unsafe { any_default_E1() }
}
pub fn root_drive_E1() -> Result<E1, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<E1 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(if unsafe { nd() } { Some(default_E1 as fn() -> E1) } else { None })?;
    Ok(unsafe { out.assume_init() })
}
pub mod e2 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    #[static_xml(namespace = "p: urn:p", namespace = "q: urn:q", default_namespace = "urn:d", rename = "e", prefix = "p")]
    pub enum E2 {
        #[static_xml(prefix = "q")]
        A(El),
        #[static_xml(rename = "A", prefix = "p")]
        B(El),
        #[static_xml(rename = "A")]
        C(Vec<El>),
        #[static_xml(rename = "A", prefix = "")]
        D,
    }
}
use e2::E2;
pub fn root_read_E2(r: ElementReader<'_>) -> Result<E2, VisitorError> {
    <E2 as static_xml::de::Deserialize>::deserialize(r)
}
extern "Rust" {
    fn any_default_E2() -> E2;
}
fn default_E2() -> E2 {
    unsafe { any_default_E2() }
}
pub fn root_drive_E2() -> Result<E2, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<E2 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(if unsafe { nd() } { Some(default_E2 as fn() -> E2) } else { None })?;
    Ok(unsafe { out.assume_init() })
}
pub mod e3 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub enum E3 {
        Z,
        A,
        r#M,
        #[static_xml(skip)]
        Hidden,
    }
}
use e3::E3;
pub fn root_read_E3(r: ElementReader<'_>) -> Result<E3, VisitorError> {
    <E3 as static_xml::de::Deserialize>::deserialize(r)
}
extern "Rust" {
    fn any_default_E3() -> E3;
}
fn default_E3() -> E3 {
    unsafe { any_default_E3() }
}
pub fn root_drive_E3() -> Result<E3, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<E3 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(if unsafe { nd() } { Some(default_E3 as fn() -> E3) } else { None })?;
    Ok(unsafe { out.assume_init() })
}
pub mod e4 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub enum E4 {
        Only(At),
    }
}
use e4::E4;
pub fn root_read_E4(r: ElementReader<'_>) -> Result<E4, VisitorError> {
    <E4 as static_xml::de::Deserialize>::deserialize(r)
}
extern "Rust" {
    fn any_default_E4() -> E4;
}
fn default_E4() -> E4 {
    unsafe { any_default_E4() }
}
pub fn root_drive_E4() -> Result<E4, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<E4 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(if unsafe { nd() } { Some(default_E4 as fn() -> E4) } else { None })?;
    Ok(unsafe { out.assume_init() })
}
pub mod e5 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub enum E5 {
        #[static_xml(rename = "b")]
        B(Vec<At>),
        #[static_xml(rename = "aa")]
        Aa(Option<At>),
        #[static_xml(rename = "a")]
        A,
        #[static_xml(rename = "a.b")]
        Ab(El),
    }
}
use e5::E5;
pub fn root_read_E5(r: ElementReader<'_>) -> Result<E5, VisitorError> {
    <E5 as static_xml::de::Deserialize>::deserialize(r)
}
extern "Rust" {
    fn any_default_E5() -> E5;
}
fn default_E5() -> E5 {
    unsafe { any_default_E5() }
}
pub fn root_drive_E5() -> Result<E5, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<E5 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(if unsafe { nd() } { Some(default_E5 as fn() -> E5) } else { None })?;
    Ok(unsafe { out.assume_init() })
}
pub mod e6 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    #[static_xml(namespace = "p: urn:p", namespace = "q: urn:q")]
    pub enum E6 {
        #[static_xml(rename = "z0", prefix = "p")]
        V0(Vec<El>),
        #[static_xml(rename = "y1", prefix = "q")]
        V1(El),
        #[static_xml(rename = "x2", prefix = "p")]
        V2(El),
        #[static_xml(rename = "z3", prefix = "q")]
        V3(Vec<El>),
        #[static_xml(rename = "y4", prefix = "p")]
        V4(El),
        #[static_xml(rename = "x5", prefix = "q")]
        V5(El),
        #[static_xml(rename = "z6", prefix = "p")]
        V6(Vec<El>),
        #[static_xml(rename = "y7", prefix = "q")]
        V7(El),
        #[static_xml(rename = "x8", prefix = "p")]
        V8(El),
    }
}
use e6::E6;
pub fn root_read_E6(r: ElementReader<'_>) -> Result<E6, VisitorError> {
    <E6 as static_xml::de::Deserialize>::deserialize(r)
}
extern "Rust" {
    fn any_default_E6() -> E6;
}
fn default_E6() -> E6 {
    unsafe { any_default_E6() }
}
pub fn root_drive_E6() -> Result<E6, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<E6 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(if unsafe { nd() } { Some(default_E6 as fn() -> E6) } else { None })?;
    Ok(unsafe { out.assume_init() })
}
pub mod e7 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub enum E7 {
        #[static_xml(rename = "n0")]
        V0(El),
        #[static_xml(rename = "k1")]
        V1(Vec<El>),
        #[static_xml(rename = "m2")]
        V2,
        #[static_xml(rename = "n3")]
        V3(Option<El>),
        #[static_xml(rename = "k4")]
        V4(El),
        #[static_xml(rename = "m5")]
        V5(Vec<El>),
        #[static_xml(rename = "n6")]
        V6,
        #[static_xml(rename = "k7")]
        V7(Option<El>),
        #[static_xml(rename = "m8")]
        V8(El),
        #[static_xml(rename = "n9")]
        V9(Vec<El>),
        #[static_xml(rename = "k10")]
        V10,
        #[static_xml(rename = "m11")]
        V11(Option<El>),
        #[static_xml(rename = "n12")]
        V12(El),
        #[static_xml(rename = "k13")]
        V13(Vec<El>),
        #[static_xml(rename = "m14")]
        V14,
        #[static_xml(rename = "n15")]
        V15(Option<El>),
        #[static_xml(rename = "k16")]
        V16(El),
        #[static_xml(rename = "m17")]
        V17(Vec<El>),
    }
}
use e7::E7;
pub fn root_read_E7(r: ElementReader<'_>) -> Result<E7, VisitorError> {
    <E7 as static_xml::de::Deserialize>::deserialize(r)
}
extern "Rust" {
    fn any_default_E7() -> E7;
}
fn default_E7() -> E7 {
    unsafe { any_default_E7() }
}
pub fn root_drive_E7() -> Result<E7, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<E7 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(if unsafe { nd() } { Some(default_E7 as fn() -> E7) } else { None })?;
    Ok(unsafe { out.assume_init() })
}
pub mod g1 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct G1 {
        pub own: El,
        #[static_xml(flatten)]
        pub x: X1,
    }
}
use g1::G1;
pub fn root_read_G1(r: ElementReader<'_>) -> Result<G1, VisitorError> {
    <G1 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_G1() -> Result<G1, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<G1 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod g2 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct G2 {
        pub a: Vec<El>,
        #[static_xml(flatten)]
        pub x: X1,
        #[static_xml(attribute)]
        pub y: At,
    }
}
use g2::G2;
pub fn root_read_G2(r: ElementReader<'_>) -> Result<G2, VisitorError> {
    <G2 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_G2() -> Result<G2, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<G2 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod g3 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct G3 {
        #[static_xml(flatten)]
        pub e: E1,
        pub own: Option<El>,
    }
}
use g3::G3;
pub fn root_read_G3(r: ElementReader<'_>) -> Result<G3, VisitorError> {
    <G3 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_G3() -> Result<G3, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<G3 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod g4 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct G4 {
        #[static_xml(flatten)]
        pub f1: Fl1,
        pub own: El,
        #[static_xml(flatten)]
        pub f2: Fl2,
        #[static_xml(attribute)]
        pub own_a: Option<At>,
    }
}
use g4::G4;
pub fn root_read_G4(r: ElementReader<'_>) -> Result<G4, VisitorError> {
    <G4 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_G4() -> Result<G4, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<G4 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod g5 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct G5 {
        #[static_xml(flatten)]
        pub e: E3,
        #[static_xml(flatten)]
        pub f1: Fl1,
        #[static_xml(flatten)]
        pub x: X5,
    }
}
use g5::G5;
pub fn root_read_G5(r: ElementReader<'_>) -> Result<G5, VisitorError> {
    <G5 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_G5() -> Result<G5, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<G5 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod g6 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct G6 {
        #[static_xml(flatten)]
        pub f3: Fl3,
        #[static_xml(flatten)]
        pub g: G7,
        #[static_xml(flatten)]
        pub f1: Fl1,
    }
}
use g6::G6;
pub fn root_read_G6(r: ElementReader<'_>) -> Result<G6, VisitorError> {
    <G6 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_G6() -> Result<G6, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<G6 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod g7 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct G7 {
        pub m: El,
        #[static_xml(flatten)]
        pub f2: Fl2,
    }
}
use g7::G7;
pub fn root_read_G7(r: ElementReader<'_>) -> Result<G7, VisitorError> {
    <G7 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_G7() -> Result<G7, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<G7 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod g8 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    pub struct G8 {
        #[static_xml(flatten)]
        pub e: E4,
        #[static_xml(flatten)]
        pub d: E3,
    }
}
use g8::G8;
pub fn root_read_G8(r: ElementReader<'_>) -> Result<G8, VisitorError> {
    <G8 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_G8() -> Result<G8, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<G8 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
pub mod g9 {
    use super::*;
    #[derive(Deserialize, Serialize)]
    #[static_xml(namespace = "p: urn:p", namespace = "q: urn:q")]
    pub struct G9 {
        #[static_xml(flatten)]
        pub r#use: N3,
        #[static_xml(prefix = "p")]
        pub a: El,
    }
}
use g9::G9;
pub fn root_read_G9(r: ElementReader<'_>) -> Result<G9, VisitorError> {
    <G9 as static_xml::de::Deserialize>::deserialize(r)
}
pub fn root_drive_G9() -> Result<G9, VisitorError> {
    let mut out = MaybeUninit::uninit();
    let mut v = <<G9 as RawDeserialize>::Visitor as RawDeserializeVisitor>::new(&mut out);
    aux_drive(&mut v);
    v.finalize(None)?;
    Ok(unsafe { out.assume_init() })
}
#[derive(Serialize)]
pub struct W1 {
    #[static_xml(text)]
    pub t: At,
    pub a: El,
    #[static_xml(attribute)]
    pub b: At,
}
#[derive(Serialize)]
#[static_xml(namespace = "p: urn:p", namespace = "q: urn:q", default_namespace = "urn:d")]
pub struct W2 {
    pub a: Option<El>,
    #[static_xml(text)]
    pub t: At,
    #[static_xml(flatten)]
    pub x: X5,
    pub z: Vec<El>,
}
pub fn root_wattr_X1(v: &X1, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_X1(v: &X1, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_X1(v: &X1) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_X2(v: &X2, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_X2(v: &X2, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_X2(v: &X2) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_X3(v: &X3, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_X3(v: &X3, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_X3(v: &X3) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_X4(v: &X4, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_X4(v: &X4, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_X4(v: &X4) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_X5(v: &X5, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_X5(v: &X5, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_X5(v: &X5) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_N1(v: &N1, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_N1(v: &N1, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_N1(v: &N1) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_N2(v: &N2, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_N2(v: &N2, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_N2(v: &N2) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_N3(v: &N3, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_N3(v: &N3, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_N3(v: &N3) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_N4(v: &N4, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_N4(v: &N4, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_N4(v: &N4) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_N5(v: &N5, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_N5(v: &N5, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_N5(v: &N5) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_N6(v: &N6, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_N6(v: &N6, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_N6(v: &N6) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_N7(v: &N7, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_N7(v: &N7, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_N7(v: &N7) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_N8(v: &N8, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_N8(v: &N8, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_N8(v: &N8) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_N10(v: &N10, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_N10(v: &N10, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_N10(v: &N10) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_N11(v: &N11, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_N11(v: &N11, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_N11(v: &N11) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_E1(v: &E1, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_E1(v: &E1, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_E1(v: &E1) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_E2(v: &E2, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_E2(v: &E2, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_E2(v: &E2) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_E3(v: &E3, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_E3(v: &E3, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_E3(v: &E3) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_E4(v: &E4, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_E4(v: &E4, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_E4(v: &E4) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_E5(v: &E5, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_E5(v: &E5, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_E5(v: &E5) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_E6(v: &E6, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_E6(v: &E6, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_E6(v: &E6) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_E7(v: &E7, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_E7(v: &E7, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_E7(v: &E7) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_G1(v: &G1, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_G1(v: &G1, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_G1(v: &G1) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_G2(v: &G2, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_G2(v: &G2, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_G2(v: &G2) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_G3(v: &G3, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_G3(v: &G3, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_G3(v: &G3) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_G4(v: &G4, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_G4(v: &G4, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_G4(v: &G4) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_G5(v: &G5, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_G5(v: &G5, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_G5(v: &G5) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_G6(v: &G6, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_G6(v: &G6, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_G6(v: &G6) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_G7(v: &G7, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_G7(v: &G7, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_G7(v: &G7) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_G8(v: &G8, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_G8(v: &G8, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_G8(v: &G8) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_G9(v: &G9, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_G9(v: &G9, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_G9(v: &G9) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_W1(v: &W1, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_W1(v: &W1, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_W1(v: &W1) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
pub fn root_wattr_W2(v: &W2, b: &mut ElementBuilder) -> Result<(), SerError> {
    v.write_attributes(b)
}
pub fn root_wchild_W2(v: &W2, w: &mut ElementWriter) -> Result<(), SerError> {
    v.write_children(w)
}
pub fn root_name_W2(v: &W2) -> ExpandedNameRef<'_> {
    SerializeRoot::root(v)
}
