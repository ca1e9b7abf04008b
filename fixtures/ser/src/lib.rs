//! Roots for the analysis of the writing side. Never linked or run: the
//! `extern` functions stand for "anything a client may do" (`nd`, `any_*`) and
//! for the analysis' observers (`obs_*`).
#![allow(dead_code, improper_ctypes)]
mod sxm;
use static_xml::ser::*;
use static_xml::ExpandedNameRef;
use std::io::Write;

/// What was observed before an operation.
#[derive(Clone, Copy)]
pub struct Ghost(u8);

extern "Rust" {
    /// Non-deterministic choice.
    fn nd() -> bool;
    fn any_name() -> ExpandedNameRef<'static>;
    fn any_text() -> String;
    fn any_prefix() -> &'static str;
    fn any_url() -> &'static str;
    fn raise() -> Error;
    /// A value of the client's is turned into text.
    fn obs_to_text(s: &String);
    fn obs_text(s: &String);
    fn obs_ok();
    fn obs_err(e: &Error);
    /// Adding an attribute failed.
    fn obs_err_attribute(e: &Error);
    /// The result of writing text or an end tag.
    fn obs_written(r: &Result<(), Error>);
    fn obs_err_start(e: &Error);
    fn obs_discard();
    /// An element is not started or not finished.
    fn obs_abandon();
    fn obs_depth() -> Ghost;
    fn obs_started(g: Ghost);
    fn obs_finished(g: Ghost);
    /// A field was written: nothing, one element, or any number.
    fn obs_field(g: Ghost, nothing: bool, exactly: bool);
    /// The sink is written to.
    fn obs_raw();
    fn obs_indent(x: bool);
    fn obs_declaration(x: bool);
}

pub struct Text(u8);

impl ToText for Text {
    fn to_text(&self) -> Result<String, Error> {
        unsafe {
            if nd() {
                return Err(raise());
            }
            let s = any_text();
            obs_to_text(&s);
            Ok(s)
        }
    }
}

pub struct AttrText(u8);

impl ToText for AttrText {
    fn to_text(&self) -> Result<String, Error> {
        unsafe {
            if nd() {
                return Err(raise());
            }
            Ok(any_text())
        }
    }
}

/// A value whose serialization does anything that safe code can do.
pub struct Val(u8);

impl Serialize for Val {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        let r = attributes(b);
        if r.is_err() {
            unsafe { obs_abandon() };
        }
        r
    }

    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        let r = children(w);
        if r.is_err() {
            unsafe { obs_abandon() };
        }
        r
    }
}

impl SerializeRoot for Val {
    fn root(&self) -> ExpandedNameRef {
        unsafe { any_name() }
    }
}

/// The client notes an operation's result, and returns or discards an error.
fn noted(r: Result<(), Error>) -> Result<(), Error> {
    unsafe {
        match r {
            Ok(()) => obs_ok(),
            Err(e) => {
                obs_err(&e);
                if nd() {
                    return Err(e);
                }
                obs_discard();
            }
        }
    }
    Ok(())
}

#[inline(never)]
fn attributes(b: &mut ElementBuilder<'_>) -> Result<(), Error> {
    unsafe {
        while nd() {
            if nd() {
                b.namespace(any_prefix(), any_url());
                continue;
            }
            let r = if nd() {
                b.attribute(any_name(), any_text())
            } else if nd() {
                SerializeAttr::write(&AttrText(0), b, any_name())
            } else {
                SerializeAttr::write(&if nd() { Some(AttrText(0)) } else { None }, b, any_name())
            };
            match r {
                Ok(()) => obs_ok(),
                Err(e) => {
                    obs_err_attribute(&e);
                    if nd() {
                        return Err(e);
                    }
                    obs_discard();
                }
            }
        }
        if nd() {
            return Err(raise());
        }
    }
    Ok(())
}

#[inline(never)]
fn children(w: &mut ElementWriter<'_>) -> Result<(), Error> {
    unsafe {
        while nd() {
            let r = if nd() {
                let s = any_text();
                obs_text(&s);
                let r = w.text(&s);
                obs_written(&r);
                r
            } else if nd() {
                element(w)
            } else {
                let g = obs_depth();
                let mut once = true;
                let mut nothing = false;
                let r = if nd() {
                    SerializeField::write(&Val(0), w, any_name())
                } else if nd() {
                    SerializeField::write(&Text(0), w, any_name())
                } else if nd() {
                    SerializeField::write(&Some(Val(0)), w, any_name())
                } else if nd() {
                    nothing = true;
                    SerializeField::write(&None::<Val>, w, any_name())
                } else {
                    once = false;
                    SerializeField::write(&any_vals(), w, any_name())
                };
                if r.is_ok() {
                    obs_field(g, nothing, once);
                }
                r
            };
            noted(r)?;
        }
        if nd() {
            return Err(raise());
        }
    }
    Ok(())
}

extern "Rust" {
    fn any_vals() -> Vec<Val>;
}

fn element(w: &mut ElementWriter<'_>) -> Result<(), Error> {
    unsafe {
        let mut b = w.element(any_name());
        let r = attributes(&mut b);
        if r.is_err() || nd() {
            obs_abandon();
            return r;
        }
        let g = obs_depth();
        match b.start() {
            Ok(mut c) => {
                obs_started(g);
                let r = children(&mut c);
                if r.is_err() || nd() {
                    obs_abandon();
                    return r;
                }
                let r = c.finish();
                obs_written(&r);
                if r.is_ok() {
                    obs_finished(g);
                }
                r
            }
            Err(e) => {
                obs_err_start(&e);
                Err(e)
            }
        }
    }
}

pub struct Sink(u8);

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        unsafe { obs_raw() };
        Ok(b.len())
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn configured<'a>(v: &'a Val) -> Serializer<'a> {
    unsafe {
        let mut s = if nd() {
            serialize(v)
        } else {
            serialize_with_name(v, any_name())
        };
        while nd() {
            if nd() {
                let x = nd();
                obs_indent(x);
                s = s.perform_indent(x);
            } else {
                let x = nd();
                obs_declaration(x);
                s = s.write_document_declaration(x);
            }
        }
        s
    }
}

/// How an xml-rs `Namespace` presents its entries.
fn mapping<'a>(e: (&'a String, &'a String)) -> (&'a str, &'a str) {
    (&**e.0, &**e.1)
}

pub fn root_mapping() -> for<'a> fn((&'a String, &'a String)) -> (&'a str, &'a str) {
    mapping
}

pub fn root_display(e: &Error, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(e, f)
}

pub fn root_to(v: &Val) -> Result<(), Error> {
    configured(v).to(Sink(0))
}

pub fn root_to_string(v: &Val) -> Result<String, Error> {
    configured(v).to_string()
}

// -- attributes ---------------------------------------------------------------

extern "Rust" {
    /// One of two names that are watched, or any other.
    fn any_attribute() -> ExpandedNameRef<'static>;
    /// A value that tells which attribute it belongs to.
    fn any_value(name: &ExpandedNameRef<'_>) -> String;
    fn obs_element();
    fn obs_added(name: &ExpandedNameRef<'_>, value: &String, ok: bool);
}

pub struct AttrVal(u8);

fn watched(b: &mut ElementBuilder<'_>) {
    unsafe {
        obs_element();
        while nd() {
            if nd() {
                b.namespace(any_prefix(), any_url());
                continue;
            }
            let n = any_attribute();
            let v = any_value(&n);
            let r = b.attribute(n, v.clone());
            obs_added(&n, &v, r.is_ok());
        }
    }
}

impl Serialize for AttrVal {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        watched(b);
        Ok(())
    }

    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        unsafe {
            let mut b = w.element(any_name());
            watched(&mut b);
            b.start()?.finish()
        }
    }
}

pub fn root_attributes(v: &AttrVal) -> Result<(), Error> {
    unsafe { serialize_with_name(v, any_name()).to(Sink(0)) }
}

// -- names --------------------------------------------------------------------

extern "Rust" {
    /// The name of the next element.
    fn any_element() -> ExpandedNameRef<'static>;
    /// The name of an attribute: in the watched namespace at most once.
    fn any_attribute_name() -> ExpandedNameRef<'static>;
    fn obs_namespace(prefix: &str, url: &str);
    fn obs_scope() -> Ghost;
    fn obs_scope_restored(g: Ghost);
    fn obs_refused();
    /// The element is open: what its start tag was made of doesn't matter any more.
    fn obs_open(w: &mut ElementWriter<'_>);
}

pub struct NameVal(u8);

fn name_attributes(b: &mut ElementBuilder<'_>) -> Result<(), Error> {
    unsafe {
        while nd() {
            if nd() {
                let (p, u) = (any_prefix(), any_url());
                obs_namespace(p, u);
                b.namespace(p, u);
            } else {
                b.attribute(any_attribute_name(), any_text())?;
            }
        }
    }
    Ok(())
}

fn name_children(w: &mut ElementWriter<'_>) -> Result<(), Error> {
    unsafe {
        while nd() {
            let mut b = w.element(any_element());
            name_attributes(&mut b)?;
            let g = obs_scope();
            let mut c = match b.start() {
                Ok(c) => c,
                Err(e) => {
                    obs_refused();
                    return Err(e);
                }
            };
            obs_open(&mut c);
            name_children(&mut c)?;
            c.finish()?;
            obs_scope_restored(g);
        }
    }
    Ok(())
}

impl Serialize for NameVal {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        name_attributes(b)
    }

    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        unsafe { obs_open(w) };
        name_children(w)
    }
}

pub fn root_names(v: &NameVal) -> Result<(), Error> {
    unsafe {
        let s = serialize_with_name(v, any_element());
        let r = s.to(Sink(0));
        if r.is_err() {
            obs_refused();
        }
        r
    }
}
