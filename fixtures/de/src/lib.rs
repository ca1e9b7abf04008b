//! Roots for the analysis of the reading side. Never linked or run: the
//! `extern` functions stand for "anything a client may do" (`nd`, `any_*`) and
//! for the analysis' observers (`obs_*`).
#![allow(dead_code, improper_ctypes)]
mod sxm;
use static_xml::de::*;
use static_xml::{BoxedStdError, ExpandedNameRef, TextPosition};

/// The observers' knowledge of an element.
#[derive(Clone, Copy)]
pub struct Ghost(u8);
/// What was observed before a nested read.
pub struct Prev(u8);

extern "Rust" {
    /// Non-deterministic choice.
    fn nd() -> bool;
    fn any_val() -> Val;
    fn raise_attribute(g: &Ghost) -> BoxedStdError;
    fn raise_characters(g: &Ghost, pos: TextPosition) -> BoxedStdError;
    fn raise_client(g: &Ghost) -> BoxedStdError;
    fn obs_reader(name: xml::name::Name<'_>, depth: usize) -> Ghost;
    fn obs_begin(g: &Ghost) -> Prev;
    fn obs_begin_string(g: &Ghost) -> Prev;
    fn obs_finish(p: Prev);
    fn obs_expanded(g: &Ghost, name: &ExpandedNameRef<'_>);
    fn obs_attribute(name: &ExpandedNameRef<'_>, value: &String);
    fn obs_element();
    fn obs_element_done();
    fn obs_characters(s: &String, pos: TextPosition);
    fn obs_end(name: &xml::name::OwnedName, pos: TextPosition);
    fn obs_text(s: &String);
    fn obs_error(e: &VisitorError);
    fn obs_discard();
    fn obs_decline();
}

/// A value whose deserialization does anything that safe code can do.
pub struct Val(u8);

impl Deserialize for Val {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        client(element)?;
        Ok(unsafe { any_val() })
    }
}

/// Any client of an element reader.
#[inline(never)]
pub fn client<'a>(r: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
    unsafe {
        let g = obs_reader(r.name(), r.depth());
        obs_expanded(&g, &r.expanded_name());
        if nd() {
            let mut v = Vis(g);
            let p = obs_begin(&g);
            match r.read_to(&mut v) {
                Ok((name, _ns, pos)) => {
                    obs_end(&name, pos);
                    obs_finish(p);
                }
                Err(e) => {
                    obs_error(&e);
                    obs_finish(p);
                    if nd() {
                        return Err(e);
                    }
                    obs_discard();
                }
            }
        } else if nd() {
            let p = obs_begin_string(&g);
            match r.read_string() {
                Ok(s) => {
                    obs_text(&s);
                    obs_finish(p);
                }
                Err(e) => {
                    obs_error(&e);
                    obs_finish(p);
                    if nd() {
                        return Err(e);
                    }
                    obs_discard();
                }
            }
        } else if nd() {
            obs_decline();
            return Ok(Some(r));
        }
        if nd() {
            return Err(VisitorError::Wrap(raise_client(&g)));
        }
        Ok(None)
    }
}

pub struct Vis(Ghost);

impl ElementVisitor for Vis {
    fn attribute(
        &mut self,
        name: &ExpandedNameRef<'_>,
        value: String,
    ) -> Result<Option<String>, VisitorError> {
        unsafe {
            obs_attribute(name, &value);
            if nd() {
                return Err(VisitorError::Wrap(raise_attribute(&self.0)));
            }
            if nd() {
                return Ok(Some(value));
            }
        }
        Ok(None)
    }

    fn element<'a>(
        &mut self,
        child: ElementReader<'a>,
    ) -> Result<Option<ElementReader<'a>>, VisitorError> {
        unsafe { obs_element() };
        let r = client(child);
        unsafe { obs_element_done() };
        r
    }

    fn characters(
        &mut self,
        s: String,
        pos: TextPosition,
    ) -> Result<Option<String>, BoxedStdError> {
        unsafe {
            obs_characters(&s, pos);
            if nd() {
                return Err(raise_characters(&self.0, pos));
            }
            if nd() {
                return Ok(Some(s));
            }
        }
        Ok(None)
    }
}

/// `read` is generic over its source and only hands it to the parser, so one
/// instance stands for all.
pub fn root_read(s: &[u8]) -> Result<Val, Error> {
    read(s)
}

pub fn root_from_str(s: &str) -> Result<Val, Error> {
    from_str(s)
}

pub fn root_stack(e: &Error) -> &[StackElement] {
    e.stack()
}

pub fn root_source<'a>(e: &'a Error) -> Option<&'a (dyn std::error::Error + 'static)> {
    std::error::Error::source(e)
}
