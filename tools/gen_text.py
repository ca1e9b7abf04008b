"""Writes fixtures/text/src/lib.rs from sx/corpus_text.py."""
nums='i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 f32 f64'.split()
o='''//! Roots for the analysis of text types. Never linked or run.
#![allow(dead_code, improper_ctypes)]
mod sxm;
use static_xml::de::*;
use static_xml::ser::ToText;
use static_xml::BoxedStdError;
use static_xml_derive::{ParseText, ToText};

// Built-in types.

macro_rules! builtin {
    ($t:ty, $parse:ident, $write:ident) => {
        pub fn $parse(text: String) -> Result<$t, BoxedStdError> {
            <$t as ParseText>::parse(text)
        }
        pub fn $write(v: &$t) -> Result<String, static_xml::ser::Error> {
            <$t as ToText>::to_text(v)
        }
    };
}

'''
for t in nums+['bool']:
    o+='builtin!(%s, root_parse_%s, root_write_%s);\n'%(t,t,t)
o+='builtin!(String, root_parse_string, root_write_string);\n'
o+='''
pub fn root_write_str(v: &&str) -> Result<String, static_xml::ser::Error> {
    <&str as ToText>::to_text(v)
}

pub fn root_normalize(text: String, mode: WhiteSpace) -> String {
    normalize(text, mode)
}

// Derived types.

extern "Rust" {
'''
for x in 'ABCDEFGHIJKLMNOPQ':
    o += '    fn any_parse_%s(text: String) -> Result<%s, BoxedStdError>;\n    fn any_write_%s(v: &%s) -> Result<String, static_xml::ser::Error>;\n' % (x.lower(), x, x.lower(), x)
o += '''    fn any_from_str(text: &str) -> Result<u8, StdErr>;
    fn any_display(v: u8) -> String;
}

macro_rules! opaque {
    ($t:ident, $parse:ident, $write:ident) => {
        /// A text type that may do anything.
        pub struct $t(u8);
        impl ParseText for $t {
            fn parse(text: String) -> Result<Self, BoxedStdError> {
                unsafe { $parse(text) }
            }
        }
        impl ToText for $t {
            fn to_text(&self) -> Result<String, static_xml::ser::Error> {
                unsafe { $write(self) }
            }
        }
    };
}
'''
for x in 'ABCDEFGHIJKLMNOPQ':
    o += 'opaque!(%s, any_parse_%s, any_write_%s);\n' % (x, x.lower(), x.lower())
o += '''
#[derive(Debug)]
pub struct StdErr(u8);
impl std::fmt::Display for StdErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("e")
    }
}
impl std::error::Error for StdErr {}

macro_rules! derived {
    ($t:ident, $parse:ident, $write:ident) => {
        pub fn $parse(text: String) -> Result<$t, BoxedStdError> {
            <$t as ParseText>::parse(text)
        }
        pub fn $write(v: &$t) -> Result<String, static_xml::ser::Error> {
            <$t as ToText>::to_text(v)
        }
    };
}

macro_rules! std_mode {
    ($t:ident) => {
        impl std::str::FromStr for $t {
            type Err = StdErr;
            fn from_str(s: &str) -> Result<Self, StdErr> {
                match unsafe { any_from_str(s) } {
                    Ok(v) => Ok($t(v)),
                    Err(e) => Err(e),
                }
            }
        }
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(&unsafe { any_display(self.0) })
            }
        }
    };
}

'''
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sx')
from corpus_text import TYPES, declare
for n,t in TYPES.items():
    o+=declare(n,t)
open(V + '/fixtures/text/src/lib.rs','w').write(o)
