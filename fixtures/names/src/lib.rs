//! Roots for the analysis of names. Never linked or run: the `extern`
//! function is an observer.
#![allow(dead_code)]
mod sxm;
use static_xml::{ExpandedName, ExpandedNameRef};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

extern "Rust" {
    fn obs_str(s: &str);
    fn obs_bytes(s: &[u8]);
    fn obs_int(i: u64);
}

pub struct H;
impl Hasher for H {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        unsafe { obs_bytes(bytes) }
    }
    fn write_u8(&mut self, i: u8) {
        unsafe { obs_int(i as u64) }
    }
    fn write_u32(&mut self, i: u32) {
        unsafe { obs_int(i as u64) }
    }
    fn write_u64(&mut self, i: u64) {
        unsafe { obs_int(i) }
    }
    fn write_usize(&mut self, i: usize) {
        unsafe { obs_int(i as u64) }
    }
}

pub fn root_hash_ref(a: &ExpandedNameRef<'_>) {
    a.hash(&mut H)
}

macro_rules! compared {
    ($t:ty, $eq:ident, $ne:ident, $cmp:ident, $partial:ident, $lt:ident, $le:ident, $gt:ident, $ge:ident, $clone:ident) => {
        pub fn $eq(a: &$t, b: &$t) -> bool {
            a == b
        }
        pub fn $ne(a: &$t, b: &$t) -> bool {
            a != b
        }
        pub fn $cmp(a: &$t, b: &$t) -> Ordering {
            a.cmp(b)
        }
        pub fn $partial(a: &$t, b: &$t) -> Option<Ordering> {
            a.partial_cmp(b)
        }
        pub fn $lt(a: &$t, b: &$t) -> bool {
            a < b
        }
        pub fn $le(a: &$t, b: &$t) -> bool {
            a <= b
        }
        pub fn $gt(a: &$t, b: &$t) -> bool {
            a > b
        }
        pub fn $ge(a: &$t, b: &$t) -> bool {
            a >= b
        }
        pub fn $clone(a: &$t) -> $t {
            a.clone()
        }
    };
}
compared!(ExpandedNameRef<'static>, root_eq_ref, root_ne_ref, root_cmp_ref, root_partial_ref, root_lt_ref, root_le_ref, root_gt_ref, root_ge_ref, root_clone_ref);
compared!(ExpandedName, root_eq_owned, root_ne_owned, root_cmp_owned, root_partial_owned, root_lt_owned, root_le_owned, root_gt_owned, root_ge_owned, root_clone_owned);

const fn n(namespace: &'static str, local_name: &'static str) -> ExpandedNameRef<'static> {
    ExpandedNameRef { namespace, local_name }
}

macro_rules! found {
    ($f:ident, $($n:expr),*) => {
        pub fn $f(name: &ExpandedNameRef<'static>) -> Option<usize> {
            static_xml::de::find(name, &[$($n),*])
        }
    };
}
found!(root_find_0,);
found!(root_find_1, n("", "b"));
found!(root_find_2, n("", "b"), n("u", "b"));
found!(root_find_3, n("", "b"), n("", "d"), n("u", "b"));
found!(root_find_4, n("u", "b"), n("u", "d"), n("v", "b"), n("v", "d"));
found!(root_find_5, n("", "bb"), n("", "d"), n("u", "b"), n("u", "d"), n("v", "b"));
found!(root_find_7, n("", "b"), n("", "d"), n("u", "b"), n("u", "bb"), n("u", "d"), n("v", "b"), n("v", "d"));
