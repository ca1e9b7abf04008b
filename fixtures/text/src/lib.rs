//! Roots for the analysis of text types. Never linked or run.
#![allow(dead_code, improper_ctypes)]
mod sxm;
use static_xml::de::*;
use static_xml::ser::ToText;
use static_xml::BoxedStdError;
use static_xml_derive::{ParseText, ToText};

// Built-in types.

macro_rules! builtin {
    ($t:ty, $parse:ident, $write:ident) => {
        pub fn $parse(text: String) -> Result<$t, BoxedStdError> {
            <$t as ParseText>::parse(text)
        }
        pub fn $write(v: &$t) -> Result<String, static_xml::ser::Error> {
            <$t as ToText>::to_text(v)
        }
    };
}

builtin!(i8, root_parse_i8, root_write_i8);
builtin!(u8, root_parse_u8, root_write_u8);
builtin!(i16, root_parse_i16, root_write_i16);
builtin!(u16, root_parse_u16, root_write_u16);
builtin!(i32, root_parse_i32, root_write_i32);
builtin!(u32, root_parse_u32, root_write_u32);
builtin!(i64, root_parse_i64, root_write_i64);
builtin!(u64, root_parse_u64, root_write_u64);
builtin!(i128, root_parse_i128, root_write_i128);
builtin!(u128, root_parse_u128, root_write_u128);
builtin!(f32, root_parse_f32, root_write_f32);
builtin!(f64, root_parse_f64, root_write_f64);
builtin!(bool, root_parse_bool, root_write_bool);
builtin!(String, root_parse_string, root_write_string);

pub fn root_write_str(v: &&str) -> Result<String, static_xml::ser::Error> {
    <&str as ToText>::to_text(v)
}

pub fn root_normalize(text: String, mode: WhiteSpace) -> String {
    normalize(text, mode)
}

// Derived types.

extern "Rust" {
    fn any_parse_a(text: String) -> Result<A, BoxedStdError>;
    fn any_write_a(v: &A) -> Result<String, static_xml::ser::Error>;
    fn any_parse_b(text: String) -> Result<B, BoxedStdError>;
    fn any_write_b(v: &B) -> Result<String, static_xml::ser::Error>;
    fn any_parse_c(text: String) -> Result<C, BoxedStdError>;
    fn any_write_c(v: &C) -> Result<String, static_xml::ser::Error>;
    fn any_parse_d(text: String) -> Result<D, BoxedStdError>;
    fn any_write_d(v: &D) -> Result<String, static_xml::ser::Error>;
    fn any_parse_e(text: String) -> Result<E, BoxedStdError>;
    fn any_write_e(v: &E) -> Result<String, static_xml::ser::Error>;
    fn any_parse_f(text: String) -> Result<F, BoxedStdError>;
    fn any_write_f(v: &F) -> Result<String, static_xml::ser::Error>;
    fn any_parse_g(text: String) -> Result<G, BoxedStdError>;
    fn any_write_g(v: &G) -> Result<String, static_xml::ser::Error>;
    fn any_parse_h(text: String) -> Result<H, BoxedStdError>;
    fn any_write_h(v: &H) -> Result<String, static_xml::ser::Error>;
    fn any_parse_i(text: String) -> Result<I, BoxedStdError>;
    fn any_write_i(v: &I) -> Result<String, static_xml::ser::Error>;
    fn any_parse_j(text: String) -> Result<J, BoxedStdError>;
    fn any_write_j(v: &J) -> Result<String, static_xml::ser::Error>;
    fn any_parse_k(text: String) -> Result<K, BoxedStdError>;
    fn any_write_k(v: &K) -> Result<String, static_xml::ser::Error>;
    fn any_parse_l(text: String) -> Result<L, BoxedStdError>;
    fn any_write_l(v: &L) -> Result<String, static_xml::ser::Error>;
    fn any_parse_m(text: String) -> Result<M, BoxedStdError>;
    fn any_write_m(v: &M) -> Result<String, static_xml::ser::Error>;
    fn any_parse_n(text: String) -> Result<N, BoxedStdError>;
    fn any_write_n(v: &N) -> Result<String, static_xml::ser::Error>;
    fn any_parse_o(text: String) -> Result<O, BoxedStdError>;
    fn any_write_o(v: &O) -> Result<String, static_xml::ser::Error>;
    fn any_parse_p(text: String) -> Result<P, BoxedStdError>;
    fn any_write_p(v: &P) -> Result<String, static_xml::ser::Error>;
    fn any_parse_q(text: String) -> Result<Q, BoxedStdError>;
    fn any_write_q(v: &Q) -> Result<String, static_xml::ser::Error>;
    fn any_from_str(text: &str) -> Result<u8, StdErr>;
    fn any_display(v: u8) -> String;
}

macro_rules! opaque {
    ($t:ident, $parse:ident, $write:ident) => {
        /// A text type that may do anything.
        pub struct $t(u8);
        impl ParseText for $t {
            fn parse(text: String) -> Result<Self, BoxedStdError> {
                unsafe { $parse(text) }
            }
        }
        impl ToText for $t {
            fn to_text(&self) -> Result<String, static_xml::ser::Error> {
                unsafe { $write(self) }
            }
        }
    };
}
opaque!(A, any_parse_a, any_write_a);
opaque!(B, any_parse_b, any_write_b);
opaque!(C, any_parse_c, any_write_c);
opaque!(D, any_parse_d, any_write_d);
opaque!(E, any_parse_e, any_write_e);
opaque!(F, any_parse_f, any_write_f);
opaque!(G, any_parse_g, any_write_g);
opaque!(H, any_parse_h, any_write_h);
opaque!(I, any_parse_i, any_write_i);
opaque!(J, any_parse_j, any_write_j);
opaque!(K, any_parse_k, any_write_k);
opaque!(L, any_parse_l, any_write_l);
opaque!(M, any_parse_m, any_write_m);
opaque!(N, any_parse_n, any_write_n);
opaque!(O, any_parse_o, any_write_o);
opaque!(P, any_parse_p, any_write_p);
opaque!(Q, any_parse_q, any_write_q);

#[derive(Debug)]
pub struct StdErr(u8);
impl std::fmt::Display for StdErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("e")
    }
}
impl std::error::Error for StdErr {}

macro_rules! derived {
    ($t:ident, $parse:ident, $write:ident) => {
        pub fn $parse(text: String) -> Result<$t, BoxedStdError> {
            <$t as ParseText>::parse(text)
        }
        pub fn $write(v: &$t) -> Result<String, static_xml::ser::Error> {
            <$t as ToText>::to_text(v)
        }
    };
}

macro_rules! std_mode {
    ($t:ident) => {
        impl std::str::FromStr for $t {
            type Err = StdErr;
            fn from_str(s: &str) -> Result<Self, StdErr> {
                match unsafe { any_from_str(s) } {
                    Ok(v) => Ok($t(v)),
                    Err(e) => Err(e),
                }
            }
        }
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(&unsafe { any_display(self.0) })
            }
        }
    };
}

#[derive(ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum R1 {
    Alpha,
    #[static_xml(rename = "b")]
    Beta,
    #[static_xml(rename = "g g")]
    Gamma,
}
derived!(R1, root_parse_r1, root_write_r1);

#[derive(ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum R2 {
    Alpha,
    #[static_xml(rename = "Alph")]
    Beta,
    #[static_xml(unknown)]
    Rest(String),
}
derived!(R2, root_parse_r2, root_write_r2);

#[derive(ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "replace")]
pub enum R3 {
    #[static_xml(unknown)]
    Rest(String),
    #[static_xml(rename = "s")]
    Small,
    #[static_xml(rename = "l")]
    Large,
}
derived!(R3, root_parse_r3, root_write_r3);

#[derive(ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "preserve")]
pub enum R4 {
    #[static_xml(rename = "")]
    Null,
    r#Self_,
    #[static_xml(rename = "alpha")]
    Alpha,
    #[static_xml(rename = "Alpha")]
    Low,
}
derived!(R4, root_parse_r4, root_write_r4);

#[derive(ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum R5 {
    #[static_xml(rename = "b")]
    Beta,
    #[static_xml(unknown)]
    Rest(String),
    #[static_xml(rename = "a")]
    Alpha,
}
derived!(R5, root_parse_r5, root_write_r5);

#[derive(ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum R6 {
    #[static_xml(rename = "\"1\"\\")]
    One,
}
derived!(R6, root_parse_r6, root_write_r6);

#[derive(ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum R7 {
    #[static_xml(rename = "m")]
    M,
    C,
    r#Z,
    #[static_xml(rename = "c")]
    Cc,
    #[static_xml(rename = " ")]
    Sp,
    #[static_xml(rename = "a b")]
    Two,
    #[static_xml(rename = "1")]
    N1,
    #[static_xml(rename = "10")]
    N10,
    #[static_xml(rename = "é")]
    Uni,
    #[static_xml(rename = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")]
    Long,
    A,
    #[static_xml(rename = "a\nb")]
    Nl,
}
derived!(R7, root_parse_r7, root_write_r7);

#[derive(ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "replace")]
pub enum R8 {
    #[static_xml(unknown)]
    Rest(String),
}
derived!(R8, root_parse_r8, root_write_r8);

#[derive(ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "preserve")]
pub enum U4 {
    F(A),
    E(B),
    D(A),
    C4(B),
    B4(A),
    A4(C),
}
derived!(U4, root_parse_u4, root_write_u4);

#[derive(ParseText, ToText)]
#[static_xml(mode = "union")]
pub enum U1 {
    First(A),
    Second(B),
    Third(C),
}
derived!(U1, root_parse_u1, root_write_u1);

#[derive(ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "collapse")]
pub enum U2 {
    Zeta(C),
    Alpha(A),
    Mid(A),
}
derived!(U2, root_parse_u2, root_write_u2);

#[derive(ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "replace")]
pub enum U3 {
    Only(B),
}
derived!(U3, root_parse_u3, root_write_u3);

#[derive(ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum R9 {
    #[static_xml(rename = "p0")]
    X0,
    #[static_xml(rename = "o1")]
    X1,
    #[static_xml(rename = "m2")]
    X2,
    #[static_xml(rename = "p3")]
    X3,
    #[static_xml(rename = "o4")]
    X4,
    #[static_xml(rename = "m5")]
    X5,
    #[static_xml(rename = "p6")]
    X6,
    #[static_xml(rename = "o7")]
    X7,
    #[static_xml(rename = "m8")]
    X8,
    #[static_xml(rename = "p9")]
    X9,
    #[static_xml(rename = "o10")]
    X10,
    #[static_xml(rename = "m11")]
    X11,
    #[static_xml(rename = "p12")]
    X12,
    #[static_xml(rename = "o13")]
    X13,
    #[static_xml(rename = "m14")]
    X14,
    #[static_xml(rename = "p15")]
    X15,
    #[static_xml(rename = "o16")]
    X16,
    #[static_xml(rename = "m17")]
    X17,
    #[static_xml(rename = "p18")]
    X18,
    #[static_xml(rename = "o19")]
    X19,
    #[static_xml(rename = "m20")]
    X20,
    #[static_xml(rename = "p21")]
    X21,
    #[static_xml(rename = "o22")]
    X22,
    #[static_xml(rename = "m23")]
    X23,
    #[static_xml(rename = "p24")]
    X24,
    #[static_xml(rename = "o25")]
    X25,
    #[static_xml(rename = "m26")]
    X26,
    #[static_xml(rename = "p27")]
    X27,
    #[static_xml(rename = "o28")]
    X28,
    #[static_xml(rename = "m29")]
    X29,
    #[static_xml(rename = "p30")]
    X30,
    #[static_xml(rename = "o31")]
    X31,
    #[static_xml(rename = "m32")]
    X32,
    #[static_xml(rename = "p33")]
    X33,
    #[static_xml(rename = "o34")]
    X34,
    #[static_xml(rename = "m35")]
    X35,
    #[static_xml(rename = "p36")]
    X36,
    #[static_xml(rename = "o37")]
    X37,
    #[static_xml(rename = "m38")]
    X38,
    #[static_xml(rename = "p39")]
    X39,
}
derived!(R9, root_parse_r9, root_write_r9);

#[derive(ParseText, ToText)]
#[static_xml(mode = "union")]
pub enum U5 {
    V0(Q),
    V1(A),
    V2(D),
    V3(G),
    V4(B),
    V5(E),
    V6(H),
    V7(K),
    V8(C),
    V9(F),
    V10(I),
    V11(L),
    V12(J),
    V13(M),
    V14(N),
    V15(P),
    V16(O),
}
derived!(U5, root_parse_u5, root_write_u5);

#[derive(ParseText, ToText)]
#[static_xml(mode = "std")]
pub struct S1(u8);
std_mode!(S1);
derived!(S1, root_parse_s1, root_write_s1);

#[derive(ParseText, ToText)]
#[static_xml(mode = "std", whitespace = "replace")]
pub struct S2(u8);
std_mode!(S2);
derived!(S2, root_parse_s2, root_write_s2);

#[derive(ParseText, ToText)]
#[static_xml(mode = "std", whitespace = "collapse")]
pub struct S3(u8);
std_mode!(S3);
derived!(S3, root_parse_s3, root_write_s3);

#[derive(ParseText, ToText)]
#[static_xml(mode = "std", whitespace = "preserve")]
pub struct S4(u8);
std_mode!(S4);
derived!(S4, root_parse_s4, root_write_s4);


/// In place of `str::parse`, which is the same.
#[allow(dead_code)]
pub fn sxm_str_parse<F: std::str::FromStr>(s: &str) -> Result<F, F::Err> {
    F::from_str(s)
}
