//! Opaque implementations of justjson's public traits. The analyser intercepts
//! every method of these types (their bodies are never analysed).
use crate::obs::*;
use justjson::doc::{Node, NodeCollection};
use justjson::parser::{JsonKind, ParseDelegate};
use justjson::{ErrorKind, JsonNumber, JsonString};

#[derive(Debug)] pub struct Del;
#[derive(Debug)] pub struct OVal(u64);
#[derive(Debug)] pub struct OObj(u64);
#[derive(Debug)] pub struct OArr(u64);
#[derive(Debug)] pub struct OKey(u64);
#[derive(Debug)] pub struct OErr(u64);

impl<'a> ParseDelegate<'a> for Del {
    type Value = OVal;
    type Object = OObj;
    type Array = OArr;
    type Key = OKey;
    type Error = OErr;
    #[inline(never)] fn null(&mut self) -> Result<OVal, OErr> { loop {} }
    #[inline(never)] fn boolean(&mut self, value: bool) -> Result<OVal, OErr> { loop {} }
    #[inline(never)] fn number(&mut self, value: JsonNumber<'a>) -> Result<OVal, OErr> { ev_number(value.source()) }
    #[inline(never)] fn string(&mut self, value: JsonString<'a>) -> Result<OVal, OErr> { ev_string(sobs(&value)) }
    #[inline(never)] fn begin_object(&mut self) -> Result<OObj, OErr> { loop {} }
    #[inline(never)] fn object_key(&mut self, object: &mut OObj, key: JsonString<'a>) -> Result<OKey, OErr> { ev_key(object, sobs(&key)) }
    #[inline(never)] fn object_value(&mut self, object: &mut OObj, key: OKey, value: OVal) -> Result<(), OErr> { loop {} }
    #[inline(never)] fn object_is_empty(&self, object: &OObj) -> bool { loop {} }
    #[inline(never)] fn end_object(&mut self, object: OObj) -> Result<OVal, OErr> { loop {} }
    #[inline(never)] fn begin_array(&mut self) -> Result<OArr, OErr> { loop {} }
    #[inline(never)] fn array_value(&mut self, array: &mut OArr, value: OVal) -> Result<(), OErr> { loop {} }
    #[inline(never)] fn array_is_empty(&self, array: &OArr) -> bool { loop {} }
    #[inline(never)] fn end_array(&mut self, array: OArr) -> Result<OVal, OErr> { loop {} }
    #[inline(never)] fn kind_of(&self, value: &OVal) -> JsonKind { loop {} }
}

/// An opaque writer.
pub struct Wr;
impl core::fmt::Write for Wr {
    #[inline(never)] fn write_str(&mut self, s: &str) -> core::fmt::Result { loop {} }
    #[inline(never)] fn write_char(&mut self, c: char) -> core::fmt::Result { loop {} }
    #[inline(never)] fn write_fmt(&mut self, a: core::fmt::Arguments<'_>) -> core::fmt::Result { loop {} }
}

/// An opaque hasher.
pub struct Hs;
impl core::hash::Hasher for Hs {
    #[inline(never)] fn finish(&self) -> u64 { loop {} }
    #[inline(never)] fn write(&mut self, bytes: &[u8]) { loop {} }
    #[inline(never)] fn write_u8(&mut self, i: u8) { loop {} }
    #[inline(never)] fn write_u32(&mut self, i: u32) { loop {} }
    #[inline(never)] fn write_usize(&mut self, i: usize) { loop {} }
}

/// A FromStr target that only the analyser can produce.
#[derive(Debug)] pub struct Fs(u64);
#[derive(Debug)] pub struct FsErr(u64);
impl core::str::FromStr for Fs {
    type Err = FsErr;
    #[inline(never)] fn from_str(s: &str) -> Result<Fs, FsErr> { loop {} }
}
/// An opaque Display value.
pub struct Ds(u64);
impl core::fmt::Display for Ds {
    #[inline(never)] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { loop {} }
}

/// An opaque iterator.
pub struct It<T>(core::marker::PhantomData<T>);
impl<T> Iterator for It<T> {
    type Item = T;
    #[inline(never)] fn next(&mut self) -> Option<T> { loop {} }
    #[inline(never)] fn size_hint(&self) -> (usize, Option<usize>) { loop {} }
}
