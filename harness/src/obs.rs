//! What the specifications observe: events (never analysed, intercepted by the
//! analyser) and projections of results through the public API only.
use crate::del::*;
use justjson::parser::PeekableTokenKind;
use justjson::{ErrorKind, JsonString};

pub struct SObs<'x> {
    pub enc: Option<&'x str>,
    pub plain: Option<&'x str>,
    pub len: usize,
    pub dlen: usize,
}
pub fn sobs<'x>(s: &'x JsonString<'_>) -> SObs<'x> {
    SObs { enc: match s.as_json_str() { Some(a) => Some(a.as_str()), None => None }, plain: s.as_str(), len: s.len(), dlen: s.decoded_len() }
}
pub enum Obs<'x> {
    End,
    Err(usize, &'x ErrorKind),
    Null,
    Bool(bool),
    Str(SObs<'x>),
    Num(&'x str),
    Obj,
    ObjEnd,
    Arr,
    ArrEnd,
    Colon,
    Comma,
}
pub struct FObs<'x> {
    pub enc: Option<&'x str>,
    pub plain: Option<&'x str>,
    pub len: usize,
    pub dlen: usize,
    pub empty: bool,
}
pub fn fobs<'x>(s: &'x JsonString<'_>) -> FObs<'x> {
    FObs { enc: match s.as_json_str() { Some(a) => Some(a.as_str()), None => None }, plain: s.as_str(), len: s.len(), dlen: s.decoded_len(), empty: s.is_empty() }
}
#[inline(never)] pub fn ev_jstr(s: FObs<'_>) { loop {} }
#[inline(never)] pub fn ev_choose() -> u8 { loop {} }
#[inline(never)] pub fn ev_tok(how: u8, off: usize, o: Obs<'_>) -> bool { loop {} }
#[inline(never)] pub fn ev_peek(off: usize, o: Option<PeekableTokenKind>) { loop {} }
#[inline(never)] pub fn ev_number(s: &str) -> Result<OVal, OErr> { loop {} }
#[inline(never)] pub fn ev_string(s: SObs<'_>) -> Result<OVal, OErr> { loop {} }
#[inline(never)] pub fn ev_key(o: &mut OObj, s: SObs<'_>) -> Result<OKey, OErr> { loop {} }
