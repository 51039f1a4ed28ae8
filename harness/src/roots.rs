use crate::del::*;
use crate::obs::*;
use core::cmp::Ordering;
use core::fmt::{self, Display, Write};
use core::hash::Hash;
use justjson::doc::*;
use justjson::parser::*;
use justjson::*;

// ---- tokenizer -----------------------------------------------------------
pub fn tok_run_str(s: &str) { tok_run(Tokenizer::for_json(s)) }
pub fn tok_run_bytes(s: &[u8]) { tok_run(Tokenizer::for_json_bytes(s)) }
fn tok_run<'a, const G: bool>(mut t: Tokenizer<'a, G>) {
    loop {
        match ev_choose() {
            0 => {
                let r = t.next();
                if !ev_tok(0, t.offset(), obs(&r)) { return; }
            }
            1 => {
                let r = Some(t.next_or_eof());
                if !ev_tok(1, t.offset(), obs(&r)) { return; }
            }
            _ => {
                let r = t.peek();
                ev_peek(t.offset(), r);
            }
        }
    }
}
fn obs<'x>(r: &'x Option<Result<Token<'_>, Error>>) -> Obs<'x> {
    match r {
        None => Obs::End,
        Some(Err(e)) => Obs::Err(e.offset(), e.kind()),
        Some(Ok(t)) => match t {
            Token::Null => Obs::Null,
            Token::Bool(b) => Obs::Bool(*b),
            Token::String(s) => Obs::Str(sobs(s)),
            Token::Number(n) => Obs::Num(n.source()),
            Token::Object => Obs::Obj,
            Token::ObjectEnd => Obs::ObjEnd,
            Token::Array => Obs::Arr,
            Token::ArrayEnd => Obs::ArrEnd,
            Token::Colon => Obs::Colon,
            Token::Comma => Obs::Comma,
        },
    }
}

// ---- parser --------------------------------------------------------------
pub fn parse_str_cfg(s: &str, c: ParseConfig) -> Result<OVal, Error<OErr>> { Parser::parse_json_with_config(s, c, Del) }
pub fn parse_bytes_cfg(s: &[u8], c: ParseConfig) -> Result<OVal, Error<OErr>> { Parser::parse_json_bytes_with_config(s, c, Del) }
pub fn parse_str(s: &str) -> Result<OVal, Error<OErr>> { Parser::parse_json(s, Del) }
pub fn parse_bytes(s: &[u8]) -> Result<OVal, Error<OErr>> { Parser::parse_json_bytes(s, Del) }
pub fn validate_str_cfg(s: &str, c: ParseConfig) -> Result<JsonKind, Error> { Parser::validate_json_with_config(s, c) }
pub fn validate_bytes_cfg(s: &[u8], c: ParseConfig) -> Result<JsonKind, Error> { Parser::validate_json_bytes_with_config(s, c) }
pub fn validate_str(s: &str) -> Result<JsonKind, Error> { Parser::validate_json(s) }
pub fn validate_bytes(s: &[u8]) -> Result<JsonKind, Error> { Parser::validate_json_bytes(s) }

// ---- config ----------------------------------------------------------------
pub fn cfg_default() -> ParseConfig { ParseConfig::default() }
pub fn cfg_new() -> ParseConfig { ParseConfig::new() }
pub fn cfg_strict() -> ParseConfig { ParseConfig::strict() }
pub fn cfg_without_limit(c: ParseConfig) -> ParseConfig { c.without_recursion_limit() }
pub fn cfg_with_limit(c: ParseConfig, n: usize) -> ParseConfig { c.with_recursion_limit(n) }
pub fn cfg_all_types(c: ParseConfig, b: bool) -> ParseConfig { c.allowing_all_types_at_root(b) }
pub fn cfg_trailing(c: ParseConfig) -> ParseConfig { c.allowing_trailing_commas() }

// ---- delegates -------------------------------------------------------------
pub fn jstr_from_json(s: &str) -> Result<JsonString<'_>, Error> { JsonString::from_json(s) }
pub fn jnum_from_json(s: &str) -> Result<JsonNumber<'_>, Error> { JsonNumber::from_json(s) }

// ---- value parse -------------------------------------------------------------
pub fn value_from_json(s: &str) -> Result<Value<'_>, Error> { Value::from_json(s) }
pub fn value_from_json_cfg(s: &str, c: ParseConfig) -> Result<Value<'_>, Error> { Value::from_json_with_config(s, c) }
pub fn value_from_bytes(s: &[u8]) -> Result<Value<'_>, Error> { Value::from_json_bytes(s) }
pub fn value_from_bytes_cfg(s: &[u8], c: ParseConfig) -> Result<Value<'_>, Error> { Value::from_json_bytes_with_config(s, c) }

// ---- documents -----------------------------------------------------------------
pub fn doc_from_json(s: &str) -> Result<Document<'_>, Error> { Document::from_json(s) }
pub fn doc_from_json_cfg(s: &str, c: ParseConfig) -> Result<Document<'_>, Error> { Document::from_json_with_config(s, c) }
pub fn doc_from_bytes(s: &[u8]) -> Result<Document<'_>, Error> { Document::from_json_bytes(s) }
pub fn doc_from_bytes_cfg(s: &[u8], c: ParseConfig) -> Result<Document<'_>, Error> { Document::from_json_bytes_with_config(s, c) }
pub fn hdoc_from_json(s: &str) -> Result<HeaplessDocument<'_, 4>, Error> { HeaplessDocument::from_json(s) }
pub fn hdoc_from_json_cfg(s: &str, c: ParseConfig) -> Result<HeaplessDocument<'_, 4>, Error> { HeaplessDocument::from_json_with_config(s, c) }
pub fn hdoc_from_bytes(s: &[u8]) -> Result<HeaplessDocument<'_, 4>, Error> { HeaplessDocument::from_json_bytes(s) }
pub fn hdoc_from_bytes_cfg(s: &[u8], c: ParseConfig) -> Result<HeaplessDocument<'_, 4>, Error> { HeaplessDocument::from_json_bytes_with_config(s, c) }
pub fn doc_into_value(d: Document<'_>) -> Value<'_> { Value::from(d) }
pub fn doc_iter<'d, 'a>(d: &'d Document<'a>) -> DocumentIter<'d, 'a> { d.iter() }
pub fn doc_into_iter<'d, 'a>(d: &'d Document<'a>) -> DocumentIter<'d, 'a> { d.into_iter() }
pub fn hdoc_iter<'d, 'a>(d: &'d HeaplessDocument<'a, 4>) -> DocumentIter<'d, 'a> { d.iter() }
pub fn hdoc_into_value(d: HeaplessDocument<'_, 4>) -> Value<'_> { Value::from(d) }
pub fn diter_next<'d, 'a>(d: &mut DocumentIter<'d, 'a>) -> Option<Node<'a>> { d.next() }
pub fn diter_next_value<'d, 'a>(d: &mut DocumentIter<'d, 'a>) -> Option<Value<'a>> { d.next_value() }
pub fn diter_skip<'d, 'a>(d: &mut DocumentIter<'d, 'a>) { d.skip_next_value() }
pub fn vec_push<'a>(v: &mut Vec<Node<'a>>, n: Node<'a>) -> Result<(), ErrorKind> { NodeCollection::push(v, n) }
pub fn hvec_push<'a>(v: &mut heapless::Vec<Node<'a>, 4>, n: Node<'a>) -> Result<(), ErrorKind> { NodeCollection::push(v, n) }

// ---- strings -----------------------------------------------------------------
pub fn js_decoded<'b>(s: &'b JsonString<'_>) -> string_types::Dec<'b> { string_types::Dec(s.decoded_any()) }
pub mod string_types {
    // `Decoded` and `AsJson` are public types that cannot be named from outside:
    // opaque wrappers keep their monomorphisations reachable.
    pub struct Dec<'b>(pub Box<dyn Iterator<Item = char> + 'b>);
    pub trait Any { fn decoded_any<'b>(&'b self) -> Box<dyn Iterator<Item = char> + 'b>; }
    impl<'a> Any for justjson::JsonString<'a> {
        fn decoded_any<'b>(&'b self) -> Box<dyn Iterator<Item = char> + 'b> { Box::new(self.decoded()) }
    }
}
use string_types::Any;
pub fn js_decode_step(s: &JsonString<'_>) -> Option<char> { let mut d = s.decoded(); d.next() }
pub fn js_decode_all(s: &JsonString<'_>, sink: &mut Vec<char>) { for c in s.decoded() { sink.push(c); } }
pub fn js_asjson_all(s: &JsonString<'_>, sink: &mut Vec<char>) { for c in s.as_json() { sink.push(c); } }
pub fn js_asjson_hint(s: &JsonString<'_>, sink: &mut Vec<char>) -> (usize, Option<usize>) {
    let mut d = s.as_json();
    while crate::obs::ev_choose() == 1 { match d.next() { Some(c) => sink.push(c), None => break } }
    d.size_hint()
}
pub fn js_decoded_hint(s: &JsonString<'_>, sink: &mut Vec<char>) -> (usize, Option<usize>) {
    let mut d = s.decoded();
    while crate::obs::ev_choose() == 1 { match d.next() { Some(c) => sink.push(c), None => break } }
    d.size_hint()
}
pub fn js_decoded_display(s: &JsonString<'_>, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(&s.decoded(), f) }
pub fn js_asjson_display(s: &JsonString<'_>, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(&s.as_json(), f) }
pub fn js_display(s: &JsonString<'_>, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(s, f) }
pub fn js_decode_if_needed<'a>(s: &JsonString<'a>) -> AnyStr<'a> { s.decode_if_needed() }
pub fn js_escape_if_needed<'a>(s: &JsonString<'a>) -> AnyStr<'a> { s.escape_if_needed() }
pub fn js_as_json_str<'b, 'a>(s: &'b JsonString<'a>) -> Option<&'b AnyStr<'a>> { s.as_json_str() }
pub fn js_len(s: &JsonString<'_>) -> usize { s.len() }
pub fn js_is_empty(s: &JsonString<'_>) -> bool { s.is_empty() }
pub fn js_decoded_len(s: &JsonString<'_>) -> usize { s.decoded_len() }
pub fn js_as_str<'b>(s: &'b JsonString<'_>) -> Option<&'b str> { s.as_str() }
pub fn js_from_str<'a>(s: &'a str) -> JsonString<'a> { JsonString::from(s) }
pub fn js_from_string(s: String) -> JsonString<'static> { JsonString::from(s) }
pub fn js_from_str_obs(s: &str) { let j = JsonString::from(s); crate::obs::ev_jstr(crate::obs::fobs(&j)); }
pub fn js_from_string_obs(s: String) { let j = JsonString::from(s); crate::obs::ev_jstr(crate::obs::fobs(&j)); }
pub fn js_clone<'a>(s: &JsonString<'a>) -> JsonString<'a> { s.clone() }
pub fn js_eq_refstr(s: &JsonString<'_>, o: &str) -> bool { *s == o }
pub fn js_eq_str(s: &JsonString<'_>, o: &str) -> bool { *s == *o }
pub fn js_eq(s: &JsonString<'_>, o: &JsonString<'_>) -> bool { *s == *o }
pub fn js_ne(s: &JsonString<'_>, o: &JsonString<'_>) -> bool { *s != *o }
pub fn js_pcmp_str(s: &JsonString<'_>, o: &str) -> Option<Ordering> { s.partial_cmp(o) }
pub fn js_pcmp_refstr(s: &JsonString<'_>, o: &str) -> Option<Ordering> { s.partial_cmp(&o) }
pub fn js_pcmp(s: &JsonString<'_>, o: &JsonString<'_>) -> Option<Ordering> { s.partial_cmp(o) }
pub fn js_cmp(s: &JsonString<'_>, o: &JsonString<'_>) -> Ordering { s.cmp(o) }
pub fn js_hash(s: &JsonString<'_>, h: &mut Hs) { s.hash(h) }
pub fn info_new(b: bool, n: usize) -> JsonStringInfo { JsonStringInfo::new(b, n) }
pub fn info_esc(i: JsonStringInfo) -> bool { i.has_escapes() }
pub fn info_len(i: JsonStringInfo) -> usize { i.expected_length() }

// ---- anystr -----------------------------------------------------------------
pub fn any_as_str<'b>(s: &'b AnyStr<'_>) -> &'b str { s.as_str() }
pub fn any_as_ref<'b>(s: &'b AnyStr<'_>) -> &'b str { s.as_ref() }
pub fn any_borrow<'b>(s: &'b AnyStr<'_>) -> &'b str { core::borrow::Borrow::borrow(s) }
pub fn any_deref<'b>(s: &'b AnyStr<'_>) -> &'b str { &**s }
pub fn any_eq(s: &AnyStr<'_>, o: &AnyStr<'_>) -> bool { *s == *o }
pub fn any_eq_str(s: &AnyStr<'_>, o: &str) -> bool { *s == *o }
pub fn any_eq_refstr(s: &AnyStr<'_>, o: &str) -> bool { *s == o }
pub fn any_pcmp(s: &AnyStr<'_>, o: &AnyStr<'_>) -> Option<Ordering> { s.partial_cmp(o) }
pub fn any_pcmp_str(s: &AnyStr<'_>, o: &str) -> Option<Ordering> { s.partial_cmp(o) }
pub fn any_pcmp_refstr(s: &AnyStr<'_>, o: &str) -> Option<Ordering> { s.partial_cmp(&o) }
pub fn any_hash(s: &AnyStr<'_>, h: &mut Hs) { s.hash(h) }
pub fn any_from_str<'a>(s: &'a str) -> AnyStr<'a> { AnyStr::from(s) }
pub fn any_from_string(s: String) -> AnyStr<'static> { AnyStr::from(s) }

// ---- numbers -----------------------------------------------------------------
pub fn num_source<'b>(n: &'b JsonNumber<'_>) -> &'b str { n.source() }
pub fn num_parse(n: &JsonNumber<'_>) -> Result<Fs, FsErr> { n.parse() }
pub fn num_eq(n: &JsonNumber<'_>, m: &JsonNumber<'_>) -> bool { *n == *m }
macro_rules! nums { ($($j:ident $v:ident $m:ident $t:ty),* $(,)?) => { $(
    pub fn $j(n: &JsonNumber<'_>) -> Option<$t> { n.$m() }
    pub fn $v(n: &Value<'_>) -> Option<$t> { n.$m() }
)* } }
nums!(num_as_u8 val_as_u8 as_u8 u8, num_as_u16 val_as_u16 as_u16 u16, num_as_u32 val_as_u32 as_u32 u32, num_as_u64 val_as_u64 as_u64 u64,
      num_as_u128 val_as_u128 as_u128 u128, num_as_usize val_as_usize as_usize usize, num_as_i8 val_as_i8 as_i8 i8,
      num_as_i16 val_as_i16 as_i16 i16, num_as_i32 val_as_i32 as_i32 i32, num_as_i64 val_as_i64 as_i64 i64,
      num_as_i128 val_as_i128 as_i128 i128, num_as_isize val_as_isize as_isize isize, num_as_f32 val_as_f32 as_f32 f32, num_as_f64 val_as_f64 as_f64 f64);

// ---- values -----------------------------------------------------------------
pub fn val_as_object<'b, 'a>(v: &'b Value<'a>) -> Option<&'b Object<'a>> { v.as_object() }
pub fn val_as_object_mut<'b, 'a>(v: &'b mut Value<'a>) -> Option<&'b mut Object<'a>> { v.as_object_mut() }
pub fn val_get<'b, 'a>(v: &'b Value<'a>, k: &str) -> Option<&'b Value<'a>> { v.get(k) }
pub fn val_get_mut<'b, 'a>(v: &'b mut Value<'a>, k: &str) -> Option<&'b mut Value<'a>> { v.get_mut(k) }
pub fn val_as_string<'b, 'a>(v: &'b Value<'a>) -> Option<&'b JsonString<'a>> { v.as_string() }
pub fn val_as_str<'b, 'a>(v: &'b Value<'a>) -> Option<&'b str> { v.as_str() }
pub fn val_as_number<'b, 'a>(v: &'b Value<'a>) -> Option<&'b JsonNumber<'a>> { v.as_number() }
pub fn val_as_bool(v: &Value<'_>) -> Option<bool> { v.as_bool() }
pub fn val_as_array<'b, 'a>(v: &'b Value<'a>) -> Option<&'b [Value<'a>]> { v.as_array() }
pub fn val_as_array_mut<'b, 'a>(v: &'b mut Value<'a>) -> Option<&'b mut Vec<Value<'a>>> { v.as_array_mut() }
pub fn val_get_index<'b, 'a>(v: &'b Value<'a>, i: usize) -> Option<&'b Value<'a>> { v.get_index(i) }
pub fn val_get_index_mut<'b, 'a>(v: &'b mut Value<'a>, i: usize) -> Option<&'b mut Value<'a>> { v.get_index_mut(i) }
pub fn val_is_null(v: &Value<'_>) -> bool { v.is_null() }
pub fn val_index_usize<'b, 'a>(v: &'b Value<'a>, i: usize) -> &'b Value<'a> { &v[i] }
pub fn val_index_usize_mut<'b, 'a>(v: &'b mut Value<'a>, i: usize) -> &'b mut Value<'a> { &mut v[i] }
pub fn val_index_str<'b, 'a>(v: &'b Value<'a>, i: &str) -> &'b Value<'a> { &v[i] }
pub fn val_index_str_mut<'b, 'a>(v: &'b mut Value<'a>, i: &str) -> &'b mut Value<'a> { &mut v[i] }
pub fn val_from_bool(b: bool) -> Value<'static> { Value::from(b) }
pub fn val_from_object(b: Object<'_>) -> Value<'_> { Value::from(b) }
pub fn val_from_vec(b: Vec<Value<'_>>) -> Value<'_> { Value::from(b) }
pub fn val_from_str(b: &str) -> Value<'_> { Value::from(b) }
pub fn val_from_string(b: String) -> Value<'static> { Value::from(b) }
pub fn val_from_jstr(b: JsonString<'_>) -> Value<'_> { Value::from(b) }
pub fn val_eq(a: &Value<'_>, b: &Value<'_>) -> bool { *a == *b }
pub fn obj_new() -> Object<'static> { Object::new() }
pub fn obj_default() -> Object<'static> { Object::default() }
pub fn obj_with_capacity(n: usize) -> Object<'static> { Object::with_capacity(n) }
pub fn obj_get<'b, 'a>(v: &'b Object<'a>, k: &str) -> Option<&'b Value<'a>> { v.get(k) }
pub fn obj_get_mut<'b, 'a>(v: &'b mut Object<'a>, k: &str) -> Option<&'b mut Value<'a>> { v.get_mut(k) }
pub fn obj_get_entry_mut<'b, 'a>(v: &'b mut Object<'a>, k: &str) -> Option<&'b mut Entry<'a>> { v.get_entry_mut(k) }
pub fn obj_deref<'b, 'a>(v: &'b Object<'a>) -> &'b Vec<Entry<'a>> { &**v }
pub fn obj_deref_mut<'b, 'a>(v: &'b mut Object<'a>) -> &'b mut Vec<Entry<'a>> { &mut **v }
pub fn obj_eq(a: &Object<'_>, b: &Object<'_>) -> bool { *a == *b }
pub fn obj_from_pairs<'a>(v: It<(JsonString<'a>, Value<'a>)>) -> Object<'a> { v.into_iter().collect() }
pub fn obj_from_entries<'a>(v: It<Entry<'a>>) -> Object<'a> { v.into_iter().collect() }
pub fn entry_new<'a>(k: JsonString<'a>, v: Value<'a>) -> Entry<'a> { Entry::new(k, v) }
pub fn val_write(v: &Value<'_>, w: Wr) -> fmt::Result { v.write_json_to(w) }
pub fn val_write_pretty(v: &Value<'_>, w: Wr) -> fmt::Result { v.pretty_write_json_to(w) }
pub fn val_write_pretty_custom(v: &Value<'_>, ind: &str, le: &str, w: Wr) -> fmt::Result { v.pretty_write_json_to_custom(ind, le, w) }
pub fn val_to_json(v: &Value<'_>) -> String { v.to_json() }
pub fn val_to_json_pretty(v: &Value<'_>) -> String { v.to_json_pretty() }
pub fn val_to_json_pretty_custom(v: &Value<'_>, ind: &str, le: &str) -> String { v.to_json_pretty_custom(ind, le) }
pub fn val_display(v: &Value<'_>, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(v, f) }

// ---- errors -----------------------------------------------------------------
pub fn err_kind<'b>(e: &'b Error<OErr>) -> &'b ErrorKind<OErr> { e.kind() }
pub fn err_offset(e: &Error<OErr>) -> usize { e.offset() }
pub fn err_display(e: &Error<Ds>, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(e, f) }
pub fn errkind_display(e: &ErrorKind<Ds>, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(e, f) }
