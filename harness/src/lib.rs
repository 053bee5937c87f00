//! Analysis roots. Nothing in this crate is ever executed: the driver only uses it to name the
//! monomorphic instances of the library's generic code that are analysed.
#![feature(try_trait_v2)]
#![allow(dead_code, non_snake_case)]
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice, CompactThriftOutput, CompactThriftProtocol, ThriftError, thrift};
use std::borrow::Cow;
use std::io::{Read, Write, Seek, SeekFrom};
use std::rc::Rc;
use std::sync::Arc;

extern "Rust" {
    fn opaque_read(buf: &mut [u8]) -> std::io::Result<usize>;
    fn opaque_write(buf: &[u8]) -> std::io::Result<usize>;
    fn opaque_flush() -> std::io::Result<()>;
    fn opaque_seek(pos: SeekFrom) -> std::io::Result<u64>;
    fn opaque_byte() -> Result<u8, ThriftError>;
    fn opaque_double() -> Result<f64, ThriftError>;
    fn opaque_binary() -> Result<Cow<'static, [u8]>, ThriftError>;
    fn opaque_unit() -> Result<(), ThriftError>;
}

/// An arbitrary std reader.
pub struct AnyReader(u8);
impl Read for AnyReader { fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> { unsafe { opaque_read(buf) } } }
/// An arbitrary seekable reader.
pub struct AnyFile(u8);
impl Read for AnyFile { fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> { unsafe { opaque_read(buf) } } }
impl Seek for AnyFile { fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> { unsafe { opaque_seek(pos) } } }
/// An arbitrary std writer.
pub struct AnyWriter(u8);
impl Write for AnyWriter {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> { unsafe { opaque_write(buf) } }
    fn flush(&mut self) -> std::io::Result<()> { unsafe { opaque_flush() } }
}
/// An arbitrary implementation of the input trait: its methods are the events of the protocol analyses.
pub struct AbsIn(u8);
impl<'i> CompactThriftInput<'i> for AbsIn {
    fn read_byte(&mut self) -> Result<u8, ThriftError> { unsafe { opaque_byte() } }
    fn read_double(&mut self) -> Result<f64, ThriftError> { unsafe { opaque_double() } }
    fn read_binary(&mut self) -> Result<Cow<'i, [u8]>, ThriftError> { unsafe { opaque_binary() } }
}
/// An arbitrary implementation of the output trait.
pub struct AbsOut(u8);
impl CompactThriftOutput for AbsOut {
    fn write_byte(&mut self, _value: u8) -> Result<(), ThriftError> { unsafe { opaque_unit() } }
    fn write_len(&mut self, _value: usize) -> Result<(), ThriftError> { unsafe { opaque_unit() } }
    fn write_i16(&mut self, _value: i16) -> Result<(), ThriftError> { unsafe { opaque_unit() } }
    fn write_i32(&mut self, _value: i32) -> Result<(), ThriftError> { unsafe { opaque_unit() } }
    fn write_i64(&mut self, _value: i64) -> Result<(), ThriftError> { unsafe { opaque_unit() } }
    fn write_double(&mut self, _value: f64) -> Result<(), ThriftError> { unsafe { opaque_unit() } }
    fn write_binary(&mut self, _value: &[u8]) -> Result<(), ThriftError> { unsafe { opaque_unit() } }
}

type Slice = CompactThriftInputSlice<'static>;

thrift! {
    struct HEmpty {}
    struct HInner { 1: required i32 a; 2: optional string b; }
    enum HEnum { ZERO = 0; ONE = 1; MINUS = -1; }
    union HUnion { 1: HInner A 2: bool B 3: i32 C; 4: string D; 20: list<i64> E 5: HEnum F; 6: binary G 7: Box<HInner> H 8: double I }
    struct HReq {
        1: required bool r_bool; 2: required i8 r_i8; 3: required i16 r_i16; 4: required i32 r_i32; 5: required i64 r_i64;
        6: required double r_double; 7: required string r_string; 8: required binary r_binary; 9: required list<bool> r_lbool;
        10: required list<string> r_lstring; 11: required HInner r_struct; 12: required HUnion r_union; 13: required HEnum r_enum;
        14: required Box<HInner> r_box; 15: required Rc<HInner> r_rc; 16: required Arc<HInner> r_arc; 17: required set<i32> r_set;
        18: required Box<bool> r_boxbool; 19: required Rc<bool> r_rcbool; 20: required Arc<bool> r_arcbool;
        21: required Rc<str> r_rcstr; 22: required Arc<str> r_arcstr; 23: required Box<str> r_boxstr;
    }
    struct HOpt {
        1: optional bool o_bool; 2: optional i8 o_i8; 3: optional i16 o_i16; 4: optional i32 o_i32; 5: optional i64 o_i64;
        6: optional double o_double; 7: optional string o_string; 8: optional binary o_binary; 9: optional list<bool> o_lbool;
        10: optional list<string> o_lstring; 11: optional HInner o_struct; 12: optional HUnion o_union; 13: optional HEnum o_enum;
        14: optional Box<HInner> o_box; 15: optional Rc<HInner> o_rc; 16: optional Arc<HInner> o_arc; 17: optional set<HEnum> o_set;
        18: optional Box<bool> o_boxbool; 19: optional Rc<bool> o_rcbool; 20: optional Arc<bool> o_arcbool;
        100: optional i32 o_far; 116: optional i32 o_gap16; 132: optional i32 o_gap16b; 32767: optional i32 o_max; 50: optional bool o_back; 51: optional HInner o_next;
    }
    struct HWide {
        33: required i32 w33; 1: required i32 w1; 65: required bool w65; 129: optional i32 w129; 17: required HInner w17; 257: required i32 w257; 9: optional bool w9;
        4097: required i32 w4097; 32767: required string w32767; 513: optional HUnion w513; 2: required list<HInner> w2; 16385: required i32 w16385;
    }
    union HFar { 33: i32 A; 1: i32 B; 17: HInner C; 257: bool D; 65: i32 E; 32767: HEmpty F; 4097: list<string> G; 2: HUnion H; }
}

pub mod markers {
    use super::*;
    pub fn in_abs(_x: &AbsIn) {}
    pub fn out_abs(_x: &AbsOut) {}
}

/// Instances of the generic implementations (the non generic ones are enumerated by the driver).
pub mod generic {
    use super::*;
    macro_rules! g { ($($name:ident : $t:ty;)*) => { $( pub fn $name(_x: &$t) {} )* } }
    g! {
        vec_bool: Vec<bool>; vec_i8: Vec<i8>; vec_i16: Vec<i16>; vec_i32: Vec<i32>; vec_i64: Vec<i64>; vec_f64: Vec<f64>; vec_string: Vec<String>;
        vec_binary: Vec<Vec<u8>>; vec_struct: Vec<HInner>; vec_union: Vec<HUnion>; vec_enum: Vec<HEnum>; vec_vec: Vec<Vec<i32>>; vec_box: Vec<Box<HInner>>;
        vec_boxbool: Vec<Box<bool>>; vec_cow: Vec<Cow<'static, str>>;
        opt_bool: Option<bool>; opt_i8: Option<i8>; opt_i16: Option<i16>; opt_i32: Option<i32>; opt_i64: Option<i64>; opt_f64: Option<f64>;
        opt_string: Option<String>; opt_binary: Option<Vec<u8>>; opt_struct: Option<HInner>; opt_union: Option<HUnion>; opt_enum: Option<HEnum>;
        opt_vec: Option<Vec<i32>>; opt_vec_bool: Option<Vec<bool>>; opt_box: Option<Box<HInner>>; opt_boxbool: Option<Box<bool>>;
        box_bool: Box<bool>; box_i32: Box<i32>; box_struct: Box<HInner>; box_union: Box<HUnion>; box_string: Box<String>;
        rc_bool: Rc<bool>; rc_i32: Rc<i32>; rc_struct: Rc<HInner>; rc_string: Rc<String>;
        arc_bool: Arc<bool>; arc_i32: Arc<i32>; arc_struct: Arc<HInner>; arc_string: Arc<String>;
        cow_str: Cow<'static, str>; cow_bytes: Cow<'static, [u8]>;
        box_str: Box<str>; rc_str: Rc<str>; arc_str: Arc<str>;
    }
}

pub mod roots {
    use super::*;
    use compact_thrift_parquet as pq;
    use compact_thrift_runtime as rt;
    pub fn s_skip_field(i: &mut Slice, t: u8) -> Result<(), ThriftError> { i.skip_field(t) }
    pub fn r_skip_field(i: &mut AnyReader, t: u8) -> Result<(), ThriftError> { i.skip_field(t) }
    pub fn a_skip_field(i: &mut AbsIn, t: u8) -> Result<(), ThriftError> { i.skip_field(t) }
    macro_rules! prim { ($($s:ident $r:ident $a:ident $m:ident $t:ty;)*) => { $(
        pub fn $s(i: &mut Slice) -> Result<$t, ThriftError> { i.$m() }
        pub fn $r(i: &mut AnyReader) -> Result<$t, ThriftError> { i.$m() }
        pub fn $a(i: &mut AbsIn) -> Result<$t, ThriftError> { i.$m() }
    )* } }
    prim! {
        s_read_byte r_read_byte a_read_byte read_byte u8; s_read_len r_read_len a_read_len read_len usize;
        s_read_i16 r_read_i16 a_read_i16 read_i16 i16; s_read_i32 r_read_i32 a_read_i32 read_i32 i32; s_read_i64 r_read_i64 a_read_i64 read_i64 i64;
        s_read_double r_read_double a_read_double read_double f64; s_skip_integer r_skip_integer a_skip_integer skip_integer ();
        s_skip_binary r_skip_binary a_skip_binary skip_binary ();
        s_read_binary r_read_binary a_read_binary read_binary Cow<'static, [u8]>; s_read_string r_read_string a_read_string read_string Cow<'static, str>;
    }
    pub fn s_read_field_header(i: &mut Slice, l: &mut i16) -> Result<u8, ThriftError> { i.read_field_header(l) }
    pub fn r_read_field_header(i: &mut AnyReader, l: &mut i16) -> Result<u8, ThriftError> { i.read_field_header(l) }
    pub fn a_read_field_header(i: &mut AbsIn, l: &mut i16) -> Result<u8, ThriftError> { i.read_field_header(l) }
    pub fn s_read_coll(i: &mut Slice) -> Result<(u32, u8), ThriftError> { rt::read_collection_len_and_type(i) }
    pub fn r_read_coll(i: &mut AnyReader) -> Result<(u32, u8), ThriftError> { rt::read_collection_len_and_type(i) }
    pub fn a_read_coll(i: &mut AbsIn) -> Result<(u32, u8), ThriftError> { rt::read_collection_len_and_type(i) }
    pub fn s_read_map(i: &mut Slice) -> Result<(u32, u8, u8), ThriftError> { rt::read_map_len_and_types(i) }
    pub fn r_read_map(i: &mut AnyReader) -> Result<(u32, u8, u8), ThriftError> { rt::read_map_len_and_types(i) }
    pub fn a_read_map(i: &mut AbsIn) -> Result<(u32, u8, u8), ThriftError> { rt::read_map_len_and_types(i) }
    pub fn w_byte(o: &mut AnyWriter, v: u8) -> Result<(), ThriftError> { o.write_byte(v) }
    pub fn w_len(o: &mut AnyWriter, v: usize) -> Result<(), ThriftError> { o.write_len(v) }
    pub fn w_i16(o: &mut AnyWriter, v: i16) -> Result<(), ThriftError> { o.write_i16(v) }
    pub fn w_i32(o: &mut AnyWriter, v: i32) -> Result<(), ThriftError> { o.write_i32(v) }
    pub fn w_i64(o: &mut AnyWriter, v: i64) -> Result<(), ThriftError> { o.write_i64(v) }
    pub fn w_double(o: &mut AnyWriter, v: f64) -> Result<(), ThriftError> { o.write_double(v) }
    pub fn w_binary(o: &mut AnyWriter, v: &[u8]) -> Result<(), ThriftError> { o.write_binary(v) }
    pub fn w_string(o: &mut AnyWriter, v: &str) -> Result<(), ThriftError> { o.write_string(v) }
    /// a byte field is a value whose type code is in the header; this is the only way to reach the header writer
    pub fn a_field_i8(o: &mut AbsOut, v: &i8, id: i16, last: &mut i16) -> Result<(), ThriftError> { v.write_thrift_field(o, id, last) }
    pub fn w_field_i8(o: &mut AnyWriter, v: &i8, id: i16, last: &mut i16) -> Result<(), ThriftError> { v.write_thrift_field(o, id, last) }
    pub fn slice_new(b: &'static [u8]) -> Slice { Slice::new(b) }
    pub fn slice_from(b: &'static [u8]) -> Slice { Slice::from(b) }
    pub fn slice_as(b: &Slice) -> &'static [u8] { b.as_slice() }
    pub fn slice_clone(b: &Slice) -> Slice { b.clone() }
    pub fn name_from_cstr(c: &'static std::ffi::CStr) -> rt::FieldName { rt::FieldName::from(c) }
    pub fn name_from_str(c: &'static str) -> rt::FieldName { rt::FieldName::from(c) }
    pub fn name_to_string(c: &rt::FieldName) -> String { c.to_string() }
    pub fn name_display(c: &rt::FieldName, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(c, f) }
    pub fn name_debug(c: &rt::FieldName, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(c, f) }
    pub fn err_from_io(e: std::io::Error) -> ThriftError { ThriftError::from(e) }
    pub fn err_from_kind(e: std::io::ErrorKind) -> ThriftError { ThriftError::from(e) }
    pub fn perr_from_io(e: std::io::Error) -> pq::ParquetError { pq::ParquetError::from(e) }
    pub fn perr_from_thrift(e: ThriftError) -> pq::ParquetError { pq::ParquetError::from(e) }
    pub fn enum_from_harness(v: i32) -> HEnum { HEnum::from(v) }
    pub fn enum_from_type(v: i32) -> pq::format::Type { pq::format::Type::from(v) }
    pub fn enum_from_convertedtype(v: i32) -> pq::format::ConvertedType { pq::format::ConvertedType::from(v) }
    pub fn enum_from_fieldrepetitiontype(v: i32) -> pq::format::FieldRepetitionType { pq::format::FieldRepetitionType::from(v) }
    pub fn enum_from_edgeinterpolationalgorithm(v: i32) -> pq::format::EdgeInterpolationAlgorithm { pq::format::EdgeInterpolationAlgorithm::from(v) }
    pub fn enum_from_encoding(v: i32) -> pq::format::Encoding { pq::format::Encoding::from(v) }
    pub fn enum_from_compressioncodec(v: i32) -> pq::format::CompressionCodec { pq::format::CompressionCodec::from(v) }
    pub fn enum_from_pagetype(v: i32) -> pq::format::PageType { pq::format::PageType::from(v) }
    pub fn enum_from_boundaryorder(v: i32) -> pq::format::BoundaryOrder { pq::format::BoundaryOrder::from(v) }
    pub fn metadata_chunk(f: &mut AnyFile) -> Result<Vec<u8>, pq::ParquetError> { pq::get_metadata_chunk(f) }
    pub fn page_index_range(m: &pq::format::FileMetaData) -> Result<Option<std::ops::Range<usize>>, pq::ParquetError> { pq::get_page_index_range(m) }
    pub fn page_index_chunk(f: &mut AnyFile, m: &pq::format::FileMetaData) -> Result<Option<(Vec<u8>, std::ops::Range<usize>)>, pq::ParquetError> { pq::get_page_index_chunk(f, m) }
    pub fn page_index_read(c: &[u8], o: usize, m: &pq::format::FileMetaData) -> Result<Vec<Vec<Option<(pq::format::OffsetIndex, pq::format::ColumnIndex)>>>, pq::ParquetError> { pq::read_page_index(c, o, m) }
    pub fn encset_len(e: &pq::EncodingSet) -> usize { e.len() }
    pub fn encset_is_empty(e: &pq::EncodingSet) -> bool { e.is_empty() }
    pub fn encset_iter_all(e: &pq::EncodingSet, o: &mut AbsOut) -> Result<(), ThriftError> { for x in e.iter() { o.write_i32(x.0)?; } Ok(()) }
    pub fn encset_iter_next(e: &pq::EncodingSet) -> Option<pq::format::Encoding> { let mut i = e.iter(); i.next() }
}

pub mod models;
