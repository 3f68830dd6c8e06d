//! Opaque stand-ins: every function body here is unknown to the analysis.
use core::fmt;
use serde::ser::Impossible;

/// Any element type.
pub struct L0(());

impl serde::Serialize for L0 { fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
impl<'de> serde::Deserialize<'de> for L0 { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { unimplemented!() } }
impl parity_codec::Encode for L0 { fn encode_to<W: parity_codec::Output>(&self, _: &mut W) { unimplemented!() } }
impl parity_codec::Decode for L0 { fn decode<I: parity_codec::Input>(_: &mut I) -> Option<Self> { unimplemented!() } }

/// Whatever a serializer answers, and however it fails.
pub struct AnyOk(());
pub struct AnyErr(());
impl fmt::Debug for AnyErr { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { unimplemented!() } }
impl fmt::Display for AnyErr { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { unimplemented!() } }
impl std::error::Error for AnyErr {}
impl serde::ser::Error for AnyErr { fn custom<T: fmt::Display>(_: T) -> Self { unimplemented!() } }
impl serde::de::Error for AnyErr { fn custom<T: fmt::Display>(_: T) -> Self { unimplemented!() } }

/// Any serializer.
pub struct AnySer(());

macro_rules! plain { ( $( $f:ident: $t:ty ),* ) => { $( fn $f(self, _: $t) -> Result<AnyOk, AnyErr> { unimplemented!() } )* } }

impl serde::Serializer for AnySer {
	type Ok = AnyOk;
	type Error = AnyErr;
	type SerializeSeq = Impossible<AnyOk, AnyErr>;
	type SerializeTuple = Impossible<AnyOk, AnyErr>;
	type SerializeTupleStruct = Impossible<AnyOk, AnyErr>;
	type SerializeTupleVariant = Impossible<AnyOk, AnyErr>;
	type SerializeMap = Impossible<AnyOk, AnyErr>;
	type SerializeStruct = Impossible<AnyOk, AnyErr>;
	type SerializeStructVariant = Impossible<AnyOk, AnyErr>;
	plain!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8,
		serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char,
		serialize_str: &str, serialize_bytes: &[u8], serialize_unit_struct: &'static str);
	fn serialize_none(self) -> Result<AnyOk, AnyErr> { unimplemented!() }
	fn serialize_some<T: serde::Serialize + ?Sized>(self, _: &T) -> Result<AnyOk, AnyErr> { unimplemented!() }
	fn serialize_unit(self) -> Result<AnyOk, AnyErr> { unimplemented!() }
	fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<AnyOk, AnyErr> { unimplemented!() }
	fn serialize_newtype_struct<T: serde::Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<AnyOk, AnyErr> { unimplemented!() }
	fn serialize_newtype_variant<T: serde::Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<AnyOk, AnyErr> { unimplemented!() }
	fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, AnyErr> { unimplemented!() }
	fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, AnyErr> { unimplemented!() }
	fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, AnyErr> { unimplemented!() }
	fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, AnyErr> { unimplemented!() }
	fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, AnyErr> { unimplemented!() }
	fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, AnyErr> { unimplemented!() }
	fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, AnyErr> { unimplemented!() }
}

/// Any other deserializer: what the parts of a value are read from.
pub struct AnyDe(());

macro_rules! any { ( $( $f:ident ),* ) => { $( fn $f<V: serde::de::Visitor<'de>>(self, _: V) -> Result<V::Value, AnyErr> { unimplemented!() } )* } }

impl<'de> serde::Deserializer<'de> for AnyDe {
	type Error = AnyErr;
	any!(deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_u8,
		deserialize_u16, deserialize_u32, deserialize_u64, deserialize_f32, deserialize_f64, deserialize_char, deserialize_str,
		deserialize_string, deserialize_bytes, deserialize_byte_buf, deserialize_option, deserialize_unit, deserialize_seq,
		deserialize_map, deserialize_identifier, deserialize_ignored_any);
	fn deserialize_unit_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, AnyErr> { unimplemented!() }
	fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, AnyErr> { unimplemented!() }
	fn deserialize_tuple<V: serde::de::Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, AnyErr> { unimplemented!() }
	fn deserialize_tuple_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, AnyErr> { unimplemented!() }
	fn deserialize_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, AnyErr> { unimplemented!() }
	fn deserialize_enum<V: serde::de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, AnyErr> { unimplemented!() }
}

/// Any place bytes are written to.
pub struct AnyOut(());
impl std::io::Write for AnyOut {
	fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { unimplemented!() }
	fn flush(&mut self) -> std::io::Result<()> { unimplemented!() }
}

/// Any place bytes are read from.
pub struct AnyIn(());
impl std::io::Read for AnyIn {
	fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { unimplemented!() }
}
