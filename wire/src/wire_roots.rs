use crate::opaque::*;
use bm::CompactValue;
use bm_le::{Compact, MaxVec, Value};
use parity_codec::{Decode, Encode};
use serde::{Deserialize, Serialize};
use typenum::{U1, U7};

type Ser = Result<AnyOk, AnyErr>;
type De<T> = Result<T, AnyErr>;

pub fn root_serde__maxvec_ser(v: &MaxVec<L0, U7>, s: AnySer) -> Ser { v.serialize(s) }
pub fn root_serde__maxvec_de(d: AnyDe) -> De<MaxVec<L0, U7>> { MaxVec::<L0, U7>::deserialize(d) }
pub fn root_serde__maxvec1_de(d: AnyDe) -> De<MaxVec<L0, U1>> { MaxVec::<L0, U1>::deserialize(d) }
pub fn root_serde__compact_ser(v: &Compact<L0>, s: AnySer) -> Ser { v.serialize(s) }
pub fn root_serde__compact_de(d: AnyDe) -> De<Compact<L0>> { Compact::<L0>::deserialize(d) }
pub fn root_serde__value_ser(v: &Value, s: AnySer) -> Ser { v.serialize(s) }
pub fn root_serde__cv_ser(v: &CompactValue<L0>, s: AnySer) -> Ser { v.serialize(s) }

pub fn root_codec__maxvec_enc(v: &MaxVec<L0, U7>, out: &mut AnyOut) { v.encode_to(out) }
pub fn root_codec__maxvec_dec(input: &mut AnyIn) -> Option<MaxVec<L0, U7>> { MaxVec::<L0, U7>::decode(input) }
pub fn root_codec__maxvec1_dec(input: &mut AnyIn) -> Option<MaxVec<L0, U1>> { MaxVec::<L0, U1>::decode(input) }
pub fn root_codec__value_enc(v: &Value, out: &mut AnyOut) { v.encode_to(out) }
pub fn root_codec__value_dec(input: &mut AnyIn) -> Option<Value> { Value::decode(input) }
pub fn root_codec__cv_enc(v: &CompactValue<L0>, out: &mut AnyOut) { v.encode_to(out) }
pub fn root_codec__cv_dec(input: &mut AnyIn) -> Option<CompactValue<L0>> { CompactValue::<L0>::decode(input) }
