use crate::opaque::*;
use bm::{CompactValue, Dangling, Index, Owned};
use bm_le::utils::*;
use bm_le::*;
use generic_array::GenericArray;
use primitive_types::{H256, H512, U256};
use typenum::*;
use vecarray::VecArray;

type N256 = typenum::U256;
type N257 = Sum<N256, U1>;
type DB = AnyLeDb;
type V = Value;
type R<T> = Result<T, Error<AnyErr>>;

macro_rules! rt {
	($($enc:ident $dec:ident: $t:ty;)*) => { $(
		pub fn $enc(v: &$t, db: &mut DB) -> R<V> { v.into_tree(db) }
		pub fn $dec(r: &V, db: &mut DB) -> R<$t> { <$t>::from_tree(r, db) }
	)* };
}
rt! {
	root_le__enc_bool root_le__dec_bool: bool;
	root_le__enc_u8 root_le__dec_u8: u8;
	root_le__enc_u16 root_le__dec_u16: u16;
	root_le__enc_u32 root_le__dec_u32: u32;
	root_le__enc_u64 root_le__dec_u64: u64;
	root_le__enc_u128 root_le__dec_u128: u128;
	root_le__enc_u256 root_le__dec_u256: U256;
	root_le__enc_h256 root_le__dec_h256: H256;
	root_le__enc_h512 root_le__dec_h512: H512;
	root_le__enc_value root_le__dec_value: Value;
	root_le__enc_unit root_le__dec_unit: ();
	root_le__enc_option root_le__dec_option: Option<L0>;
	root_le__enc_box root_le__dec_box: Box<L0>;
	root_le__enc_tuple2 root_le__dec_tuple2: (L0, L1);
	root_le__enc_tuple3 root_le__dec_tuple3: (L0, L1, L2);
	root_le__enc_tuple4 root_le__dec_tuple4: (L0, L1, L2, L3);
	root_le__enc_tuple5 root_le__dec_tuple5: (L0, L1, L2, L3, L4);
	root_le__enc_tuple6 root_le__dec_tuple6: (L0, L1, L2, L3, L4, L5);
	root_le__enc_tuple7 root_le__dec_tuple7: (L0, L1, L2, L3, L4, L5, L6);
	root_le__enc_tuple8 root_le__dec_tuple8: (L0, L1, L2, L3, L4, L5, L6, L7);
	root_le__enc_tuple9 root_le__dec_tuple9: (L0, L1, L2, L3, L4, L5, L6, L7, L8);
	root_le__enc_array1 root_le__dec_array1: [LC; 1];
	root_le__enc_array7 root_le__dec_array7: [LC; 7];
	root_le__enc_array32 root_le__dec_array32: [LC; 32];
	root_le__enc_garray root_le__dec_garray: GenericArray<L0, U6>;
	root_le__enc_vecarray root_le__dec_vecarray: VecArray<L0, U6>;
	root_le__enc_vec root_le__dec_vec: Vec<L0>;
	root_le__enc_maxvec root_le__dec_maxvec: MaxVec<L0, U7>;
	root_le__enc_cgarray_u8 root_le__dec_cgarray_u8: Compact<GenericArray<u8, U6>>;
	root_le__enc_cgarray_u16 root_le__dec_cgarray_u16: Compact<GenericArray<u16, U6>>;
	root_le__enc_cgarray_u32 root_le__dec_cgarray_u32: Compact<GenericArray<u32, U6>>;
	root_le__enc_cgarray_u64 root_le__dec_cgarray_u64: Compact<GenericArray<u64, U6>>;
	root_le__enc_cgarray_u128 root_le__dec_cgarray_u128: Compact<GenericArray<u128, U6>>;
	root_le__enc_cgarray_u256 root_le__dec_cgarray_u256: Compact<GenericArray<U256, U6>>;
	root_le__enc_cgarray_bool root_le__dec_cgarray_bool: Compact<GenericArray<bool, U6>>;
	root_le__enc_cgarray_bits root_le__dec_cgarray_bits: Compact<GenericArray<bool, U300>>;
	root_le__enc_cvecarray_u64 root_le__dec_cvecarray_u64: Compact<VecArray<u64, U6>>;
	root_le__enc_cmaxvec_u64 root_le__dec_cmaxvec_u64: Compact<MaxVec<u64, U7>>;
	root_le__enc_cmaxvec_bool root_le__dec_cmaxvec_bool: Compact<MaxVec<bool, U7>>;
	root_le__enc_cmaxvec_u256 root_le__dec_cmaxvec_u256: Compact<MaxVec<U256, U7>>;
	root_le__enc_maxvec_n1 root_le__dec_maxvec_n1: MaxVec<L0, U1>;
	root_le__enc_maxvec_n2 root_le__dec_maxvec_n2: MaxVec<L0, U2>;
	root_le__enc_maxvec_n8 root_le__dec_maxvec_n8: MaxVec<L0, U8>;
	root_le__enc_maxvec_n33 root_le__dec_maxvec_n33: MaxVec<L0, U33>;
	root_le__enc_garray_n1 root_le__dec_garray_n1: GenericArray<L0, U1>;
	root_le__enc_garray_n2 root_le__dec_garray_n2: GenericArray<L0, U2>;
	root_le__enc_garray_n8 root_le__dec_garray_n8: GenericArray<L0, U8>;
	root_le__enc_vecarray_n1 root_le__dec_vecarray_n1: VecArray<L0, U1>;
	root_le__enc_vecarray_n3 root_le__dec_vecarray_n3: VecArray<L0, U3>;
	root_le__enc_vecarray_n8 root_le__dec_vecarray_n8: VecArray<L0, U8>;
	root_le__enc_cgarray_u64_n1 root_le__dec_cgarray_u64_n1: Compact<GenericArray<u64, U1>>;
	root_le__enc_cgarray_u64_n4 root_le__dec_cgarray_u64_n4: Compact<GenericArray<u64, U4>>;
	root_le__enc_cgarray_u8_n32 root_le__dec_cgarray_u8_n32: Compact<GenericArray<u8, U32>>;
	root_le__enc_cgarray_u8_n33 root_le__dec_cgarray_u8_n33: Compact<GenericArray<u8, U33>>;
	root_le__enc_cgarray_u256_n1 root_le__dec_cgarray_u256_n1: Compact<GenericArray<U256, U1>>;
	root_le__enc_cgarray_u256_n3 root_le__dec_cgarray_u256_n3: Compact<GenericArray<U256, U3>>;
	root_le__enc_cgarray_u128_n5 root_le__dec_cgarray_u128_n5: Compact<GenericArray<u128, U5>>;
	root_le__enc_cgarray_bool_n256 root_le__dec_cgarray_bool_n256: Compact<GenericArray<bool, N256>>;
	root_le__enc_cgarray_bool_n257 root_le__dec_cgarray_bool_n257: Compact<GenericArray<bool, N257>>;
	root_le__enc_cvecarray_bool_n257 root_le__dec_cvecarray_bool_n257: Compact<VecArray<bool, N257>>;
	root_le__enc_cvecarray_u256_n3 root_le__dec_cvecarray_u256_n3: Compact<VecArray<U256, U3>>;
	root_le__enc_cvecarray_u8_n33 root_le__dec_cvecarray_u8_n33: Compact<VecArray<u8, U33>>;
	root_le__enc_cmaxvec_u64_n1 root_le__dec_cmaxvec_u64_n1: Compact<MaxVec<u64, U1>>;
	root_le__enc_cmaxvec_u64_n4 root_le__dec_cmaxvec_u64_n4: Compact<MaxVec<u64, U4>>;
	root_le__enc_cmaxvec_u8_n32 root_le__dec_cmaxvec_u8_n32: Compact<MaxVec<u8, U32>>;
	root_le__enc_cmaxvec_u8_n33 root_le__dec_cmaxvec_u8_n33: Compact<MaxVec<u8, U33>>;
	root_le__enc_cmaxvec_u256_n1 root_le__dec_cmaxvec_u256_n1: Compact<MaxVec<U256, U1>>;
	root_le__enc_cmaxvec_bool_n256 root_le__dec_cmaxvec_bool_n256: Compact<MaxVec<bool, N256>>;
	root_le__enc_cmaxvec_bool_n257 root_le__dec_cmaxvec_bool_n257: Compact<MaxVec<bool, N257>>;
}
pub fn root_le__enc_slice(v: &[L0], db: &mut DB) -> R<V> { v.into_tree(db) }
pub fn root_le__enc_compact_value(v: &CompactValue<V>, db: &mut DB) -> R<V> { v.into_tree(db) }
pub fn root_le__dec_ignored(r: &V, db: &mut DB) -> R<Ignored> { Ignored::from_tree(r, db) }
pub fn root_le__enc_cref_garray(v: &GenericArray<u64, U6>, db: &mut DB) -> R<V> { CompactRef(v).into_tree(db) }
pub fn root_le__enc_cref_vecarray(v: &VecArray<u64, U6>, db: &mut DB) -> R<V> { CompactRef(v).into_tree(db) }
pub fn root_le__enc_cref_maxvec(v: &MaxVec<u64, U7>, db: &mut DB) -> R<V> { CompactRef(v).into_tree(db) }
pub fn root_le__enc_cref_maxvec_u256_n1(v: &MaxVec<U256, U1>, db: &mut DB) -> R<V> { CompactRef(v).into_tree(db) }
pub fn root_le__enc_cref_maxvec_u256_n7(v: &MaxVec<U256, U7>, db: &mut DB) -> R<V> { CompactRef(v).into_tree(db) }
pub fn root_le__enc_cref_maxvec_bool_n257(v: &MaxVec<bool, N257>, db: &mut DB) -> R<V> { CompactRef(v).into_tree(db) }
pub fn root_le__enc_cref_maxvec_u8_n33(v: &MaxVec<u8, U33>, db: &mut DB) -> R<V> { CompactRef(v).into_tree(db) }
pub fn root_le__enc_cref_maxvec_u64_n4(v: &MaxVec<u64, U4>, db: &mut DB) -> R<V> { CompactRef(v).into_tree(db) }
pub fn root_le__enc_cref_garray_bool_n257(v: &GenericArray<bool, N257>, db: &mut DB) -> R<V> { CompactRef(v).into_tree(db) }
pub fn root_le__enc_cref_garray_u256_n3(v: &GenericArray<U256, U3>, db: &mut DB) -> R<V> { CompactRef(v).into_tree(db) }
pub fn root_le__enc_cref_vecarray_bool_n257(v: &VecArray<bool, N257>, db: &mut DB) -> R<V> { CompactRef(v).into_tree(db) }
pub fn root_le__enc_cref_vecarray_u256_n3(v: &VecArray<U256, U3>, db: &mut DB) -> R<V> { CompactRef(v).into_tree(db) }

macro_rules! vecs {
	($($encv:ident $decv:ident $encl:ident $decl:ident: $t:ty;)*) => { $(
		pub fn $encv(v: &[$t], db: &mut DB, m: Option<u64>) -> R<V> { ElementalFixedVecRef(v).into_compact_vector_tree(db, m) }
		pub fn $decv(r: &V, db: &mut DB, len: usize, m: Option<u64>) -> R<ElementalFixedVec<$t>> { ElementalFixedVec::<$t>::from_compact_vector_tree(r, db, len, m) }
		pub fn $encl(v: &[$t], db: &mut DB, m: Option<u64>) -> R<V> { ElementalVariableVecRef(v).into_compact_list_tree(db, m) }
		pub fn $decl(r: &V, db: &mut DB, m: Option<u64>) -> R<ElementalVariableVec<$t>> { ElementalVariableVec::<$t>::from_compact_list_tree(r, db, m) }
	)* };
}
vecs! {
	root_levec__encv_u8 root_levec__decv_u8 root_levec__encl_u8 root_levec__decl_u8: u8;
	root_levec__encv_u16 root_levec__decv_u16 root_levec__encl_u16 root_levec__decl_u16: u16;
	root_levec__encv_u32 root_levec__decv_u32 root_levec__encl_u32 root_levec__decl_u32: u32;
	root_levec__encv_u64 root_levec__decv_u64 root_levec__encl_u64 root_levec__decl_u64: u64;
	root_levec__encv_u128 root_levec__decv_u128 root_levec__encl_u128 root_levec__decl_u128: u128;
	root_levec__encv_u256 root_levec__decv_u256 root_levec__encl_u256 root_levec__decl_u256: U256;
	root_levec__encv_bool root_levec__decv_bool root_levec__encl_bool root_levec__decl_bool: bool;
}
pub fn root_levec__encv_comp(v: &[L0], db: &mut DB, m: Option<u64>) -> R<V> { ElementalFixedVecRef(v).into_composite_vector_tree(db, m) }
pub fn root_levec__decv_comp(r: &V, db: &mut DB, len: usize, m: Option<u64>) -> R<ElementalFixedVec<L0>> { ElementalFixedVec::<L0>::from_composite_vector_tree(r, db, len, m) }
pub fn root_levec__encl_comp(v: &[L0], db: &mut DB, m: Option<u64>) -> R<V> { ElementalVariableVecRef(v).into_composite_list_tree(db, m) }
pub fn root_levec__decl_comp(r: &V, db: &mut DB, m: Option<u64>) -> R<ElementalVariableVec<L0>> { ElementalVariableVec::<L0>::from_composite_list_tree(r, db, m) }
pub fn root_levec__encv_own(v: &ElementalFixedVec<u64>, db: &mut DB, m: Option<u64>) -> R<V> { v.into_compact_vector_tree(db, m) }
pub fn root_levec__encv_owncomp(v: &ElementalFixedVec<L0>, db: &mut DB, m: Option<u64>) -> R<V> { v.into_composite_vector_tree(db, m) }
pub fn root_levec__encl_own(v: &ElementalVariableVec<u64>, db: &mut DB, m: Option<u64>) -> R<V> { v.into_compact_list_tree(db, m) }
pub fn root_levec__encl_owncomp(v: &ElementalVariableVec<L0>, db: &mut DB, m: Option<u64>) -> R<V> { v.into_composite_list_tree(db, m) }

// utils
pub fn root_leutil__mix_in_type(v: &L0, db: &mut DB, t: usize) -> R<V> { mix_in_type(v, db, t) }
pub fn root_leutil__mix_in_length(v: &L0, db: &mut DB, t: usize) -> R<V> { mix_in_length(v, db, t) }
pub fn root_leutil__decode_with_length(r: &V, db: &mut DB) -> R<(L0, usize)> { decode_with_length::<L0, _>(r, db) }

pub fn root_leutil__decode_with_type(r: &V, db: &mut DB) -> R<(V, usize)> { decode_with_type(r, db, |v, _db, t| Ok((v.clone(), t))) }
// value conversions
pub fn root_value__default() -> V { V::default() }
pub fn root_value__from_usize(l: usize) -> V { l.into() }
pub fn root_value__into_usize(v: V) -> usize { v.into() }
pub fn root_value__from_garray(a: GenericArray<u8, U32>) -> V { a.into() }
// tree_root
pub fn root_treeroot__leaf(v: &L0) -> H256 { tree_root::<AnyDigest, L0>(v) }
pub fn root_treeroot__vec_u64(v: &Vec<u64>) -> H256 { tree_root::<AnyDigest, _>(&Compact(MaxVec::<u64, U7>::from(v.clone()))) }
pub fn root_treeroot__tuple(v: &(u64, H256)) -> H256 { tree_root::<AnyDigest, _>(v) }
pub fn root_treeroot__option(v: &Option<u64>) -> H256 { tree_root::<AnyDigest, _>(v) }
pub fn root_treeroot__bits(v: &Compact<GenericArray<bool, U6>>) -> H256 { tree_root::<AnyDigest, _>(v) }
pub fn root_treeroot__vec(v: &Vec<H256>) -> H256 { tree_root::<AnyDigest, _>(v) }
pub fn root_treeroot__compact_value(v: &CompactValue<V>) -> H256 { tree_root::<AnyDigest, _>(v) }
// partial
pub fn root_partial__root() -> PartialIndex { PartialIndex::root() }
pub fn root_partial__raw(p: &PartialIndex, i: Index) -> PartialIndex { p.raw(i) }
pub fn root_partial__vector(p: &PartialIndex, i: usize, l: usize) -> PartialIndex { p.vector(i, l) }
pub fn root_partial__list(p: &PartialIndex, i: usize) -> PartialIndex { p.list(i) }
pub fn root_partial__resolve(p: &PartialIndex, raw: &Raw<Dangling, AnyLeConstruct>, db: &mut DB) -> R<Index> { p.resolve(raw, db) }
pub fn root_partial__value_new(i: PartialIndex) -> PartialValue<L0> { <PartialValue<L0> as PartialItem>::new(i) }
pub fn root_partial__value_fetch(p: &mut PartialValue<L0>, raw: &Raw<Dangling, AnyLeConstruct>, db: &mut DB) -> R<()> { p.fetch(raw, db) }
pub fn root_partial__value_get<'a>(p: &'a mut PartialValue<L0>, raw: &Raw<Dangling, AnyLeConstruct>, db: &mut DB) -> R<&'a L0> { p.get(raw, db) }
pub fn root_partial__value_set(p: &mut PartialValue<L0>, v: L0) { p.set(v) }
pub fn root_partial__value_flush(p: &mut PartialValue<L0>, raw: &mut Raw<Dangling, AnyLeConstruct>, db: &mut DB) -> R<()> { p.flush(raw, db) }
pub fn root_partial__vec_new(i: PartialIndex) -> PartialVec<LP> { <PartialVec<LP> as PartialItem>::new(i) }
pub fn root_partial__vec_at(p: &mut PartialVec<LP>, i: usize) -> &mut AnyItem { p.at(i) }
pub fn root_partial__vec_push(p: &mut PartialVec<LP>, v: LP) { p.push(v) }
pub fn root_partial__vec_flush(p: &mut PartialVec<LP>, raw: &mut Raw<Dangling, AnyLeConstruct>, db: &mut DB) -> R<()> { p.flush(raw, db) }
