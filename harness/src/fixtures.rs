//! Derive fixtures: one per shape of type the derives accept.
use crate::opaque::*;
use bm_le::*;
use generic_array::GenericArray;
use typenum::*;

type DB = AnyLeDb;
type V = Value;
type R<T> = Result<T, Error<AnyErr>>;

#[derive(IntoTree, FromTree)] pub struct Unit0 {}
#[derive(IntoTree, FromTree)] pub struct Named1 { a: L0 }
#[derive(IntoTree, FromTree)] pub struct Named3 { a: L0, b: L1, c: L2 }
#[derive(IntoTree, FromTree)] pub struct Named5 { z: L0, y: L1, x: L2, w: L3, v: L4 }
#[derive(IntoTree, FromTree)] pub struct Compacted { a: L0, #[bm(compact)] b: GenericArray<u64, U4>, c: L1, #[bm(compact)] d: MaxVec<u64, U5> }
#[derive(IntoTree, FromTree)] pub struct Gen<A, B> { a: A, b: B }
#[derive(IntoTree, FromTree)] pub enum En { A(L0), B { c: L1, d: L2 }, E, F(L3, L4, L5), G { x: L6 } }
#[derive(IntoTree, FromTree)] pub enum One { Only }
#[derive(IntoTree, FromTree)] pub enum Many { N, A { p: L0 }, B(L1, L2), C { q: L3, r: L4, s: L5 }, D(L0, L1, L2, L3, L4), E(L5), F { t: L6 }, G, H(L2, L1), I { u: L1, v: L0 } }
#[derive(IntoTree, FromTree)] pub struct Tup2(L0, L1);
#[derive(IntoTree, FromTree)] pub struct Tup6(L3, L1, L2, L2, L0, L6);
#[derive(IntoTree, FromTree)] pub struct UnitS;
#[derive(IntoTree, FromTree)] pub struct Same4 { a: L0, b: L0, c: L0, d: L0 }
#[derive(IntoTree, FromTree)] pub struct Named9 { f0: L0, f1: L1, f2: L2, f3: L3, f4: L4, f5: L5, f6: L6, f7: L0, f8: L1 }
#[derive(IntoTree, FromTree)] pub struct Named17 { f0: L0, f1: L3, f2: L6, f3: L2, f4: L5, f5: L1, f6: L4, f7: L0, f8: L3, f9: L6, f10: L2, f11: L5, f12: L1, f13: L4, f14: L0, f15: L3, f16: L6 }
#[derive(IntoTree, FromTree)] pub struct Nest { a: L0, b: Named3, c: Gen<L1, L2> }
#[derive(IntoTree, FromTree)] pub enum Wide { V0(L0), V1 { a: L1, b: L3 }, V2, V3(L3), V4 { a: L4, b: L6 }, V5, V6(L6), V7 { a: L0, b: L2 }, V8, V9(L2), V10 { a: L3, b: L5 }, V11, V12(L5), V13 { a: L6, b: L1 }, V14, V15(L1), V16 { a: L2, b: L4 }, V17, V18(L4), V19 { a: L5, b: L0 } }
#[derive(IntoTree, FromTree)] pub enum GenEn<A, B> { X(A), Y { a: B, b: A }, Z }
#[derive(IntoTree, FromTree)] pub struct CompTup(#[bm(compact)] GenericArray<u64, U4>, L0);
#[derive(IntoTree, FromTree)] pub enum CompEn { A(L0, #[bm(compact)] GenericArray<u64, U4>), B { #[bm(compact)] a: GenericArray<u64, U4>, b: L1 } }

macro_rules! rt {
	($($enc:ident $dec:ident: $t:ty;)*) => { $(
		pub fn $enc(v: &$t, db: &mut DB) -> R<V> { v.into_tree(db) }
		pub fn $dec(r: &V, db: &mut DB) -> R<$t> { <$t>::from_tree(r, db) }
	)* };
}
rt! {
	root_derive__enc_unit0 root_derive__dec_unit0: Unit0;
	root_derive__enc_named1 root_derive__dec_named1: Named1;
	root_derive__enc_named3 root_derive__dec_named3: Named3;
	root_derive__enc_named5 root_derive__dec_named5: Named5;
	root_derive__enc_compacted root_derive__dec_compacted: Compacted;
	root_derive__enc_gen root_derive__dec_gen: Gen<L0, L1>;
	root_derive__enc_en root_derive__dec_en: En;
	root_derive__enc_one root_derive__dec_one: One;
	root_derive__enc_many root_derive__dec_many: Many;
	root_derive__enc_tup2 root_derive__dec_tup2: Tup2;
	root_derive__enc_tup6 root_derive__dec_tup6: Tup6;
	root_derive__enc_units root_derive__dec_units: UnitS;
	root_derive__enc_same4 root_derive__dec_same4: Same4;
	root_derive__enc_named9 root_derive__dec_named9: Named9;
	root_derive__enc_named17 root_derive__dec_named17: Named17;
	root_derive__enc_nest root_derive__dec_nest: Nest;
	root_derive__enc_wide root_derive__dec_wide: Wide;
	root_derive__enc_genen root_derive__dec_genen: GenEn<L0, L1>;
	root_derive__enc_comptup root_derive__dec_comptup: CompTup;
	root_derive__enc_compen root_derive__dec_compen: CompEn;
}

#[derive(Partialable)] pub struct Part3 { a: LP, b: LP, c: LP }
pub fn root_derive__partial_new(i: PartialIndex) -> PartialPart3 { <PartialPart3 as PartialItem>::new(i) }
pub fn root_derive__partial_flush(p: &mut PartialPart3, raw: &mut DanglingRaw<AnyLeConstruct>, db: &mut DB) -> R<()> { p.flush(raw, db) }
#[derive(Partialable)] pub struct Part1 { a: LP }
pub fn root_derive__partial_new1(i: PartialIndex) -> PartialPart1 { <PartialPart1 as PartialItem>::new(i) }
pub fn root_derive__partial_flush1(p: &mut PartialPart1, raw: &mut DanglingRaw<AnyLeConstruct>, db: &mut DB) -> R<()> { p.flush(raw, db) }
#[derive(Partialable)] pub struct Part9 { a: LP, b: LP, c: LP, d: LP, e: LP, f: LP, g: LP, h: LP, i: LP }
pub fn root_derive__partial_new9(i: PartialIndex) -> PartialPart9 { <PartialPart9 as PartialItem>::new(i) }
pub fn root_derive__partial_flush9(p: &mut PartialPart9, raw: &mut DanglingRaw<AnyLeConstruct>, db: &mut DB) -> R<()> { p.flush(raw, db) }
