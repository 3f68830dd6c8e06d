use crate::opaque::*;
use bm::*;
use bm::utils::*;
use generic_array::GenericArray;
use typenum::*;

type C = AnyConstruct;
type V = AnyValue;
type E = Error<AnyErr>;
type R<T> = Result<T, E>;
type DB = AnyDb;

// ---- index
pub fn root_index__root() -> Index { Index::root() }
pub fn root_index__left(i: &Index) -> Index { i.left() }
pub fn root_index__right(i: &Index) -> Index { i.right() }
pub fn root_index__parent(i: &Index) -> Option<Index> { i.parent() }
pub fn root_index__has_descendant(i: &Index, o: &Index) -> bool { i.has_descendant(o) }
pub fn root_index__from_one(i: usize) -> Option<Index> { Index::from_one(i) }
pub fn root_index__from_zero(i: usize) -> Index { Index::from_zero(i) }
pub fn root_index__from_depth(i: usize, d: usize) -> Index { Index::from_depth(i, d) }
pub fn root_index__route(i: &Index) -> IndexRoute { i.route() }
pub fn root_index__sub(i: &Index, s: Index) -> Index { i.sub(s) }
pub fn root_route__at_depth(r: &IndexRoute, d: usize) -> Option<IndexSelection> { r.at_depth(d) }

// ---- utils
pub fn root_utils__required_depth(l: u64) -> usize { required_depth(l) }
pub fn root_utils__vector_tree(v: &[V], db: &mut DB, m: Option<u64>) -> R<V> { vector_tree(v, db, m) }
pub fn root_utils__host_max_len_32_8(l: u64) -> u64 { host_max_len::<U32, U8>(l) }
pub fn root_utils__host_max_len_32_64(l: u64) -> u64 { host_max_len::<U32, U64>(l) }
pub fn root_utils__host_len_32_8(l: usize) -> usize { host_len::<U32, U8>(l) }
pub fn root_utils__host_max_len_32_12(l: u64) -> u64 { host_max_len::<U32, U12>(l) }
pub fn root_utils__host_len_32_12(l: usize) -> usize { host_len::<U32, U12>(l) }
pub fn root_utils__host_max_len_32_48(l: u64) -> u64 { host_max_len::<U32, U48>(l) }
pub fn root_utils__host_len_32_48(l: usize) -> usize { host_len::<U32, U48>(l) }
pub fn root_utils__host_max_len_32_80(l: u64) -> u64 { host_max_len::<U32, U80>(l) }
pub fn root_utils__host_len_32_80(l: usize) -> usize { host_len::<U32, U80>(l) }
pub fn root_utils__host_max_len_32_24(l: u64) -> u64 { host_max_len::<U32, U24>(l) }
pub fn root_utils__host_len_32_24(l: usize) -> usize { host_len::<U32, U24>(l) }
pub fn root_utils__host_len_32_64(l: usize) -> usize { host_len::<U32, U64>(l) }

macro_rules! both {
	($($m:ident: $S:ident;)*) => { $(
		pub mod $m {
			use super::*;
			type Raw_ = Raw<$S, C>;
			type Vec_ = Vector<$S, C>;
			type List_ = List<$S, C>;
			type El8 = GenericArray<u8, U8>;
			type El64 = GenericArray<u8, U64>;
			type El12 = GenericArray<u8, U12>;
			type El48 = GenericArray<u8, U48>;
			type El80 = GenericArray<u8, U80>;
			type PV8 = PackedVector<$S, C, El8, U32, U8>;
			type PV64 = PackedVector<$S, C, El64, U32, U64>;
			type PV12 = PackedVector<$S, C, El12, U32, U12>;
			type PV48 = PackedVector<$S, C, El48, U32, U48>;
			type PV80 = PackedVector<$S, C, El80, U32, U80>;
			type PL8 = PackedList<$S, C, El8, U32, U8>;
			type LM = LengthMixed<$S, C, AnySeq<Dangling>>;
			// raw
			pub fn root_raw__new(v: V) -> Raw_ { Raw_::new(v) }
			pub fn root_raw__default() -> Raw_ { Raw_::default() }
			pub fn root_raw__root(s: &Raw_) -> V { s.root() }
			pub fn root_raw__drop(s: Raw_, db: &mut DB) -> R<()> { Tree::drop(s, db) }
			pub fn root_raw__into_raw(s: Raw_) -> Raw_ { s.into_raw() }
			pub fn root_raw__subtree(s: &Raw_, db: &mut DB, i: Index) -> R<DanglingRaw<C>> { s.subtree(db, i) }
			pub fn root_raw__get(s: &Raw_, db: &mut DB, i: Index) -> R<Option<V>> { s.get(db, i) }
			pub fn root_raw__set(s: &mut Raw_, db: &mut DB, i: Index, v: V) -> R<()> { s.set(db, i, v) }
			pub fn root_raw__metadata(s: &Raw_) -> V { s.metadata() }
			pub fn root_raw__from_leaked(v: V) -> Raw_ { Raw_::from_leaked(v) }
			pub fn root_raw__as_dangling(s: &Raw_) -> DanglingRaw<C> { s.as_dangling() }
			pub fn root_raw__into_vector(s: Raw_, len: usize, m: Option<u64>) -> Vec_ { s.into_vector(len, m) }
			pub fn root_raw__into_list(s: Raw_, len: usize, m: Option<u64>) -> List_ { s.into_list(len, m) }
			// vector
			pub fn root_vector__current_max_len(s: &Vec_) -> u64 { s.current_max_len() }
			pub fn root_vector__max_len(s: &Vec_) -> Option<u64> { s.max_len() }
			pub fn root_vector__depth(s: &Vec_) -> usize { s.depth() }
			pub fn root_vector__get(s: &Vec_, db: &mut DB, i: usize) -> R<V> { s.get(db, i) }
			pub fn root_vector__set(s: &mut Vec_, db: &mut DB, i: usize, v: V) -> R<()> { s.set(db, i, v) }
			pub fn root_vector__push(s: &mut Vec_, db: &mut DB, v: V) -> R<()> { s.push(db, v) }
			pub fn root_vector__pop(s: &mut Vec_, db: &mut DB) -> R<Option<V>> { s.pop(db) }
			pub fn root_vector__len(s: &Vec_) -> usize { s.len() }
			pub fn root_vector__seq_len(s: &Vec_) -> usize { Sequence::len(s) }
			pub fn root_vector__from_raw(r: Raw_, len: usize, m: Option<u64>) -> Vec_ { Vec_::from_raw(r, len, m) }
			pub fn root_vector__root(s: &Vec_) -> V { s.root() }
			pub fn root_vector__drop(s: Vec_, db: &mut DB) -> R<()> { Tree::drop(s, db) }
			pub fn root_vector__into_raw(s: Vec_) -> Raw_ { s.into_raw() }
			pub fn root_vector__metadata(s: &Vec_) -> (V, usize, Option<u64>) { s.metadata() }
			pub fn root_vector__from_leaked(m: (V, usize, Option<u64>)) -> Vec_ { Vec_::from_leaked(m) }
			// list
			pub fn root_list__get(s: &List_, db: &mut DB, i: usize) -> R<V> { s.get(db, i) }
			pub fn root_list__set(s: &mut List_, db: &mut DB, i: usize, v: V) -> R<()> { s.set(db, i, v) }
			pub fn root_list__push(s: &mut List_, db: &mut DB, v: V) -> R<()> { s.push(db, v) }
			pub fn root_list__pop(s: &mut List_, db: &mut DB) -> R<Option<V>> { s.pop(db) }
			pub fn root_list__deconstruct(s: List_, db: &mut DB) -> R<V> { s.deconstruct(db) }
			pub fn root_list__reconstruct(v: V, db: &mut DB, m: Option<u64>) -> R<List_> { List_::reconstruct(v, db, m) }
			pub fn root_list__from_raw(r: Raw_, len: usize, m: Option<u64>) -> List_ { List_::from_raw(r, len, m) }
			pub fn root_list__root(s: &List_) -> V { s.root() }
			pub fn root_list__len(s: &List_) -> usize { s.len() }
			pub fn root_list__drop(s: List_, db: &mut DB) -> R<()> { Tree::drop(s, db) }
			pub fn root_list__into_raw(s: List_) -> Raw_ { s.into_raw() }
			pub fn root_list__metadata(s: &List_) -> (V, (V, usize, Option<u64>)) { s.metadata() }
			pub fn root_list__from_leaked(m: (V, (V, usize, Option<u64>))) -> List_ { List_::from_leaked(m) }
			// length-mixed over an unknown sequence
			pub fn root_mixed__reconstruct(v: V, db: &mut DB) -> R<LM> { LM::reconstruct(v, db, recon_fn) }
			pub fn root_mixed__deconstruct(s: LM, db: &mut DB) -> R<V> { s.deconstruct(db) }
			pub fn root_mixed__with(s: &LM, db: &mut DB) -> R<AnyMeta> { s.with(db, ref_fn) }
			pub fn root_mixed__with_mut(s: &mut LM, db: &mut DB) -> R<AnyMeta> { s.with_mut(db, mut_fn) }
			pub fn root_mixed__root(s: &LM) -> V { s.root() }
			pub fn root_mixed__len(s: &LM) -> usize { s.len() }
			pub fn root_mixed__drop(s: LM, db: &mut DB) -> R<()> { Tree::drop(s, db) }
			pub fn root_mixed__into_raw(s: LM) -> Raw_ { s.into_raw() }
			pub fn root_mixed__metadata(s: &LM) -> (V, AnyMeta) { s.metadata() }
			pub fn root_mixed__from_leaked(m: (V, AnyMeta)) -> LM { LM::from_leaked(m) }
			// packed vector
			pub fn root_packed8__get(s: &PV8, db: &mut DB, i: usize) -> R<El8> { s.get(db, i) }
			pub fn root_packed8__set(s: &mut PV8, db: &mut DB, i: usize, v: El8) -> R<()> { s.set(db, i, v) }
			pub fn root_packed8__push(s: &mut PV8, db: &mut DB, v: El8) -> R<()> { s.push(db, v) }
			pub fn root_packed8__pop(s: &mut PV8, db: &mut DB) -> R<Option<El8>> { s.pop(db) }
			pub fn root_packed8__from_raw(r: Raw_, len: usize, m: Option<u64>) -> PV8 { PV8::from_raw(r, len, m) }
			pub fn root_packed8__root(s: &PV8) -> V { s.root() }
			pub fn root_packed8__len(s: &PV8) -> usize { s.len() }
			pub fn root_packed8__drop(s: PV8, db: &mut DB) -> R<()> { Tree::drop(s, db) }
			pub fn root_packed8__into_raw(s: PV8) -> Raw_ { s.into_raw() }
			pub fn root_packed8__metadata(s: &PV8) -> (V, usize, Option<u64>) { s.metadata() }
			pub fn root_packed8__from_leaked(m: (V, usize, Option<u64>)) -> PV8 { PV8::from_leaked(m) }
			pub fn root_packed64__get(s: &PV64, db: &mut DB, i: usize) -> R<El64> { s.get(db, i) }
			pub fn root_packed64__set(s: &mut PV64, db: &mut DB, i: usize, v: El64) -> R<()> { s.set(db, i, v) }
			pub fn root_packed64__push(s: &mut PV64, db: &mut DB, v: El64) -> R<()> { s.push(db, v) }
			pub fn root_packed64__pop(s: &mut PV64, db: &mut DB) -> R<Option<El64>> { s.pop(db) }
			pub fn root_packed12__get(s: &PV12, db: &mut DB, i: usize) -> R<El12> { s.get(db, i) }
			pub fn root_packed12__set(s: &mut PV12, db: &mut DB, i: usize, v: El12) -> R<()> { s.set(db, i, v) }
			pub fn root_packed12__push(s: &mut PV12, db: &mut DB, v: El12) -> R<()> { s.push(db, v) }
			pub fn root_packed12__pop(s: &mut PV12, db: &mut DB) -> R<Option<El12>> { s.pop(db) }
			pub fn root_packed48__get(s: &PV48, db: &mut DB, i: usize) -> R<El48> { s.get(db, i) }
			pub fn root_packed48__set(s: &mut PV48, db: &mut DB, i: usize, v: El48) -> R<()> { s.set(db, i, v) }
			pub fn root_packed48__push(s: &mut PV48, db: &mut DB, v: El48) -> R<()> { s.push(db, v) }
			pub fn root_packed48__pop(s: &mut PV48, db: &mut DB) -> R<Option<El48>> { s.pop(db) }
			pub fn root_packed80__get(s: &PV80, db: &mut DB, i: usize) -> R<El80> { s.get(db, i) }
			pub fn root_packed80__set(s: &mut PV80, db: &mut DB, i: usize, v: El80) -> R<()> { s.set(db, i, v) }
			pub fn root_packed80__push(s: &mut PV80, db: &mut DB, v: El80) -> R<()> { s.push(db, v) }
			pub fn root_packed80__pop(s: &mut PV80, db: &mut DB) -> R<Option<El80>> { s.pop(db) }
			// packed list
			pub fn root_packedlist__get(s: &PL8, db: &mut DB, i: usize) -> R<El8> { s.get(db, i) }
			pub fn root_packedlist__set(s: &mut PL8, db: &mut DB, i: usize, v: El8) -> R<()> { s.set(db, i, v) }
			pub fn root_packedlist__push(s: &mut PL8, db: &mut DB, v: El8) -> R<()> { s.push(db, v) }
			pub fn root_packedlist__pop(s: &mut PL8, db: &mut DB) -> R<Option<El8>> { s.pop(db) }
			pub fn root_packedlist__root(s: &PL8) -> V { s.root() }
			pub fn root_packedlist__len(s: &PL8) -> usize { s.len() }
			pub fn root_packedlist__drop(s: PL8, db: &mut DB) -> R<()> { Tree::drop(s, db) }
			pub fn root_packedlist__into_raw(s: PL8) -> Raw_ { s.into_raw() }
			pub fn root_packedlist__metadata(s: &PL8) -> (V, (V, usize, Option<u64>)) { s.metadata() }
			pub fn root_packedlist__from_leaked(m: (V, (V, usize, Option<u64>))) -> PL8 { PL8::from_leaked(m) }
		}
	)* };
}
both! { owned: Owned; dangling: Dangling; }

pub fn root_vector__create(db: &mut DB, len: usize, m: Option<u64>) -> R<OwnedVector<C>> { Vector::<Owned, C>::create(db, len, m) }
pub fn root_list__create(db: &mut DB, m: Option<u64>) -> R<OwnedList<C>> { List::<Owned, C>::create(db, m) }
pub fn root_mixed__create(db: &mut DB) -> R<LengthMixed<Owned, C, AnySeq<Dangling>>> { LengthMixed::create(db, make_fn) }
pub fn root_packed8__create(db: &mut DB, len: usize, m: Option<u64>) -> R<PackedVector<Owned, C, GenericArray<u8, U8>, U32, U8>> { PackedVector::create(db, len, m) }
pub fn root_packedlist__create(db: &mut DB, m: Option<u64>) -> R<PackedList<Owned, C, GenericArray<u8, U8>, U32, U8>> { PackedList::create(db, m) }

// ---- constructs
type IC = InheritedDigestConstruct<AnyDigest, AnyValue>;
type UC = UnitDigestConstruct<AnyDigest, AnyValue>;
pub fn root_construct__inherited_intermediate(a: &V, b: &V) -> V { IC::intermediate_of(a, b) }
pub fn root_construct__unit_intermediate(a: &V, b: &V) -> V { UC::intermediate_of(a, b) }
pub fn root_construct__inherited_empty(db: &mut DigDb<IC>, d: usize) -> Result<V, AnyErr> { IC::empty_at(db, d) }
pub fn root_construct__unit_empty(db: &mut DigDb<UC>, d: usize) -> Result<V, AnyErr> { UC::empty_at(db, d) }

// ---- backends
type Mem = InMemoryBackend<C>;
pub fn root_memory__default() -> Mem { Mem::default() }
pub fn root_memory__get(db: &mut Mem, k: &V) -> Result<Option<(V, V)>, InMemoryBackendError> { db.get(k) }
pub fn root_memory__rootify(db: &mut Mem, k: &V) -> Result<(), InMemoryBackendError> { db.rootify(k) }
pub fn root_memory__unrootify(db: &mut Mem, k: &V) -> Result<(), InMemoryBackendError> { db.unrootify(k) }
pub fn root_memory__insert(db: &mut Mem, k: V, v: (V, V)) -> Result<(), InMemoryBackendError> { db.insert(k, v) }
pub fn root_memory__populate(db: &mut Mem, p: std::collections::HashMap<V, (V, V)>) { db.populate(p) }
pub fn root_memory__clone(db: &Mem) -> Mem { db.clone() }
type Noop = NoopBackend<C>;
pub fn root_noop__get(db: &mut Noop, k: &V) -> Result<Option<(V, V)>, NoopBackendError> { db.get(k) }
pub fn root_noop__rootify(db: &mut Noop, k: &V) -> Result<(), NoopBackendError> { db.rootify(k) }
pub fn root_noop__unrootify(db: &mut Noop, k: &V) -> Result<(), NoopBackendError> { db.unrootify(k) }
pub fn root_noop__insert(db: &mut Noop, k: V, v: (V, V)) -> Result<(), NoopBackendError> { db.insert(k, v) }
type Dyn = DynBackend<DB>;
pub fn root_dyn__get(db: &mut Dyn, k: &V) -> Result<Option<(V, V)>, ()> { db.get(k) }
pub fn root_dyn__rootify(db: &mut Dyn, k: &V) -> Result<(), ()> { db.rootify(k) }
pub fn root_dyn__unrootify(db: &mut Dyn, k: &V) -> Result<(), ()> { db.unrootify(k) }
pub fn root_dyn__insert(db: &mut Dyn, k: V, v: (V, V)) -> Result<(), ()> { db.insert(k, v) }
type Prov<'a> = ProvingBackend<'a, DB>;
pub fn root_proving__new(db: &mut DB) -> Prov<'_> { Prov::new(db) }
pub fn root_proving__get(db: &mut Prov<'_>, k: &V) -> Result<Option<(V, V)>, AnyErr> { db.get(k) }
pub fn root_proving__rootify(db: &mut Prov<'_>, k: &V) -> Result<(), AnyErr> { db.rootify(k) }
pub fn root_proving__unrootify(db: &mut Prov<'_>, k: &V) -> Result<(), AnyErr> { db.unrootify(k) }
pub fn root_proving__insert(db: &mut Prov<'_>, k: V, v: (V, V)) -> Result<(), AnyErr> { db.insert(k, v) }
pub fn root_proving__from_state<'a>(s: ProvingState<V>, db: &'a mut DB) -> Prov<'a> { Prov::from_state(s, db) }
pub fn root_proving__into_state(p: Prov<'_>) -> ProvingState<V> { p.into_state() }
pub fn root_proving__state_into_proofs(s: ProvingState<V>) -> Proofs<V> { s.into() }
pub fn root_proving__into_proofs(p: Prov<'_>) -> Proofs<V> { p.into() }
pub fn root_proofs__into_map(p: Proofs<V>) -> std::collections::HashMap<V, (V, V)> { p.into() }
pub fn root_proofs__into_compact(p: &Proofs<V>, r: V) -> CompactValue<V> { p.into_compact(r) }
pub fn root_proofs__from_compact(c: CompactValue<V>) -> (Proofs<V>, V) { Proofs::from_compact::<C>(c) }
pub fn root_compact__len(c: &CompactValue<V>) -> usize { c.len() }
pub fn root_compact__fold(c: CompactValue<V>) -> (AnyMeta, V) { c.fold::<C, AnyMeta, _>(&fold_fn) }
pub fn root_compact__root(c: CompactValue<V>) -> V { c.root::<C>() }
pub fn root_compact__default() -> CompactValue<V> { CompactValue::default() }
pub fn root_compact__from_plain(l: V, p: AnyIter, i: Index) -> Option<CompactValue<V>> { CompactValue::from_plain(l, p, i) }

// ---- markers
pub fn root_status__owned_is_owned() -> bool { Owned::is_owned() }
pub fn root_status__owned_is_dangling() -> bool { Owned::is_dangling() }
pub fn root_status__dangling_is_owned() -> bool { Dangling::is_owned() }
pub fn root_status__dangling_is_dangling() -> bool { Dangling::is_dangling() }
pub fn root_status__inherited() -> (bool, bool) { (InheritedEmpty::is_inherited(), InheritedEmpty::is_unit()) }
pub fn root_status__unit() -> (bool, bool) { (UnitEmpty::is_inherited(), UnitEmpty::is_unit()) }
pub fn root_error__from(e: AnyErr) -> E { e.into() }
