//! Opaque stand-ins: every function body here is unknown to the analysis
//! (the MIR walker does not look inside), so whatever is proved holds for
//! every implementation of these traits.
use bm::{Backend, Construct, ReadBackend, WriteBackend};
use bm_le::{CompatibleConstruct, Error, FromTree, IntoTree};
use digest::{FixedOutput, Input, Reset};
use generic_array::{ArrayLength, GenericArray};

/// Any tree value type.
pub struct AnyValue(());

impl Clone for AnyValue { fn clone(&self) -> Self { unimplemented!() } }
impl Default for AnyValue { fn default() -> Self { unimplemented!() } }
impl PartialEq for AnyValue { fn eq(&self, _: &Self) -> bool { unimplemented!() } }
impl Eq for AnyValue {}
impl PartialOrd for AnyValue { fn partial_cmp(&self, _: &Self) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl Ord for AnyValue { fn cmp(&self, _: &Self) -> core::cmp::Ordering { unimplemented!() } }
impl core::hash::Hash for AnyValue { fn hash<H: core::hash::Hasher>(&self, _: &mut H) { unimplemented!() } }
impl core::fmt::Debug for AnyValue { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { unimplemented!() } }
impl AsRef<[u8]> for AnyValue { fn as_ref(&self) -> &[u8] { unimplemented!() } }
impl AsMut<[u8]> for AnyValue { fn as_mut(&mut self) -> &mut [u8] { unimplemented!() } }
impl From<usize> for AnyValue { fn from(_: usize) -> Self { unimplemented!() } }
impl Into<usize> for AnyValue { fn into(self) -> usize { unimplemented!() } }
impl<N: ArrayLength<u8>> From<GenericArray<u8, N>> for AnyValue { fn from(_: GenericArray<u8, N>) -> Self { unimplemented!() } }

/// Any construct over `AnyValue`.
pub struct AnyConstruct(());

impl Construct for AnyConstruct {
	type Value = AnyValue;
	fn intermediate_of(_: &AnyValue, _: &AnyValue) -> AnyValue { unimplemented!() }
	fn empty_at<DB: WriteBackend<Construct = Self> + ?Sized>(_: &mut DB, _: usize) -> Result<AnyValue, DB::Error> { unimplemented!() }
}

/// Any construct over the 256-bit value of bm-le.
pub struct AnyLeConstruct(());

impl Construct for AnyLeConstruct {
	type Value = bm_le::Value;
	fn intermediate_of(_: &bm_le::Value, _: &bm_le::Value) -> bm_le::Value { unimplemented!() }
	fn empty_at<DB: WriteBackend<Construct = Self> + ?Sized>(_: &mut DB, _: usize) -> Result<bm_le::Value, DB::Error> { unimplemented!() }
}

/// Any backend error.
pub struct AnyErr(());

macro_rules! any_db {
	($name:ident, $c:ty, $v:ty) => {
		/// Any backend, whatever it stores and however it fails.
		pub struct $name(());
		impl Backend for $name {
			type Construct = $c;
			type Error = AnyErr;
		}
		impl ReadBackend for $name {
			fn get(&mut self, _: &$v) -> Result<Option<($v, $v)>, AnyErr> { unimplemented!() }
		}
		impl WriteBackend for $name {
			fn rootify(&mut self, _: &$v) -> Result<(), AnyErr> { unimplemented!() }
			fn unrootify(&mut self, _: &$v) -> Result<(), AnyErr> { unimplemented!() }
			fn insert(&mut self, _: $v, _: ($v, $v)) -> Result<(), AnyErr> { unimplemented!() }
		}
	};
}
any_db!(AnyDb, AnyConstruct, AnyValue);
any_db!(AnyLeDb, AnyLeConstruct, bm_le::Value);

/// Backend over the real digest constructs.
pub struct DigDb<C>(core::marker::PhantomData<C>);
impl<C: Construct> Backend for DigDb<C> {
	type Construct = C;
	type Error = AnyErr;
}
impl<C: Construct> ReadBackend for DigDb<C> {
	fn get(&mut self, _: &C::Value) -> Result<Option<(C::Value, C::Value)>, AnyErr> { unimplemented!() }
}
impl<C: Construct> WriteBackend for DigDb<C> {
	fn rootify(&mut self, _: &C::Value) -> Result<(), AnyErr> { unimplemented!() }
	fn unrootify(&mut self, _: &C::Value) -> Result<(), AnyErr> { unimplemented!() }
	fn insert(&mut self, _: C::Value, _: (C::Value, C::Value)) -> Result<(), AnyErr> { unimplemented!() }
}

/// Any digest with 32-byte output.
pub struct AnyDigest(());
impl Clone for AnyDigest { fn clone(&self) -> Self { unimplemented!() } }
impl Default for AnyDigest { fn default() -> Self { unimplemented!() } }
impl Input for AnyDigest { fn input<B: AsRef<[u8]>>(&mut self, _: B) { unimplemented!() } }
impl FixedOutput for AnyDigest {
	type OutputSize = typenum::U32;
	fn fixed_result(self) -> GenericArray<u8, typenum::U32> { unimplemented!() }
}
impl Reset for AnyDigest { fn reset(&mut self) { unimplemented!() } }

macro_rules! leaf {
	($($n:ident),*) => { $(
		/// Any type with its own tree encoding.
		pub struct $n(());
		impl IntoTree for $n {
			fn into_tree<DB: WriteBackend>(&self, _: &mut DB) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where
				DB::Construct: CompatibleConstruct { unimplemented!() }
		}
		impl FromTree for $n {
			fn from_tree<DB: ReadBackend>(_: &<DB::Construct as Construct>::Value, _: &mut DB) -> Result<Self, Error<DB::Error>> where
				DB::Construct: CompatibleConstruct { unimplemented!() }
		}
	)* };
}
leaf!(L0, L1, L2, L3, L4, L5, L6, L7, L8);

/// A copyable leaf (for `[T; N]`).
#[derive(Clone, Copy)]
pub struct LC(());
impl Default for LC { fn default() -> Self { unimplemented!() } }
impl IntoTree for LC {
	fn into_tree<DB: WriteBackend>(&self, _: &mut DB) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where
		DB::Construct: CompatibleConstruct { unimplemented!() }
}
impl FromTree for LC {
	fn from_tree<DB: ReadBackend>(_: &<DB::Construct as Construct>::Value, _: &mut DB) -> Result<Self, Error<DB::Error>> where
		DB::Construct: CompatibleConstruct { unimplemented!() }
}

/// Any partial item.
pub struct AnyItem(());
impl bm_le::PartialItem for AnyItem {
	fn new(_: bm_le::PartialIndex) -> Self { unimplemented!() }
	fn flush<R: bm::RootStatus, DB: WriteBackend>(&mut self, _: &mut bm::Raw<R, DB::Construct>, _: &mut DB) -> Result<(), Error<DB::Error>> where
		DB::Construct: CompatibleConstruct { unimplemented!() }
}
/// Any partialable leaf.
pub struct LP(());
impl bm_le::Partialable for LP { type Value = AnyItem; }
impl IntoTree for LP {
	fn into_tree<DB: WriteBackend>(&self, _: &mut DB) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where
		DB::Construct: CompatibleConstruct { unimplemented!() }
}

/// An unknown sequence (for the generic `LengthMixed`).
pub struct AnySeq<R>(core::marker::PhantomData<R>);
impl<R: bm::RootStatus> bm::Tree for AnySeq<R> {
	type RootStatus = R;
	type Construct = AnyConstruct;
	fn root(&self) -> AnyValue { unimplemented!() }
	fn drop<DB: WriteBackend<Construct = AnyConstruct> + ?Sized>(self, _: &mut DB) -> Result<(), Error<DB::Error>> { unimplemented!() }
	fn into_raw(self) -> bm::Raw<R, AnyConstruct> { unimplemented!() }
}
impl<R: bm::RootStatus> bm::Sequence for AnySeq<R> {
	fn len(&self) -> usize { unimplemented!() }
}
/// Metadata of `AnySeq`.
pub struct AnyMeta(());
impl<R: bm::RootStatus> bm::Leak for AnySeq<R> {
	type Metadata = AnyMeta;
	fn metadata(&self) -> AnyMeta { unimplemented!() }
	fn from_leaked(_: AnyMeta) -> Self { unimplemented!() }
}
/// Unknown closures.
pub fn mut_fn(_: &mut AnySeq<bm::Dangling>, _: &mut AnyDb) -> Result<AnyMeta, Error<AnyErr>> { unimplemented!() }
pub fn ref_fn(_: &AnySeq<bm::Dangling>, _: &mut AnyDb) -> Result<AnyMeta, Error<AnyErr>> { unimplemented!() }
pub fn make_fn(_: &mut AnyDb) -> Result<AnySeq<bm::Owned>, Error<AnyErr>> { unimplemented!() }
pub fn recon_fn(_: bm::Raw<bm::Dangling, AnyConstruct>, _: &mut AnyDb, _: usize) -> Result<AnySeq<bm::Dangling>, Error<AnyErr>> { unimplemented!() }
pub fn fold_fn(_: AnyValue, _: (AnyMeta, AnyValue), _: (AnyMeta, AnyValue)) -> AnyMeta { unimplemented!() }
impl Default for AnyMeta { fn default() -> Self { unimplemented!() } }

/// An unknown iterator of values.
pub struct AnyIter(());
impl Iterator for AnyIter {
	type Item = AnyValue;
	fn next(&mut self) -> Option<AnyValue> { unimplemented!() }
}
