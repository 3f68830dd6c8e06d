From 9bb9673abb4934b14a8e86a62ee25afde0a193f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 01/11] fix: keep the children of a node that was first seen as
 a leaf

InMemoryBackend::insert ignored a node whose key was already present as a
root or as the child of another node, so its children could never be read.
---
 src/memory.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 5e20b53..63ce0f7 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -258,9 +258,13 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		key: C::Value,
 		value: (C::Value, C::Value)
 	) -> Result<(), Self::Error> {
-		if self.0.contains_key(&key) {
-			return Ok(())
-		}
+		// An entry may already exist without children, if so far the key was only
+		// seen as a root or as the child of another node. Its references must be kept.
+		let count = match self.0.get(&key) {
+			Some((Some(_), _)) => return Ok(()),
+			Some((None, count)) => *count,
+			None => Some(0),
+		};
 
 		let (left, right) = value;
 
@@ -269,7 +273,7 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		self.0.entry(right.clone()).or_insert((None, Some(0))).1
 			.as_mut().map(|v| *v += 1);
 
-		self.0.insert(key, (Some((left, right)), Some(0)));
+		self.0.insert(key, (Some((left, right)), count));
 		Ok(())
 	}
 }
-- 
2.43.0


From 105c0e9497a83a4a9d759ef5c436e40e4a11835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 02/11] fix: PackedVector::pop only clears the popped value

Popping from a host that also holds earlier values reset the whole host and
wrote back only the last remaining value, so every other value in it was lost.
---
 src/packed.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index 506bd61..1301808 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -102,22 +102,25 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		let index = self.len - 1;
 		let ret = self.get(db, index)?;
 
-		if self.len == 1 {
-			while self.tuple.len() > 0 {
-				self.tuple.pop(db)?;
-			}
+		let keep = if index == 0 {
+			0
 		} else {
-			let last_index = index - 1;
+			let (last_base, last_ranges) = coverings::<H, V>(index - 1);
+			last_base + last_ranges.len()
+		};
+		while self.tuple.len() > keep {
+			self.tuple.pop(db)?;
+		}
 
-			let (covering_base, covering_ranges) = coverings::<H, V>(last_index);
-			while self.tuple.len() > covering_base + covering_ranges.len() {
-				self.tuple.pop(db)?;
+		// The first host of the popped value may still hold values before it.
+		let empty = C::Value::default();
+		let (covering_base, covering_ranges) = coverings::<H, V>(index);
+		for (i, range) in covering_ranges.into_iter().enumerate() {
+			if covering_base + i < keep {
+				let mut host_value = self.tuple.get(db, covering_base + i)?;
+				host_value.as_mut()[range.clone()].copy_from_slice(&empty.as_ref()[range]);
+				self.tuple.set(db, covering_base + i, host_value)?;
 			}
-
-			let last_value = self.get(db, last_index)?;
-			self.tuple.pop(db)?;
-			self.tuple.push(db, Default::default())?;
-			self.set(db, last_index, last_value)?;
 		}
 
 		self.len -= 1;
-- 
2.43.0


From a58dbe027c64e4c008b85e79a0bc9a15641a8954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:48 +0000
Subject: [PATCH 03/11] fix: check packed element indices and the element limit

PackedVector only checked host indices, so elements beyond the length could
be read and written in the last host, and the element limit was not enforced.
---
 src/packed.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/packed.rs b/src/packed.rs
index 1301808..ab1a663 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -51,6 +51,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 {
 	/// Get value at index.
 	pub fn get<DB: ReadBackend<Construct=C> + ?Sized>(&self, db: &mut DB, index: usize) -> Result<T, Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let mut ret = GenericArray::<u8, V>::default();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -66,6 +70,14 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 	/// Set value at index.
 	pub fn set<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
+		self.write(db, index, value)
+	}
+
+	fn write<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
 		let value: GenericArray<u8, V> = value.into();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -82,13 +94,17 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 	/// Push a new value to the tuple.
 	pub fn push<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, value: T) -> Result<(), Error<DB::Error>> {
+		if self.max_len.map(|l| self.len as u64 >= l).unwrap_or(false) {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let index = self.len;
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
 		while self.tuple.len() < covering_base + covering_ranges.len() {
 			self.tuple.push(db, Default::default())?;
 		}
-		self.set(db, index, value)?;
+		self.write(db, index, value)?;
 		self.len += 1;
 		Ok(())
 	}
-- 
2.43.0


From 6151443fea36a990d3ce9753c0b7cfc715186714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:25 +0000
Subject: [PATCH 04/11] fix: Vector::create rejects lengths above, not below,
 max_len

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 08fcab1..2db43f9 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -234,7 +234,7 @@ impl<C: Construct> Vector<Owned, C> {
 		max_len: Option<u64>
 	) -> Result<Self, Error<DB::Error>> {
 		if let Some(max_len) = max_len {
-			if (len as u64) < max_len || max_len == 0 {
+			if (len as u64) > max_len || max_len == 0 {
 				return Err(Error::InvalidParameter)
 			}
 		}
-- 
2.43.0


From 38d49ce5f33ec3de7c18034a3ad8b8c8d505c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:25 +0000
Subject: [PATCH 05/11] fix: decode all 64 bytes of H512

---
 le/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/fixed.rs b/le/src/fixed.rs
index b932c2b..bda7c0a 100644
--- a/le/src/fixed.rs
+++ b/le/src/fixed.rs
@@ -107,7 +107,7 @@ impl FromTree for H512 {
 	fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
-		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 32, None)?;
+		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 64, None)?;
 		Ok(Self::from_slice(value.0.as_ref()))
 	}
 }
-- 
2.43.0


From da03db5ff6a93d46842d01272782cf0259c1a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 06/11] fix: decode compact U256 vectors as little endian

---
 le/src/elemental_fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 4cfc61a..28b2a7c 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -161,7 +161,7 @@ impl FromCompactVectorTree for ElementalFixedVec<U256> {
 		let mut ret = Vec::new();
 		for i in 0..len {
 			let value = vector.get(db, i)?;
-			ret.push(U256::from(value.as_ref()));
+			ret.push(U256::from_little_endian(value.as_ref()));
 		}
 
 		Ok(Self(ret))
-- 
2.43.0


From 982bca321f5bdb19af389bad6d678ac8d70f720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 07/11] fix: import Box and Vec from alloc in the partial
 module

---
 le/src/partial.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 870556e..0d3fe0e 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -1,6 +1,8 @@
 use bm::{Index, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
 use primitive_types::{U256, H256};
 use core::mem;
+use alloc::boxed::Box;
+use alloc::vec::Vec;
 #[cfg(not(feature = "std"))]
 use alloc::collections::BTreeMap as Map;
 #[cfg(feature = "std")]
-- 
2.43.0


From 13ea00b794bf77272388e686df0c6570988b6866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 08/11] fix: resolve partial list items under the data subtree,
 within its length

---
 le/src/partial.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 0d3fe0e..5d3a476 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -73,9 +73,9 @@ impl PartialIndex {
 			None => Index::root(),
 		};
 
-		let (index, len) = match self.sub {
+		let (parent, index, len) = match self.sub {
 			PartialSubIndex::Raw(raw) => return Ok(parent.sub(raw)),
-			PartialSubIndex::Vector(index, len) => (index, len),
+			PartialSubIndex::Vector(index, len) => (parent, index, len),
 			PartialSubIndex::List(index) => {
 				let len_root = raw.get(db, parent.right())?.ok_or(Error::CorruptedDatabase)?;
 				let len = U256::from_tree(&len_root, db)?;
@@ -83,11 +83,15 @@ impl PartialIndex {
 				if len > U256::from(usize::max_value()) {
 					return Err(Error::CorruptedDatabase)
 				} else {
-					(index, len.as_usize())
+					(parent.left(), index, len.as_usize())
 				}
 			},
 		};
 
+		if index >= len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let mut max_len = 1;
 		let mut depth = 0;
 		while max_len < len {
-- 
2.43.0


From a0d7072329c9e59d8ecdb75539e76aad18e2587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 09/11] fix: PartialVec writes pushed values to its own subtree

---
 le/src/partial.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 5d3a476..fe40793 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -223,10 +223,16 @@ impl<T: Partialable + IntoTree> PartialItem for PartialVec<T> {
 
 		let mut pushed = Vec::default();
 		mem::swap(&mut pushed, &mut self.pushed);
-		let mut list = DanglingList::reconstruct(raw.root(), db, None)?;
-		for value in pushed {
-			let value_root = value.into_tree(db)?;
-			list.push(db, value_root)?;
+
+		if !pushed.is_empty() {
+			let index = self.index.resolve(raw, db)?;
+			let list_root = raw.get(db, index)?.ok_or(Error::CorruptedDatabase)?;
+			let mut list = DanglingList::reconstruct(list_root, db, None)?;
+			for value in pushed {
+				let value_root = value.into_tree(db)?;
+				list.push(db, value_root)?;
+			}
+			raw.set(db, index, list.root())?;
 		}
 
 		Ok(())
-- 
2.43.0


From 8001a7bf2b6f6762a9d56545a00061785e478212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 10/11] fix: reject lists longer than their maximum length when
 decoding

---
 le/src/elemental_variable.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/le/src/elemental_variable.rs b/le/src/elemental_variable.rs
index 857274e..072e676 100644
--- a/le/src/elemental_variable.rs
+++ b/le/src/elemental_variable.rs
@@ -117,6 +117,10 @@ fn from_list_tree<T, F, DB: ReadBackend>(
 {
 	let (vector_root, len) = decode_with_length::<<DB::Construct as Construct>::Value, _>(root, db)?;
 
+	if max_len.map(|max_len| len as u64 > max_len).unwrap_or(false) {
+		return Err(Error::CorruptedDatabase)
+	}
+
 	let vector = f(
 		&vector_root, db, len, max_len
 	)?;
-- 
2.43.0


From b7b22a20d2143c857e445572f153cbdd0fd5100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 11/11] fix: reject a packed length above the maximum within
 the last chunk

---
 src/packed.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/packed.rs b/src/packed.rs
index ab1a663..8503a43 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -214,6 +214,10 @@ impl<C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> PackedVector<Owned
 {
 	/// Create a new tuple.
 	pub fn create<DB: WriteBackend<Construct=C> + ?Sized>(db: &mut DB, value_len: usize, value_max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
+		if value_max_len.map(|l| value_len as u64 > l).unwrap_or(false) {
+			return Err(Error::InvalidParameter)
+		}
+
 		let host_max_len = value_max_len.map(|l| host_max_len::<H, V>(l));
 		let host_len = host_len::<H, V>(value_len);
 
-- 
2.43.0

