From aaa6ee2485e28ee3330648e8c078e8b5412e95ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:50 +0000
Subject: [PATCH 01/17] fix: reject surrogates 0xDE00..=0xDFFF when decoding
 char

---
 oct/src/decode/decode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index 6fc748d..b192e85 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -245,7 +245,7 @@ impl Decode for char {
 		let Ok(code_point) = u32::decode(input);
 
 		match code_point {
-			code_point @ (0x0000..=0xD7FF | 0xDE00..=0x10FFFF) => {
+			code_point @ (0x0000..=0xD7FF | 0xE000..=0x10FFFF) => {
 				let this = unsafe { Self::from_u32_unchecked(code_point) };
 				Result::Ok(this)
 			},
-- 
2.43.0


From d156b2942a392ef261ef6c06b6eb06167a5c8d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:50 +0000
Subject: [PATCH 02/17] fix: encode the length of hash maps and hash sets

---
 oct/src/encode/encode/mod.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index 37c61e4..7f39960 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -343,13 +343,23 @@ where
 	V: Encode<Error = E>,
 	S: BuildHasher,
 {
-	type Error = E;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, E>>;
 
-	#[inline(always)]
+	#[inline]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for (key, value) in self {
-			key.encode(output)?;
-			value.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, (key, value)) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
+
+			value
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
@@ -363,12 +373,19 @@ where
 	K: Encode,
 	S: BuildHasher,
 {
-	type Error = K::Error;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, K::Error>>;
 
-	#[inline(always)]
+	#[inline]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for key in self {
-			key.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, key) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
-- 
2.43.0


From 1a80e847ae342088745c22e93f2a5ea87ce43c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:51 +0000
Subject: [PATCH 03/17] fix: decode only the encoded items of a sized slice

---
 oct/src/sized_slice/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index 2df99a7..f924b84 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -36,7 +36,7 @@ impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 
 		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
 
-		for (i, slot) in buf.iter_mut().enumerate() {
+		for (i, slot) in buf.iter_mut().take(len).enumerate() {
 			let v = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-- 
2.43.0


From e476609d8937ec827b4537fa4530d317a6f1d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 04/17] fix: count the length prefix in the maximum encoded
 size of sized slices

---
 oct/src/sized_slice/code.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index f924b84..2f4d504 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -59,5 +59,7 @@ impl<T: Encode, const N: usize> Encode for SizedSlice<T, N> {
 }
 
 impl<T: SizedEncode, const N: usize> SizedEncode for SizedSlice<T, N> {
-	const MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE * N;
+	const MAX_ENCODED_SIZE: usize =
+		usize::MAX_ENCODED_SIZE
+		+ T::MAX_ENCODED_SIZE * N;
 }
-- 
2.43.0


From 3b6decc7e063ea1eab917794a20d74addd74c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 05/17] fix: derive the maximum encoded size of Result from its
 encodings

---
 oct/src/encode/sized_encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/sized_encode/mod.rs b/oct/src/encode/sized_encode/mod.rs
index 9aef887..6c60dab 100644
--- a/oct/src/encode/sized_encode/mod.rs
+++ b/oct/src/encode/sized_encode/mod.rs
@@ -232,7 +232,7 @@ where
 {
 	const MAX_ENCODED_SIZE: usize =
 		bool::MAX_ENCODED_SIZE
-		+ if size_of::<T>() > size_of::<E>() { size_of::<T>() } else { size_of::<E>() };
+		+ if T::MAX_ENCODED_SIZE > E::MAX_ENCODED_SIZE { T::MAX_ENCODED_SIZE } else { E::MAX_ENCODED_SIZE };
 }
 
 #[cfg(feature = "std")]
-- 
2.43.0


From e5465eb81bacf90cae8680f6d34015dc395c8e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 06/17] fix: report the exact remaining length of SizedIter

---
 oct/src/sized_iter/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oct/src/sized_iter/mod.rs b/oct/src/sized_iter/mod.rs
index 493e37c..a724ef8 100644
--- a/oct/src/sized_iter/mod.rs
+++ b/oct/src/sized_iter/mod.rs
@@ -176,8 +176,6 @@ impl<T, const N: usize> Iterator for SizedIter<T, N> {
 
 	#[inline(always)]
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let rem = unsafe { self.len.unchecked_sub(self.pos) };
-
-		(rem, Some(rem))
+		(self.len, Some(self.len))
 	}
 }
-- 
2.43.0


From 77e5ec9a3c3874d308819f006ab173d58939c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 07/17] fix: only read the used part of a slot

---
 oct/src/slot/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/slot/mod.rs b/oct/src/slot/mod.rs
index 0acf598..4c96d82 100644
--- a/oct/src/slot/mod.rs
+++ b/oct/src/slot/mod.rs
@@ -296,7 +296,7 @@ impl<T: Decode> Slot<T> {
 		// We should only pass the used part of the slot to
 		// `decode`.
 
-		let mut stream = Input::new(&self.buf);
+		let mut stream = Input::new(self.as_slice());
 
 		let value = Decode::decode(&mut stream)?;
 		Ok(value)
-- 
2.43.0


From 4707d6dbe493f2bf3c6e275d7c4f2e40efe470ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 08/17] fix: encode the earliest system time without overflow

---
 oct/src/encode/encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index 7f39960..95dee28 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -817,7 +817,7 @@ impl Encode for SystemTime {
 				.duration_since(*self)
 				.expect("cannot compute duration until the epoch");
 
-			0x0 - duration.as_secs() as i64
+			0i64.wrapping_sub(duration.as_secs() as i64)
 		};
 
 		time.encode(output)?;
-- 
2.43.0


From a186a6bcca7bb7148e3d3958033c59431ab68a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 09/17] fix: initialise the whole buffer returned by
 SizedStr::into_raw_parts

---
 oct/src/sized_str/conv.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_str/conv.rs b/oct/src/sized_str/conv.rs
index 9ab9ff7..d649081 100644
--- a/oct/src/sized_str/conv.rs
+++ b/oct/src/sized_str/conv.rs
@@ -185,7 +185,14 @@ impl<const N: usize> SizedStr<N> {
 	#[must_use]
 	pub const fn into_raw_parts(self) -> ([u8; N], usize) {
 		let Self(vec) = self;
-		let (buf, len) = vec.into_raw_parts();
+		let (mut buf, len) = vec.into_raw_parts();
+
+		let mut i = len;
+		while i < N {
+			buf[i] = MaybeUninit::new(0x0);
+
+			i += 0x1;
+		}
 
 		let init_buf = ManuallyDrop::new(buf);
 		let buf = unsafe { (&raw const init_buf).cast::<[u8; N]>().read() };
-- 
2.43.0


From 302f82f4c03dc44a2e73464abc6356aebbd19a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 10/17] fix: do not drop the items of an array converted to a
 sized slice

---
 oct/src/sized_slice/conv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index dad9071..10413c1 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -23,7 +23,7 @@ use crate::SizedSlice;
 use crate::error::LengthError;
 
 use core::borrow::{Borrow, BorrowMut};
-use core::mem::MaybeUninit;
+use core::mem::{ManuallyDrop, MaybeUninit};
 use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
@@ -194,6 +194,10 @@ impl<T, const N: usize> DerefMut for SizedSlice<T, N> {
 impl<T, const N: usize> From<[T; N]> for SizedSlice<T, N> {
 	#[inline(always)]
 	fn from(value: [T; N]) -> Self {
+		// The items are moved out of the array and may not be
+		// dropped with it.
+		let value = ManuallyDrop::new(value);
+
 		unsafe {
 			let buf = value.as_ptr().cast::<[MaybeUninit<T>; N]>().read();
 
-- 
2.43.0


From dffd027168f85307071ceec5efbaba22ed335ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 11/17] fix: check the bounds of SizedSlice::copy_from_slice

---
 oct/src/sized_slice/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index b0884b9..07a206c 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -77,11 +77,19 @@ pub struct SizedSlice<T, const N: usize> {
 
 impl<T, const N: usize> SizedSlice<T, N> {
 	/// Copies elements from a slice.
+	///
+	/// The length of `self` is updated to reflect the new data.
+	///
+	/// # Panics
+	///
+	/// If `self` cannot contain the entirety of `data` then this method will panic.
 	#[inline]
 	pub const fn copy_from_slice(&mut self, data: &[T])
 	where
 		T: Copy,
 	{
+		assert!(data.len() <= N, "sized slice cannot contain source slice");
+
 		unsafe {
 			let src  = data.as_ptr();
 			let dst   = self.buf.as_mut_ptr().cast();
-- 
2.43.0


From c4317d324a572284c7b7f7403211d516f3ffc94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 12/17] fix: do not request zero-sized allocations in
 SizedSlice::into_boxed_slice

---
 oct/src/sized_slice/conv.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index 10413c1..3acc0cd 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -37,6 +37,9 @@ use alloc::boxed::Box;
 #[cfg(feature = "alloc")]
 use alloc::vec::Vec;
 
+#[cfg(feature = "alloc")]
+use core::ptr::NonNull;
+
 impl<T, const N: usize> SizedSlice<T, N> {
 	/// Constructs a fixed-size vector from raw parts.
 	///
@@ -121,7 +124,14 @@ impl<T, const N: usize> SizedSlice<T, N> {
 
 		unsafe {
 			let layout = Layout::array::<T>(len).unwrap();
-			let ptr = alloc(layout).cast::<T>();
+
+			// Zero-sized allocations may not be requested from
+			// the allocator.
+			let ptr = if layout.size() == 0x0 {
+				NonNull::dangling().as_ptr()
+			} else {
+				alloc(layout).cast::<T>()
+			};
 
 			assert!(!ptr.is_null(), "allocation failed");
 
-- 
2.43.0


From e86bd5e9cbc451531a166c2e454d19af647cbcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 13/17] fix: hash sized slices like the slices they borrow as

---
 oct/src/sized_slice/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index 07a206c..7fb0dc8 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -262,9 +262,8 @@ impl<T, const N: usize> Default for SizedSlice<T, N> {
 impl<T: Hash, const N: usize> Hash for SizedSlice<T, N> {
 	#[inline(always)]
 	fn hash<H: Hasher>(&self, state: &mut H) {
-		for v in self {
-			v.hash(state);
-		}
+		// This must equal the hash of the borrowed slice.
+		self.as_slice().hash(state);
 	}
 }
 
-- 
2.43.0


From e06136660af88c327a067899719cad6164d0f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 14/17] fix: zero-extend signed discriminants in
 PrimitiveDiscriminant

---
 oct/src/primitive_discriminant/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oct/src/primitive_discriminant/mod.rs b/oct/src/primitive_discriminant/mod.rs
index ff4b75c..9bb8ca8 100644
--- a/oct/src/primitive_discriminant/mod.rs
+++ b/oct/src/primitive_discriminant/mod.rs
@@ -50,7 +50,8 @@ macro_rules! impl_primitive_discriminant {
 			#[allow(clippy::cast_lossless)]
 			#[inline(always)]
 			fn to_u128(self) -> u128 {
-				self as u128
+				// Signed values are otherwise sign-extended.
+				self as u128 & (u128::MAX >> (u128::BITS - <$ty>::BITS))
 			}
 		}
 
-- 
2.43.0


From d807dee749c056133da88f0e39cf9cb71ec76d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:25 +0000
Subject: [PATCH 15/17] fix: derive macros accept negative and macro-grouped
 discriminants

---
 oct-macros/src/discriminants/mod.rs | 43 ++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/oct-macros/src/discriminants/mod.rs b/oct-macros/src/discriminants/mod.rs
index 2c04e03..6efb023 100644
--- a/oct-macros/src/discriminants/mod.rs
+++ b/oct-macros/src/discriminants/mod.rs
@@ -21,11 +21,14 @@
 
 use std::borrow::Borrow;
 use proc_macro2::Span;
-use syn::{Expr, Lit, LitInt, Variant};
+use syn::{Expr, ExprGroup, ExprParen, ExprUnary, Lit, LitInt, UnOp, Variant};
 
 pub struct Discriminants<I: IntoIterator<Item: Borrow<Variant>>> {
 	variants: I::IntoIter,
 	prev: Option<u128>,
+
+	// Whether `prev` is to be interpreted as `i128`.
+	negative: bool,
 }
 
 impl<I: IntoIterator<Item: Borrow<Variant>>> Discriminants<I> {
@@ -35,6 +38,7 @@ impl<I: IntoIterator<Item: Borrow<Variant>>> Discriminants<I> {
 		Self {
 			variants: variants.into_iter(),
 			prev: None,
+			negative: false,
 		}
 	}
 }
@@ -47,8 +51,25 @@ impl<I: IntoIterator<Item: Borrow<Variant>>> Iterator for Discriminants<I> {
 		let variant = self.variants.next()?;
 
 		let discriminant = if let Some((_, ref expr)) = variant.borrow().discriminant {
-			let Expr::Lit(ref expr) = *expr else {
-				panic!("expected literal expression for discriminant value");
+			let mut negative = false;
+
+			let mut expr = expr;
+			let expr = loop {
+				match *expr {
+					Expr::Lit(ref expr) => break expr,
+
+					Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr: ref inner, .. }) => {
+						negative = !negative;
+						expr = inner;
+					}
+
+					// Macros may group expressions invisibly.
+					| Expr::Group(ExprGroup { expr: ref inner, .. })
+					| Expr::Paren(ExprParen { expr: ref inner, .. })
+					=> expr = inner,
+
+					_ => panic!("expected literal expression for discriminant value"),
+				}
 			};
 
 			let Lit::Int(ref expr) = expr.lit else {
@@ -62,6 +83,14 @@ impl<I: IntoIterator<Item: Borrow<Variant>>> Iterator for Discriminants<I> {
 				.or_else(|_| expr.parse::<i128>().map(|v| v as u128))
 				.unwrap();
 
+			self.negative = negative && value != 0x0;
+
+			if negative { value.wrapping_neg() } else { value }
+		} else if let Some(prev) = self.prev.filter(|_| self.negative) {
+			let value = prev.wrapping_add(0x1);
+
+			self.negative = value != 0x0;
+
 			value
 		} else if let Some(prev) = self.prev {
 			prev
@@ -73,7 +102,13 @@ impl<I: IntoIterator<Item: Borrow<Variant>>> Iterator for Discriminants<I> {
 
 		self.prev = Some(discriminant);
 
-		let discriminant = LitInt::new(&discriminant.to_string(), Span::call_site());
+		let discriminant = if self.negative {
+			(discriminant as i128).to_string()
+		} else {
+			discriminant.to_string()
+		};
+
+		let discriminant = LitInt::new(&discriminant, Span::call_site());
 
 		Some(discriminant)
 	}
-- 
2.43.0


From 991a482f3e89d9c723b908dd6d2a6fb22b88a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:25 +0000
Subject: [PATCH 16/17] fix: derive macros accept generic parameters with
 defaults

---
 oct-macros/src/impl_derive_macro.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oct-macros/src/impl_derive_macro.rs b/oct-macros/src/impl_derive_macro.rs
index 16cd014..ace17dd 100644
--- a/oct-macros/src/impl_derive_macro.rs
+++ b/oct-macros/src/impl_derive_macro.rs
@@ -63,13 +63,15 @@ where
 		Data::Union(..) => panic!("unions cannot derive `{trait_name:?}`"),
 	};
 
-	let generic_params = &input.generics.params;
-	let generic_where  = &input.generics.where_clause;
+	// Unlike those of the declaration, the parameters of
+	// an implementation may not have defaults.
+	let (generic_params, ..) = input.generics.split_for_impl();
+	let generic_where        = &input.generics.where_clause;
 
 	let generic_names = GenericName::extract_from(&input.generics);
 
 	let output = quote! {
-		#unsafe_token impl<#generic_params> #trait_path for #self_name<#generic_names>
+		#unsafe_token impl #generic_params #trait_path for #self_name<#generic_names>
 		#generic_where
 		{
 			#body
-- 
2.43.0


From 6cc2f3b8cfb8918dc3cc2131fc0f256a83d0cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:25 +0000
Subject: [PATCH 17/17] fix: derive macros accept variants named Error

Self::Error is ambiguous in an implementation for an enumeration that has a
variant of that name.
---
 oct-macros/src/impls/decode_enum.rs | 2 +-
 oct-macros/src/impls/encode_enum.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oct-macros/src/impls/decode_enum.rs b/oct-macros/src/impls/decode_enum.rs
index 73087ac..a58cdc6 100644
--- a/oct-macros/src/impls/decode_enum.rs
+++ b/oct-macros/src/impls/decode_enum.rs
@@ -65,7 +65,7 @@ pub fn decode_enum(data: DataEnum, repr: Repr) -> TokenStream {
 		type Error = ::oct::error::EnumDecodeError<#repr, ::oct::error::GenericDecodeError>;
 
 		#[inline]
-		fn decode(stream: &mut ::oct::decode::Input) -> ::core::result::Result<Self, Self::Error> {
+		fn decode(stream: &mut ::oct::decode::Input) -> ::core::result::Result<Self, <Self as ::oct::decode::Decode>::Error> {
 			let discriminant = <#repr as ::oct::decode::Decode>::decode(stream)
 				.map_err(::core::convert::Into::<::core::convert::Infallible>::into)
 				.map_err(::oct::error::EnumDecodeError::InvalidDiscriminant)?;
diff --git a/oct-macros/src/impls/encode_enum.rs b/oct-macros/src/impls/encode_enum.rs
index 63ebae3..c304916 100644
--- a/oct-macros/src/impls/encode_enum.rs
+++ b/oct-macros/src/impls/encode_enum.rs
@@ -70,7 +70,7 @@ pub fn encode_enum(data: DataEnum, repr: Repr) -> TokenStream {
 
 		#[allow(unreachable_patterns)]
 		#[inline]
-		fn encode(&self, stream: &mut ::oct::encode::Output) -> ::core::result::Result<(), Self::Error> {
+		fn encode(&self, stream: &mut ::oct::encode::Output) -> ::core::result::Result<(), <Self as ::oct::encode::Encode>::Error> {
 			match *self {
 				#(
 					#patterns => {
-- 
2.43.0

