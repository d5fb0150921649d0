From a8bee7c56b748ade674793f9e791a3477156d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:59 +0000
Subject: [PATCH 01/18] fix: reject out-of-range durations and system times
 instead of panicking

---
 src/implementations/duration.rs    | 4 +++-
 src/implementations/system_time.rs | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/implementations/duration.rs b/src/implementations/duration.rs
index bdc15dc..449e5af 100644
--- a/src/implementations/duration.rs
+++ b/src/implementations/duration.rs
@@ -18,7 +18,9 @@ impl DeserializeRevisioned for Duration {
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
 		let secs = u64::deserialize_revisioned(reader)?;
 		let nanos = u32::deserialize_revisioned(reader)?;
-		Ok(Duration::new(secs, nanos))
+		Duration::from_secs(secs)
+			.checked_add(Duration::from_nanos(nanos.into()))
+			.ok_or_else(|| Error::Deserialize("duration out of range".to_owned()))
 	}
 }
 
diff --git a/src/implementations/system_time.rs b/src/implementations/system_time.rs
index 6887a7b..0e8987a 100644
--- a/src/implementations/system_time.rs
+++ b/src/implementations/system_time.rs
@@ -18,9 +18,10 @@ impl SerializeRevisioned for SystemTime {
 impl DeserializeRevisioned for SystemTime {
 	#[inline]
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
-		let secs = u64::deserialize_revisioned(reader)?;
-		let nanos = u32::deserialize_revisioned(reader)?;
-		Ok(UNIX_EPOCH + Duration::new(secs, nanos))
+		let duration = Duration::deserialize_revisioned(reader)?;
+		UNIX_EPOCH
+			.checked_add(duration)
+			.ok_or_else(|| Error::Deserialize("system time out of range".to_owned()))
 	}
 }
 
-- 
2.43.0


From b12ed4b355092520dcb255a4b0abda611f429077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:59 +0000
Subject: [PATCH 02/18] fix: make the checking skip of a system time reject
 what decoding rejects

---
 src/implementations/skip.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/implementations/skip.rs b/src/implementations/skip.rs
index 0947c5e..b45307d 100644
--- a/src/implementations/skip.rs
+++ b/src/implementations/skip.rs
@@ -123,8 +123,7 @@ impl SkipRevisioned for SystemTime {
 impl SkipCheckRevisioned for SystemTime {
 	#[inline]
 	fn skip_check_revisioned<R: Read>(reader: &mut R) -> Result<(), Error> {
-		<u64 as SkipCheckRevisioned>::skip_check_revisioned(reader)?;
-		<u32 as SkipCheckRevisioned>::skip_check_revisioned(reader)?;
+		let _ = <Self as DeserializeRevisioned>::deserialize_revisioned(reader)?;
 		Ok(())
 	}
 }
-- 
2.43.0


From dcead0dba00704814b36f8cb5a84ceac0578f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:59 +0000
Subject: [PATCH 03/18] fix: write a boolean with write_all so that a short
 write is not lost

---
 src/implementations/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/implementations/primitives.rs b/src/implementations/primitives.rs
index 6645e8c..fc2f9d9 100644
--- a/src/implementations/primitives.rs
+++ b/src/implementations/primitives.rs
@@ -143,7 +143,7 @@ impl SerializeRevisioned for bool {
 	#[inline]
 	fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
 		let v = *self as u8;
-		w.write(&[v]).map_err(Error::Io)?;
+		w.write_all(&[v]).map_err(Error::Io)?;
 		Ok(())
 	}
 }
-- 
2.43.0


From 258ac20fc05c5ec2b9dc5ec2a494690e73e04456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:15 +0000
Subject: [PATCH 04/18] fix: reject an optimised tag whose reserved extended
 bit is set

The tag layout documents bit 7 as reserved, must be 0, but every reader
ignored it, so a tag of a future extended encoding was read as a plain one.
---
 src/optimised/tag.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimised/tag.rs b/src/optimised/tag.rs
index fb7105e..e8a0d6c 100644
--- a/src/optimised/tag.rs
+++ b/src/optimised/tag.rs
@@ -83,9 +83,13 @@ impl Tag {
 		self.0 & VARIANT_ID_MASK
 	}
 
-	/// Size class (bits 5..=6). Returns an error if the reserved `0b11` is observed.
+	/// Size class (bits 5..=6). Returns an error if the reserved `0b11` is observed,
+	/// or if the reserved extended-tag bit is set.
 	#[inline]
 	pub const fn size_class(self) -> Result<SizeClass, Error> {
+		if self.is_extended() {
+			return Err(Error::InvalidOptimisedTag(self.0));
+		}
 		match SizeClass::from_bits((self.0 & SIZE_CLASS_MASK) >> SIZE_CLASS_SHIFT) {
 			Ok(sc) => Ok(sc),
 			Err(()) => Err(Error::InvalidOptimisedTag(self.0)),
-- 
2.43.0


From 2799a52a1dea9529213dd717a6fdf316f933325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:46 +0000
Subject: [PATCH 05/18] fix: do not overflow on a corrupt entry count of an
 indexed map or sequence

The offset table's size was added to the cursor (or to the size of the region
lengths) unchecked: a count near the integer limit panicked with overflow
checks on, and without them wrapped past the bounds check.
---
 src/optimised/indexed/map_walk.rs  | 2 +-
 src/optimised/indexed/seq_walk.rs  | 2 +-
 src/optimised/indexed/serialize.rs | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/optimised/indexed/map_walk.rs b/src/optimised/indexed/map_walk.rs
index 8c80efa..f90242d 100644
--- a/src/optimised/indexed/map_walk.rs
+++ b/src/optimised/indexed/map_walk.rs
@@ -180,7 +180,7 @@ impl<'p, K, V> IndexedMapWalker<'p, K, V> {
 		let table_bytes = len
 			.checked_mul(8)
 			.ok_or_else(|| Error::Deserialize("indexed-map offset table size overflow".into()))?;
-		if payload.len() < cursor + table_bytes {
+		if payload.len() - cursor < table_bytes {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		// Borrow the interleaved `(key_off, val_off)` table directly from the
diff --git a/src/optimised/indexed/seq_walk.rs b/src/optimised/indexed/seq_walk.rs
index 53ebe61..85f1efa 100644
--- a/src/optimised/indexed/seq_walk.rs
+++ b/src/optimised/indexed/seq_walk.rs
@@ -108,7 +108,7 @@ impl<'p, T> IndexedSeqWalker<'p, T> {
 		let table_bytes = len
 			.checked_mul(4)
 			.ok_or_else(|| Error::Deserialize("indexed-seq offset table size overflow".into()))?;
-		if payload.len() < cursor + table_bytes {
+		if payload.len() - cursor < table_bytes {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		let offsets = &payload[cursor..cursor + table_bytes];
diff --git a/src/optimised/indexed/serialize.rs b/src/optimised/indexed/serialize.rs
index f249083..3eed73b 100644
--- a/src/optimised/indexed/serialize.rs
+++ b/src/optimised/indexed/serialize.rs
@@ -138,7 +138,8 @@ where
 		}
 		// Skip the offset tables + region lengths.
 		let table_bytes = len.checked_mul(8).ok_or(Error::OptimisedSubReaderOverrun)?;
-		advance_read(r, table_bytes + 8)?;
+		advance_read(r, table_bytes)?;
+		advance_read(r, 8)?;
 		let mut keys: Vec<K> = Vec::with_capacity(len);
 		for _ in 0..len {
 			keys.push(K::deserialize_revisioned(r)?);
@@ -748,7 +749,8 @@ where
 	// Skip the offset table (len * 8) and region-length pair (8 bytes); we
 	// don't need them for sequential decode.
 	let table_bytes = len.checked_mul(8).ok_or(Error::OptimisedSubReaderOverrun)?;
-	advance_read(reader, table_bytes + 8)?;
+	advance_read(reader, table_bytes)?;
+	advance_read(reader, 8)?;
 
 	// Dense keys (sorted ascending) come first, then dense values in matching
 	// order. Each K and V know their own wire length via DeserializeRevisioned.
-- 
2.43.0


From 6f635dba141d1b89b9342d1f776e852c17e644cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:46 +0000
Subject: [PATCH 06/18] fix: do not panic on an indexed map prologue with no
 entries

A payload with the indexed flag and a zero entry count has an empty offset
table, which was sliced from offset 4.
---
 src/optimised/validation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optimised/validation.rs b/src/optimised/validation.rs
index f389082..254c05e 100644
--- a/src/optimised/validation.rs
+++ b/src/optimised/validation.rs
@@ -80,7 +80,9 @@ pub fn validate_map_prologue(
 		return Err(Error::OptimisedOffsetsNonMonotonic);
 	}
 	validate_struct_prologue(offset_table, count, 8, keys_region_len)?;
-	validate_struct_prologue(&offset_table[4..], count, 8, vals_region_len)?;
+	if count > 0 {
+		validate_struct_prologue(&offset_table[4..], count, 8, vals_region_len)?;
+	}
 	Ok(())
 }
 
-- 
2.43.0


From 71e30ee741a2f7545523f5930c2a4506a972db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 07/18] fix: decode a removed indexed field with the encoding
 that wrote it

---
 .../src/expand/optimised/struct_codegen.rs    | 53 ++++++++++---------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/revision-derive/src/expand/optimised/struct_codegen.rs b/revision-derive/src/expand/optimised/struct_codegen.rs
index 4153531..8c52634 100644
--- a/revision-derive/src/expand/optimised/struct_codegen.rs
+++ b/revision-derive/src/expand/optimised/struct_codegen.rs
@@ -157,27 +157,7 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 		let ty = &f.ty;
 
 		if exists_current && exists_target {
-			let decode = if f.attrs.options.indexed_map {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(&mut __payload)?;
-				}
-			} else if f.attrs.options.indexed_seq {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(&mut __payload)?;
-				}
-			} else if f.attrs.options.indexed_set {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(&mut __payload)?;
-				}
-			} else {
-				quote! {
-					let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
-				}
-			};
-			decode_each.append_all(decode);
+			decode_each.append_all(decode_field(f));
 			bindings_for_construction.push(quote! { #binding });
 		} else if !exists_current && exists_target {
 			// Field added later — synthesize.
@@ -202,9 +182,7 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 				.expect("convert_fn required when `end` is set; checked by AST validation");
 			let convert_ident = syn::Ident::new(&convert.value(), convert.span());
 			let rev_lit = current as u16;
-			decode_each.append_all(quote! {
-				let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
-			});
+			decode_each.append_all(decode_field(f));
 			// Apply convert_fn after construction (handled below via __post_construct).
 			let _ = (convert_ident, rev_lit);
 		}
@@ -294,6 +272,33 @@ pub fn emit_struct_skip(_s: &Struct, _ctx: EncodingContext, slice_mode: bool) ->
 	}
 }
 
+/// Emit the binding that decodes `f` from `__payload`, mirroring the encoding
+/// [`emit_struct_serialize`] picked for it.
+fn decode_field(f: &Field) -> TokenStream {
+	let binding = f.name.to_binding();
+	let ty = &f.ty;
+	if f.attrs.options.indexed_map {
+		quote! {
+			let #binding: #ty =
+				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(&mut __payload)?;
+		}
+	} else if f.attrs.options.indexed_seq {
+		quote! {
+			let #binding: #ty =
+				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(&mut __payload)?;
+		}
+	} else if f.attrs.options.indexed_set {
+		quote! {
+			let #binding: #ty =
+				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(&mut __payload)?;
+		}
+	} else {
+		quote! {
+			let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
+		}
+	}
+}
+
 fn collect_fields(s: &Struct) -> Vec<&Field> {
 	match &s.fields {
 		Fields::Named {
-- 
2.43.0


From a9e4879739b238d941f8fae074f566a82fc0aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:22 +0000
Subject: [PATCH 08/18] fix: skip a bulk-encoded field by the bulk layout

---
 revision-derive/src/expand/skip.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/revision-derive/src/expand/skip.rs b/revision-derive/src/expand/skip.rs
index 8df2522..5afd16e 100644
--- a/revision-derive/src/expand/skip.rs
+++ b/revision-derive/src/expand/skip.rs
@@ -6,7 +6,7 @@ use syn::Ident;
 
 use crate::ast::{Enum, Fields, Struct, Variant, Visit};
 
-use super::common::{CalcDiscriminant, emit_skip_fixed_le};
+use super::common::{CalcDiscriminant, emit_deserialize_specialised, emit_skip_fixed_le};
 use super::context::EncodingContext;
 use super::optimised;
 
@@ -157,6 +157,11 @@ impl<'ast> Visit<'ast> for SkipFields<'_> {
 						let body = if f.attrs.options.fixed {
 							let reader_expr = quote! { reader };
 							emit_skip_fixed_le(ty, &reader_expr)?
+						} else if f.attrs.options.specialised {
+							// The bulk layout is not `Vec`'s own unless the crate-wide
+							// feature is on, so `Vec`'s skip cannot be relied on here.
+							let call = emit_deserialize_specialised(ty, &quote! { reader });
+							quote! { let _ = #call; }
 						} else if self.slice_mode {
 							quote! {
 								<#ty as ::revision::SkipRevisioned>::skip_revisioned_slice(reader)?;
@@ -174,6 +179,11 @@ impl<'ast> Visit<'ast> for SkipFields<'_> {
 						let body = if f.attrs.options.fixed {
 							let reader_expr = quote! { reader };
 							emit_skip_fixed_le(ty, &reader_expr)?
+						} else if f.attrs.options.specialised {
+							// The bulk layout is not `Vec`'s own unless the crate-wide
+							// feature is on, so `Vec`'s skip cannot be relied on here.
+							let call = emit_deserialize_specialised(ty, &quote! { reader });
+							quote! { let _ = #call; }
 						} else if self.slice_mode {
 							quote! {
 								<#ty as ::revision::SkipRevisioned>::skip_revisioned_slice(reader)?;
-- 
2.43.0


From a67bb470ba84602de64a794a727cde60c5abd6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 09/18] fix: walk a converted value over the compact layout it
 is re-encoded in

---
 revision-derive/src/expand/walk.rs | 37 +++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 2ee4e73..5df1258 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -96,6 +96,32 @@ pub fn emit_walk_impl(
 		ItemKind::Enum(_) => emit_enum_walker_struct(&walker_name, &walker_repr_name),
 	};
 
+	// What the current revision's layout puts between the u16 header of the
+	// materialised bytes and the first field / the variant payload.
+	let latest = history.last().expect("history non-empty");
+	let materialised_prologue = match &item.kind {
+		ItemKind::Struct(s) if latest.is_optimised() => {
+			// u32_le payload length, then the offset table if there is one.
+			match latest.struct_kind {
+				StructEncoding::Indexed => 4 + 4 * alive_field_count(s, revision),
+				_ => 4,
+			}
+		}
+		_ => 0,
+	};
+	let materialised_discriminant = if latest.is_optimised() {
+		quote! {{
+			let __tag = ::revision::optimised::tag::read_tag(&mut __slice)?;
+			if ::std::matches!(__tag.size_class()?, ::revision::optimised::tag::SizeClass::Varlen) {
+				// The body follows its u32_le length.
+				__slice = &__slice[4..];
+			}
+			__tag.variant_id() as u32
+		}}
+	} else {
+		quote! { <u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)? }
+	};
+
 	// Construction: read the u16 header, optionally materialise.
 	let materialise_branch = if !materialise_supported {
 		quote! {}
@@ -108,7 +134,7 @@ pub fn emit_walk_impl(
 					<Self as ::revision::SerializeRevisioned>::serialize_revisioned(&__value, &mut __buf)?;
 					let mut __slice: &[u8] = __buf.as_slice();
 					let _ = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
-					let __cursor = __buf.len() - __slice.len();
+					let __cursor = __buf.len() - __slice.len() + #materialised_prologue;
 					return ::std::result::Result::Ok(#walker_name {
 						repr: #walker_repr_name::ConvertedOwned {
 							bytes: __buf,
@@ -126,13 +152,8 @@ pub fn emit_walk_impl(
 					<Self as ::revision::SerializeRevisioned>::serialize_revisioned(&__value, &mut __buf)?;
 					let mut __slice: &[u8] = __buf.as_slice();
 					let _ = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
-					let mut __cursor = __buf.len() - __slice.len();
-					let __mat_disc = {
-						let mut __ms: &[u8] = &__buf[__cursor..];
-						let __d = <u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __ms)?;
-						__cursor = __buf.len() - __ms.len();
-						__d
-					};
+					let __mat_disc: u32 = #materialised_discriminant;
+					let __cursor = __buf.len() - __slice.len();
 					return ::std::result::Result::Ok(#walker_name {
 						repr: #walker_repr_name::ConvertedOwned {
 							bytes: __buf,
-- 
2.43.0


From bb5cf0c9ef42f10a433b5ba329234bb8f9015dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 10/18] fix: walk each struct field in the encoding its
 revision was written in

---
 revision-derive/src/expand/walk.rs | 233 ++++++++++++++++++++++-------
 src/implementations/primitives.rs  |   4 +
 src/implementations/specialised.rs |   5 +
 3 files changed, 186 insertions(+), 56 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 5df1258..379ccd1 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -45,7 +45,10 @@ use crate::ast::attributes::VariantSize;
 use crate::ast::history::{HistoryEntry, StructEncoding};
 use crate::ast::{Enum, Field, FieldName, Fields, Item, ItemKind, Struct, Variant, Visit};
 
-use super::common::CalcDiscriminant;
+use super::common::{
+	CalcDiscriminant, emit_deserialize_fixed_le, emit_deserialize_specialised, emit_skip_fixed_le,
+	fixed_int_name,
+};
 
 /// Emit the [`WalkRevisioned`] impl and supporting types for a
 /// `#[revisioned(...)]` item.
@@ -276,7 +279,7 @@ pub fn emit_walk_impl(
 
 	// Per-type method body
 	let methods = match &item.kind {
-		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, s)?,
+		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, history, s)?,
 		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, e)?,
 	};
 
@@ -463,9 +466,12 @@ fn emit_struct_methods(
 	owner_name: &Ident,
 	walker_repr_name: &Ident,
 	revision: usize,
+	history: &[HistoryEntry],
 	s: &Struct,
 ) -> syn::Result<TokenStream> {
 	let mut out = TokenStream::new();
+	// Layout of the materialised bytes of a `ConvertedOwned` walker.
+	let latest_layout = Layout::of(history.last().expect("history non-empty"));
 	let fields_iter: Vec<&Field> = match &s.fields {
 		Fields::Named {
 			fields,
@@ -507,44 +513,25 @@ fn emit_struct_methods(
 		// `Default::default`. Only emitted into the codegen when the field
 		// could actually be absent (`start > 0`); otherwise `Default` would
 		// be required even for types that never need it.
-		// Pick the decode / skip call for this field. Fields with
-		// `#[revision(indexed_map)]` / `#[revision(indexed_seq)]` route through
-		// the runtime indexed helpers; everything else uses the type's own
-		// `DeserializeRevisioned` / `SkipRevisioned` impl.
-		let field_decode_call = if f.attrs.options.indexed_map {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(reader)?
-			}
-		} else if f.attrs.options.indexed_seq {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(reader)?
-			}
-		} else if f.attrs.options.indexed_set {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(reader)?
-			}
-		} else {
-			quote! {
-				<#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?
-			}
-		};
-		let field_skip_call = if f.attrs.options.indexed_map {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::skip_indexed_map(reader)?;
-			}
-		} else if f.attrs.options.indexed_seq {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::skip_indexed_seq(reader)?;
-			}
-		} else if f.attrs.options.indexed_set {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::skip_indexed_set(reader)?;
-			}
-		} else {
-			quote! {
-				<#ty as ::revision::SkipRevisioned>::skip_revisioned(reader)?;
-			}
+		// Pick the decode / skip call for this field: a field's encoding depends
+		// on the layout of the revision its bytes were written at (see
+		// `field_codec`), which for the Wire arm is only known at runtime.
+		let wire_rev_is_ref = quote! { *wire_rev };
+		let wire_rev_is_val = quote! { wire_rev };
+		let legacy_codec = field_codec(f, Layout::Legacy)?;
+		let compact_codec = field_codec(f, Layout::Compact)?;
+		let field_decode_call =
+			by_layout(history, &wire_rev_is_ref, &legacy_codec.decode, &compact_codec.decode);
+		let field_skip_call =
+			by_layout(history, &wire_rev_is_ref, &legacy_codec.skip, &compact_codec.skip);
+		let owned_field_skip_call =
+			by_layout(history, &wire_rev_is_val, &legacy_codec.skip, &compact_codec.skip);
+		let latest_codec = match latest_layout {
+			Layout::Legacy => &legacy_codec,
+			Layout::Compact => &compact_codec,
 		};
+		let (latest_decode_call, latest_skip_call) = (&latest_codec.decode, &latest_codec.skip);
+		let compact_decode_call = &compact_codec.decode;
 
 		let decode_wire_body = if always_present {
 			quote! {
@@ -578,8 +565,10 @@ fn emit_struct_methods(
 
 		// Consuming variant body — `reader` is `&'r mut R` (moved from `self.repr`),
 		// `wire_rev` is `u16` (moved).
+		let into_walk_guard = override_walk_guard(f, history, &wire_rev_is_val);
 		let into_walk_wire_body = if always_present {
 			quote! {
+				#into_walk_guard
 				<#ty as ::revision::WalkRevisioned>::walk_revisioned(reader)
 			}
 		} else {
@@ -593,6 +582,7 @@ fn emit_struct_methods(
 						::std::format!(#walk_err_msg, wire_rev),
 					));
 				}
+				#into_walk_guard
 				<#ty as ::revision::WalkRevisioned>::walk_revisioned(reader)
 			}
 		};
@@ -601,8 +591,10 @@ fn emit_struct_methods(
 		// `match &mut self.repr`); reborrow as `&mut R` via `&mut **reader`
 		// so the inner walker carries a shorter lifetime tied to `&mut self`.
 		// `wire_rev` is `&mut u16`, so dereference for comparison.
+		let walk_guard = override_walk_guard(f, history, &wire_rev_is_ref);
 		let walk_wire_body_borrow = if always_present {
 			quote! {
+				#walk_guard
 				let __w = <#ty as ::revision::WalkRevisioned>::walk_revisioned(&mut **reader)?;
 				*pos = #pos_lit + 1;
 				::std::result::Result::Ok(__w)
@@ -618,6 +610,7 @@ fn emit_struct_methods(
 						::std::format!(#walk_err_msg, *wire_rev),
 					));
 				}
+				#walk_guard
 				let __w = <#ty as ::revision::WalkRevisioned>::walk_revisioned(&mut **reader)?;
 				*pos = #pos_lit + 1;
 				::std::result::Result::Ok(__w)
@@ -680,13 +673,28 @@ fn emit_struct_methods(
 		// Wire-parent fast path: skip the field, derive its bytes from the
 		// before/after `remaining()` snapshots, lifetime-extend via the
 		// canonical unsafe pattern (peeked bytes stay valid for `'r` per the
-		// `BorrowedReader` contract).
+		// `BorrowedReader` contract). Only when the wire holds the field in its
+		// indexed encoding: legacy revisions, and revisions from before the field
+		// was added, take the decode and re-encode path below.
+		let indexed_on_wire: Vec<u16> = history
+			.iter()
+			.filter(|h| h.is_optimised() && f.attrs.options.exists_at(h.revision.value))
+			.map(|h| h.revision.value as u16)
+			.collect();
+		let indexed_on_wire = &indexed_on_wire;
 		let fast_path_wire = |view_ty: &TokenStream,
 		                      skip_call: &TokenStream,
 		                      self_expr: &TokenStream|
 		 -> TokenStream {
+			if indexed_on_wire.is_empty() {
+				return TokenStream::new();
+			}
 			quote! {
-				if let #walker_repr_name::Wire { reader, .. } = &mut #self_expr.repr {
+				if let #walker_repr_name::Wire {
+					reader,
+					wire_rev: #(#indexed_on_wire)|*,
+					..
+				} = &mut #self_expr.repr {
 					let __before = ::revision::BorrowedReader::remaining(*reader);
 					let __before_ptr = __before.as_ptr();
 					let __before_len = __before.len();
@@ -930,9 +938,9 @@ fn emit_struct_methods(
 		//   of the field; lifetime-extend the consumed slice via the
 		//   `BorrowedReader` contract (same unsafe pattern as
 		//   `read_borrowed_bytes`). Returns `Cow::Borrowed` at `'r`.
-		// - `ConvertedOwned`: decode the field from the parent's
-		//   materialised bytes, re-encode into a fresh `Vec<u8>`.
-		//   Returns `Cow::Owned`. Rare cross-rev `convert_fn` path.
+		// - `ConvertedOwned`: skip the field in the parent's materialised
+		//   bytes and copy what was skipped. Returns `Cow::Owned`. Rare
+		//   cross-rev `convert_fn` path.
 		let into_field_bytes_wire_rev_check = if always_present {
 			quote! {}
 		} else {
@@ -997,7 +1005,7 @@ fn emit_struct_methods(
 					let __before = ::revision::BorrowedReader::remaining(reader);
 					let __before_ptr = __before.as_ptr();
 					let __before_len = __before.len();
-					#field_skip_call
+					#owned_field_skip_call
 					let __after_len = ::revision::BorrowedReader::remaining(reader).len();
 					let __consumed_len = __before_len
 						.checked_sub(__after_len)
@@ -1025,14 +1033,10 @@ fn emit_struct_methods(
 				}
 				#walker_repr_name::ConvertedOwned { bytes, cursor, pos: _, .. } => {
 					let mut __slice: &[u8] = &bytes[cursor..];
-					let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(
-						&mut __slice,
-					)?;
-					let mut __out: ::std::vec::Vec<u8> = ::std::vec::Vec::new();
-					<#ty as ::revision::SerializeRevisioned>::serialize_revisioned(
-						&__v, &mut __out,
-					)?;
-					::std::result::Result::Ok(::std::borrow::Cow::Owned(__out))
+					let reader = &mut __slice;
+					#latest_skip_call
+					let __end = bytes.len() - __slice.len();
+					::std::result::Result::Ok(::std::borrow::Cow::Owned(bytes[cursor..__end].to_vec()))
 				}
 				#walker_repr_name::IndexedBorrowed { .. } => {
 					::std::unreachable!(
@@ -1078,14 +1082,16 @@ fn emit_struct_methods(
 							bytes.len()
 						};
 						let mut __slice: &[u8] = &bytes[__start..__end];
-						let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+						let reader = &mut __slice;
+						let __v = #compact_decode_call;
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
 					}
 					#walker_repr_name::ConvertedOwned { bytes, cursor, pos, .. } => {
 						// Sequential materialised path (convert_fn round-trip).
 						let mut __slice: &[u8] = &bytes[*cursor..];
-						let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+						let reader = &mut __slice;
+						let __v = #latest_decode_call;
 						*cursor = bytes.len() - __slice.len();
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
@@ -1113,7 +1119,8 @@ fn emit_struct_methods(
 					}
 					#walker_repr_name::ConvertedOwned { bytes, cursor, pos, .. } => {
 						let mut __slice: &[u8] = &bytes[*cursor..];
-						<#ty as ::revision::SkipRevisioned>::skip_revisioned(&mut __slice)?;
+						let reader = &mut __slice;
+						#latest_skip_call
 						*cursor = bytes.len() - __slice.len();
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(())
@@ -1171,6 +1178,120 @@ fn emit_struct_methods(
 	Ok(out)
 }
 
+/// The two layouts a revision's fields can be written in.
+#[derive(Clone, Copy)]
+enum Layout {
+	Legacy,
+	Compact,
+}
+
+impl Layout {
+	fn of(entry: &HistoryEntry) -> Self {
+		if entry.is_optimised() {
+			Self::Compact
+		} else {
+			Self::Legacy
+		}
+	}
+}
+
+/// How one field is read from `reader`: an expression that decodes it and
+/// statements that skip it.
+struct FieldCodec {
+	decode: TokenStream,
+	skip: TokenStream,
+}
+
+/// The encoding the serializer uses for `f` under `layout`: `fixed` and
+/// `specialised` apply to the legacy layout, the `indexed_*` family to the
+/// optimised one.
+fn field_codec(f: &Field, layout: Layout) -> syn::Result<FieldCodec> {
+	let ty = &f.ty;
+	let options = &f.attrs.options;
+	let reader = quote! { reader };
+	let indexed = |tr: &str, kind: &str| -> FieldCodec {
+		let tr = format_ident!("{}", tr);
+		let decode = format_ident!("deserialize_indexed_{}", kind);
+		let skip = format_ident!("skip_indexed_{}", kind);
+		FieldCodec {
+			decode: quote! { <#ty as ::revision::optimised::indexed::#tr>::#decode(reader)? },
+			skip: quote! { <#ty as ::revision::optimised::indexed::#tr>::#skip(reader)?; },
+		}
+	};
+	Ok(match layout {
+		Layout::Legacy if options.fixed => FieldCodec {
+			decode: emit_deserialize_fixed_le(ty, &reader)?,
+			skip: emit_skip_fixed_le(ty, &reader)?,
+		},
+		Layout::Legacy if options.specialised => {
+			let decode = emit_deserialize_specialised(ty, &reader);
+			FieldCodec {
+				skip: quote! { let _ = #decode; },
+				decode,
+			}
+		}
+		Layout::Compact if options.indexed_map => indexed("IndexedMapEncoded", "map"),
+		Layout::Compact if options.indexed_seq => indexed("IndexedSeqEncoded", "seq"),
+		Layout::Compact if options.indexed_set => indexed("IndexedSetEncoded", "set"),
+		_ => FieldCodec {
+			decode: quote! { <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)? },
+			skip: quote! { <#ty as ::revision::SkipRevisioned>::skip_revisioned(reader)?; },
+		},
+	})
+}
+
+/// Pick `legacy` or `compact` by the layout of the wire revision, at compile
+/// time where the whole history agrees.
+fn by_layout(
+	history: &[HistoryEntry],
+	wire_rev: &TokenStream,
+	legacy: &TokenStream,
+	compact: &TokenStream,
+) -> TokenStream {
+	let compact_revs: Vec<u16> =
+		history.iter().filter(|h| h.is_optimised()).map(|h| h.revision.value as u16).collect();
+	if compact_revs.is_empty() {
+		legacy.clone()
+	} else if compact_revs.len() == history.len() {
+		compact.clone()
+	} else {
+		quote! {
+			if ::std::matches!(#wire_rev, #(#compact_revs)|*) {
+				#compact
+			} else {
+				#legacy
+			}
+		}
+	}
+}
+
+/// A `fixed` or `specialised` field of a legacy revision is not in its type's
+/// own encoding, so the type's walker cannot read it, unless the crate-wide
+/// feature makes the two the same.
+fn override_walk_guard(f: &Field, history: &[HistoryEntry], wire_rev: &TokenStream) -> TokenStream {
+	let same_encoding = if f.attrs.options.fixed {
+		// Signed integers are zigzag-encoded even when fixed-width by default.
+		let signed = fixed_int_name(&f.ty).is_some_and(|name| name.starts_with('i'));
+		if signed {
+			quote! { false }
+		} else {
+			quote! { ::revision::implementations::primitives::FIXED_WIDTH_BY_DEFAULT }
+		}
+	} else if f.attrs.options.specialised {
+		quote! { ::revision::implementations::specialised::BULK_BY_DEFAULT }
+	} else {
+		return TokenStream::new();
+	};
+	let guard = quote! {
+		if !#same_encoding {
+			return ::std::result::Result::Err(::revision::Error::Conversion(
+				"cannot walk into a field with an encoding of its own; use decode_<field>".into(),
+			));
+		}
+	};
+	by_layout(history, wire_rev, &guard, &TokenStream::new())
+}
+
 /// Helper: return the suffix for `decode_<x>` / `skip_<x>` / `walk_<x>`.
 /// For named fields it's the field identifier; for tuple fields it's
 /// `field_<idx>` (matching the existing `FieldName::to_binding` convention).
diff --git a/src/implementations/primitives.rs b/src/implementations/primitives.rs
index fc2f9d9..7b600cc 100644
--- a/src/implementations/primitives.rs
+++ b/src/implementations/primitives.rs
@@ -658,6 +658,10 @@ impl Revisioned for f64 {
 // Hidden from rustdoc — they're stable surface for the macro's emitted code,
 // not part of the documented user API.
 
+/// Whether the unsigned ones of these integers are fixed-width without `#[revision(fixed)]`.
+#[doc(hidden)]
+pub const FIXED_WIDTH_BY_DEFAULT: bool = cfg!(feature = "fixed-width-encoding");
+
 macro_rules! fixed_le_helpers {
 	($t:ty, $width:expr, $encode:ident, $decode:ident, $skip:ident) => {
 		#[doc(hidden)]
diff --git a/src/implementations/specialised.rs b/src/implementations/specialised.rs
index 640a088..44f7c22 100644
--- a/src/implementations/specialised.rs
+++ b/src/implementations/specialised.rs
@@ -12,6 +12,11 @@ use crate::SerializeRevisioned;
 use std::io::ErrorKind::UnexpectedEof;
 use std::io::{Read, Write};
 
+/// Whether `Vec<primitive>` is bulk-encoded without `#[revision(specialised)]`.
+/// Macro-only surface.
+#[doc(hidden)]
+pub const BULK_BY_DEFAULT: bool = cfg!(feature = "specialised-vectors");
+
 /// Bulk-encoded `serialize_revisioned` for `Vec<primitive>`. Macro-only
 /// surface; downstream users opt into bulk encoding via the
 /// `#[revision(specialised)]` per-field attribute or the
-- 
2.43.0


From b36a750ac9cc627bfe5ed0cb7d7b45b63d3c4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 11/18] fix: walk an indexed struct by the offset table of its
 own revision

---
 revision-derive/src/expand/walk.rs   | 191 +++++++++++++--------------
 src/optimised/indexed/mod.rs         |   2 +
 src/optimised/indexed/struct_walk.rs |  23 ++++
 3 files changed, 120 insertions(+), 96 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 379ccd1..4ea25cc 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -181,10 +181,6 @@ pub fn emit_walk_impl(
 	//   declared size class, and return an OptimisedBorrowed walker with
 	//   `discriminant = variant_id` (the existing per-variant decode code on
 	//   the OptimisedBorrowed arm reads the borrowed payload directly).
-	let optimised_struct_field_count = match &item.kind {
-		ItemKind::Struct(s) => Some(alive_field_count(s, revision) as u32),
-		ItemKind::Enum(_) => None,
-	};
 	let optimised_skip_arms: Vec<TokenStream> = history
 		.iter()
 		.filter(|h| h.is_optimised())
@@ -197,8 +193,6 @@ pub fn emit_walk_impl(
 						// reader's buffer (no allocation) and return an
 						// IndexedBorrowed walker. Per-field methods jump via
 						// offsets in O(1).
-						let field_count = optimised_struct_field_count.unwrap_or(0) as usize;
-						let field_count_u16 = field_count as u16;
 						Ok(quote! {
 							#rev_lit => {
 								let mut __len_buf = [0u8; 4];
@@ -213,7 +207,7 @@ pub fn emit_walk_impl(
 								return ::std::result::Result::Ok(#walker_name {
 									repr: #walker_repr_name::IndexedBorrowed {
 										bytes: __payload,
-										field_count: #field_count_u16,
+										wire_rev: __wire_rev,
 										pos: 0,
 										_marker: ::std::marker::PhantomData,
 									},
@@ -326,7 +320,7 @@ pub fn emit_walk_impl(
 			pub fn revision(&self) -> u16 {
 				match &self.repr {
 					#walker_repr_name::Wire { wire_rev, .. } => *wire_rev,
-					#walker_repr_name::IndexedBorrowed { .. } => #revision_lit,
+					#walker_repr_name::IndexedBorrowed { wire_rev, .. } => *wire_rev,
 					#walker_repr_name::ConvertedOwned { .. } => #revision_lit,
 				}
 			}
@@ -396,7 +390,7 @@ fn emit_struct_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> T
 			/// demand from `bytes[i*4..i*4+4]` for O(1) random access.
 			IndexedBorrowed {
 				bytes: &'r [u8],
-				field_count: u16,
+				wire_rev: u16,
 				pos: u32,
 				_marker: ::std::marker::PhantomData<&'r mut R>,
 			},
@@ -530,25 +524,33 @@ fn emit_struct_methods(
 			Layout::Legacy => &legacy_codec,
 			Layout::Compact => &compact_codec,
 		};
+		let indexed_slot = indexed_slot(f, s, history);
 		let (latest_decode_call, latest_skip_call) = (&latest_codec.decode, &latest_codec.skip);
 		let compact_decode_call = &compact_codec.decode;
 
+		// What the field decodes to at a wire revision that does not have it.
+		let absent_value = if always_present {
+			quote! {
+				return ::std::result::Result::Err(::revision::Error::Conversion(
+					"field not available at this wire revision".into(),
+				))
+			}
+		} else if let Some(default) = f.attrs.options.default.as_ref() {
+			let default = Ident::new(&default.value(), default.span());
+			quote! { #owner_name::#default(*wire_rev)? }
+		} else {
+			quote! { <#ty as ::std::default::Default>::default() }
+		};
 		let decode_wire_body = if always_present {
 			quote! {
 				let __v = #field_decode_call;
 			}
 		} else {
-			let default_expr = if let Some(default) = f.attrs.options.default.as_ref() {
-				let default = Ident::new(&default.value(), default.span());
-				quote! { #owner_name::#default(*wire_rev)? }
-			} else {
-				quote! { <#ty as ::std::default::Default>::default() }
-			};
 			quote! {
 				let __v = if *wire_rev >= #start_val {
 					#field_decode_call
 				} else {
-					#default_expr
+					#absent_value
 				};
 			}
 		};
@@ -646,27 +648,19 @@ fn emit_struct_methods(
 		let fast_path_indexed_borrowed =
 			|view_ty: &TokenStream, self_expr: &TokenStream| -> TokenStream {
 				quote! {
-					if let #walker_repr_name::IndexedBorrowed { bytes, field_count, .. } = &#self_expr.repr {
-						let __bytes_borrow: &'r [u8] = *bytes;
-						let __fc = *field_count as usize;
-						let __off_base = (#pos_lit as usize) * 4;
-						let __start = u32::from_le_bytes(
-							__bytes_borrow[__off_base..__off_base + 4]
-								.try_into()
-								.expect("4-byte slice"),
-						) as usize;
-						let __end = if (#pos_lit as usize) + 1 < __fc {
-							u32::from_le_bytes(
-								__bytes_borrow[__off_base + 4..__off_base + 8]
-									.try_into()
-									.expect("4-byte slice"),
-							) as usize
-						} else {
-							__bytes_borrow.len()
-						};
-						return ::std::result::Result::Ok(
-							#view_ty::new(::std::borrow::Cow::Borrowed(&__bytes_borrow[__start..__end])),
-						);
+					if let #walker_repr_name::IndexedBorrowed { bytes, wire_rev, .. } = &#self_expr.repr {
+						// A field the wire revision did not have yet takes the
+						// decode (of its default) and re-encode path below.
+						if let ::std::option::Option::Some((__index, __count)) = #indexed_slot {
+							let __bytes_borrow: &'r [u8] = *bytes;
+							return ::std::result::Result::Ok(#view_ty::new(
+								::std::borrow::Cow::Borrowed(
+									::revision::optimised::indexed::indexed_field_bytes(
+										__bytes_borrow, __index, __count,
+									)?,
+								),
+							));
+						}
 					}
 				}
 			};
@@ -941,13 +935,13 @@ fn emit_struct_methods(
 		// - `ConvertedOwned`: skip the field in the parent's materialised
 		//   bytes and copy what was skipped. Returns `Cow::Owned`. Rare
 		//   cross-rev `convert_fn` path.
+		let bytes_err_msg = format!(
+			"into_{}_bytes not available at wire revision {{}}: field added at revision {}",
+			method_base, start_val,
+		);
 		let into_field_bytes_wire_rev_check = if always_present {
 			quote! {}
 		} else {
-			let bytes_err_msg = format!(
-				"into_{}_bytes not available at wire revision {{}}: field added at revision {}",
-				method_base, start_val,
-			);
 			quote! {
 				if wire_rev < #start_val {
 					return ::std::result::Result::Err(::revision::Error::Conversion(
@@ -959,44 +953,22 @@ fn emit_struct_methods(
 		let into_field_bytes_body = quote! {
 			let __self = self;
 			// IndexedBorrowed fast path — borrow from the offset table.
-			if let #walker_repr_name::IndexedBorrowed { bytes, field_count, .. } = &__self.repr {
+			if let #walker_repr_name::IndexedBorrowed { bytes, wire_rev, .. } = &__self.repr {
 				let __bytes_borrow: &'r [u8] = *bytes;
-				let __fc = *field_count as usize;
-				let __off_base = (#pos_lit as usize) * 4;
-				// Bounds-check the offset table reads. The non-last-field
-				// branch reads two consecutive entries, so it needs 8
-				// bytes; the last-field branch only needs its own 4.
-				let __needed = if (#pos_lit as usize) + 1 < __fc { 8 } else { 4 };
-				if __off_base + __needed > __bytes_borrow.len() {
-					return ::std::result::Result::Err(::revision::Error::Deserialize(
-						"IndexedBorrowed offset table truncated".into(),
-					));
-				}
-				let __start = u32::from_le_bytes(
-					__bytes_borrow[__off_base..__off_base + 4]
-						.try_into()
-						.expect("4-byte slice"),
-				) as usize;
-				let __end = if (#pos_lit as usize) + 1 < __fc {
-					u32::from_le_bytes(
-						__bytes_borrow[__off_base + 4..__off_base + 8]
-							.try_into()
-							.expect("4-byte slice"),
-					) as usize
-				} else {
-					__bytes_borrow.len()
+				return match #indexed_slot {
+					::std::option::Option::Some((__index, __count)) => ::std::result::Result::Ok(
+						::std::borrow::Cow::Borrowed(
+							::revision::optimised::indexed::indexed_field_bytes(
+								__bytes_borrow, __index, __count,
+							)?,
+						),
+					),
+					::std::option::Option::None => {
+						::std::result::Result::Err(::revision::Error::Conversion(
+							::std::format!(#bytes_err_msg, wire_rev),
+						))
+					}
 				};
-				// Validate the slice bounds before indexing — a malformed
-				// payload with `start > end` or `end > len` would otherwise
-				// panic in the slice op.
-				if __start > __end || __end > __bytes_borrow.len() {
-					return ::std::result::Result::Err(::revision::Error::Deserialize(
-						"IndexedBorrowed field offsets out of range".into(),
-					));
-				}
-				return ::std::result::Result::Ok(
-					::std::borrow::Cow::Borrowed(&__bytes_borrow[__start..__end]),
-				);
 			}
 			// Wire / ConvertedOwned: consume `__self.repr`.
 			match __self.repr {
@@ -1061,29 +1033,21 @@ fn emit_struct_methods(
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
 					}
-					#walker_repr_name::IndexedBorrowed { bytes, field_count, pos, .. } => {
+					#walker_repr_name::IndexedBorrowed { bytes, wire_rev, pos, .. } => {
 						// Indexed struct: parse this field's offset from the
 						// table at the start of `bytes`. O(1) — two u32 reads,
 						// no Vec<u32> alloc.
-						let __off_base = (#pos_lit as usize) * 4;
-						let __start = u32::from_le_bytes(
-							bytes[__off_base..__off_base + 4]
-								.try_into()
-								.expect("4-byte slice"),
-						) as usize;
-						let __end = if (#pos_lit as usize) + 1 < (*field_count as usize) {
-							let __next_base = __off_base + 4;
-							u32::from_le_bytes(
-								bytes[__next_base..__next_base + 4]
-									.try_into()
-									.expect("4-byte slice"),
-							) as usize
-						} else {
-							bytes.len()
+						let __v = match #indexed_slot {
+							::std::option::Option::Some((__index, __count)) => {
+								let mut __slice: &[u8] =
+									::revision::optimised::indexed::indexed_field_bytes(
+										bytes, __index, __count,
+									)?;
+								let reader = &mut __slice;
+								#compact_decode_call
+							}
+							::std::option::Option::None => #absent_value,
 						};
-						let mut __slice: &[u8] = &bytes[__start..__end];
-						let reader = &mut __slice;
-						let __v = #compact_decode_call;
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
 					}
@@ -1265,6 +1229,41 @@ fn by_layout(
 	}
 }
 
+/// Where the offset table of an indexed revision has `f`: an expression for its
+/// `Option<(index, field count)>` at `wire_rev`.
+fn indexed_slot(f: &Field, s: &Struct, history: &[HistoryEntry]) -> TokenStream {
+	let fields: Vec<&Field> = match &s.fields {
+		Fields::Named {
+			fields,
+			..
+		}
+		| Fields::Unnamed {
+			fields,
+			..
+		} => fields.iter().collect(),
+		Fields::Unit => Vec::new(),
+	};
+	let arms = history
+		.iter()
+		.filter(|h| h.is_optimised() && matches!(h.struct_kind, StructEncoding::Indexed))
+		.filter_map(|h| {
+			let rev = h.revision.value;
+			let index = fields
+				.iter()
+				.filter(|x| x.attrs.options.exists_at(rev))
+				.position(|x| ::std::ptr::eq(*x, f))?;
+			let count = alive_field_count(s, rev);
+			let rev = rev as u16;
+			Some(quote! { #rev => ::std::option::Option::Some((#index, #count)), })
+		});
+	quote! {
+		match *wire_rev {
+			#(#arms)*
+			_ => ::std::option::Option::<(usize, usize)>::None,
+		}
+	}
+}
+
 /// A `fixed` or `specialised` field of a legacy revision is not in its type's
 /// own encoding, so the type's walker cannot read it, unless the crate-wide
 /// feature makes the two the same.
diff --git a/src/optimised/indexed/mod.rs b/src/optimised/indexed/mod.rs
index 40e67b3..0c7ad67 100644
--- a/src/optimised/indexed/mod.rs
+++ b/src/optimised/indexed/mod.rs
@@ -23,6 +23,8 @@ pub use serialize::{
 	skip_indexed_map, skip_indexed_seq, skip_indexed_set,
 };
 pub use struct_walk::IndexedStructWalker;
+#[doc(hidden)]
+pub use struct_walk::indexed_field_bytes;
 
 /// Minimum entry count that triggers the indexed prologue.
 ///
diff --git a/src/optimised/indexed/struct_walk.rs b/src/optimised/indexed/struct_walk.rs
index 7ef89e3..63cdf22 100644
--- a/src/optimised/indexed/struct_walk.rs
+++ b/src/optimised/indexed/struct_walk.rs
@@ -214,6 +214,29 @@ impl<'p> IndexedStructWalker<'p> {
 //
 // The macro emits this pattern directly per field.
 
+/// Borrow the bytes of field `index` of an indexed-struct `payload` with
+/// `field_count` fields. O(1); corrupt offsets are an error. Macro-only surface.
+#[doc(hidden)]
+pub fn indexed_field_bytes(
+	payload: &[u8],
+	index: usize,
+	field_count: usize,
+) -> Result<&[u8], Error> {
+	if payload.len() < field_count * 4 {
+		return Err(Error::Deserialize("IndexedBorrowed offset table truncated".into()));
+	}
+	let offset = |i: usize| crate::optimised::validation::decode_u32_le_at(payload, i * 4) as usize;
+	let start = offset(index);
+	let end = if index + 1 < field_count {
+		offset(index + 1)
+	} else {
+		payload.len()
+	};
+	payload
+		.get(start..end)
+		.ok_or_else(|| Error::Deserialize("IndexedBorrowed field offsets out of range".into()))
+}
+
 #[cfg(test)]
 mod tests {
 	use super::*;
-- 
2.43.0


From 37b179cd7c8ea49bccf29ec509ed22f312cee0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 12/18] fix: match an optimised enum's variants by the numbers
 of its own revision

---
 revision-derive/src/expand/walk.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 4ea25cc..0e046ca 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -295,13 +295,13 @@ pub fn emit_walk_impl(
 			pub fn revision(&self) -> u16 {
 				match &self.repr {
 					#walker_repr_name::Wire { wire_rev, .. } => *wire_rev,
-					#walker_repr_name::OptimisedBorrowed { .. } => #revision_lit,
+					#walker_repr_name::OptimisedBorrowed { wire_rev, .. } => *wire_rev,
 					#walker_repr_name::ConvertedOwned { .. } => #revision_lit,
 				}
 			}
 
-			/// Variant discriminant on the wire (for `Wire`) or on the
-			/// re-encoded current-rev bytes (for the borrowed / owned arms).
+			/// Variant discriminant on the wire, or on the re-encoded
+			/// current-rev bytes (for the owned arm).
 			/// Use
 			/// [`walk_revisioned_variant_name`](Self::walk_revisioned_variant_name)
 			/// to map this to a variant identifier.
@@ -435,6 +435,8 @@ fn emit_enum_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> Tok
 			/// after the `u32_le` length prefix).
 			OptimisedBorrowed {
 				bytes: &'r [u8],
+				wire_rev: u16,
+				/// Variant discriminant on the wire.
 				discriminant: u32,
 				pos: u32,
 				_marker: ::std::marker::PhantomData<&'r mut R>,
@@ -1369,21 +1371,19 @@ fn emit_enum_methods(
 
 		out.append_all(quote! {
 			/// Returns `true` if the wire's discriminant identifies this variant
-			/// at the wire revision (or, for borrowed / owned walkers, on the
-			/// current-rev bytes).
+			/// at the wire revision (or, for owned walkers, on the current-rev
+			/// bytes).
 			#[inline]
 			pub fn #is_name(&self) -> bool {
 				match &self.repr {
-					#walker_repr_name::Wire { wire_rev, discriminant, .. } => {
+					#walker_repr_name::Wire { wire_rev, discriminant, .. }
+					| #walker_repr_name::OptimisedBorrowed { wire_rev, discriminant, .. } => {
 						let __expected: ::std::option::Option<u32> = match *wire_rev {
 							#(#wire_disc_arms)*
 							_ => ::std::option::Option::None,
 						};
 						__expected == ::std::option::Option::Some(*discriminant)
 					}
-					#walker_repr_name::OptimisedBorrowed { discriminant, .. } => {
-						*discriminant == #current_disc
-					}
 					#walker_repr_name::ConvertedOwned { discriminant, .. } => {
 						*discriminant == #current_disc
 					}
@@ -1872,6 +1872,7 @@ fn emit_optimised_enum_walker_arm(
 			return ::std::result::Result::Ok(#walker_name {
 				repr: #walker_repr_name::OptimisedBorrowed {
 					bytes: __payload,
+					wire_rev: __wire_rev,
 					discriminant: __variant_id as u32,
 					pos: 0,
 					_marker: ::std::marker::PhantomData,
-- 
2.43.0


From 2fd03b842474efb26f5ce150d2e399c56e00d050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 13/18] fix: walk a variant's payload in the encoding its
 revision was written in

---
 revision-derive/src/expand/walk.rs | 119 ++++++++++++++++++++++++-----
 1 file changed, 101 insertions(+), 18 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 0e046ca..5879984 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -274,7 +274,7 @@ pub fn emit_walk_impl(
 	// Per-type method body
 	let methods = match &item.kind {
 		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, history, s)?,
-		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, e)?,
+		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, history, e)?,
 	};
 
 	// Introspection tables
@@ -1316,6 +1316,7 @@ fn emit_enum_methods(
 	enum_name: &Ident,
 	walker_repr_name: &Ident,
 	revision: usize,
+	history: &[HistoryEntry],
 	e: &Enum,
 ) -> syn::Result<TokenStream> {
 	let mut out = TokenStream::new();
@@ -1435,6 +1436,85 @@ fn emit_enum_methods(
 					.find(|f| f.attrs.options.exists_at(revision))
 					.expect("variant has a field at current rev");
 				let inner_ty = &inner_field.ty;
+				// A payload added by a later revision than the wire's is its
+				// default; a legacy payload is read as its options say, while
+				// an optimised enum writes every payload in its own encoding.
+				let own_decode = quote! {
+					<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?
+				};
+				let legacy_decode = field_codec(inner_field, Layout::Legacy)?.decode;
+				let converted_decode = match Layout::of(history.last().expect("history non-empty"))
+				{
+					Layout::Legacy => &legacy_decode,
+					Layout::Compact => &own_decode,
+				};
+				let start = inner_field.attrs.options.start.as_ref().map_or(0, |s| s.value) as u16;
+				let default = match inner_field.attrs.options.default.as_ref() {
+					Some(default) => {
+						let default = Ident::new(&default.value(), default.span());
+						quote! { #enum_name::#default(wire_rev)? }
+					}
+					None => quote! { <#inner_ty as ::std::default::Default>::default() },
+				};
+				let or_default = |decode: &TokenStream| {
+					if start == 0 {
+						decode.clone()
+					} else {
+						quote! { if wire_rev < #start { #default } else { #decode } }
+					}
+				};
+				let wire_decode = or_default(&legacy_decode);
+				let borrowed_decode = or_default(&own_decode);
+				let absent_guard = if start == 0 {
+					quote! {}
+				} else {
+					quote! {
+						if wire_rev < #start {
+							return ::std::result::Result::Err(::revision::Error::Conversion(
+								::std::format!(
+									"the payload of `{}` is not in an encoding of revision {}; use decode_<variant>",
+									stringify!(#variant_ident),
+									wire_rev,
+								),
+							));
+						}
+					}
+				};
+				let into_guard = override_walk_guard(inner_field, history, &quote! { wire_rev });
+				// The view is of the payload type's own encoding, so it has to be
+				// written again where the bytes are in another one.
+				let same_bytes =
+					!inner_field.attrs.options.fixed && !inner_field.attrs.options.specialised;
+				let borrowed_view = if start == 0 {
+					quote! { ::std::borrow::Cow::Borrowed(bytes) }
+				} else {
+					quote! {
+						if wire_rev < #start {
+							let __v: #inner_ty = #default;
+							let mut __buf = ::std::vec::Vec::new();
+							<#inner_ty as ::revision::SerializeRevisioned>::serialize_revisioned(&__v, &mut __buf)?;
+							::std::borrow::Cow::Owned(__buf)
+						} else {
+							::std::borrow::Cow::Borrowed(bytes)
+						}
+					}
+				};
+				let converted_view = if same_bytes {
+					quote! {
+						let mut v = bytes;
+						v.drain(..cursor);
+						::std::borrow::Cow::Owned(v)
+					}
+				} else {
+					quote! {
+						let mut __slice: &[u8] = &bytes[cursor..];
+						let reader = &mut __slice;
+						let __v: #inner_ty = #converted_decode;
+						let mut __buf = ::std::vec::Vec::new();
+						<#inner_ty as ::revision::SerializeRevisioned>::serialize_revisioned(&__v, &mut __buf)?;
+						::std::borrow::Cow::Owned(__buf)
+					}
+				};
 				out.append_all(quote! {
 					/// Walk into the payload of the `#variant_ident` variant.
 					///
@@ -1458,7 +1538,10 @@ fn emit_enum_methods(
 							));
 						}
 						match self.repr {
-							#walker_repr_name::Wire { reader, .. } => {
+							#[allow(unused_variables)]
+							#walker_repr_name::Wire { reader, wire_rev, .. } => {
+								#absent_guard
+								#into_guard
 								<#inner_ty as ::revision::WalkRevisioned>::walk_revisioned(reader)
 							}
 							#walker_repr_name::OptimisedBorrowed { .. } => {
@@ -1494,16 +1577,20 @@ fn emit_enum_methods(
 							));
 						}
 						match self.repr {
-							#walker_repr_name::Wire { reader, .. } => {
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)
+							#[allow(unused_variables)]
+							#walker_repr_name::Wire { reader, wire_rev, .. } => {
+								::std::result::Result::Ok(#wire_decode)
 							}
-							#walker_repr_name::OptimisedBorrowed { bytes, .. } => {
+							#[allow(unused_variables)]
+							#walker_repr_name::OptimisedBorrowed { bytes, wire_rev, .. } => {
 								let mut __slice: &[u8] = bytes;
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)
+								let reader = &mut __slice;
+								::std::result::Result::Ok(#borrowed_decode)
 							}
 							#walker_repr_name::ConvertedOwned { ref bytes, cursor, .. } => {
 								let mut __slice: &[u8] = &bytes[cursor..];
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)
+								let reader = &mut __slice;
+								::std::result::Result::Ok(#converted_decode)
 							}
 						}
 					}
@@ -1539,26 +1626,25 @@ fn emit_enum_methods(
 							));
 						}
 						let __bytes: ::std::borrow::Cow<'r, [u8]> = match self.repr {
-							#walker_repr_name::Wire { reader, .. } => {
+							#[allow(unused_variables)]
+							#walker_repr_name::Wire { reader, wire_rev, .. } => {
 								// Read the inner value then re-emit its bytes.
 								// One alloc + one re-serialise; matches the
 								// indexed-field view shape.
-								let __v: #inner_ty =
-									<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?;
+								let __v: #inner_ty = #wire_decode;
 								let mut __buf = ::std::vec::Vec::new();
 								<#inner_ty as ::revision::SerializeRevisioned>::serialize_revisioned(&__v, &mut __buf)?;
 								::std::borrow::Cow::Owned(__buf)
 							}
-							#walker_repr_name::OptimisedBorrowed { bytes, .. } => {
+							#[allow(unused_variables)]
+							#walker_repr_name::OptimisedBorrowed { bytes, wire_rev, .. } => {
 								// bytes: &'r [u8] — preserves the source's
 								// lifetime so the view's bytes outlive `self`.
-								::std::borrow::Cow::Borrowed(bytes)
+								#borrowed_view
 							}
 							#walker_repr_name::ConvertedOwned { bytes, cursor, .. } => {
 								// cross-revision convert_fn re-encode — owned.
-								let mut v = bytes;
-								v.drain(..cursor);
-								::std::borrow::Cow::Owned(v)
+								#converted_view
 							}
 						};
 						::std::result::Result::Ok(
@@ -1634,9 +1720,6 @@ fn emit_enum_methods(
 		}
 	}
 
-	// Suppress an unused-variable warning when the enum has zero variants
-	// at the current revision.
-	let _ = enum_name;
 	Ok(out)
 }
 
-- 
2.43.0


From b895cd650885895869cb3c3165022a3c9c6d4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:21 +0000
Subject: [PATCH 14/18] fix: decode leap seconds in any second of a time or
 timestamp

---
 src/implementations/chrono.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/implementations/chrono.rs b/src/implementations/chrono.rs
index d5332f1..3e6d941 100644
--- a/src/implementations/chrono.rs
+++ b/src/implementations/chrono.rs
@@ -18,8 +18,11 @@ impl DeserializeRevisioned for DateTime<Utc> {
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
 		let secs = <i64 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
 		let nano = <u32 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
-		Utc.timestamp_opt(secs, nano)
+		// A leap second may sit in any second, which `timestamp_opt` does not accept
+		Utc.timestamp_opt(secs, 0)
 			.single()
+			.and_then(|v| v.naive_utc().with_nanosecond(nano))
+			.map(|v| v.and_utc())
 			.ok_or_else(|| Error::Deserialize("invalid datetime".to_string()))
 	}
 }
@@ -77,7 +80,9 @@ impl DeserializeRevisioned for NaiveTime {
 		let minute = <u32 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
 		let second = <u32 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
 		let nano = <u32 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
-		NaiveTime::from_hms_nano_opt(hour, minute, second, nano)
+		// A leap second may sit in any second, which `from_hms_nano_opt` does not accept
+		NaiveTime::from_hms_opt(hour, minute, second)
+			.and_then(|v| v.with_nanosecond(nano))
 			.ok_or_else(|| Error::Deserialize("invalid time".to_string()))
 	}
 }
-- 
2.43.0


From e26d021a3b73425656a2d483f6706b01d9efd907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:30 +0000
Subject: [PATCH 15/18] fix: do not close a polygon ring again when it was
 closed with a NaN coordinate

---
 src/implementations/geo.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/implementations/geo.rs b/src/implementations/geo.rs
index 8f2e2ec..3d24f97 100644
--- a/src/implementations/geo.rs
+++ b/src/implementations/geo.rs
@@ -88,10 +88,26 @@ impl SerializeRevisioned for Polygon {
 impl DeserializeRevisioned for Polygon {
 	#[inline]
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
-		Ok(Self::new(
-			DeserializeRevisioned::deserialize_revisioned(reader)?,
-			DeserializeRevisioned::deserialize_revisioned(reader)?,
-		))
+		let mut exterior = LineString::deserialize_revisioned(reader)?;
+		let mut interiors = Vec::<LineString>::deserialize_revisioned(reader)?;
+		drop_closing_copy(&mut exterior);
+		interiors.iter_mut().for_each(drop_closing_copy);
+		Ok(Self::new(exterior, interiors))
+	}
+}
+
+/// `Polygon::new` closes a ring whose last coordinate does not equal its first
+/// one, by appending a copy of the latter. An encoded ring has been closed
+/// already, but if its first coordinate is NaN the copy does not compare equal
+/// and the ring would be closed again, growing with every round trip. Drop the
+/// copy in that case: `Polygon::new` puts it back.
+fn drop_closing_copy(ring: &mut LineString) {
+	if let [first, .., last] = ring.0.as_slice()
+		&& first != last
+		&& first.x.to_bits() == last.x.to_bits()
+		&& first.y.to_bits() == last.y.to_bits()
+	{
+		ring.0.pop();
 	}
 }
 
-- 
2.43.0


From 3410f524e5f88495bae8dcc4dc75ae2e06e38b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:56 +0000
Subject: [PATCH 16/18] fix: refuse indexed elements whose length does not fit
 32 bits

---
 src/optimised/indexed/serialize.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/optimised/indexed/serialize.rs b/src/optimised/indexed/serialize.rs
index 3eed73b..0283ecb 100644
--- a/src/optimised/indexed/serialize.rs
+++ b/src/optimised/indexed/serialize.rs
@@ -243,7 +243,7 @@ where
 	let mut off = 0u32;
 	for b in &bodies {
 		writer.write_all(&off.to_le_bytes()).map_err(Error::Io)?;
-		off = off.checked_add(b.len() as u32).ok_or_else(|| {
+		off = u32::try_from(b.len()).ok().and_then(|n| off.checked_add(n)).ok_or_else(|| {
 			Error::Serialize("indexed set element region exceeds u32::MAX".into())
 		})?;
 	}
@@ -619,11 +619,13 @@ where
 	for (kb, vb) in keys.iter().zip(vals.iter()) {
 		k_offsets.push(k_off);
 		v_offsets.push(v_off);
-		k_off = k_off
-			.checked_add(kb.len() as u32)
+		k_off = u32::try_from(kb.len())
+			.ok()
+			.and_then(|n| k_off.checked_add(n))
 			.ok_or_else(|| Error::Serialize("indexed map key region exceeds u32::MAX".into()))?;
-		v_off = v_off
-			.checked_add(vb.len() as u32)
+		v_off = u32::try_from(vb.len())
+			.ok()
+			.and_then(|n| v_off.checked_add(n))
 			.ok_or_else(|| Error::Serialize("indexed map value region exceeds u32::MAX".into()))?;
 	}
 
@@ -705,8 +707,9 @@ where
 	let mut off = 0u32;
 	for b in &bodies {
 		writer.write_all(&off.to_le_bytes()).map_err(Error::Io)?;
-		off = off
-			.checked_add(b.len() as u32)
+		off = u32::try_from(b.len())
+			.ok()
+			.and_then(|n| off.checked_add(n))
 			.ok_or_else(|| Error::Serialize("indexed seq exceeds u32::MAX".into()))?;
 	}
 	for b in &bodies {
-- 
2.43.0


From 94ec4b24329d6a01e9c9d0ebfc2cbff20d1df5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:17 +0000
Subject: [PATCH 17/18] fix: accept explicit discriminants on enum variants

---
 revision-derive/src/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/revision-derive/src/ast/mod.rs b/revision-derive/src/ast/mod.rs
index 0114be7..61bc747 100644
--- a/revision-derive/src/ast/mod.rs
+++ b/revision-derive/src/ast/mod.rs
@@ -122,7 +122,7 @@ impl Parse for Variant {
 			Fields::Unit
 		};
 
-		let discriminant = if input.peek(Token![:]) {
+		let discriminant = if input.peek(Token![=]) {
 			Some((input.parse()?, input.parse()?))
 		} else {
 			None
-- 
2.43.0


From e89b50bc7b4d589691617e5045296af13fd3f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:18 +0000
Subject: [PATCH 18/18] fix: honour serialize, deserialize, skip and walk on
 the item's own attribute

---
 revision-derive/src/expand/mod.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/revision-derive/src/expand/mod.rs b/revision-derive/src/expand/mod.rs
index 9102819..1990f71 100644
--- a/revision-derive/src/expand/mod.rs
+++ b/revision-derive/src/expand/mod.rs
@@ -105,6 +105,11 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 		})
 		.collect::<syn::Result<Vec<_>>>()?;
 
+	// Like the history, these may be on the invocation or on the item.
+	let options = &ast.attrs.options;
+	let serialize_enabled = attrs.0.serialize && options.serialize;
+	let deserialize_enabled = attrs.0.deserialize && options.deserialize;
+
 	let name = match &ast.kind {
 		ast::ItemKind::Enum(x) => x.name.clone(),
 		ast::ItemKind::Struct(x) => x.name.clone(),
@@ -113,7 +118,7 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 	let revision_lit = revision as u16;
 	let revision_error = format!("Invalid revision `{{}}` for type `{}`", name);
 
-	let skip_derive_enabled = attrs.0.skip.unwrap_or(attrs.0.deserialize);
+	let skip_derive_enabled = attrs.0.skip.or(options.skip).unwrap_or(deserialize_enabled);
 
 	let mut skip_revision_arms = Vec::new();
 	let mut skip_revision_slice_arms = Vec::new();
@@ -185,7 +190,7 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 		quote! {}
 	};
 
-	let skip_check_impl = if skip_derive_enabled && attrs.0.deserialize {
+	let skip_check_impl = if skip_derive_enabled && deserialize_enabled {
 		quote! {
 			impl ::revision::SkipCheckRevisioned for #name {
 				fn skip_check_revisioned<R: ::std::io::Read>(reader: &mut R)
@@ -199,7 +204,7 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 		quote! {}
 	};
 
-	let walk_derive_enabled = attrs.0.walk.unwrap_or(attrs.0.deserialize);
+	let walk_derive_enabled = attrs.0.walk.or(options.walk).unwrap_or(deserialize_enabled);
 	let has_convert_fn = common::HasConvertFn::check(&ast)?;
 	let walk_impl = if walk_derive_enabled {
 		walk::emit_walk_impl(
@@ -211,14 +216,14 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 			&ast,
 			&history,
 			has_convert_fn,
-			attrs.0.serialize,
-			attrs.0.deserialize,
+			serialize_enabled,
+			deserialize_enabled,
 		)?
 	} else {
 		quote! {}
 	};
 
-	let serialize_impl = if attrs.0.serialize {
+	let serialize_impl = if serialize_enabled {
 		quote! {
 			impl ::revision::SerializeRevisioned for #name {
 				fn serialize_revisioned<W: ::std::io::Write>(&self, writer: &mut W) -> ::std::result::Result<(), ::revision::Error> {
@@ -231,7 +236,7 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 		quote! {}
 	};
 
-	let deserialize_impl = if attrs.0.deserialize {
+	let deserialize_impl = if deserialize_enabled {
 		quote! {
 			impl #name {
 				/// Deserialize the body of a revisioned encoding **after** the
-- 
2.43.0

