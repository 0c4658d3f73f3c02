From ac65096cc642e9e4c6335d1761ce98e5b0812cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:29 +0000
Subject: [PATCH 01/17] fix: decode: reject an out-of-range offset of a dynamic
 fixed array instead of panicking

---
 ethabi/src/decoder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 825ec25..6cc4831 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -161,8 +161,12 @@ fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeR
 		ParamType::FixedArray(ref t, len) => {
 			let is_dynamic = param.is_dynamic();
 
-			let (tail, mut new_offset) =
-				if is_dynamic { (&data[as_usize(&peek_32_bytes(data, offset)?)?..], 0) } else { (data, offset) };
+			let (tail, mut new_offset) = if is_dynamic {
+				let tail_offset = as_usize(&peek_32_bytes(data, offset)?)?;
+				(data.get(tail_offset..).ok_or(Error::InvalidData)?, 0)
+			} else {
+				(data, offset)
+			};
 
 			let mut tokens = vec![];
 
-- 
2.43.0


From 798020728c5f8242582764f833b6db1676a2d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:29 +0000
Subject: [PATCH 02/17] fix: decode: do not let a corrupted length of an array
 of empty elements exhaust memory

---
 ethabi/src/decoder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 6cc4831..5441474 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -145,6 +145,13 @@ fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeR
 			let tail_offset = len_offset + 32;
 			let tail = &data[tail_offset..];
 
+			// An element takes at least one byte of the tail. Without this bound a
+			// corrupted length of an array of empty elements (eg. `uint256[0][]`)
+			// would alone decide how much is allocated.
+			if len > tail.len() {
+				return Err(Error::InvalidData);
+			}
+
 			let mut tokens = vec![];
 			let mut new_offset = 0;
 
-- 
2.43.0


From f19fee835dc60b2dae0fac61f5947e0592e61c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:29 +0000
Subject: [PATCH 03/17] fix: decode: reject bool words other than 0 and 1
 instead of reading them as false

---
 ethabi/src/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 5441474..87e47b3 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -34,7 +34,11 @@ fn as_bool(slice: &Word) -> Result<bool, Error> {
 		return Err(Error::InvalidData);
 	}
 
-	Ok(slice[31] == 1)
+	match slice[31] {
+		0 => Ok(false),
+		1 => Ok(true),
+		_ => Err(Error::InvalidData),
+	}
 }
 
 /// Decodes ABI compliant vector of bytes into vector of tokens described by types param.
-- 
2.43.0


From 2769a7b3c583275b23f887878a73fec1a2828657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:29 +0000
Subject: [PATCH 04/17] fix: decode: step over all words of fixed bytes longer
 than 32, and do not overflow on huge sizes

---
 ethabi/src/decoder.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 87e47b3..337375d 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -83,10 +83,9 @@ fn peek_32_bytes(data: &[u8], offset: usize) -> Result<Word, Error> {
 }
 
 fn take_bytes(data: &[u8], offset: usize, len: usize) -> Result<Vec<u8>, Error> {
-	if offset + len > data.len() {
-		Err(Error::InvalidData)
-	} else {
-		Ok((&data[offset..(offset + len)]).to_vec())
+	match offset.checked_add(len) {
+		Some(end) if end <= data.len() => Ok((&data[offset..end]).to_vec()),
+		_ => Err(Error::InvalidData),
 	}
 }
 
@@ -115,10 +114,10 @@ fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeR
 			Ok(result)
 		}
 		ParamType::FixedBytes(len) => {
-			// FixedBytes is anything from bytes1 to bytes32. These values
-			// are padded with trailing zeros to fill 32 bytes.
+			// These values are padded with trailing zeros to fill a whole number
+			// of 32 byte words (a single one for bytes1 to bytes32).
 			let bytes = take_bytes(data, offset, len)?;
-			let result = DecodeResult { token: Token::FixedBytes(bytes), new_offset: offset + 32 };
+			let result = DecodeResult { token: Token::FixedBytes(bytes), new_offset: offset + (len + 31) / 32 * 32 };
 			Ok(result)
 		}
 		ParamType::Bytes => {
-- 
2.43.0


From 148b308856eb2621c9bb57b9e82a0861685d3dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:29 +0000
Subject: [PATCH 05/17] fix: type check: a tuple must have as many members as
 its type

---
 ethabi/src/token/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethabi/src/token/token.rs b/ethabi/src/token/token.rs
index 1df997c..2c34e79 100644
--- a/ethabi/src/token/token.rs
+++ b/ethabi/src/token/token.rs
@@ -125,7 +125,7 @@ impl Token {
 			}
 			Token::Tuple(ref tokens) => {
 				if let ParamType::Tuple(ref param_type) = *param_type {
-					tokens.iter().enumerate().all(|(i, t)| t.type_check(&param_type[i]))
+					Token::types_check(tokens, param_type)
 				} else {
 					false
 				}
-- 
2.43.0


From d20526c4c1410f1e7b7a5d5485791b1dcbe91885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:29 +0000
Subject: [PATCH 06/17] fix: type check: fixed bytes must take as many words as
 their type

---
 ethabi/src/token/token.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ethabi/src/token/token.rs b/ethabi/src/token/token.rs
index 2c34e79..149c902 100644
--- a/ethabi/src/token/token.rs
+++ b/ethabi/src/token/token.rs
@@ -104,7 +104,8 @@ impl Token {
 			Token::String(_) => *param_type == ParamType::String,
 			Token::FixedBytes(ref bytes) => {
 				if let ParamType::FixedBytes(size) = *param_type {
-					size >= bytes.len()
+					// shorter values are padded, but only within their last word
+					size >= bytes.len() && size.saturating_add(31) / 32 == (bytes.len() + 31) / 32
 				} else {
 					false
 				}
-- 
2.43.0


From 868c3f8579989f42a3b23a7a245c86a82182e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:04 +0000
Subject: [PATCH 07/17] fix: parse_log: keep the values of params that share a
 name (eg. unnamed ones) apart

---
 ethabi/src/event.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index d725906..9bc6224 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -10,7 +10,6 @@
 
 use serde::{Deserialize, Serialize};
 use sha3::{Digest, Keccak256};
-use std::collections::HashMap;
 
 use crate::{
 	decode, encode, signature::long_signature, Error, EventParam, Hash, Log, LogParam, ParamType, RawLog,
@@ -30,11 +29,6 @@ pub struct Event {
 }
 
 impl Event {
-	/// Returns names of all params.
-	fn params_names(&self) -> Vec<String> {
-		self.inputs.iter().map(|p| p.name.clone()).collect()
-	}
-
 	/// Returns types of all params.
 	fn param_types(&self) -> Vec<ParamType> {
 		self.inputs.iter().map(|p| p.kind.clone()).collect()
@@ -151,21 +145,23 @@ impl Event {
 			return Err(Error::InvalidData);
 		}
 
-		let topics_named_tokens = topic_params.into_iter().map(|p| p.name).zip(topic_tokens.into_iter());
-
 		let data_types = data_params.iter().map(|p| p.kind.clone()).collect::<Vec<ParamType>>();
 
 		let data_tokens = decode(&data_types, &data)?;
 
-		let data_named_tokens = data_params.into_iter().map(|p| p.name).zip(data_tokens.into_iter());
-
-		let named_tokens = topics_named_tokens.chain(data_named_tokens).collect::<HashMap<String, Token>>();
+		// names are not unique (eg. params may be unnamed), so match tokens by position
+		let mut topic_tokens = topic_tokens.into_iter();
+		let mut data_tokens = data_tokens.into_iter();
 
 		let decoded_params = self
-			.params_names()
-			.into_iter()
-			.map(|name| LogParam { name: name.clone(), value: named_tokens[&name].clone() })
-			.collect();
+			.inputs
+			.iter()
+			.map(|p| {
+				let tokens = if p.indexed { &mut topic_tokens } else { &mut data_tokens };
+				let value = tokens.next().ok_or(Error::InvalidData)?;
+				Ok(LogParam { name: p.name.clone(), value })
+			})
+			.collect::<Result<Vec<_>>>()?;
 
 		let result = Log { params: decoded_params };
 
-- 
2.43.0


From d63aa278dbf0380535a578d2f8c8b54f7599ab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:04 +0000
Subject: [PATCH 08/17] fix: filter: hash indexed strings, bytes, arrays and
 tuples the way the EVM logs them

---
 ethabi/src/event.rs | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index 9bc6224..e88426d 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -50,13 +50,35 @@ impl Event {
 			if !token.type_check(kind) {
 				return Err(Error::InvalidData);
 			}
-			let encoded = encode(&[token]);
-			if encoded.len() == 32 {
-				let mut data = [0u8; 32];
-				data.copy_from_slice(&encoded);
-				Ok(data.into())
-			} else {
-				Ok(Hash::from_slice(Keccak256::digest(&encoded).as_slice()))
+			let hashed = match token {
+				Token::Bytes(bytes) => bytes,
+				Token::String(s) => s.into_bytes(),
+				Token::Array(_) | Token::FixedArray(_) | Token::Tuple(_) => {
+					let mut encoded = vec![];
+					encode_in_place(token, &mut encoded);
+					encoded
+				}
+				value => {
+					let encoded = encode(&[value]);
+					if encoded.len() == 32 {
+						return Ok(Hash::from_slice(&encoded));
+					}
+					encoded
+				}
+			};
+			Ok(Hash::from_slice(Keccak256::digest(&hashed).as_slice()))
+		}
+
+		// Concatenates the encodings of all (nested) elements, without any offset or length
+		// https://solidity.readthedocs.io/en/develop/abi-spec.html#encoding-of-indexed-event-parameters
+		fn encode_in_place(token: Token, out: &mut Vec<u8>) {
+			match token {
+				Token::Array(tokens) | Token::FixedArray(tokens) | Token::Tuple(tokens) => {
+					tokens.into_iter().for_each(|token| encode_in_place(token, out))
+				}
+				Token::String(s) => encode_in_place(Token::FixedBytes(s.into_bytes()), out),
+				Token::Bytes(bytes) => encode_in_place(Token::FixedBytes(bytes), out),
+				value => out.extend(encode(&[value])),
 			}
 		}
 
-- 
2.43.0


From f7f5d5a575036cb5463ab1c05b192cdd2ac1c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:04 +0000
Subject: [PATCH 09/17] fix: params: skip the value of an unknown key when
 reading a param from JSON

---
 ethabi/src/event_param.rs | 6 ++++--
 ethabi/src/param.rs       | 6 ++++--
 ethabi/src/tuple_param.rs | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ethabi/src/event_param.rs b/ethabi/src/event_param.rs
index bf279fb..ae2f16d 100644
--- a/ethabi/src/event_param.rs
+++ b/ethabi/src/event_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType, TupleParam};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -81,7 +81,9 @@ impl<'a> Visitor<'a> for EventParamVisitor {
 					}
 					indexed = Some(map.next_value()?);
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/param.rs b/ethabi/src/param.rs
index a7ed4e5..9d4dff5 100644
--- a/ethabi/src/param.rs
+++ b/ethabi/src/param.rs
@@ -9,7 +9,7 @@
 //! Function param.
 
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	Deserialize, Deserializer, Serialize, Serializer,
 };
 use std::fmt;
@@ -82,7 +82,9 @@ impl<'a> Visitor<'a> for ParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/tuple_param.rs b/ethabi/src/tuple_param.rs
index 1fd72e7..5f8f716 100644
--- a/ethabi/src/tuple_param.rs
+++ b/ethabi/src/tuple_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -83,7 +83,9 @@ impl<'a> Visitor<'a> for TupleParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 
-- 
2.43.0


From 70d8b1bc55fb6c4a31d033f8244283b5c6285f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:04 +0000
Subject: [PATCH 10/17] fix: cli: refuse surplus params of a function instead
 of dropping them

---
 cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index db84036..a42195e 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -172,6 +172,10 @@ fn parse_tokens(params: &[(ParamType, &str)], lenient: bool) -> anyhow::Result<V
 fn encode_input(path: &str, name_or_signature: &str, values: &[String], lenient: bool) -> anyhow::Result<String> {
 	let function = load_function(path, name_or_signature)?;
 
+	if values.len() != function.inputs.len() {
+		return Err(anyhow!("expected {} params, got {}", function.inputs.len(), values.len()));
+	}
+
 	let params: Vec<_> =
 		function.inputs.iter().map(|param| param.kind.clone()).zip(values.iter().map(|v| v as &str)).collect();
 
-- 
2.43.0


From 12facf18d2e4f952cc4f89f0f4bab724263484f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:04 +0000
Subject: [PATCH 11/17] fix: lenient tokenizer: reject numbers without digits
 or with several minus signs

---
 ethabi/src/token/lenient.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ethabi/src/token/lenient.rs b/ethabi/src/token/lenient.rs
index aa63e39..74dee3f 100644
--- a/ethabi/src/token/lenient.rs
+++ b/ethabi/src/token/lenient.rs
@@ -16,6 +16,14 @@ use anyhow::anyhow;
 /// Tries to parse string as a token. Does not require string to clearly represent the value.
 pub struct LenientTokenizer;
 
+fn parse_dec(value: &str) -> Result<Uint, Error> {
+	// `from_dec_str` reads an empty string as zero
+	if value.is_empty() {
+		return Err(Error::InvalidData);
+	}
+	Uint::from_dec_str(value).map_err(Into::into)
+}
+
 impl Tokenizer for LenientTokenizer {
 	fn tokenize_address(value: &str) -> Result<[u8; 20], Error> {
 		StrictTokenizer::tokenize_address(value)
@@ -43,8 +51,7 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
-		let uint = Uint::from_dec_str(value)?;
-		Ok(uint.into())
+		Ok(parse_dec(value)?.into())
 	}
 
 	// We don't have a proper signed int 256-bit long type, so here we're cheating. We build a U256
@@ -56,7 +63,7 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
-		let abs = Uint::from_dec_str(value.trim_start_matches('-'))?;
+		let abs = parse_dec(value.strip_prefix('-').unwrap_or(value))?;
 		let max = Uint::max_value() / 2;
 		let int = if value.starts_with('-') {
 			if abs.is_zero() {
-- 
2.43.0


From dae81a7633ddcc4afb0152cf18b2b6deb2fee985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:04 +0000
Subject: [PATCH 12/17] fix: tokenizer: arrays within tuples and tuples within
 arrays, tuple arity, unbalanced brackets, non-ASCII text

---
 ethabi/src/token/mod.rs | 168 +++++++++++++++++-----------------------
 1 file changed, 69 insertions(+), 99 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index 6330a43..e5c6fd6 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -12,8 +12,6 @@ mod lenient;
 mod strict;
 mod token;
 
-use std::cmp::Ordering::{Equal, Less};
-
 pub use self::{lenient::LenientTokenizer, strict::StrictTokenizer, token::Token};
 use crate::{Error, ParamType};
 
@@ -46,112 +44,20 @@ pub trait Tokenizer {
 
 	/// Tried to parse a struct as a vector of tokens
 	fn tokenize_struct(value: &str, param: &[ParamType]) -> Result<Vec<Token>, Error> {
-		if !value.starts_with('(') || !value.ends_with(')') {
-			return Err(Error::InvalidData);
-		}
-
-		if value.chars().count() == 2 {
-			return Ok(vec![]);
-		}
-
-		let mut result = vec![];
-		let mut nested = 0isize;
-		let mut ignore = false;
-		let mut last_item = 1;
-		let mut params = param.iter();
-		for (pos, ch) in value.chars().enumerate() {
-			match ch {
-				'(' if !ignore => {
-					nested += 1;
-				}
-				')' if !ignore => {
-					nested -= 1;
-
-					match nested.cmp(&0) {
-						Less => {
-							return Err(Error::InvalidData);
-						}
-						Equal => {
-							let sub = &value[last_item..pos];
-							let token = Self::tokenize(params.next().ok_or(Error::InvalidData)?, sub)?;
-							result.push(token);
-							last_item = pos + 1;
-						}
-						_ => {}
-					}
-				}
-				'"' => {
-					ignore = !ignore;
-				}
-				',' if nested == 1 && !ignore => {
-					let sub = &value[last_item..pos];
-					let token = Self::tokenize(params.next().ok_or(Error::InvalidData)?, sub)?;
-					result.push(token);
-					last_item = pos + 1;
-				}
-				_ => (),
-			}
-		}
+		let items = split_items(value, ('(', ')'), ('[', ']'), param.iter().any(contains_array))?;
 
-		if ignore {
+		if items.len() != param.len() {
 			return Err(Error::InvalidData);
 		}
 
-		Ok(result)
+		param.iter().zip(items).map(|(param, item)| Self::tokenize(param, item)).collect()
 	}
 
 	/// Tries to parse a value as a vector of tokens.
 	fn tokenize_array(value: &str, param: &ParamType) -> Result<Vec<Token>, Error> {
-		if !value.starts_with('[') || !value.ends_with(']') {
-			return Err(Error::InvalidData);
-		}
-
-		if value.chars().count() == 2 {
-			return Ok(vec![]);
-		}
-
-		let mut result = vec![];
-		let mut nested = 0isize;
-		let mut ignore = false;
-		let mut last_item = 1;
-		for (i, ch) in value.chars().enumerate() {
-			match ch {
-				'[' if !ignore => {
-					nested += 1;
-				}
-				']' if !ignore => {
-					nested -= 1;
-					match nested.cmp(&0) {
-						Less => {
-							return Err(Error::InvalidData);
-						}
-						Equal => {
-							let sub = &value[last_item..i];
-							let token = Self::tokenize(param, sub)?;
-							result.push(token);
-							last_item = i + 1;
-						}
-						_ => {}
-					}
-				}
-				'"' => {
-					ignore = !ignore;
-				}
-				',' if nested == 1 && !ignore => {
-					let sub = &value[last_item..i];
-					let token = Self::tokenize(param, sub)?;
-					result.push(token);
-					last_item = i + 1;
-				}
-				_ => (),
-			}
-		}
-
-		if ignore {
-			return Err(Error::InvalidData);
-		}
+		let items = split_items(value, ('[', ']'), ('(', ')'), contains_tuple(param))?;
 
-		Ok(result)
+		items.into_iter().map(|item| Self::tokenize(param, item)).collect()
 	}
 
 	/// Tries to parse a value as an address.
@@ -176,6 +82,70 @@ pub trait Tokenizer {
 	fn tokenize_int(value: &str) -> Result<[u8; 32], Error>;
 }
 
+/// Splits a bracketed list into its items, which are separated by commas.
+///
+/// Commas and brackets within double quotes do not count, nor do commas within nested
+/// brackets. Brackets of the `other` kind are text unless `nest_other` is set.
+fn split_items(
+	value: &str,
+	(open, close): (char, char),
+	other: (char, char),
+	nest_other: bool,
+) -> Result<Vec<&str>, Error> {
+	let list = value.strip_prefix(open).and_then(|v| v.strip_suffix(close)).ok_or(Error::InvalidData)?;
+
+	if list.is_empty() {
+		return Ok(vec![]);
+	}
+
+	let mut items = vec![];
+	// brackets which still have to be closed
+	let mut nested = vec![];
+	let mut ignore = false;
+	let mut last_item = 0;
+	for (pos, ch) in list.char_indices() {
+		match ch {
+			'"' => ignore = !ignore,
+			_ if ignore => (),
+			',' if nested.is_empty() => {
+				items.push(&list[last_item..pos]);
+				last_item = pos + 1;
+			}
+			_ if ch == open => nested.push(close),
+			_ if nest_other && ch == other.0 => nested.push(other.1),
+			_ if ch == close || nest_other && ch == other.1 => {
+				if nested.pop() != Some(ch) {
+					return Err(Error::InvalidData);
+				}
+			}
+			_ => (),
+		}
+	}
+
+	if ignore || !nested.is_empty() {
+		return Err(Error::InvalidData);
+	}
+
+	items.push(&list[last_item..]);
+	Ok(items)
+}
+
+fn contains_array(param: &ParamType) -> bool {
+	match *param {
+		ParamType::Array(_) | ParamType::FixedArray(_, _) => true,
+		ParamType::Tuple(ref params) => params.iter().any(contains_array),
+		_ => false,
+	}
+}
+
+fn contains_tuple(param: &ParamType) -> bool {
+	match *param {
+		ParamType::Array(ref param) | ParamType::FixedArray(ref param, _) => contains_tuple(param),
+		ParamType::Tuple(_) => true,
+		_ => false,
+	}
+}
+
 #[cfg(test)]
 mod test {
 	use super::{LenientTokenizer, ParamType, Tokenizer};
-- 
2.43.0


From 873a3ac5bad37cbc9ee4657566fff89ad32a8628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:04 +0000
Subject: [PATCH 13/17] fix: type reader: read nested tuples as written, and do
 not panic on malformed names

---
 ethabi/src/param_type/reader.rs | 118 +++++++-------------------------
 1 file changed, 25 insertions(+), 93 deletions(-)

diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index 83e0267..81a8e81 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -17,120 +17,52 @@ impl Reader {
 		match name.chars().last() {
 			// check if it is a struct
 			Some(')') => {
-				if !name.starts_with('(') {
-					return Err(Error::InvalidName(name.to_owned()));
+				let list = match name.strip_prefix('(') {
+					Some(rest) => &rest[..rest.len() - 1],
+					None => return Err(Error::InvalidName(name.to_owned())),
 				};
 
 				let mut subtypes = Vec::new();
-				let mut subtuples = Vec::new();
-				let mut nested = 0isize;
-				let mut top_level_paren_open = 0usize;
-				let mut last_item = 1;
-				let mut chars = name.chars().enumerate();
-
-				// Iterate over name and build the nested tuple structure
-				while let Some((mut pos, c)) = chars.next() {
-					match c {
-						'(' => {
-							top_level_paren_open = pos;
-							nested += 1;
-							// If an '(' is encountered within the tuple
-							// insert an empty subtuples vector to be filled
-							if nested > 1 {
-								subtuples.push(vec![]);
-								last_item = pos + 1;
-							}
-						}
-						')' => {
-							nested -= 1;
-
-							// End parsing and return an error if parentheses aren't symmetrical
-							if nested < 0 {
-								return Err(Error::InvalidName(name.to_owned()));
-							}
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							else if name[last_item..pos].is_empty() {
-								last_item = pos + 1;
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 0 {
-								// check for trailing brackets that indicate array of tuples
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							else if nested > 0 {
-								// this makes sure trailing brackets are included for the next step
-								loop {
-									match chars.clone().next() {
-										Some((_, ',')) | Some((_, ')')) | None => break,
-										_ => {
-											// consume the char and shift position
-											chars.next();
-											pos += 1;
-										}
-									}
-								}
-
-								// parse the nested tuple
-								let inner_tuple = &name[top_level_paren_open..=pos];
-								let subtype = Reader::read(inner_tuple)?;
-
-								if nested > 1 {
-									let mut subtuple = std::mem::take(&mut subtuples[(nested - 2) as usize]);
-									subtuple.push(subtype);
-									subtypes.push(ParamType::Tuple(subtuple));
-								} else {
-									subtypes.push(subtype);
-								}
+				if !list.is_empty() {
+					let mut nested = 0isize;
+					let mut last_item = 0;
+
+					// split the list at the commas which are not within a nested tuple
+					for (pos, c) in list.char_indices() {
+						match c {
+							'(' => nested += 1,
+							')' => nested -= 1,
+							',' if nested == 0 => {
+								subtypes.push(Reader::read(&list[last_item..pos])?);
 								last_item = pos + 1;
 							}
+							_ => (),
 						}
-						',' => {
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							if name[last_item..pos].is_empty() {
-								last_item = pos + 1
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							// insert it into the subtuple vector for the current depth level
-							else if nested > 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtuples[(nested - 2) as usize].push(subtype);
-								last_item = pos + 1;
-							}
+						// End parsing and return an error if parentheses aren't symmetrical
+						if nested < 0 {
+							return Err(Error::InvalidName(name.to_owned()));
 						}
-						_ => (),
 					}
+					subtypes.push(Reader::read(&list[last_item..])?);
 				}
 				return Ok(ParamType::Tuple(subtypes));
 			}
 			// check if it is a fixed or dynamic array.
 			Some(']') => {
+				let num_start = match name.rfind('[') {
+					Some(pos) => pos + 1,
+					None => return Err(Error::InvalidName(name.to_owned())),
+				};
 				// take number part
-				let num: String =
-					name.chars().rev().skip(1).take_while(|c| *c != '[').collect::<String>().chars().rev().collect();
+				let num = &name[num_start..name.len() - 1];
+				let subtype = Reader::read(&name[..num_start - 1])?;
 
-				let count = name.chars().count();
 				return if num.is_empty() {
 					// we already know it's a dynamic array!
-					let subtype = Reader::read(&name[..count - 2])?;
 					Ok(ParamType::Array(Box::new(subtype)))
 				} else {
 					// it's a fixed array.
 					let len = num.parse()?;
-					let subtype = Reader::read(&name[..count - num.len() - 2])?;
 					Ok(ParamType::FixedArray(Box::new(subtype), len))
 				};
 			}
-- 
2.43.0


From 3bc0f2927e02ca9a9e59920a3a3f08fc3aff7270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:54 +0000
Subject: [PATCH 14/17] fix: derive: generate code that compiles for fixed
 arrays in outputs, events and nested arrays

---
 derive/src/event.rs |  4 ++--
 derive/src/lib.rs   | 18 +++++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index 079ce7a..4b874aa 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -10,7 +10,7 @@ use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
-use super::{from_token, get_template_names, rust_type, to_syntax_string, to_token};
+use super::{from_token, get_template_names, iterable, rust_type, to_syntax_string, to_token};
 
 /// Structure used to generate contract's event interface.
 pub struct Event {
@@ -96,7 +96,7 @@ impl<'a> From<&'a ethabi::Event> for Event {
 			.map(|(index, (param_name, param))| {
 				let topic = syn::Ident::new(&format!("topic{}", index), Span::call_site());
 				let i = quote! { i };
-				let to_token = to_token(&i, &param.kind);
+				let to_token = to_token(&iterable(&i, &param.kind), &param.kind);
 				quote! { #topic: #param_name.into().map(|#i| #to_token), }
 			})
 			.collect();
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index ce70efa..06d7e7a 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -143,7 +143,7 @@ fn rust_type(input: &ParamType) -> proc_macro2::TokenStream {
 		}
 		ParamType::FixedArray(ref kind, size) => {
 			let t = rust_type(&*kind);
-			quote! { [#t, #size] }
+			quote! { [#t; #size] }
 		}
 		ParamType::Tuple(_) => {
 			unimplemented!("Tuples are not supported. https://github.com/openethereum/ethabi/issues/175")
@@ -202,7 +202,7 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 		ParamType::String => quote! { ethabi::Token::String(#name) },
 		ParamType::Array(ref kind) => {
 			let inner_name = quote! { inner };
-			let inner_loop = to_token(&inner_name, kind);
+			let inner_loop = to_token(&iterable(&inner_name, kind), kind);
 			quote! {
 				// note the double {{
 				{
@@ -213,7 +213,7 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 		}
 		ParamType::FixedArray(ref kind, _) => {
 			let inner_name = quote! { inner };
-			let inner_loop = to_token(&inner_name, kind);
+			let inner_loop = to_token(&iterable(&inner_name, kind), kind);
 			quote! {
 				// note the double {{
 				{
@@ -228,6 +228,14 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 	}
 }
 
+/// `into_iter` of a rust array yields references in the 2018 edition, the one of a vector values.
+fn iterable(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::TokenStream {
+	match *kind {
+		ParamType::FixedArray(_, _) => quote! { Vec::from(#name) },
+		_ => name.clone(),
+	}
+}
+
 fn from_token(kind: &ParamType, token: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
 	match *kind {
 		ParamType::Address => quote! { #token.into_address().expect(INTERNAL_ERR) },
@@ -267,10 +275,10 @@ fn from_token(kind: &ParamType, token: &proc_macro2::TokenStream) -> proc_macro2
 		ParamType::FixedArray(ref kind, size) => {
 			let inner = quote! { inner };
 			let inner_loop = from_token(kind, &inner);
-			let to_array = vec![quote! { iter.next() }; size];
+			let to_array = vec![quote! { iter.next().expect(INTERNAL_ERR) }; size];
 			quote! {
 				{
-					let iter = #token.to_array().expect(INTERNAL_ERR).into_iter()
+					let mut iter = #token.into_fixed_array().expect(INTERNAL_ERR).into_iter()
 						.map(|#inner| #inner_loop);
 					[#(#to_array),*]
 				}
-- 
2.43.0


From 7751939f7f8912efca55399015474957ed39ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:54 +0000
Subject: [PATCH 15/17] fix: derive: parse logs with indexed strings, bytes and
 arrays instead of panicking

---
 derive/src/event.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index 4b874aa..8af0afe 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -6,12 +6,30 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
+use ethabi::ParamType;
 use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
 use super::{from_token, get_template_names, iterable, rust_type, to_syntax_string, to_token};
 
+/// Returns the type of an event param in a parsed log, which has only the hash of
+/// an indexed param of a reference type.
+fn log_kind(param: &ethabi::EventParam) -> ParamType {
+	match param.kind {
+		ParamType::String
+		| ParamType::Bytes
+		| ParamType::Array(_)
+		| ParamType::FixedArray(_, _)
+		| ParamType::Tuple(_)
+			if param.indexed =>
+		{
+			ParamType::FixedBytes(32)
+		}
+		ref kind => kind.clone(),
+	}
+}
+
 /// Structure used to generate contract's event interface.
 pub struct Event {
 	name: String,
@@ -43,13 +61,14 @@ impl<'a> From<&'a ethabi::Event> for Event {
 				}
 			})
 			.collect();
-		let kinds: Vec<_> = e.inputs.iter().map(|param| rust_type(&param.kind)).collect();
+		let log_kinds: Vec<_> = e.inputs.iter().map(log_kind).collect();
+		let kinds: Vec<_> = log_kinds.iter().map(rust_type).collect();
 		let log_fields =
 			names.iter().zip(kinds.iter()).map(|(param_name, kind)| quote! { pub #param_name: #kind }).collect();
 
 		let log_iter = quote! { log.next().expect(INTERNAL_ERR).value };
 
-		let to_log: Vec<_> = e.inputs.iter().map(|param| from_token(&param.kind, &log_iter)).collect();
+		let to_log: Vec<_> = log_kinds.iter().map(|kind| from_token(kind, &log_iter)).collect();
 
 		let log_init =
 			names.iter().zip(to_log.iter()).map(|(param_name, convert)| quote! { #param_name: #convert }).collect();
-- 
2.43.0


From 3ee73e4b16504a7b16c1b5b558eb94e3b81c01d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:46 +0000
Subject: [PATCH 16/17] fix: derived bindings with arrays of fixed bytes or
 arrays as inputs did not compile

---
 derive/src/lib.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 06d7e7a..608882a 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -183,14 +183,26 @@ fn template_param_type(input: &ParamType, index: usize) -> proc_macro2::TokenStr
 
 fn from_template_param(input: &ParamType, name: &syn::Ident) -> proc_macro2::TokenStream {
 	match *input {
-		ParamType::Array(_) => quote! { #name.into_iter().map(Into::into).collect::<Vec<_>>() },
-		ParamType::FixedArray(_, _) => {
-			quote! { (Box::new(#name.into()) as Box<[_]>).into_vec().into_iter().map(Into::into).collect::<Vec<_>>() }
+		ParamType::Array(ref kind) => {
+			let t = element_type(kind);
+			quote! { #name.into_iter().map(Into::into).collect::<Vec<#t>>() }
+		}
+		ParamType::FixedArray(ref kind, _) => {
+			let t = element_type(kind);
+			quote! { (Box::new(#name.into()) as Box<[_]>).into_vec().into_iter().map(Into::into).collect::<Vec<#t>>() }
 		}
 		_ => quote! {#name.into() },
 	}
 }
 
+/// Returns the type of array elements, where the compiler can't infer it from the token.
+fn element_type(kind: &ParamType) -> proc_macro2::TokenStream {
+	match *kind {
+		ParamType::FixedBytes(_) | ParamType::Array(_) | ParamType::FixedArray(_, _) => rust_type(kind),
+		_ => quote! { _ },
+	}
+}
+
 fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::TokenStream {
 	match *kind {
 		ParamType::Address => quote! { ethabi::Token::Address(#name) },
-- 
2.43.0


From d1aca80d41580b5d43c559b374b994ef49d48174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:52 +0000
Subject: [PATCH 17/17] fix: derive: accept names that are keywords or that the
 generated code uses

---
 derive/src/event.rs    | 18 ++++++++++--------
 derive/src/function.rs |  8 ++++----
 derive/src/lib.rs      | 26 ++++++++++++++++++++------
 3 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index 8af0afe..41cadc4 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -11,7 +11,9 @@ use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
-use super::{from_token, get_template_names, iterable, rust_type, to_syntax_string, to_token};
+use super::{
+	from_token, get_template_names, iterable, rust_ident, rust_type, rust_variable, to_syntax_string, to_token,
+};
 
 /// Returns the type of an event param in a parsed log, which has only the hash of
 /// an indexed param of a reference type.
@@ -50,14 +52,14 @@ impl<'a> From<&'a ethabi::Event> for Event {
 			.iter()
 			.enumerate()
 			.map(|(index, param)| {
-				if param.name.is_empty() {
+				if param.name.to_snake_case().is_empty() {
 					if param.indexed {
 						syn::Ident::new(&format!("topic{}", index), Span::call_site())
 					} else {
 						syn::Ident::new(&format!("param{}", index), Span::call_site())
 					}
 				} else {
-					syn::Ident::new(&param.name.to_snake_case(), Span::call_site())
+					rust_ident(&param.name.to_snake_case())
 				}
 			})
 			.collect();
@@ -81,10 +83,10 @@ impl<'a> From<&'a ethabi::Event> for Event {
 			.enumerate()
 			.filter(|&(_, param)| param.indexed)
 			.map(|(index, param)| {
-				if param.name.is_empty() {
+				if param.name.to_snake_case().is_empty() {
 					syn::Ident::new(&format!("topic{}", index), Span::call_site())
 				} else {
-					syn::Ident::new(&param.name.to_snake_case(), Span::call_site())
+					rust_variable(&param.name)
 				}
 			})
 			.collect();
@@ -156,7 +158,7 @@ impl<'a> From<&'a ethabi::Event> for Event {
 impl Event {
 	/// Generates event log struct.
 	pub fn generate_log(&self) -> TokenStream {
-		let name = syn::Ident::new(&self.name.to_camel_case(), Span::call_site());
+		let name = rust_ident(&self.name.to_camel_case());
 		let log_fields = &self.log_fields;
 
 		quote! {
@@ -170,8 +172,8 @@ impl Event {
 	/// Generates rust interface for contract's event.
 	pub fn generate_event(&self) -> TokenStream {
 		let name_as_string = &self.name.to_camel_case();
-		let name = syn::Ident::new(&self.name.to_snake_case(), Span::call_site());
-		let camel_name = syn::Ident::new(&self.name.to_camel_case(), Span::call_site());
+		let name = rust_ident(&self.name.to_snake_case());
+		let camel_name = rust_ident(&self.name.to_camel_case());
 		let recreate_inputs_quote = &self.recreate_inputs_quote;
 		let anonymous = &self.anonymous;
 		let log_init = &self.log_init;
diff --git a/derive/src/function.rs b/derive/src/function.rs
index 8b1a90d..6bc2287 100644
--- a/derive/src/function.rs
+++ b/derive/src/function.rs
@@ -7,12 +7,12 @@
 // except according to those terms.
 
 use heck::SnakeCase;
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::quote;
 
 use super::{
-	from_template_param, from_token, get_output_kinds, get_template_names, input_names, rust_type, template_param_type,
-	to_ethabi_param_vec, to_token,
+	from_template_param, from_token, get_output_kinds, get_template_names, input_names, rust_ident, rust_type,
+	template_param_type, to_ethabi_param_vec, to_token,
 };
 
 struct TemplateParam {
@@ -149,7 +149,7 @@ impl Function {
 	/// Generates the interface for contract's function.
 	pub fn generate(&self) -> TokenStream {
 		let name = &self.name;
-		let module_name = syn::Ident::new(&self.name.to_snake_case(), Span::call_site());
+		let module_name = rust_ident(&self.name.to_snake_case());
 		let tokenize = &self.inputs.tokenize;
 		let declarations: &Vec<_> = &self.inputs.template_params.iter().map(|i| &i.declaration).collect();
 		let definitions: &Vec<_> = &self.inputs.template_params.iter().map(|i| &i.definition).collect();
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 608882a..4cac2fd 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -307,10 +307,10 @@ fn input_names(inputs: &[Param]) -> Vec<syn::Ident> {
 		.iter()
 		.enumerate()
 		.map(|(index, param)| {
-			if param.name.is_empty() {
+			if param.name.to_snake_case().is_empty() {
 				syn::Ident::new(&format!("param{}", index), Span::call_site())
 			} else {
-				syn::Ident::new(&rust_variable(&param.name), Span::call_site())
+				rust_variable(&param.name)
 			}
 		})
 		.collect()
@@ -337,10 +337,24 @@ fn get_output_kinds(outputs: &[Param]) -> proc_macro2::TokenStream {
 /// Convert input into a rust variable name.
 ///
 /// Avoid using keywords by escaping them.
-fn rust_variable(name: &str) -> String {
-	// avoid keyword parameters
+fn rust_variable(name: &str) -> syn::Ident {
+	match name.to_snake_case().as_str() {
+		// avoid names the generated functions use
+		taken @ "c" | taken @ "code" | taken @ "event" | taken @ "f" | taken @ "function" => {
+			syn::Ident::new(&format!("_{}", taken), Span::call_site())
+		}
+		other => rust_ident(other),
+	}
+}
+
+/// Convert name into a rust identifier, avoiding keywords.
+fn rust_ident(name: &str) -> syn::Ident {
 	match name {
-		"self" => "_self".to_string(),
-		other => other.to_snake_case(),
+		// keywords since the 2018 edition, which syn accepts
+		"async" | "await" | "dyn" | "try" => syn::Ident::new(&format!("_{}", name), Span::call_site()),
+		_ => match syn::parse_str::<syn::Ident>(name) {
+			Ok(_) => syn::Ident::new(name, Span::call_site()),
+			Err(_) => syn::Ident::new(&format!("_{}", name), Span::call_site()),
+		},
 	}
 }
-- 
2.43.0

