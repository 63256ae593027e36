From 0a47c0769ea96068b83032a9f2efb8d9982469c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:51 +0000
Subject: [PATCH 01/48] fix: a graph variable does not match the default graph
 instead of panicking

---
 layouts/src/pattern.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/layouts/src/pattern.rs b/layouts/src/pattern.rs
index 8136960..85aacfa 100644
--- a/layouts/src/pattern.rs
+++ b/layouts/src/pattern.rs
@@ -174,7 +174,8 @@ impl<R> Substitution<R> {
 		}
 
 		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
+			// A variable stands for a resource: it cannot match the default graph.
+			let g = value.3?;
 			if let Some(old_value) = result.set(x, Some(g.clone())) {
 				if old_value != *g {
 					return None;
-- 
2.43.0


From dc94a40439acb6ff47de6461cefba23d5fa3c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:35 +0000
Subject: [PATCH 02/48] fix: hydrate sum variants with the variables they
 introduce

---
 layouts/src/distill/hy/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 43d7117..4b50aa6 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -263,7 +263,7 @@ where
 
 				let variant_substitution = Matching::new(
 					dataset,
-					substitution.clone(),
+					variant_substitution,
 					variant.dataset.quads().with_default_graph(current_graph),
 				)
 				.into_unique()
-- 
2.43.0


From 515d2ea61e73ee9d55286e399db89290e07779b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:10 +0000
Subject: [PATCH 03/48] fix: hydration reports an error instead of panicking

Data that does not match the layout (unknown datatype, ambiguous or
missing variant, unnamed resource, ...) hit todo!() and unwrap() calls.
---
 layouts/src/distill/hy/data.rs | 50 +++++++++---------
 layouts/src/distill/hy/mod.rs  | 96 ++++++++++++++++++++--------------
 2 files changed, 82 insertions(+), 64 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index b377bf9..7ba3fc2 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -64,7 +64,7 @@ where
 				.resource
 				.apply(&substitution)
 				.into_resource()
-				.unwrap();
+				.ok_or(Error::IncompatibleLayout)?;
 
 			let mut value = None;
 
@@ -72,16 +72,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue, // not the expected datatype.
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_boolean_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.clone().cast(),
+						))));
 					}
 				}
 			}
@@ -107,7 +107,7 @@ where
 				.resource
 				.apply(&substitution)
 				.into_resource()
-				.unwrap();
+				.ok_or(Error::IncompatibleLayout)?;
 
 			let mut value = None;
 
@@ -115,16 +115,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue, // not the expected datatype.
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_number_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.clone().cast(),
+						))));
 					}
 				}
 			}
@@ -150,7 +150,7 @@ where
 				.resource
 				.apply(&substitution)
 				.into_resource()
-				.unwrap();
+				.ok_or(Error::IncompatibleLayout)?;
 
 			let mut value = None;
 
@@ -158,16 +158,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue, // not the expected datatype.
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_byte_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.clone().cast(),
+						))));
 					}
 				}
 			}
@@ -193,7 +193,7 @@ where
 				.resource
 				.apply(&substitution)
 				.into_resource()
-				.unwrap();
+				.ok_or(Error::IncompatibleLayout)?;
 
 			let mut value = None;
 
@@ -201,16 +201,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue, // not the expected datatype.
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_text_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.clone().cast(),
+						))));
 					}
 				}
 			}
@@ -228,9 +228,9 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 	if type_ == xsd_types::XSD_BOOLEAN {
 		Boolean::parse_xsd(value)
 			.map(Boolean::into)
-			.map_err(|_| todo!())
+			.map_err(|_| Error::NoMatchingLiteral)
 	} else {
-		todo!() // unknown boolean type.
+		Err(Error::NoMatchingLiteral) // unknown boolean type.
 	}
 }
 
@@ -241,16 +241,14 @@ fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>>
 				let decimal = value.value();
 				Ok(decimal.into_big_rational().into())
 			}
-			Err(_) => {
-				todo!()
-			}
+			Err(_) => Err(Error::NoMatchingLiteral),
 		},
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
 	}
 }
 
 fn hydrate_byte_string_value<R>(_value: &str, _type_: &Iri) -> Result<Vec<u8>, Error<R>> {
-	todo!()
+	Err(Error::NoMatchingLiteral) // no byte string datatype is supported yet.
 }
 
 fn hydrate_text_string_value<R>(value: &str, _type_: &Iri) -> Result<String, Error<R>> {
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 4b50aa6..2936423 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -217,7 +217,7 @@ where
 						.resource
 						.apply(&substitution)
 						.into_resource()
-						.unwrap();
+						.ok_or(Error::IncompatibleLayout)?;
 
 					let mut selected = None;
 
@@ -227,7 +227,9 @@ where
 						// TODO check automaton.
 
 						if selected.replace(iri).is_some() {
-							todo!() // Error: IRI ambiguity
+							return Err(Error::DataAmbiguity(Box::new(
+								DataFragment::Discriminant(layout_ref.clone()),
+							)));
 						}
 					}
 
@@ -236,9 +238,7 @@ where
 							iri.to_string(),
 							layout_ref.casted(),
 						))),
-						None => {
-							todo!() // Error no IRI matching the layout
-						}
+						None => Err(Error::NoMatchingLiteral),
 					}
 				}
 			}
@@ -275,13 +275,13 @@ where
 				match variant_substitution {
 					Some(variant_substitution) => {
 						let variant_inputs =
-							select_inputs(&variant.value.input, &variant_substitution);
+							select_inputs(&variant.value.input, &variant_substitution)?;
 
 						let variant_graph = select_graph(
 							current_graph,
 							&variant.value.graph,
 							&variant_substitution,
-						);
+						)?;
 
 						let value = hydrate_with_ref(
 							vocabulary,
@@ -294,14 +294,14 @@ where
 						);
 
 						match value {
-							Ok(value) => {
-								match selected.take() {
-									Some((_j, _other_value)) => {
-										todo!() // Error: variant ambiguity
-									}
-									None => selected = Some((i, value)),
+							Ok(value) => match selected.take() {
+								Some((_j, _other_value)) => {
+									return Err(Error::DataAmbiguity(Box::new(
+										DataFragment::Discriminant(layout_ref.clone()),
+									)));
 								}
-							}
+								None => selected = Some((i, value)),
+							},
 							Err(e) => failures.push(Some(e)),
 						}
 					}
@@ -315,9 +315,9 @@ where
 					layout_ref.casted(),
 					i as u32,
 				)),
-				None => {
-					todo!() // Error: no variant found
-				}
+				None => Err(Error::MissingData(Box::new(DataFragment::Discriminant(
+					layout_ref.clone(),
+				)))),
 			}
 		}
 		Layout::Product(layout) => {
@@ -351,10 +351,10 @@ where
 
 				match field_substitution {
 					Some(field_substitution) => {
-						let field_inputs = select_inputs(&field.value.input, &field_substitution);
+						let field_inputs = select_inputs(&field.value.input, &field_substitution)?;
 
 						let item_graph =
-							select_graph(current_graph, &field.value.graph, &field_substitution);
+							select_graph(current_graph, &field.value.graph, &field_substitution)?;
 
 						let value = hydrate_with_ref(
 							vocabulary,
@@ -410,13 +410,13 @@ where
 
 					for item_substitution in matching {
 						let item_inputs =
-							select_inputs(&layout.item.value.input, &item_substitution);
+							select_inputs(&layout.item.value.input, &item_substitution)?;
 
 						let item_graph = select_graph(
 							current_graph,
 							&layout.item.value.graph,
 							&item_substitution,
-						);
+						)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -447,8 +447,16 @@ where
 					.into_required_unique()
 					.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-					let mut head = layout.head.apply(&substitution).into_resource().unwrap();
-					let tail = layout.tail.apply(&substitution).into_resource().unwrap();
+					let mut head = layout
+						.head
+						.apply(&substitution)
+						.into_resource()
+						.ok_or(Error::IncompatibleLayout)?;
+					let tail = layout
+						.tail
+						.apply(&substitution)
+						.into_resource()
+						.ok_or(Error::IncompatibleLayout)?;
 
 					let mut items = Vec::new();
 
@@ -474,13 +482,13 @@ where
 						})?;
 
 						let item_inputs =
-							select_inputs(&layout.node.value.input, &item_substitution);
+							select_inputs(&layout.node.value.input, &item_substitution)?;
 
 						let item_graph = select_graph(
 							current_graph,
 							&layout.node.value.graph,
 							&item_substitution,
-						);
+						)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -494,7 +502,10 @@ where
 
 						items.push(item);
 
-						head = item_substitution.get(rest).unwrap().clone();
+						head = item_substitution
+							.get(rest)
+							.ok_or(Error::IncompatibleLayout)?
+							.clone();
 					}
 
 					Ok(TypedValue::List(items, layout_ref.casted()))
@@ -528,9 +539,9 @@ where
 							index,
 						})?;
 
-						let item_inputs = select_inputs(&item.value.input, &item_substitution);
+						let item_inputs = select_inputs(&item.value.input, &item_substitution)?;
 						let item_graph =
-							select_graph(current_graph, &item.value.graph, &item_substitution);
+							select_graph(current_graph, &item.value.graph, &item_substitution)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -553,10 +564,17 @@ where
 	}
 }
 
-fn select_inputs<R: Clone>(inputs: &[Pattern<R>], substitution: &Substitution<R>) -> Vec<R> {
+fn select_inputs<R: Clone>(
+	inputs: &[Pattern<R>],
+	substitution: &Substitution<R>,
+) -> Result<Vec<R>, Error<R>> {
 	inputs
 		.iter()
-		.map(|p| p.apply(substitution).into_resource().unwrap())
+		.map(|p| {
+			p.apply(substitution)
+				.into_resource()
+				.ok_or(Error::IncompatibleLayout)
+		})
 		.collect()
 }
 
@@ -564,12 +582,14 @@ fn select_graph<R: Clone>(
 	current_graph: Option<&R>,
 	graph_pattern: &Option<Option<Pattern<R>>>,
 	substitution: &Substitution<R>,
-) -> Option<R> {
-	graph_pattern
-		.as_ref()
-		.map(|g| {
-			g.as_ref()
-				.map(|p| p.apply(substitution).into_resource().unwrap())
-		})
-		.unwrap_or_else(|| current_graph.cloned())
+) -> Result<Option<R>, Error<R>> {
+	match graph_pattern {
+		Some(Some(p)) => p
+			.apply(substitution)
+			.into_resource()
+			.map(Some)
+			.ok_or(Error::IncompatibleLayout),
+		Some(None) => Ok(None),
+		None => Ok(current_graph.cloned()),
+	}
 }
-- 
2.43.0


From e7bd09e1f18fb3eb7c24872027d6dcbfd1d8a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:57 +0000
Subject: [PATCH 04/48] fix: hydrating a cyclic list is an error instead of an
 endless loop

---
 layouts/src/distill/hy/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 2936423..2f45466 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 use crate::{
 	abs::syntax::{OrderedListLayoutType, SizedListLayoutType},
@@ -459,8 +459,13 @@ where
 						.ok_or(Error::IncompatibleLayout)?;
 
 					let mut items = Vec::new();
+					let mut visited = BTreeSet::new();
 
 					while head != tail {
+						if !visited.insert(head.clone()) {
+							return Err(Error::IncompatibleLayout); // cyclic list.
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head.clone())); // the head
 						let rest = item_substitution.intro(1 + layout.node.intro); // the rest, and other intro variables.
-- 
2.43.0


From c4607effd42dfee180ce1776786c6f5e5ac11631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 05/48] fix: hydrating cyclic data with a recursive layout is
 an error instead of a stack overflow

---
 layouts/src/distill/hy/mod.rs | 48 +++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 2f45466..7942a54 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -150,17 +150,49 @@ where
 		interpretation,
 		&context,
 		dataset,
+		None,
 		current_graph,
 		layout_ref,
 		inputs,
 	)
 }
 
+/// Hydration in progress, used to detect cyclic data.
+struct Frame<'a, R> {
+	parent: Option<&'a Self>,
+	graph: Option<&'a R>,
+	layout_ref: &'a Ref<LayoutType, R>,
+	inputs: &'a [R],
+}
+
+impl<R: PartialEq> Frame<'_, R> {
+	/// Checks if the same layout is already being hydrated with the same
+	/// inputs, in the same graph, by one of the parents of this frame.
+	fn is_cyclic(&self) -> bool {
+		let mut parent = self.parent;
+
+		while let Some(frame) = parent {
+			if frame.layout_ref == self.layout_ref
+				&& frame.inputs == self.inputs
+				&& frame.graph == self.graph
+			{
+				return true;
+			}
+
+			parent = frame.parent;
+		}
+
+		false
+	}
+}
+
+#[allow(clippy::too_many_arguments)]
 fn hydrate_with_ref<V, I, D>(
 	vocabulary: &V,
 	interpretation: &I,
 	context: &impl LayoutRegistry<I::Resource>,
 	dataset: &D,
+	parent: Option<&Frame<I::Resource>>,
 	current_graph: Option<&I::Resource>,
 	layout_ref: &Ref<LayoutType, I::Resource>,
 	inputs: &[I::Resource],
@@ -185,6 +217,17 @@ where
 		});
 	}
 
+	let frame = Frame {
+		parent,
+		graph: current_graph,
+		layout_ref,
+		inputs,
+	};
+
+	if frame.is_cyclic() {
+		return Err(Error::IncompatibleLayout); // cyclic data.
+	}
+
 	match layout {
 		Layout::Never => Err(Error::IncompatibleLayout),
 		Layout::Literal(layout) => {
@@ -288,6 +331,7 @@ where
 							interpretation,
 							context,
 							dataset,
+							Some(&frame),
 							variant_graph.as_ref(),
 							&variant.value.layout,
 							&variant_inputs,
@@ -361,6 +405,7 @@ where
 							interpretation,
 							context,
 							dataset,
+							Some(&frame),
 							item_graph.as_ref(),
 							&field.value.layout,
 							&field_inputs,
@@ -423,6 +468,7 @@ where
 							interpretation,
 							context,
 							dataset,
+							Some(&frame),
 							item_graph.as_ref(),
 							&layout.item.value.layout,
 							&item_inputs,
@@ -500,6 +546,7 @@ where
 							interpretation,
 							context,
 							dataset,
+							Some(&frame),
 							item_graph.as_ref(),
 							&layout.node.value.layout,
 							&item_inputs,
@@ -553,6 +600,7 @@ where
 							interpretation,
 							context,
 							dataset,
+							Some(&frame),
 							item_graph.as_ref(),
 							&item.value.layout,
 							&item_inputs,
-- 
2.43.0


From 3974ec88093ab42fa1777480b8de1ddcf43b54f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:56 +0000
Subject: [PATCH 06/48] fix: exact native and decimal representations of zero
 and negative numbers

---
 layouts/src/value/mod.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index ae8347a..e93e1b0 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -59,21 +59,14 @@ impl Number {
 		if self.0.is_integer() {
 			let n = self.0.numer();
 			match n.sign() {
-				Sign::Minus => {
-					if n.bits() < 64 {
-						let unsigned = n.iter_u64_digits().next().unwrap() as i64;
-						NativeNumber::I64(-unsigned)
-					} else {
-						NativeNumber::F64(self.0.to_f64().unwrap())
-					}
-				}
-				Sign::NoSign | Sign::Plus => {
-					if n.bits() <= 64 {
-						NativeNumber::U64(n.iter_u64_digits().next().unwrap())
-					} else {
-						NativeNumber::F64(self.0.to_f64().unwrap())
-					}
-				}
+				Sign::Minus => match n.to_i64() {
+					Some(i) => NativeNumber::I64(i),
+					None => NativeNumber::F64(self.0.to_f64().unwrap()),
+				},
+				Sign::NoSign | Sign::Plus => match n.to_u64() {
+					Some(u) => NativeNumber::U64(u),
+					None => NativeNumber::F64(self.0.to_f64().unwrap()),
+				},
 			}
 		} else {
 			NativeNumber::F64(self.0.to_f64().unwrap())
@@ -111,7 +104,7 @@ impl Number {
 			String::new()
 		};
 
-		output.push_str(&(self.0.numer() / self.0.denom()).to_string());
+		output.push_str(&(self.0.numer().abs() / self.0.denom()).to_string());
 
 		if rem.is_zero() {
 			if !fraction.is_empty() {
-- 
2.43.0


From 7d2f7578bc622cb87641b03bdc39ec7d34dab5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:59 +0000
Subject: [PATCH 07/48] fix: exact CBOR encoding of zero and of big integers

---
 layouts/src/value/cbor/serde_cbor.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index c8b9e2a..db7047b 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -1,4 +1,4 @@
-use num_traits::{Signed, ToBytes};
+use num_traits::{Signed, ToPrimitive};
 use rdf_types::{
 	interpretation::{IriInterpretation, ReverseLiteralInterpretation},
 	Interpretation, Vocabulary,
@@ -140,16 +140,22 @@ impl From<Number> for serde_cbor::Value {
 	fn from(value: Number) -> Self {
 		match value.as_integer() {
 			Some(i) => {
-				if i.bits() <= 64 {
-					let unsigned = i.iter_u64_digits().next().unwrap() as i128;
-
-					let signed = if i.is_positive() { unsigned } else { -unsigned };
-
-					serde_cbor::Value::Integer(signed)
-				} else {
-					let tag = if i.is_positive() { 2 } else { 3 };
-
-					serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(i.to_be_bytes())))
+				const MIN: i128 = -1 - u64::MAX as i128;
+				const MAX: i128 = u64::MAX as i128;
+
+				match i.to_i128() {
+					Some(n) if (MIN..=MAX).contains(&n) => serde_cbor::Value::Integer(n),
+					_ => {
+						// See <https://www.rfc-editor.org/rfc/rfc8949#section-3.4.3>.
+						let (tag, n) = if i.is_positive() {
+							(2, i.clone())
+						} else {
+							(3, -i - 1)
+						};
+
+						let (_, bytes) = n.to_bytes_be();
+						serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(bytes)))
+					}
 				}
 			}
 			None => serde_cbor::Value::Float(value.to_f64()),
-- 
2.43.0


From 10b81a71edcadacda15feaa60ebbae72563220b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:01 +0000
Subject: [PATCH 08/48] fix: CBOR conversion keeps the constant of unit layouts

---
 layouts/src/value/cbor/serde_cbor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index db7047b..41a1d29 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -55,7 +55,7 @@ impl<R> TypedValue<R> {
 	{
 		let (value, ty) = match self {
 			Self::Always(value) => (value.into(), None),
-			Self::Literal(TypedLiteral::Unit(_, ty)) => (serde_cbor::Value::Null, Some(ty.cast())),
+			Self::Literal(TypedLiteral::Unit(value, ty)) => (value.into(), Some(ty.cast())),
 			Self::Literal(TypedLiteral::Boolean(b, ty)) => {
 				(serde_cbor::Value::Bool(b), Some(ty.cast()))
 			}
@@ -119,7 +119,7 @@ impl<R> From<TypedValue<R>> for serde_cbor::Value {
 	fn from(value: TypedValue<R>) -> Self {
 		match value {
 			TypedValue::Always(value) => value.into(),
-			TypedValue::Literal(TypedLiteral::Unit(_, _)) => Self::Null,
+			TypedValue::Literal(TypedLiteral::Unit(value, _)) => value.into(),
 			TypedValue::Literal(TypedLiteral::Boolean(b, _)) => Self::Bool(b),
 			TypedValue::Literal(TypedLiteral::Number(n, _)) => n.into(),
 			TypedValue::Literal(TypedLiteral::ByteString(b, _)) => Self::Bytes(b),
-- 
2.43.0


From c120c4d264384371a02f43c7168968fad8b9a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:47 +0000
Subject: [PATCH 09/48] fix: accept JSON numbers with an exponent instead of
 panicking

---
 layouts/src/value/mod.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index e93e1b0..46bc853 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -178,36 +178,32 @@ impl fmt::Display for Number {
 	}
 }
 
+/// Parses a JSON number (a decimal with an optional exponent).
+fn parse_json_number(s: &str) -> BigRational {
+	let (decimal, exponent) = match s.split_once(['e', 'E']) {
+		Some((decimal, exponent)) => (decimal, exponent.parse().ok().unwrap()),
+		None => (s, 0i32),
+	};
+
+	let value: BigRational = xsd_types::Decimal::parse_xsd(decimal).ok().unwrap().into();
+	value * BigRational::from_integer(TEN.clone()).pow(exponent)
+}
+
 impl From<serde_json::Number> for Number {
 	fn from(value: serde_json::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(&value.to_string())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self(parse_json_number(&value.to_string()))
 	}
 }
 
 impl From<json_syntax::NumberBuf> for Number {
 	fn from(value: json_syntax::NumberBuf) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self(parse_json_number(value.as_str()))
 	}
 }
 
 impl<'a> From<&'a json_syntax::Number> for Number {
 	fn from(value: &'a json_syntax::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self(parse_json_number(value.as_str()))
 	}
 }
 
-- 
2.43.0


From 253281e108a8c56164fbb62ec1a234642f11ddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:51 +0000
Subject: [PATCH 10/48] fix: reject numbers serde_json would round instead of
 altering them

---
 layouts/src/value/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 46bc853..f1374f3 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -232,8 +232,9 @@ impl TryFrom<Number> for serde_json::Number {
 	fn try_from(value: Number) -> Result<Self, Self::Error> {
 		match value.decimal_representation() {
 			Some(decimal) => match serde_json::Number::from_str(&decimal) {
-				Ok(n) => Ok(n),
-				Err(_) => Err(NonJsonNumber(value)),
+				// Without the `arbitrary_precision` feature `n` is rounded.
+				Ok(n) if parse_json_number(&n.to_string()) == value.0 => Ok(n),
+				_ => Err(NonJsonNumber(value)),
 			},
 			None => Err(NonJsonNumber(value)),
 		}
-- 
2.43.0


From f12f23c5367174acf64981e4259e517d109249a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:55 +0000
Subject: [PATCH 11/48] fix: numbers outside of the datatype are rejected, and
 decimals keep their value

---
 layouts/src/distill/de/data.rs | 18 ++++++++++--------
 layouts/src/distill/hy/data.rs | 18 ++++++++++++------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index dc639fc..8dc9e76 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -43,18 +43,20 @@ where
 {
 	for i in rdf.interpretation.iris_of(type_) {
 		let iri = rdf.vocabulary.iri(i).unwrap();
-		if let Some(xsd_types::Datatype::Decimal(_)) = xsd_types::Datatype::from_iri(iri) {
-			if let Ok(decimal) = xsd_types::Decimal::try_from(value.as_big_rational().clone()) {
-				// TODO better support for XSD decimal datatype.
-				return Ok(rdf_types::Literal::new(
-					decimal.to_string(),
-					LiteralType::Any(i.clone()),
-				));
+		if let Some(xsd_types::Datatype::Decimal(t)) = xsd_types::Datatype::from_iri(iri) {
+			if let Some(decimal) = value.decimal_representation() {
+				// Check that the number is in the value space of the datatype.
+				if t.parse(&decimal).is_ok() {
+					return Ok(rdf_types::Literal::new(
+						decimal,
+						LiteralType::Any(i.clone()),
+					));
+				}
 			}
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout) // unknown datatype, or not one of its values.
 }
 
 pub fn dehydrate_byte_string<V, I, Q>(
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index 7ba3fc2..4a1d7b1 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -236,13 +236,19 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 
 fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>> {
 	match xsd_types::Datatype::from_iri(type_) {
-		Some(xsd_types::Datatype::Decimal(_t)) => match xsd_types::lexical::Decimal::parse(value) {
-			Ok(value) => {
-				let decimal = value.value();
-				Ok(decimal.into_big_rational().into())
+		Some(xsd_types::Datatype::Decimal(t)) => {
+			if t.parse(value).is_err() {
+				return Err(Error::NoMatchingLiteral); // not a value of this datatype.
 			}
-			Err(_) => Err(Error::NoMatchingLiteral),
-		},
+
+			match xsd_types::lexical::Decimal::parse(value) {
+				Ok(value) => {
+					let decimal = value.value();
+					Ok(decimal.into_big_rational().into())
+				}
+				Err(_) => Err(Error::NoMatchingLiteral),
+			}
+		}
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
 	}
 }
-- 
2.43.0


From 0b9e6293b4f094c6acbe46d498fa7776bbdd14a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:58 +0000
Subject: [PATCH 12/48] fix: dehydrating with an unsupported datatype is an
 error instead of a panic

---
 layouts/src/distill/de/data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index 8dc9e76..2458f25 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -28,7 +28,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout) // unknown boolean datatype.
 }
 
 pub fn dehydrate_number<V, I, Q>(
@@ -69,7 +69,7 @@ where
 	V::Iri: Clone,
 	I: ReverseIriInterpretation<Iri = V::Iri>,
 {
-	todo!()
+	Err(Error::IncompatibleLayout) // no byte string datatype is supported yet.
 }
 
 pub fn dehydrate_text_string<V, I, Q>(
@@ -87,6 +87,6 @@ where
 			value.to_owned(),
 			LiteralType::Any(i.clone()),
 		)),
-		None => todo!(),
+		None => Err(Error::IncompatibleLayout), // unknown datatype.
 	}
 }
-- 
2.43.0


From c2383828ff6e150ac9e5d2d9c534f4d7a9dccc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 13/48] fix: dehydration writes quads in the current graph

---
 layouts/src/distill/de/mod.rs | 56 ++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 77fcf55..1f2b730 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -576,7 +576,7 @@ where
 			if *value == layout.const_ =>
 		{
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 			Ok(())
 		}
 		Layout::Literal(layout) => match value {
@@ -584,7 +584,7 @@ where
 				LiteralLayout::Data(layout) => match (layout, value) {
 					(DataLayout::Boolean(layout), Literal::Boolean(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -598,7 +598,7 @@ where
 					}
 					(DataLayout::Number(layout), Literal::Number(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -612,7 +612,7 @@ where
 					}
 					(DataLayout::ByteString(layout), Literal::ByteString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_byte_string(
@@ -629,7 +629,7 @@ where
 					}
 					(DataLayout::TextString(layout), Literal::TextString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_text_string(
@@ -649,7 +649,7 @@ where
 				LiteralLayout::Id(layout) => match value {
 					Literal::TextString(value) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						match IriBuf::new(value.to_owned()) {
@@ -668,14 +668,14 @@ where
 		},
 		Layout::Sum(layout) => {
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 
 			let mut selection = None;
 			for variant in &layout.variants {
 				let mut variant_dataset = BTreeDataset::new();
 
 				let env = env.intro(rdf, variant.intro);
-				env.instantiate_dataset(&variant.dataset, &mut variant_dataset)?;
+				env.instantiate_dataset_in(&variant.dataset, current_graph, &mut variant_dataset)?;
 
 				if dehydrate_sub_value(
 					rdf,
@@ -706,13 +706,13 @@ where
 		Layout::Product(layout) => match value {
 			Value::Map(value) => {
 				let env = env.intro(rdf, layout.intro);
-				env.instantiate_dataset(&layout.dataset, output)?;
+				env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 
 				for (key, value) in value {
 					match layout.fields.get(key) {
 						Some(field) => {
 							let env = env.intro(rdf, field.intro);
-							env.instantiate_dataset(&field.dataset, output)?;
+							env.instantiate_dataset_in(&field.dataset, current_graph, output)?;
 							dehydrate_sub_value(
 								rdf,
 								layouts,
@@ -745,11 +745,11 @@ where
 			Value::List(value) => match layout {
 				ListLayout::Unordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 
 					for item in value {
 						let env = env.intro(rdf, layout.item.intro);
-						env.instantiate_dataset(&layout.item.dataset, output)?;
+						env.instantiate_dataset_in(&layout.item.dataset, current_graph, output)?;
 						dehydrate_sub_value(
 							rdf,
 							layouts,
@@ -765,7 +765,7 @@ where
 				}
 				ListLayout::Ordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
@@ -778,7 +778,7 @@ where
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, layout.node.intro);
-						env.instantiate_dataset(&layout.node.dataset, output)?;
+						env.instantiate_dataset_in(&layout.node.dataset, current_graph, output)?;
 
 						let item = &value[i];
 						dehydrate_sub_value(
@@ -798,7 +798,7 @@ where
 				}
 				ListLayout::Sized(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 
 					let mut items = value.iter();
 					let mut item_layouts = layout.items.iter();
@@ -807,7 +807,11 @@ where
 						match (items.next(), item_layouts.next()) {
 							(Some(item), Some(item_layout)) => {
 								let env = env.intro(rdf, item_layout.intro);
-								env.instantiate_dataset(&item_layout.dataset, output)?;
+								env.instantiate_dataset_in(
+									&item_layout.dataset,
+									current_graph,
+									output,
+								)?;
 								dehydrate_sub_value(
 									rdf,
 									layouts,
@@ -957,12 +961,30 @@ impl<R: Clone> Environment<'_, R> {
 		input: &BTreeDataset<Pattern<Q>>,
 		output: &mut D,
 	) -> Result<(), Error<Q>>
+	where
+		Q: Clone + Into<R>,
+		D: TraversableDataset<Resource = R> + DatasetMut,
+	{
+		self.instantiate_dataset_in(input, None, output)
+	}
+
+	/// Instantiates the given dataset in the given `graph`.
+	///
+	/// The quads of the `input` dataset that don't have a graph are added to
+	/// `graph`.
+	pub fn instantiate_dataset_in<Q, D>(
+		&self,
+		input: &BTreeDataset<Pattern<Q>>,
+		graph: Option<&R>,
+		output: &mut D,
+	) -> Result<(), Error<Q>>
 	where
 		Q: Clone + Into<R>,
 		D: TraversableDataset<Resource = R> + DatasetMut,
 	{
 		for quad in input.quads() {
-			output.insert(self.instantiate_quad(quad)?);
+			let Quad(s, p, o, g) = self.instantiate_quad(quad)?;
+			output.insert(Quad(s, p, o, g.or_else(|| graph.cloned())));
 		}
 
 		Ok(())
-- 
2.43.0


From e7872cea8f785966de271c33471835d47b29ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:17 +0000
Subject: [PATCH 14/48] fix: derived serializers write quads in the current
 graph

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 34 +++++++++----------
 .../rust/treeldr-rs/src/ser/environment.rs    | 18 +++++++++-
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index f23fd05..de9140e 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -58,7 +58,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
@@ -81,7 +81,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset_in(&#dataset, current_graph, output);
 						Ok(())
 					}
 				}
@@ -93,7 +93,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -111,7 +111,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -129,7 +129,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -147,7 +147,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
 							::std::convert::AsRef::<str>::as_ref(&self.0),
@@ -193,7 +193,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							{
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset_in(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
@@ -207,7 +207,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset_in(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
@@ -223,7 +223,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset_in(&#dataset, current_graph, output);
 				#(#fields)*
 				Ok(())
 			}
@@ -255,7 +255,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 				quote! {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
-						env.instantiate_dataset(&#variant_dataset, output);
+						env.instantiate_dataset_in(&#variant_dataset, current_graph, output);
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
@@ -269,7 +269,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset_in(&#dataset, current_graph, output);
 				match self {
 					#(#variants)*
 				}
@@ -301,11 +301,11 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 					for item in self.0.iter() {
 						let env = env.intro(rdf, #item_intro);
-						env.instantiate_dataset(&#item_dataset, output);
+						env.instantiate_dataset_in(&#item_dataset, current_graph, output);
 
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -347,7 +347,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 					let mut head = env.instantiate_pattern(&#head);
 
@@ -360,7 +360,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, #node_intro);
-						env.instantiate_dataset(&#node_dataset, output);
+						env.instantiate_dataset_in(&#node_dataset, current_graph, output);
 
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -404,7 +404,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					quote! {
 						{
 							let env = env.intro(rdf, #item_intro);
-							env.instantiate_dataset(&#item_dataset, output);
+							env.instantiate_dataset_in(&#item_dataset, current_graph, output);
 
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
@@ -419,7 +419,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 					#(#items)*
 
diff --git a/generators/rust/treeldr-rs/src/ser/environment.rs b/generators/rust/treeldr-rs/src/ser/environment.rs
index 7500f7f..383c9e5 100644
--- a/generators/rust/treeldr-rs/src/ser/environment.rs
+++ b/generators/rust/treeldr-rs/src/ser/environment.rs
@@ -85,9 +85,25 @@ where
 	where
 		// Q: Clone + Into<R>,
 		D: DatasetMut<Resource = R>,
+	{
+		self.instantiate_dataset_in(input, None, output)
+	}
+
+	/// Instantiates the given dataset in the given `graph`.
+	///
+	/// The quads of the `input` dataset that don't have a graph are added to
+	/// `graph`.
+	pub fn instantiate_dataset_in<D>(
+		&self,
+		input: &[PatternQuad<R>],
+		graph: Option<&R>,
+		output: &mut D,
+	) where
+		D: DatasetMut<Resource = R>,
 	{
 		for quad in input {
-			output.insert(self.instantiate_quad(quad.as_ref()));
+			let Quad(s, p, o, g) = self.instantiate_quad(quad.as_ref());
+			output.insert(Quad(s, p, o, g.or_else(|| graph.cloned())));
 		}
 	}
 }
-- 
2.43.0


From 278e58bb34cf27c89d3fe2840c7ca5008c5c695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:17 +0000
Subject: [PATCH 15/48] fix: derived serializers compile when a field names its
 graph

---
 generators/rust/treeldr-rs-macros/src/generate/ser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index de9140e..9941596 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -182,7 +182,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
@@ -245,7 +245,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -292,7 +292,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -338,7 +338,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -393,7 +393,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
-- 
2.43.0


From 0a6a7149d3574f64202195c42bc288cfc1773fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:58 +0000
Subject: [PATCH 16/48] fix: derived deserializers try every variant of an enum

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 5a7c6dc..4ed35cb 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -311,10 +311,12 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							dataset,
 							variant_graph.as_ref(),
 							&variant_inputs
-						)?;
+						);
 
-						if let Some(other) = result.replace(Self::#variant_ident(value)) {
-							return Err(::treeldr::DeserializeError::DataAmbiguity)
+						if let Ok(value) = value {
+							if result.replace(Self::#variant_ident(value)).is_some() {
+								return Err(::treeldr::DeserializeError::DataAmbiguity)
+							}
 						}
 					}
 				}
-- 
2.43.0


From 218bcae585fd1570547884eae26e4c27f1cd0d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:38 +0000
Subject: [PATCH 17/48] fix: variants that are not selected leave no quad nor
 term behind

---
 layouts/src/distill/de/mod.rs | 77 +++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 1f2b730..90f3d0d 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -15,7 +15,7 @@ use rdf_types::{
 		ReverseIriInterpretation, ReverseIriInterpretationMut, ReverseLiteralInterpretation,
 		ReverseLiteralInterpretationMut,
 	},
-	vocabulary::IriVocabulary,
+	vocabulary::{IriVocabulary, LiteralVocabulary},
 	BlankIdBuf, Generator, Id, Interpretation, InterpretationMut, Quad, Term, VocabularyMut,
 };
 
@@ -527,6 +527,8 @@ where
 	Q: Clone + Ord + Into<I::Resource>,
 	D: TraversableDataset<Resource = I::Resource> + DatasetMut,
 {
+	let mut terms = Vec::new();
+
 	dehydrate_with_ref(
 		rdf,
 		&layouts,
@@ -535,9 +537,34 @@ where
 		layout_ref,
 		inputs,
 		output,
-	)
+		&mut terms,
+	)?;
+
+	for (resource, term) in terms {
+		match term {
+			AssignedTerm::Iri(iri) => rdf.interpretation.assign_iri(&resource, iri),
+			AssignedTerm::Literal(l) => rdf.interpretation.assign_literal(&resource, l),
+		};
+	}
+
+	Ok(())
 }
 
+/// Term found in the input value, to be assigned to a resource once it is sure
+/// that the part of the layout it comes from is selected.
+enum AssignedTerm<I, L> {
+	Iri(I),
+	Literal(L),
+}
+
+/// Terms to assign at the end of the dehydration.
+type AssignedTerms<V, I> = Vec<(
+	<I as Interpretation>::Resource,
+	AssignedTerm<<V as IriVocabulary>::Iri, <V as LiteralVocabulary>::Literal>,
+)>;
+
+#[allow(clippy::too_many_arguments)]
+
 fn dehydrate_with_ref<V, I, Q, D>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
@@ -546,6 +573,7 @@ fn dehydrate_with_ref<V, I, Q, D>(
 	layout_ref: &Ref<LayoutType, Q>,
 	inputs: &[I::Resource],
 	output: &mut D,
+	terms: &mut AssignedTerms<V, I>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -589,10 +617,8 @@ where
 
 						let literal =
 							data::dehydrate_boolean(rdf, *value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						let literal = rdf.vocabulary.insert_owned_literal(literal);
+						terms.push((resource, AssignedTerm::Literal(literal)));
 
 						Ok(())
 					}
@@ -603,10 +629,8 @@ where
 
 						let literal =
 							data::dehydrate_number(rdf, value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						let literal = rdf.vocabulary.insert_owned_literal(literal);
+						terms.push((resource, AssignedTerm::Literal(literal)));
 
 						Ok(())
 					}
@@ -620,10 +644,8 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						let literal = rdf.vocabulary.insert_owned_literal(literal);
+						terms.push((resource, AssignedTerm::Literal(literal)));
 
 						Ok(())
 					}
@@ -637,10 +659,8 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						let literal = rdf.vocabulary.insert_owned_literal(literal);
+						terms.push((resource, AssignedTerm::Literal(literal)));
 
 						Ok(())
 					}
@@ -655,7 +675,7 @@ where
 						match IriBuf::new(value.to_owned()) {
 							Ok(iri) => {
 								let i = rdf.vocabulary.insert_owned(iri);
-								rdf.interpretation.assign_iri(&resource, i);
+								terms.push((resource, AssignedTerm::Iri(i)));
 								Ok(())
 							}
 							Err(_) => Err(Error::IncompatibleLayout), // not an IRI
@@ -673,6 +693,7 @@ where
 			let mut selection = None;
 			for variant in &layout.variants {
 				let mut variant_dataset = BTreeDataset::new();
+				let mut variant_terms = Vec::new();
 
 				let env = env.intro(rdf, variant.intro);
 				env.instantiate_dataset_in(&variant.dataset, current_graph, &mut variant_dataset)?;
@@ -684,20 +705,25 @@ where
 					current_graph,
 					&variant.value,
 					&env,
-					output,
+					&mut variant_dataset,
+					&mut variant_terms,
 				)
-				.is_ok() && selection.replace(variant_dataset).is_some()
+				.is_ok() && selection
+					.replace((variant_dataset, variant_terms))
+					.is_some()
 				{
 					return Err(Error::DataAmbiguity);
 				}
 			}
 
 			match selection {
-				Some(variant_dataset) => {
+				Some((variant_dataset, variant_terms)) => {
 					for quad in variant_dataset {
 						output.insert(quad);
 					}
 
+					terms.extend(variant_terms);
+
 					Ok(())
 				}
 				None => Err(Error::IncompatibleLayout),
@@ -721,6 +747,7 @@ where
 								&field.value,
 								&env,
 								output,
+								terms,
 							)?;
 						}
 						None => return Err(Error::IncompatibleLayout),
@@ -758,6 +785,7 @@ where
 							&layout.item.value,
 							&env,
 							output,
+							terms,
 						)?;
 					}
 
@@ -789,6 +817,7 @@ where
 							&layout.node.value,
 							&env,
 							output,
+							terms,
 						)?;
 
 						head = rest;
@@ -820,6 +849,7 @@ where
 									&item_layout.value,
 									&env,
 									output,
+									terms,
 								)?;
 							}
 							(None, None) => break,
@@ -836,6 +866,7 @@ where
 	}
 }
 
+#[allow(clippy::too_many_arguments)]
 fn dehydrate_sub_value<V, I, Q, D>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
@@ -844,6 +875,7 @@ fn dehydrate_sub_value<V, I, Q, D>(
 	format: &ValueFormat<Q>,
 	env: &Environment<I::Resource>,
 	output: &mut D,
+	terms: &mut AssignedTerms<V, I>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -870,6 +902,7 @@ where
 		&format.layout,
 		&inputs,
 		output,
+		terms,
 	)
 }
 
-- 
2.43.0


From 8f5d52ca0849d2261d79145f6bdd054b75696d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:11 +0000
Subject: [PATCH 18/48] fix: literal layouts receive their declared number of
 inputs

---
 layouts/src/layout/literal/data.rs | 10 ++++++++++
 layouts/src/layout/literal/mod.rs  |  7 +++++++
 layouts/src/layout/mod.rs          |  2 +-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/layouts/src/layout/literal/data.rs b/layouts/src/layout/literal/data.rs
index c70ab4f..dca15d0 100644
--- a/layouts/src/layout/literal/data.rs
+++ b/layouts/src/layout/literal/data.rs
@@ -33,6 +33,16 @@ pub enum DataLayout<R> {
 }
 
 impl<R> DataLayout<R> {
+	pub fn input_count(&self) -> u32 {
+		match self {
+			Self::Unit(l) => l.input,
+			Self::Boolean(l) => l.input,
+			Self::Number(l) => l.input,
+			Self::ByteString(l) => l.input,
+			Self::TextString(l) => l.input,
+		}
+	}
+
 	pub fn extra_properties(&self) -> &BTreeMap<R, R> {
 		match self {
 			Self::Unit(l) => &l.extra_properties,
diff --git a/layouts/src/layout/literal/mod.rs b/layouts/src/layout/literal/mod.rs
index 284574c..63da1aa 100644
--- a/layouts/src/layout/literal/mod.rs
+++ b/layouts/src/layout/literal/mod.rs
@@ -26,6 +26,13 @@ pub enum LiteralLayout<R> {
 }
 
 impl<R> LiteralLayout<R> {
+	pub fn input_count(&self) -> u32 {
+		match self {
+			Self::Data(d) => d.input_count(),
+			Self::Id(d) => d.input,
+		}
+	}
+
 	pub fn extra_properties(&self) -> &BTreeMap<R, R> {
 		match self {
 			Self::Data(d) => d.extra_properties(),
diff --git a/layouts/src/layout/mod.rs b/layouts/src/layout/mod.rs
index 83eb72c..9cf21b7 100644
--- a/layouts/src/layout/mod.rs
+++ b/layouts/src/layout/mod.rs
@@ -164,7 +164,7 @@ impl<R> Layout<R> {
 	pub fn input_count(&self) -> Option<u32> {
 		match self {
 			Self::Never => None,
-			Self::Literal(_) => Some(1),
+			Self::Literal(l) => Some(l.input_count()),
 			Self::Product(p) => Some(p.input),
 			Self::List(l) => Some(l.input_count()),
 			Self::Sum(s) => Some(s.input),
-- 
2.43.0


From 0757a5cec2f4759fec6e90a29a87f3700942c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:15 +0000
Subject: [PATCH 19/48] fix: compiled sequences start with their first item

---
 layouts/src/abs/regexp.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index ec11022..7bfc8d2 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -268,16 +268,17 @@ impl RegExp {
 			}
 			Self::Repeat(exp, min, max) => exp.build_repeat_into(new_state, automaton, *min, *max),
 			Self::Sequence(exps) => {
-				let mut a = new_state();
+				let a = new_state();
+				let mut last = a;
 
 				for e in exps {
 					let (ea, eb) = e.build_into(new_state, automaton);
-					automaton.add(a, None, ea);
-					a = eb;
+					automaton.add(last, None, ea);
+					last = eb;
 				}
 
 				let b = new_state();
-				automaton.add(a, None, b);
+				automaton.add(last, None, b);
 
 				(a, b)
 			}
-- 
2.43.0


From b94d842f110daec10c33a70a842443d0c81aa166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:19 +0000
Subject: [PATCH 20/48] fix: repeating a repetition does not skip its mandatory
 items

---
 layouts/src/abs/regexp.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 7bfc8d2..c0faf7d 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -331,10 +331,13 @@ impl RegExp {
 			automaton.add(b, None, c);
 			(a, d)
 		} else {
-			let (a, b) = self.build_into(new_state, automaton);
-			automaton.add(a, None, b);
-			automaton.add(b, None, a);
-			(a, b)
+			// A new state is required here: `self` may itself leave its final
+			// state to be repeated.
+			let a = new_state();
+			let (ea, eb) = self.build_into(new_state, automaton);
+			automaton.add(a, None, ea);
+			automaton.add(eb, None, a);
+			(a, a)
 		}
 	}
 }
-- 
2.43.0


From 1e7c2e54571749389c22fdbd0ef4c89219f4537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:23 +0000
Subject: [PATCH 21/48] fix: an empty character set matches nothing, not the
 empty string

---
 layouts/src/abs/regexp.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index c0faf7d..eb6c5c9 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -61,7 +61,6 @@ impl RegExp {
 					Self::Sequence(seq)
 				}
 			}
-			Self::Union(items) if items.is_empty() => e,
 			item => Self::Sequence(vec![item, e]),
 		};
 
@@ -101,11 +100,11 @@ impl RegExp {
 		}
 	}
 
+	/// Checks if this regular expression only matches the empty string.
 	pub fn is_empty(&self) -> bool {
 		match self {
-			Self::Set(set) => set.is_empty(),
 			Self::Sequence(seq) => seq.iter().all(Self::is_empty),
-			Self::Union(items) => items.iter().all(Self::is_empty),
+			Self::Union(items) => !items.is_empty() && items.iter().all(Self::is_empty),
 			Self::Repeat(r, min, max) => r.is_empty() || (*min == 0 && *max == 0),
 			_ => false,
 		}
@@ -220,7 +219,6 @@ impl RegExp {
 	pub fn build(&self) -> DetAutomaton<usize> {
 		let nd = self.build_non_deterministic();
 		let dt = nd.determinize();
-		debug_assert!(!dt.final_states().is_empty());
 
 		let mut n = 0;
 		dt.map(
-- 
2.43.0


From 668afcb202f6a5e161cf038bfd6c3afe95d687da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:27 +0000
Subject: [PATCH 22/48] fix: the single match of a repetition is repeated

---
 layouts/src/abs/regexp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index eb6c5c9..880b897 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -134,7 +134,11 @@ impl RegExp {
 					e.build_singleton(s)
 				}
 			}
-			Self::Repeat(e, _, _) => e.build_singleton(s),
+			Self::Repeat(e, min, _) => {
+				for _ in 0..*min {
+					e.build_singleton(s)
+				}
+			}
 			Self::Union(items) => items[0].build_singleton(s),
 		}
 	}
-- 
2.43.0


From cf1164f9fd36a62647f77edd443cda35d12eee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:31 +0000
Subject: [PATCH 23/48] fix: mapping or minimizing an automaton keeps its final
 states

---
 layouts/src/utils/automaton.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 534d814..180a8fb 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -505,6 +505,10 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 			}
 		}
 
+		for q in &self.final_states {
+			result.add_final_state(map[q].clone());
+		}
+
 		result
 	}
 
@@ -582,6 +586,15 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 			}
 		}
 
+		for q in &self.final_states {
+			let q = match map.entry(q) {
+				Entry::Occupied(entry) => entry.get().clone(),
+				Entry::Vacant(entry) => entry.insert(f(q)?).clone(),
+			};
+
+			result.add_final_state(q);
+		}
+
 		Ok(result)
 	}
 
-- 
2.43.0


From 7d3e342539d42c346cf6f41beda9adff1d10f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:35 +0000
Subject: [PATCH 24/48] fix: automata advance independently on epsilon
 transitions in a product

---
 layouts/src/utils/automaton.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 180a8fb..ccc5464 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -237,22 +237,26 @@ impl<Q: Ord> Automaton<Q> {
 							}
 						}
 						None => {
-							if let Some(b_successors) =
-								other.transitions.get(b).and_then(|s| s.get(&None))
-							{
-								let successors = transitions.entry(None).or_default();
-
-								for sa in a_successors {
-									for sb in b_successors {
-										let s = f(sa, sb);
-										stack.push((s.clone(), sa, sb));
-										successors.insert(s);
-									}
-								}
+							let successors = transitions.entry(None).or_default();
+
+							for sa in a_successors {
+								let s = f(sa, b);
+								stack.push((s.clone(), sa, b));
+								successors.insert(s);
 							}
 						}
 					}
 				}
+
+				if let Some(b_successors) = other.transitions.get(b).and_then(|s| s.get(&None)) {
+					let successors = transitions.entry(None).or_default();
+
+					for sb in b_successors {
+						let s = f(a, sb);
+						stack.push((s.clone(), a, sb));
+						successors.insert(s);
+					}
+				}
 			}
 		}
 
-- 
2.43.0


From a8c79c8cc618cf30eac6946837c274c894763e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:34 +0000
Subject: [PATCH 25/48] fix: repetition applies to the last item and `.` to any
 character

---
 layouts/src/abs/regexp.rs | 50 +++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 880b897..c002691 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -111,7 +111,7 @@ impl RegExp {
 	}
 
 	pub fn is_simple(&self) -> bool {
-		matches!(self, Self::Any | Self::Set(_) | Self::Sequence(_))
+		matches!(self, Self::Any | Self::Set(_))
 	}
 
 	/// Checks if this regular expression matches only one value.
@@ -160,17 +160,39 @@ impl RegExp {
 		DisplaySub(self)
 	}
 
+	/// Builds the union of the given sequences.
+	fn from_options(options: Vec<Vec<Self>>) -> Self {
+		let options = options.into_iter().map(|items| {
+			let mut option = Self::empty();
+			for item in items {
+				option.push(item)
+			}
+			option
+		});
+
+		Self::Union(options.collect()).simplified()
+	}
+
+	/// Repeats the last item of the last option.
+	fn repeat_last(options: &mut [Vec<Self>], min: u32, max: u32) {
+		if let Some(item) = options.last_mut().and_then(|items| items.last_mut()) {
+			item.repeat(min, max)
+		}
+	}
+
 	pub fn parse(s: &str) -> Result<Self, ParseError> {
-		let mut stack = vec![vec![RegExp::empty()]];
+		// Stack of groups, each group is a list of options, each option is a
+		// list of items.
+		let mut stack = vec![vec![Vec::new()]];
 		let mut chars = s.chars();
 
 		while let Some(c) = chars.next() {
 			match c {
 				'(' => {
-					stack.push(vec![RegExp::empty()]);
+					stack.push(vec![Vec::new()]);
 				}
 				')' => {
-					let sub_exp = RegExp::Union(stack.pop().unwrap()).simplified();
+					let sub_exp = Self::from_options(stack.pop().unwrap());
 					let options = stack
 						.last_mut()
 						.ok_or(ParseError::UnmatchedClosingParenthesis)?;
@@ -178,7 +200,7 @@ impl RegExp {
 				}
 				'|' => {
 					let options = stack.last_mut().unwrap();
-					options.push(RegExp::empty());
+					options.push(Vec::new());
 				}
 				'[' => {
 					let options = stack.last_mut().unwrap();
@@ -194,15 +216,19 @@ impl RegExp {
 				}
 				'?' => {
 					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(0, 1)
+					Self::repeat_last(options, 0, 1)
 				}
 				'*' => {
 					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(0, u32::MAX)
+					Self::repeat_last(options, 0, u32::MAX)
 				}
 				'+' => {
 					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(1, u32::MAX)
+					Self::repeat_last(options, 1, u32::MAX)
+				}
+				'.' => {
+					let options = stack.last_mut().unwrap();
+					options.last_mut().unwrap().push(RegExp::Any)
 				}
 				c => {
 					let options = stack.last_mut().unwrap();
@@ -215,7 +241,7 @@ impl RegExp {
 
 		match stack.len() {
 			0 => unreachable!(),
-			1 => Ok(RegExp::Union(stack.into_iter().next().unwrap()).simplified()),
+			1 => Ok(Self::from_options(stack.pop().unwrap())),
 			_ => Err(ParseError::MissingClosingParenthesis),
 		}
 	}
@@ -522,7 +548,10 @@ impl fmt::Display for RegExp {
 						write!(f, "|")?
 					}
 
-					item.display_sub().fmt(f)?
+					match item {
+						Self::Sequence(_) => item.fmt(f)?,
+						item => item.display_sub().fmt(f)?,
+					}
 				}
 
 				Ok(())
@@ -573,6 +602,7 @@ fn fmt_char(c: char, f: &mut fmt::Formatter) -> fmt::Result {
 		'*' => write!(f, "\\*"),
 		'+' => write!(f, "\\+"),
 		'-' => write!(f, "\\-"),
+		'.' => write!(f, "\\."),
 		'^' => write!(f, "\\^"),
 		'|' => write!(f, "\\|"),
 		'\\' => write!(f, "\\\\"),
-- 
2.43.0


From c376c8687fb7e9a89202c4ff3879482e75115154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:32 +0000
Subject: [PATCH 26/48] fix: negative decimals keep their value when parsed

---
 layouts/src/distill/hy/data.rs | 13 +++++--------
 layouts/src/value/mod.rs       | 12 ++++++++++--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index 4a1d7b1..82c5fe8 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -2,7 +2,7 @@ use crate::{
 	layout::{DataLayout, DataLayoutType},
 	pattern::Substitution,
 	utils::QuadsExt,
-	value::Number,
+	value::{parse_decimal, Number},
 	Matching, Ref, TypedLiteral,
 };
 use iref::Iri;
@@ -11,7 +11,7 @@ use rdf_types::{
 	interpretation::{ReverseIriInterpretation, ReverseLiteralInterpretation},
 	Interpretation, LiteralTypeRef, Vocabulary,
 };
-use xsd_types::{lexical::Lexical, ParseXsd};
+use xsd_types::ParseXsd;
 
 use super::{DataFragment, Error, MatchingForFragment};
 
@@ -241,12 +241,9 @@ fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>>
 				return Err(Error::NoMatchingLiteral); // not a value of this datatype.
 			}
 
-			match xsd_types::lexical::Decimal::parse(value) {
-				Ok(value) => {
-					let decimal = value.value();
-					Ok(decimal.into_big_rational().into())
-				}
-				Err(_) => Err(Error::NoMatchingLiteral),
+			match parse_decimal(value) {
+				Some(value) => Ok(value.into()),
+				None => Err(Error::NoMatchingLiteral),
 			}
 		}
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index f1374f3..8c198a0 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -6,7 +6,6 @@ use lazy_static::lazy_static;
 use num_bigint::{BigInt, Sign};
 use num_rational::BigRational;
 use num_traits::{Signed, ToPrimitive, Zero};
-use xsd_types::ParseXsd;
 
 use crate::{
 	layout::{
@@ -178,6 +177,15 @@ impl fmt::Display for Number {
 	}
 }
 
+/// Parses a decimal number.
+///
+/// Returns `None` if the input is not a decimal number.
+pub(crate) fn parse_decimal(s: &str) -> Option<BigRational> {
+	let (integer, fraction) = s.split_once('.').unwrap_or((s, ""));
+	let numer: BigInt = format!("{integer}{fraction}").parse().ok()?;
+	Some(BigRational::new(numer, TEN.pow(fraction.len() as u32)))
+}
+
 /// Parses a JSON number (a decimal with an optional exponent).
 fn parse_json_number(s: &str) -> BigRational {
 	let (decimal, exponent) = match s.split_once(['e', 'E']) {
@@ -185,7 +193,7 @@ fn parse_json_number(s: &str) -> BigRational {
 		None => (s, 0i32),
 	};
 
-	let value: BigRational = xsd_types::Decimal::parse_xsd(decimal).ok().unwrap().into();
+	let value = parse_decimal(decimal).unwrap();
 	value * BigRational::from_integer(TEN.clone()).pow(exponent)
 }
 
-- 
2.43.0


From 953d8ce3f05e2f523b1e6d710c689bb597751e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:41 +0000
Subject: [PATCH 27/48] fix: converting JSON with empty objects does not depend
 on the code map

---
 layouts/src/value/mod.rs | 36 +++++-------------------------------
 1 file changed, 5 insertions(+), 31 deletions(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 8c198a0..cf36fcc 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -1,7 +1,7 @@
 use core::fmt;
 use std::{collections::BTreeMap, str::FromStr};
 
-use json_syntax::{array::JsonArray, TryFromJson};
+use json_syntax::TryFromJson;
 use lazy_static::lazy_static;
 use num_bigint::{BigInt, Sign};
 use num_rational::BigRational;
@@ -339,37 +339,11 @@ impl TryFromJson for Value {
 
 	fn try_from_json_at(
 		json: &json_syntax::Value,
-		code_map: &json_syntax::CodeMap,
-		offset: usize,
+		_code_map: &json_syntax::CodeMap,
+		_offset: usize,
 	) -> Result<Self, Self::Error> {
-		match json {
-			json_syntax::Value::Null => Ok(Self::Literal(Literal::Unit)),
-			json_syntax::Value::Boolean(b) => Ok(Self::Literal(Literal::Boolean(*b))),
-			json_syntax::Value::Number(n) => {
-				Ok(Self::Literal(Literal::Number(n.as_number().into())))
-			}
-			json_syntax::Value::String(s) => Ok(Self::Literal(Literal::TextString(s.to_string()))),
-			json_syntax::Value::Array(a) => Ok(Self::List(
-				a.iter_mapped(code_map, offset)
-					.map(|item| Self::try_from_json_at(item.value, code_map, item.offset).unwrap())
-					.collect(),
-			)),
-			json_syntax::Value::Object(o) => Ok(Self::Map(
-				o.iter_mapped(code_map, offset)
-					.map(|entry| {
-						(
-							Value::string(entry.value.key.value.to_string()),
-							Self::try_from_json_at(
-								entry.value.value.value,
-								code_map,
-								entry.value.value.offset,
-							)
-							.unwrap(),
-						)
-					})
-					.collect(),
-			)),
-		}
+		// The conversion never fails, the code map is not needed.
+		Ok(json.clone().into())
 	}
 }
 
-- 
2.43.0


From f4f56c43cdd149f184aa169f0748c4bd32265fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:13 +0000
Subject: [PATCH 28/48] fix: determinized automata have one transition per
 character

---
 layouts/src/utils/automaton.rs | 66 +++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index ccc5464..a439d6a 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -1,4 +1,4 @@
-use btree_range_map::{AnyRange, RangeMap, RangeSet};
+use btree_range_map::{AnyRange, RangeSet};
 use std::{
 	collections::{hash_map::Entry, BTreeMap, BTreeSet, HashMap, HashSet},
 	hash::Hash,
@@ -7,6 +7,16 @@ use std::{
 
 use super::charset_intersection;
 
+/// Returns the character following `c`, if any.
+fn next_char(c: char) -> Option<char> {
+	(c..=char::MAX).nth(1)
+}
+
+/// Returns the character preceding `c`, if any.
+fn prev_char(c: char) -> Option<char> {
+	('\0'..c).next_back()
+}
+
 /// Non deterministic state transitions.
 pub type Transitions<Q> = BTreeMap<Option<RangeSet<char>>, BTreeSet<Q>>;
 
@@ -105,7 +115,10 @@ impl<Q: Ord> Automaton<Q> {
 		&self,
 		states: &BTreeSet<&Q>,
 	) -> BTreeMap<AnyRange<char>, BTreeSet<&Q>> {
-		let mut map = RangeMap::new();
+		let mut labeled_targets = Vec::new();
+
+		// first character of every range on which the targets are constant.
+		let mut bounds = BTreeSet::new();
 
 		for q in states {
 			if let Some(transitions) = self.transitions.get(q) {
@@ -113,42 +126,37 @@ impl<Q: Ord> Automaton<Q> {
 					if let Some(label) = label {
 						for range in label.iter() {
 							debug_assert!(!range.is_empty());
-
-							map.update(
-								*range,
-								|current_target_states_opt: Option<&BTreeSet<&Q>>| {
-									let mut current_target_states = match current_target_states_opt
-									{
-										Some(current_target_states) => {
-											current_target_states.clone()
-										}
-										None => BTreeSet::new(),
-									};
-
-									for q in targets {
-										current_target_states
-											.extend(self.modulo_epsilon_state(Some(q)));
-									}
-
-									Some(current_target_states)
-								},
-							);
-
-							assert!(map.get(range.first().unwrap()).is_some());
+							bounds.extend(range.first());
+							bounds.extend(range.last().and_then(next_char));
 						}
+
+						labeled_targets.push((label, self.modulo_epsilon_state(targets)));
 					}
 				}
 			}
 		}
 
-		let mut simplified_map = BTreeMap::new();
+		let mut map = BTreeMap::new();
+		let mut bounds = bounds.into_iter().peekable();
 
-		for (range, set) in map {
-			debug_assert!(!range.is_empty());
-			simplified_map.insert(range, set);
+		while let Some(first) = bounds.next() {
+			let last = bounds.peek().copied().map_or(Some(char::MAX), prev_char);
+
+			let mut target_states = BTreeSet::new();
+			for (label, targets) in &labeled_targets {
+				if label.contains(first) {
+					target_states.extend(targets.iter().copied())
+				}
+			}
+
+			if let Some(last) = last {
+				if !target_states.is_empty() {
+					map.insert(AnyRange::from(first..=last), target_states);
+				}
+			}
 		}
 
-		simplified_map
+		map
 	}
 
 	pub fn determinize(&self) -> DetAutomaton<BTreeSet<&Q>>
-- 
2.43.0


From ed84120daa0578097c622224a98265473ad95140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:57 +0000
Subject: [PATCH 29/48] fix: literals of the datatypes derived from xsd:decimal
 are read exactly, without panic

---
 layouts/src/distill/de/data.rs |  7 +++--
 layouts/src/distill/hy/data.rs | 16 ++++-------
 layouts/src/value/mod.rs       | 49 +++++++++++++++++++++++++++++++++-
 3 files changed, 58 insertions(+), 14 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index 2458f25..58494bf 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -4,7 +4,10 @@ use rdf_types::{
 	LiteralType,
 };
 
-use crate::{distill::RdfContextMut, value::Number};
+use crate::{
+	distill::RdfContextMut,
+	value::{parse_xsd_decimal, Number},
+};
 
 use super::{Error, RdfLiteral};
 
@@ -46,7 +49,7 @@ where
 		if let Some(xsd_types::Datatype::Decimal(t)) = xsd_types::Datatype::from_iri(iri) {
 			if let Some(decimal) = value.decimal_representation() {
 				// Check that the number is in the value space of the datatype.
-				if t.parse(&decimal).is_ok() {
+				if parse_xsd_decimal(&decimal, &t).is_some() {
 					return Ok(rdf_types::Literal::new(
 						decimal,
 						LiteralType::Any(i.clone()),
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index 82c5fe8..7fb6d04 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -2,7 +2,7 @@ use crate::{
 	layout::{DataLayout, DataLayoutType},
 	pattern::Substitution,
 	utils::QuadsExt,
-	value::{parse_decimal, Number},
+	value::{parse_xsd_decimal, Number},
 	Matching, Ref, TypedLiteral,
 };
 use iref::Iri;
@@ -236,16 +236,10 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 
 fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>> {
 	match xsd_types::Datatype::from_iri(type_) {
-		Some(xsd_types::Datatype::Decimal(t)) => {
-			if t.parse(value).is_err() {
-				return Err(Error::NoMatchingLiteral); // not a value of this datatype.
-			}
-
-			match parse_decimal(value) {
-				Some(value) => Ok(value.into()),
-				None => Err(Error::NoMatchingLiteral),
-			}
-		}
+		Some(xsd_types::Datatype::Decimal(t)) => match parse_xsd_decimal(value, &t) {
+			Some(value) => Ok(value.into()),
+			None => Err(Error::NoMatchingLiteral), // not a value of this datatype.
+		},
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
 	}
 }
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index cf36fcc..8bba1f0 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -180,12 +180,59 @@ impl fmt::Display for Number {
 /// Parses a decimal number.
 ///
 /// Returns `None` if the input is not a decimal number.
-pub(crate) fn parse_decimal(s: &str) -> Option<BigRational> {
+fn parse_decimal(s: &str) -> Option<BigRational> {
 	let (integer, fraction) = s.split_once('.').unwrap_or((s, ""));
 	let numer: BigInt = format!("{integer}{fraction}").parse().ok()?;
 	Some(BigRational::new(numer, TEN.pow(fraction.len() as u32)))
 }
 
+/// Parses a literal of a datatype derived from `xsd:decimal`.
+///
+/// Returns `None` if the input is not in the lexical space of the datatype, or
+/// if the number it represents is not in its value space.
+pub(crate) fn parse_xsd_decimal(
+	s: &str,
+	datatype: &xsd_types::DecimalDatatype,
+) -> Option<BigRational> {
+	let (integer, fraction) = s.split_once('.').unwrap_or((s, ""));
+	let digits = integer.strip_prefix(['+', '-']).unwrap_or(integer);
+	let is_numeral = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
+
+	if !is_numeral(digits) || !is_numeral(fraction) || digits.len() + fraction.len() == 0 {
+		return None;
+	}
+
+	let value = parse_decimal(s)?;
+	let iri = datatype.iri();
+
+	if iri == xsd_types::XSD_DECIMAL {
+		return Some(value);
+	}
+
+	let (min, max): (Option<BigInt>, Option<BigInt>) = match iri {
+		_ if s.contains('.') => return None, // not an integer literal.
+		i if i == xsd_types::XSD_INTEGER => (None, None),
+		i if i == xsd_types::XSD_NON_POSITIVE_INTEGER => (None, Some(0.into())),
+		i if i == xsd_types::XSD_NEGATIVE_INTEGER => (None, Some((-1).into())),
+		i if i == xsd_types::XSD_NON_NEGATIVE_INTEGER => (Some(0.into()), None),
+		i if i == xsd_types::XSD_POSITIVE_INTEGER => (Some(1.into()), None),
+		i if i == xsd_types::XSD_LONG => (Some(i64::MIN.into()), Some(i64::MAX.into())),
+		i if i == xsd_types::XSD_INT => (Some(i32::MIN.into()), Some(i32::MAX.into())),
+		i if i == xsd_types::XSD_SHORT => (Some(i16::MIN.into()), Some(i16::MAX.into())),
+		i if i == xsd_types::XSD_BYTE => (Some(i8::MIN.into()), Some(i8::MAX.into())),
+		i if i == xsd_types::XSD_UNSIGNED_LONG => (Some(0.into()), Some(u64::MAX.into())),
+		i if i == xsd_types::XSD_UNSIGNED_INT => (Some(0.into()), Some(u32::MAX.into())),
+		i if i == xsd_types::XSD_UNSIGNED_SHORT => (Some(0.into()), Some(u16::MAX.into())),
+		i if i == xsd_types::XSD_UNSIGNED_BYTE => (Some(0.into()), Some(u8::MAX.into())),
+		_ => return None, // unknown datatype.
+	};
+
+	let in_range = min.map_or(true, |min| *value.numer() >= min)
+		&& max.map_or(true, |max| *value.numer() <= max);
+
+	in_range.then_some(value)
+}
+
 /// Parses a JSON number (a decimal with an optional exponent).
 fn parse_json_number(s: &str) -> BigRational {
 	let (decimal, exponent) = match s.split_once(['e', 'E']) {
-- 
2.43.0


From 56828855b33cab3ca913a433afd58e5b2c843500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:02 +0000
Subject: [PATCH 30/48] fix: numbers without decimal representation are
 detected without computing their period

---
 layouts/src/value/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 8bba1f0..935a5cc 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -5,7 +5,7 @@ use json_syntax::TryFromJson;
 use lazy_static::lazy_static;
 use num_bigint::{BigInt, Sign};
 use num_rational::BigRational;
-use num_traits::{Signed, ToPrimitive, Zero};
+use num_traits::{One, Signed, ToPrimitive, Zero};
 
 use crate::{
 	layout::{
@@ -80,6 +80,21 @@ impl Number {
 	pub fn decimal_representation(&self) -> Option<String> {
 		use std::fmt::Write;
 
+		// A rational number has a finite decimal expansion if and only if the
+		// prime factors of its reduced denominator are 2 and 5. Otherwise the
+		// division below only ends after a whole period, which may be as long
+		// as the denominator.
+		let mut rest = self.0.reduced().denom().clone();
+		for p in [2u32, 5] {
+			while (&rest % p).is_zero() {
+				rest /= p;
+			}
+		}
+
+		if !rest.is_one() {
+			return None;
+		}
+
 		let mut fraction = String::new();
 		let mut map = std::collections::HashMap::new();
 
-- 
2.43.0


From 347ae288527bd4d7887075a22f2adc8287d8afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:47 +0000
Subject: [PATCH 31/48] fix: the head of an empty list is its tail

---
 layouts/src/distill/de/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 90f3d0d..fdfc807 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -797,6 +797,17 @@ where
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
+					if value.is_empty() {
+						// The list has no nodes, its head is its tail.
+						let tail = env.instantiate_pattern(&layout.tail)?;
+
+						if head != tail {
+							for iri in rdf.interpretation.iris_of(&tail) {
+								terms.push((head.clone(), AssignedTerm::Iri(iri.clone())));
+							}
+						}
+					}
+
 					for i in 0..value.len() {
 						let rest = if i == value.len() - 1 {
 							env.instantiate_pattern(&layout.tail)?
-- 
2.43.0


From 9deb4aa71199f3809405aa8bcac6470970b8ed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:41 +0000
Subject: [PATCH 32/48] fix: anonymous layouts of successive builds do not
 share an identifier

---
 layouts/src/abs/syntax/build.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/syntax/build.rs b/layouts/src/abs/syntax/build.rs
index 1c82250..9d87472 100644
--- a/layouts/src/abs/syntax/build.rs
+++ b/layouts/src/abs/syntax/build.rs
@@ -87,7 +87,14 @@ where
 	}
 
 	fn anonymous_resource(&mut self) -> Self::Resource {
-		Term::Id(self.generator.next(&mut ()))
+		loop {
+			let id = Term::Id(self.generator.next(&mut ()));
+
+			// The identifier may have been used by a previous build.
+			if !self.builder.layouts.contains_key(&id) {
+				break id;
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 73b5722294d758459f440b19983c6320a6c586c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:52 +0000
Subject: [PATCH 33/48] fix: null entries of layout definitions are read as
 written

---
 layouts/src/abs/syntax/dataset.rs        |  6 ++-
 layouts/src/abs/syntax/layout/list.rs    | 12 +++++-
 layouts/src/abs/syntax/layout/literal.rs | 49 ++++++++++++++++++++++--
 layouts/src/abs/syntax/layout/mod.rs     | 12 +++++-
 layouts/src/abs/syntax/layout/product.rs |  6 ++-
 layouts/src/abs/syntax/layout/sum.rs     |  9 +++--
 layouts/src/abs/syntax/mod.rs            | 21 ++++++++--
 7 files changed, 99 insertions(+), 16 deletions(-)

diff --git a/layouts/src/abs/syntax/dataset.rs b/layouts/src/abs/syntax/dataset.rs
index 8a2fdb6..760e010 100644
--- a/layouts/src/abs/syntax/dataset.rs
+++ b/layouts/src/abs/syntax/dataset.rs
@@ -52,7 +52,11 @@ pub struct Quad(
 	pub Pattern,
 	pub Pattern,
 	pub Pattern,
-	#[serde(default, skip_serializing_if = "Option::is_none")] pub Option<Pattern>,
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)] pub Option<Pattern>,
 );
 
 impl TryFromJson for Quad {
diff --git a/layouts/src/abs/syntax/layout/list.rs b/layouts/src/abs/syntax/layout/list.rs
index b8f727f..bc71e1b 100644
--- a/layouts/src/abs/syntax/layout/list.rs
+++ b/layouts/src/abs/syntax/layout/list.rs
@@ -255,7 +255,11 @@ pub struct ListNode {
 
 	pub value: ValueFormatOrLayout,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub dataset: Option<Dataset>,
 }
 
@@ -413,7 +417,11 @@ pub struct ListItem {
 	#[serde(default, skip_serializing_if = "Dataset::is_empty")]
 	pub dataset: Dataset,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub property: Option<Pattern>,
 }
 
diff --git a/layouts/src/abs/syntax/layout/literal.rs b/layouts/src/abs/syntax/layout/literal.rs
index 4d053d5..923cb85 100644
--- a/layouts/src/abs/syntax/layout/literal.rs
+++ b/layouts/src/abs/syntax/layout/literal.rs
@@ -253,9 +253,18 @@ pub struct BooleanLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub resource: Option<Pattern>,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub datatype: Option<CompactIri>,
 }
 
@@ -346,6 +355,11 @@ pub struct NumberLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -415,6 +429,11 @@ pub struct ByteStringLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -484,12 +503,25 @@ pub struct TextStringLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub pattern: Option<RegExp>,
 
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub resource: Option<Pattern>,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub datatype: Option<CompactIri>,
 }
 
@@ -565,9 +597,18 @@ pub struct IdLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub pattern: Option<RegExp>,
 
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub resource: Option<Pattern>,
 }
 
diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index 8908a05..12c3191 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -389,13 +389,21 @@ impl TryFromJson for LayoutInput {
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
 #[serde(deny_unknown_fields)]
 pub struct LayoutHeader {
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub base: Option<CompactIri>,
 
 	#[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
 	pub prefixes: BTreeMap<String, CompactIri>,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub id: Option<CompactIri>,
 
 	#[serde(default, skip_serializing_if = "LayoutInput::is_default")]
diff --git a/layouts/src/abs/syntax/layout/product.rs b/layouts/src/abs/syntax/layout/product.rs
index bcba6c2..6afd9e7 100644
--- a/layouts/src/abs/syntax/layout/product.rs
+++ b/layouts/src/abs/syntax/layout/product.rs
@@ -143,7 +143,11 @@ pub struct Field {
 	#[serde(default, skip_serializing_if = "Dataset::is_empty")]
 	pub dataset: Dataset,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub property: Option<Pattern>,
 
 	#[serde(default, skip_serializing_if = "crate::abs::is_false")]
diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index a24085a..250ef2a 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -209,7 +209,11 @@ pub struct VariantFormat {
 	#[serde(default, skip_serializing_if = "VariantInput::is_default")]
 	pub input: VariantInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
@@ -239,8 +243,7 @@ impl TryFromJsonObject for VariantFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 		unused_entries.check()?;
 		Ok(result)
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 8a92e29..746a756 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -376,6 +376,18 @@ pub(crate) fn check_type(
 	}
 }
 
+/// Deserializes the value of an optional entry that is present.
+///
+/// Contrarily to the `Deserialize` implementation of `Option`, `null` does not
+/// stand for an absent entry.
+pub(crate) fn deserialize_some<'de, T, D>(deserializer: D) -> Result<Option<T>, D::Error>
+where
+	T: Deserialize<'de>,
+	D: serde::Deserializer<'de>,
+{
+	T::deserialize(deserializer).map(Some)
+}
+
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
 #[serde(untagged)]
 pub enum OneOrMany<T> {
@@ -503,7 +515,11 @@ pub struct ValueFormat {
 	#[serde(default, skip_serializing_if = "ValueInput::is_default")]
 	pub input: ValueInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
@@ -520,8 +536,7 @@ impl TryFromJsonObject for ValueFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 
 		unused_entries.check()?;
-- 
2.43.0


From a5b6bee7b064955462325a7796cf25284d329141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:57 +0000
Subject: [PATCH 34/48] fix: literals of layout definitions keep their language

---
 layouts/src/abs/syntax/pattern/literal.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index b7e967f..b37d1c3 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -24,16 +24,15 @@ impl LiteralValue {
 	) -> Result<Self, Error> {
 		let mut unused_entries = ObjectUnusedEntries::new(object, code_map, offset);
 		let type_ = match get_entry(object, "type", &mut unused_entries, code_map, offset)? {
-			Some(ty) => {
-				// TODO check if language is present.
-				LiteralType::Iri(LiteralTypeIri { type_: ty })
-			}
+			// If the language is also given, it is an unexpected entry.
+			Some(ty) => LiteralType::Iri(LiteralTypeIri { type_: ty }),
 			None => {
-				let language: String =
-					require_entry(object, "language", &mut unused_entries, code_map, offset)?;
-				match LangTagBuf::new(language) {
-					Ok(language) => LiteralType::Language(LiteralTypeLanguage { language }),
-					Err(e) => return Err(Error::InvalidLangTag(offset, e.0)),
+				let language: Option<String> =
+					get_entry(object, "language", &mut unused_entries, code_map, offset)?;
+				match language.map(LangTagBuf::new) {
+					Some(Ok(language)) => LiteralType::Language(LiteralTypeLanguage { language }),
+					Some(Err(e)) => return Err(Error::InvalidLangTag(offset, e.0)),
+					None => LiteralType::default(),
 				}
 			}
 		};
@@ -94,6 +93,7 @@ impl From<rdf_types::LiteralType> for LiteralType {
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(deny_unknown_fields)]
 pub struct LiteralTypeIri {
 	#[serde(
 		rename = "type",
@@ -112,6 +112,7 @@ impl LiteralTypeIri {
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(deny_unknown_fields)]
 pub struct LiteralTypeLanguage {
 	pub language: LangTagBuf,
 }
-- 
2.43.0


From 60f00996f4b6c1d0f5ce66487542f37182e8be8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:02 +0000
Subject: [PATCH 35/48] fix: unknown entries of typed strings are rejected

---
 layouts/src/abs/syntax/resource.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/layouts/src/abs/syntax/resource.rs b/layouts/src/abs/syntax/resource.rs
index dc85340..972edc0 100644
--- a/layouts/src/abs/syntax/resource.rs
+++ b/layouts/src/abs/syntax/resource.rs
@@ -89,6 +89,7 @@ impl<C: Context> Build<C> for Resource {
 
 /// Typed string literal.
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[serde(deny_unknown_fields)]
 pub struct TypedString {
 	/// Literal value.
 	pub value: String,
-- 
2.43.0


From 6e42cb2453811df7eed6b591d44ff2e1a1b39f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:08 +0000
Subject: [PATCH 36/48] fix: both JSON readers accept nested boolean layouts

---
 layouts/src/abs/syntax/layout/list.rs | 6 +++---
 layouts/src/abs/syntax/layout/mod.rs  | 5 ++++-
 layouts/src/abs/syntax/layout/sum.rs  | 6 +++---
 layouts/src/abs/syntax/mod.rs         | 6 +++---
 4 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/list.rs b/layouts/src/abs/syntax/layout/list.rs
index bc71e1b..e8a9304 100644
--- a/layouts/src/abs/syntax/layout/list.rs
+++ b/layouts/src/abs/syntax/layout/list.rs
@@ -161,8 +161,8 @@ impl TryFromJson for ListNodeOrLayout {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
-			json_syntax::Value::String(value) => {
-				LayoutRef::try_from_json_string_at(value, offset).map(Self::Layout)
+			json_syntax::Value::Boolean(_) | json_syntax::Value::String(_) => {
+				LayoutRef::try_from_json_at(json, code_map, offset).map(Self::Layout)
 			}
 			json_syntax::Value::Object(value) => {
 				if value.contains_key("type") {
@@ -175,7 +175,7 @@ impl TryFromJson for ListNodeOrLayout {
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index 12c3191..cfacf31 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -305,13 +305,16 @@ impl TryFromJson for LayoutRef {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
+			json_syntax::Value::Boolean(value) => {
+				Ok(Self::Layout(Box::new(Layout::Boolean(*value))))
+			}
 			json_syntax::Value::String(value) => Self::try_from_json_string_at(value, offset),
 			json_syntax::Value::Object(value) => {
 				Self::try_from_json_object_at(value, code_map, offset)
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index 250ef2a..0fc2dec 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -164,8 +164,8 @@ impl TryFromJson for VariantFormatOrLayout {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
-			json_syntax::Value::String(value) => {
-				LayoutRef::try_from_json_string_at(value, offset).map(Self::Layout)
+			json_syntax::Value::Boolean(_) | json_syntax::Value::String(_) => {
+				LayoutRef::try_from_json_at(json, code_map, offset).map(Self::Layout)
 			}
 			json_syntax::Value::Object(value) => {
 				if value.contains_key("type") {
@@ -176,7 +176,7 @@ impl TryFromJson for VariantFormatOrLayout {
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 746a756..0d718b4 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -470,8 +470,8 @@ impl TryFromJson for ValueFormatOrLayout {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
-			json_syntax::Value::String(value) => {
-				LayoutRef::try_from_json_string_at(value, offset).map(Self::Layout)
+			json_syntax::Value::Boolean(_) | json_syntax::Value::String(_) => {
+				LayoutRef::try_from_json_at(json, code_map, offset).map(Self::Layout)
 			}
 			json_syntax::Value::Object(value) => {
 				if value.contains_key("type") {
@@ -482,7 +482,7 @@ impl TryFromJson for ValueFormatOrLayout {
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
-- 
2.43.0


From 93cca8e6400df4b2914efe6e5510fd602c94c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:13 +0000
Subject: [PATCH 37/48] fix: one-element lists of layout definitions are
 written as lists

---
 layouts/src/abs/syntax/layout/mod.rs | 6 ++----
 layouts/src/abs/syntax/layout/sum.rs | 3 +--
 layouts/src/abs/syntax/mod.rs        | 3 +--
 3 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index cfacf31..41f9925 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -360,8 +360,7 @@ impl LayoutInput {
 	}
 
 	pub fn is_default(&self) -> bool {
-		let slice = self.0.as_slice();
-		slice.len() == 1 && slice[0] == "self"
+		matches!(&self.0, OneOrMany::One(name) if name == "self")
 	}
 }
 
@@ -533,8 +532,7 @@ impl ValueInput {
 	}
 
 	pub fn is_default(&self) -> bool {
-		let slice = self.0.as_slice();
-		slice.len() == 1 && slice[0].is_variable("value")
+		matches!(&self.0, OneOrMany::One(pattern) if pattern.is_variable("value"))
 	}
 
 	pub fn first(&self) -> Option<&Pattern> {
diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index 0fc2dec..0902e04 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -292,8 +292,7 @@ impl VariantInput {
 	}
 
 	pub fn is_default(&self) -> bool {
-		let slice = self.0.as_slice();
-		slice.len() == 1 && slice[0].is_variable("self")
+		matches!(&self.0, OneOrMany::One(pattern) if pattern.is_variable("self"))
 	}
 }
 
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 0d718b4..d2ce110 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -562,8 +562,7 @@ impl ValueIntro {
 	}
 
 	pub fn is_default(&self) -> bool {
-		let slice = self.0.as_slice();
-		slice.len() == 1 && slice[0] == "value"
+		matches!(&self.0, OneOrMany::One(name) if name == "value")
 	}
 }
 
-- 
2.43.0


From d2b3b2f785a21801ecece5349a0edf91fbb9cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:38 +0000
Subject: [PATCH 38/48] fix: negative numbers of layout definitions have a
 valid lexical form

---
 layouts/src/abs/syntax/resource.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/layouts/src/abs/syntax/resource.rs b/layouts/src/abs/syntax/resource.rs
index 972edc0..060ded5 100644
--- a/layouts/src/abs/syntax/resource.rs
+++ b/layouts/src/abs/syntax/resource.rs
@@ -71,11 +71,10 @@ impl<C: Context> Build<C> for Resource {
 				Ok(context.literal_resource(value, LexicalLiteralTypeRef::Any(XSD_BOOLEAN)))
 			}
 			&Self::Number(n) => {
-				let value: xsd_types::Decimal = n.into();
-				let type_ = value.decimal_type();
+				let type_ = xsd_types::Decimal::from(n).decimal_type();
 
 				Ok(context.literal_resource(
-					value.lexical_representation(),
+					&n.to_string(),
 					LexicalLiteralTypeRef::Any(type_.iri()),
 				))
 			}
-- 
2.43.0


From 880b09ef38be3965557fb63677c91cd03b9330b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:00 +0000
Subject: [PATCH 39/48] fix: duplicate entries of maps are rejected in layout
 definitions

---
 layouts/src/abs/syntax/dataset.rs        |  3 +-
 layouts/src/abs/syntax/layout/mod.rs     | 18 +++--
 layouts/src/abs/syntax/layout/product.rs | 13 +++-
 layouts/src/abs/syntax/layout/sum.rs     |  9 ++-
 layouts/src/abs/syntax/mod.rs            | 85 ++++++++++++++++++++++++
 layouts/src/abs/syntax/resource.rs       |  6 +-
 6 files changed, 119 insertions(+), 15 deletions(-)

diff --git a/layouts/src/abs/syntax/dataset.rs b/layouts/src/abs/syntax/dataset.rs
index 760e010..0dd3f05 100644
--- a/layouts/src/abs/syntax/dataset.rs
+++ b/layouts/src/abs/syntax/dataset.rs
@@ -56,7 +56,8 @@ pub struct Quad(
 		default,
 		deserialize_with = "crate::abs::syntax::deserialize_some",
 		skip_serializing_if = "Option::is_none"
-	)] pub Option<Pattern>,
+	)]
+	pub Option<Pattern>,
 );
 
 impl TryFromJson for Quad {
diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index 41f9925..72f3877 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -31,8 +31,8 @@ use crate::{
 
 use super::{
 	get_entry, require_type, Build, BuildError, CompactIri, Context, Dataset, Error, ExpectedType,
-	InvalidCompactIri, ObjectUnusedEntries, OneOrMany, Pattern, Resource, Scope, ValueFormat,
-	VariableName,
+	InvalidCompactIri, ObjectUnusedEntries, OneOrMany, Pattern, Resource, Scope, UniqueMap,
+	ValueFormat, VariableName,
 };
 
 /// Abstract syntax layout.
@@ -398,7 +398,11 @@ pub struct LayoutHeader {
 	)]
 	pub base: Option<CompactIri>,
 
-	#[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_unique_map",
+		skip_serializing_if = "BTreeMap::is_empty"
+	)]
 	pub prefixes: BTreeMap<String, CompactIri>,
 
 	#[serde(
@@ -431,6 +435,7 @@ impl LayoutHeader {
 		Ok(Self {
 			base: get_entry(object, "base", unused_entries, code_map, offset)?,
 			prefixes: get_entry(object, "prefixes", unused_entries, code_map, offset)?
+				.map(|UniqueMap(prefixes)| prefixes)
 				.unwrap_or_default(),
 			id: get_entry(object, "id", unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", unused_entries, code_map, offset)?
@@ -478,7 +483,10 @@ pub struct BuiltLayoutHeader<R> {
 /// RDF Resource properties.
 #[derive(Debug, Default, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
 #[serde(transparent)]
-pub struct ExtraProperties(BTreeMap<CompactIri, Resource>);
+pub struct ExtraProperties(
+	#[serde(deserialize_with = "crate::abs::syntax::deserialize_unique_map")]
+	BTreeMap<CompactIri, Resource>,
+);
 
 impl ExtraProperties {
 	pub fn is_empty(&self) -> bool {
@@ -494,7 +502,7 @@ impl TryFromJson for ExtraProperties {
 		code_map: &json_syntax::CodeMap,
 		offset: usize,
 	) -> Result<Self, Self::Error> {
-		Ok(Self(BTreeMap::try_from_json_at(json, code_map, offset)?))
+		UniqueMap::try_from_json_at(json, code_map, offset).map(|UniqueMap(map)| Self(map))
 	}
 }
 
diff --git a/layouts/src/abs/syntax/layout/product.rs b/layouts/src/abs/syntax/layout/product.rs
index 6afd9e7..fa4b5ee 100644
--- a/layouts/src/abs/syntax/layout/product.rs
+++ b/layouts/src/abs/syntax/layout/product.rs
@@ -8,7 +8,8 @@ use crate::{
 		self,
 		syntax::{
 			check_type, expect_object, get_entry, require_entry, Build, BuildError, Context,
-			Dataset, Error, ObjectUnusedEntries, Pattern, Scope, ValueFormatOrLayout, ValueIntro,
+			Dataset, Error, ObjectUnusedEntries, Pattern, Scope, UniqueMap, ValueFormatOrLayout,
+			ValueIntro,
 		},
 	},
 	Value,
@@ -25,7 +26,11 @@ pub struct ProductLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
-	#[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_unique_map",
+		skip_serializing_if = "BTreeMap::is_empty"
+	)]
 	pub fields: BTreeMap<Value, Field>,
 }
 
@@ -59,7 +64,9 @@ impl TryFromJsonObject for ProductLayout {
 			offset,
 		)?;
 		let fields: BTreeMap<String, Field> =
-			get_entry(object, "fields", &mut unused_entries, code_map, offset)?.unwrap_or_default();
+			get_entry(object, "fields", &mut unused_entries, code_map, offset)?
+				.map(|UniqueMap(fields)| fields)
+				.unwrap_or_default();
 		let result = Self {
 			type_: ProductLayoutType,
 			header: LayoutHeader::try_from_json_object_at(
diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index 0902e04..cc04028 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -7,7 +7,7 @@ use crate::abs::{
 	self,
 	syntax::{
 		check_type, expect_object, get_entry, require_entry, Build, BuildError, Context, Dataset,
-		Error, ObjectUnusedEntries, OneOrMany, Pattern, Scope, VariableName,
+		Error, ObjectUnusedEntries, OneOrMany, Pattern, Scope, UniqueMap, VariableName,
 	},
 };
 
@@ -22,7 +22,11 @@ pub struct SumLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
-	#[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_unique_map",
+		skip_serializing_if = "BTreeMap::is_empty"
+	)]
 	pub variants: BTreeMap<String, Variant>,
 }
 
@@ -64,6 +68,7 @@ impl TryFromJsonObject for SumLayout {
 				offset,
 			)?,
 			variants: get_entry(object, "variants", &mut unused_entries, code_map, offset)?
+				.map(|UniqueMap(variants)| variants)
 				.unwrap_or_default(),
 		};
 		unused_entries.check()?;
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index d2ce110..6f39bc7 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -1,4 +1,5 @@
 use core::fmt;
+use std::{collections::BTreeMap, marker::PhantomData, str::FromStr};
 
 use json_syntax::{array::JsonArray, Kind, TryFromJson, TryFromJsonObject};
 use serde::{Deserialize, Serialize};
@@ -388,6 +389,90 @@ where
 	T::deserialize(deserializer).map(Some)
 }
 
+/// Deserializes a map in which each key occurs once.
+///
+/// Contrarily to the `Deserialize` implementation of `BTreeMap`, an entry never
+/// silently replaces another one.
+pub(crate) fn deserialize_unique_map<'de, K, V, D>(
+	deserializer: D,
+) -> Result<BTreeMap<K, V>, D::Error>
+where
+	K: Deserialize<'de> + Ord,
+	V: Deserialize<'de>,
+	D: serde::Deserializer<'de>,
+{
+	struct Visitor<K, V>(PhantomData<(K, V)>);
+
+	impl<'de, K, V> serde::de::Visitor<'de> for Visitor<K, V>
+	where
+		K: Deserialize<'de> + Ord,
+		V: Deserialize<'de>,
+	{
+		type Value = BTreeMap<K, V>;
+
+		fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
+			f.write_str("a map")
+		}
+
+		fn visit_map<A>(self, mut map: A) -> Result<Self::Value, A::Error>
+		where
+			A: serde::de::MapAccess<'de>,
+		{
+			let mut result = BTreeMap::new();
+
+			while let Some((key, value)) = map.next_entry()? {
+				if result.insert(key, value).is_some() {
+					return Err(serde::de::Error::custom("duplicate entry"));
+				}
+			}
+
+			Ok(result)
+		}
+	}
+
+	deserializer.deserialize_map(Visitor(PhantomData))
+}
+
+/// Map in which each key occurs once.
+///
+/// Contrarily to the `TryFromJson` implementation of `BTreeMap`, an entry never
+/// silently replaces another one.
+pub(crate) struct UniqueMap<K, V>(pub BTreeMap<K, V>);
+
+impl<K, V> TryFromJson for UniqueMap<K, V>
+where
+	K: FromStr + Ord,
+	V: TryFromJson<Error = Error>,
+	Error: From<json_syntax::code_map::Mapped<K::Err>>,
+{
+	type Error = Error;
+
+	fn try_from_json_at(
+		json: &json_syntax::Value,
+		code_map: &json_syntax::CodeMap,
+		offset: usize,
+	) -> Result<Self, Self::Error> {
+		let mut result = BTreeMap::new();
+
+		for entry in expect_object(json, offset)?.iter_mapped(code_map, offset) {
+			let key = entry.value.key;
+			let value = entry.value.value;
+			let k = K::from_str(key.value)
+				.map_err(|e| json_syntax::code_map::Mapped::new(key.offset, e))?;
+			let v = V::try_from_json_at(value.value, code_map, value.offset)?;
+			if let Some((other_offset, _)) = result.insert(k, (key.offset, v)) {
+				return Err(Error::DuplicateEntry {
+					offset: key.offset,
+					key: key.value.to_string(),
+					other_offset,
+				});
+			}
+		}
+
+		Ok(Self(result.into_iter().map(|(k, (_, v))| (k, v)).collect()))
+	}
+}
+
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
 #[serde(untagged)]
 pub enum OneOrMany<T> {
diff --git a/layouts/src/abs/syntax/resource.rs b/layouts/src/abs/syntax/resource.rs
index 060ded5..8dd96c9 100644
--- a/layouts/src/abs/syntax/resource.rs
+++ b/layouts/src/abs/syntax/resource.rs
@@ -73,10 +73,8 @@ impl<C: Context> Build<C> for Resource {
 			&Self::Number(n) => {
 				let type_ = xsd_types::Decimal::from(n).decimal_type();
 
-				Ok(context.literal_resource(
-					&n.to_string(),
-					LexicalLiteralTypeRef::Any(type_.iri()),
-				))
+				Ok(context
+					.literal_resource(&n.to_string(), LexicalLiteralTypeRef::Any(type_.iri())))
 			}
 			Self::String(value) => {
 				Ok(context.literal_resource(value, LexicalLiteralTypeRef::Any(XSD_STRING)))
-- 
2.43.0


From 424092b080ff1f6eef23751bfdf301ff5615f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:42 +0000
Subject: [PATCH 40/48] fix: empty objects in layout definitions do not crash
 the JSON reader

---
 layouts/src/abs/syntax/dataset.rs | 26 ++++-----
 layouts/src/abs/syntax/mod.rs     | 93 ++++++++++++++++++++++++++-----
 2 files changed, 91 insertions(+), 28 deletions(-)

diff --git a/layouts/src/abs/syntax/dataset.rs b/layouts/src/abs/syntax/dataset.rs
index 0dd3f05..749586c 100644
--- a/layouts/src/abs/syntax/dataset.rs
+++ b/layouts/src/abs/syntax/dataset.rs
@@ -1,7 +1,7 @@
 use json_syntax::TryFromJson;
 use serde::{Deserialize, Serialize};
 
-use super::{expect_array, Build, BuildError, Context, Error, Pattern, Scope};
+use super::{array_items, expect_array, Build, BuildError, Context, Error, Pattern, Scope};
 
 #[derive(Debug, Default, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
 #[serde(transparent)]
@@ -27,7 +27,11 @@ impl TryFromJson for Dataset {
 		code_map: &json_syntax::CodeMap,
 		offset: usize,
 	) -> Result<Self, Self::Error> {
-		Vec::try_from_json_at(json, code_map, offset).map(Self)
+		array_items(expect_array(json, offset)?, code_map, offset)
+			.into_iter()
+			.map(|item| Quad::try_from_json_at(item.value, code_map, item.offset))
+			.collect::<Result<_, _>>()
+			.map(Self)
 	}
 }
 
@@ -78,17 +82,13 @@ impl TryFromJson for Quad {
 			return Err(Error::TooManyQuadPatterns(offset));
 		}
 
-		let mut component_offset = offset + 1;
-		let s = Pattern::try_from_json_at(&array[0], code_map, component_offset)?;
-		component_offset += code_map.get(component_offset).unwrap().volume;
-		let p = Pattern::try_from_json_at(&array[1], code_map, component_offset)?;
-		component_offset += code_map.get(component_offset).unwrap().volume;
-		let o = Pattern::try_from_json_at(&array[2], code_map, component_offset)?;
-		component_offset += code_map.get(component_offset).unwrap().volume;
-		let g = array
-			.get(3)
-			.map(|g| Pattern::try_from_json_at(g, code_map, component_offset))
-			.transpose()?;
+		let mut components = array_items(array, code_map, offset)
+			.into_iter()
+			.map(|item| Pattern::try_from_json_at(item.value, code_map, item.offset));
+		let s = components.next().unwrap()?;
+		let p = components.next().unwrap()?;
+		let o = components.next().unwrap()?;
+		let g = components.next().transpose()?;
 
 		Ok(Self(s, p, o, g))
 	}
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 6f39bc7..1f375b5 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -1,7 +1,7 @@
 use core::fmt;
 use std::{collections::BTreeMap, marker::PhantomData, str::FromStr};
 
-use json_syntax::{array::JsonArray, Kind, TryFromJson, TryFromJsonObject};
+use json_syntax::{Kind, TryFromJson, TryFromJsonObject};
 use serde::{Deserialize, Serialize};
 
 mod build;
@@ -242,6 +242,75 @@ pub(crate) fn expect_string(json: &json_syntax::Value, offset: usize) -> Result<
 	}
 }
 
+/// Number of fragments of the JSON value at the given offset of the code map,
+/// itself included.
+///
+/// The JSON parser leaves the volume of an empty object undefined (`0`).
+fn volume(code_map: &json_syntax::CodeMap, offset: usize) -> usize {
+	code_map.get(offset).map_or(1, |e| e.volume.max(1))
+}
+
+/// Items of an array with their code map offset.
+pub(crate) fn array_items<'a>(
+	array: &'a [json_syntax::Value],
+	code_map: &json_syntax::CodeMap,
+	mut offset: usize,
+) -> Vec<json_syntax::code_map::Mapped<&'a json_syntax::Value>> {
+	let mut result = Vec::with_capacity(array.len());
+
+	offset += 1;
+	for item in array {
+		result.push(json_syntax::code_map::Mapped::new(offset, item));
+		offset += volume(code_map, offset);
+	}
+
+	result
+}
+
+/// Entries of an object with their code map offset.
+pub(crate) fn object_entries<'a>(
+	object: &'a json_syntax::Object,
+	code_map: &json_syntax::CodeMap,
+	mut offset: usize,
+) -> Vec<json_syntax::object::MappedEntry<'a>> {
+	let mut result = Vec::with_capacity(object.len());
+
+	offset += 1;
+	for entry in object.entries() {
+		result.push(json_syntax::code_map::Mapped::new(
+			offset,
+			entry.as_ref().into_mapped(offset + 1, offset + 2),
+		));
+		offset += 2 + volume(code_map, offset + 2);
+	}
+
+	result
+}
+
+/// Finds the only entry of an object with the given key, if any, with its
+/// index.
+fn unique_entry<'a>(
+	object: &'a json_syntax::Object,
+	key: &str,
+	code_map: &json_syntax::CodeMap,
+	offset: usize,
+) -> Result<Option<json_syntax::object::IndexedMappedEntry<'a>>, Error> {
+	let mut entries = object_entries(object, code_map, offset)
+		.into_iter()
+		.enumerate()
+		.filter(|(_, e)| e.value.key.value.as_str() == key);
+
+	match entries.next() {
+		Some(entry) => match entries.next() {
+			Some(other) => Err(Error::duplicate(key)(json_syntax::object::Duplicate(
+				entry, other,
+			))),
+			None => Ok(Some(entry)),
+		},
+		None => Ok(None),
+	}
+}
+
 pub(crate) struct ObjectUnusedEntries<'a> {
 	object: &'a json_syntax::Object,
 	entries: Vec<(usize, bool)>,
@@ -254,7 +323,7 @@ impl<'a> ObjectUnusedEntries<'a> {
 		offset: usize,
 	) -> Self {
 		let mut entries = Vec::with_capacity(object.len());
-		for e in object.iter_mapped(code_map, offset) {
+		for e in object_entries(object, code_map, offset) {
 			entries.push((e.value.key.offset, true))
 		}
 		Self { object, entries }
@@ -288,9 +357,7 @@ pub(crate) fn get_entry<T: json_syntax::TryFromJson>(
 where
 	T::Error: Into<Error>,
 {
-	let entry = object
-		.get_unique_mapped_entry_with_index(code_map, offset, key)
-		.map_err(Error::duplicate(key))?;
+	let entry = unique_entry(object, key, code_map, offset)?;
 
 	match entry {
 		Some((i, entry)) => {
@@ -314,9 +381,7 @@ pub(crate) fn require_entry<T: json_syntax::TryFromJson>(
 where
 	T::Error: Into<Error>,
 {
-	let entry = object
-		.get_unique_mapped_entry_with_index(code_map, offset, key)
-		.map_err(Error::duplicate(key))?;
+	let entry = unique_entry(object, key, code_map, offset)?;
 
 	match entry {
 		Some((i, entry)) => {
@@ -337,10 +402,8 @@ pub(crate) fn require_type<'a>(
 	code_map: &json_syntax::CodeMap,
 	offset: usize,
 ) -> Result<json_syntax::code_map::Mapped<&'a str>, Error> {
-	let (i, entry) = object
-		.get_unique_mapped_entry_with_index(code_map, offset, "type")
-		.map_err(Error::duplicate("type"))?
-		.ok_or(Error::MissingType(offset))?;
+	let (i, entry) =
+		unique_entry(object, "type", code_map, offset)?.ok_or(Error::MissingType(offset))?;
 	if let Some(unused_entries) = unused_entries {
 		unused_entries.remove(i);
 	}
@@ -454,7 +517,7 @@ where
 	) -> Result<Self, Self::Error> {
 		let mut result = BTreeMap::new();
 
-		for entry in expect_object(json, offset)?.iter_mapped(code_map, offset) {
+		for entry in object_entries(expect_object(json, offset)?, code_map, offset) {
 			let key = entry.value.key;
 			let value = entry.value.value;
 			let k = K::from_str(key.value)
@@ -529,8 +592,8 @@ impl<T: TryFromJson> TryFromJson for OneOrMany<T> {
 	) -> Result<Self, Self::Error> {
 		match json {
 			json_syntax::Value::Array(array) => Ok(Self::Many(
-				array
-					.iter_mapped(code_map, offset)
+				array_items(array, code_map, offset)
+					.into_iter()
 					.map(|item| T::try_from_json_at(item.value, code_map, item.offset))
 					.collect::<Result<_, _>>()?,
 			)),
-- 
2.43.0


From 30415372057d3493e2bb45509fa6bfee561e16ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:42 +0000
Subject: [PATCH 41/48] fix: structures of layout definitions cannot be written
 as sequences

---
 layouts/src/abs/syntax/layout/list.rs    |  8 +++-
 layouts/src/abs/syntax/layout/product.rs |  4 +-
 layouts/src/abs/syntax/layout/sum.rs     |  8 +++-
 layouts/src/abs/syntax/mod.rs            | 58 +++++++++++++++++++++++-
 layouts/src/abs/syntax/resource.rs       |  4 +-
 5 files changed, 75 insertions(+), 7 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/list.rs b/layouts/src/abs/syntax/layout/list.rs
index e8a9304..1814434 100644
--- a/layouts/src/abs/syntax/layout/list.rs
+++ b/layouts/src/abs/syntax/layout/list.rs
@@ -236,7 +236,7 @@ where
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
-#[serde(deny_unknown_fields)]
+#[serde(deny_unknown_fields, remote = "Self")]
 pub struct ListNode {
 	#[serde(
 		default = "ListNode::default_head",
@@ -263,6 +263,8 @@ pub struct ListNode {
 	pub dataset: Option<Dataset>,
 }
 
+crate::abs::syntax::serde_map!(ListNode);
+
 impl ListNode {
 	pub fn default_head() -> String {
 		"head".to_string()
@@ -407,7 +409,7 @@ impl TryFromJsonObject for UnorderedListLayout {
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
-#[serde(deny_unknown_fields)]
+#[serde(deny_unknown_fields, remote = "Self")]
 pub struct ListItem {
 	#[serde(default, skip_serializing_if = "ValueIntro::is_default")]
 	pub intro: ValueIntro,
@@ -425,6 +427,8 @@ pub struct ListItem {
 	pub property: Option<Pattern>,
 }
 
+crate::abs::syntax::serde_map!(ListItem);
+
 impl TryFromJson for ListItem {
 	type Error = Error;
 
diff --git a/layouts/src/abs/syntax/layout/product.rs b/layouts/src/abs/syntax/layout/product.rs
index fa4b5ee..2152d94 100644
--- a/layouts/src/abs/syntax/layout/product.rs
+++ b/layouts/src/abs/syntax/layout/product.rs
@@ -140,7 +140,7 @@ where
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
-#[serde(deny_unknown_fields)]
+#[serde(deny_unknown_fields, remote = "Self")]
 pub struct Field {
 	#[serde(default, skip_serializing_if = "ValueIntro::is_default")]
 	pub intro: ValueIntro,
@@ -161,6 +161,8 @@ pub struct Field {
 	pub required: bool,
 }
 
+crate::abs::syntax::serde_map!(Field);
+
 impl TryFromJson for Field {
 	type Error = Error;
 
diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index cc04028..dcf56c1 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -77,7 +77,7 @@ impl TryFromJsonObject for SumLayout {
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
-#[serde(deny_unknown_fields)]
+#[serde(deny_unknown_fields, remote = "Self")]
 pub struct Variant {
 	#[serde(default, skip_serializing_if = "OneOrMany::is_empty")]
 	pub intro: OneOrMany<String>,
@@ -88,6 +88,8 @@ pub struct Variant {
 	pub dataset: Dataset,
 }
 
+crate::abs::syntax::serde_map!(Variant);
+
 impl TryFromJson for Variant {
 	type Error = Error;
 
@@ -207,7 +209,7 @@ where
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
-#[serde(deny_unknown_fields)]
+#[serde(deny_unknown_fields, remote = "Self")]
 pub struct VariantFormat {
 	pub layout: LayoutRef,
 
@@ -222,6 +224,8 @@ pub struct VariantFormat {
 	pub graph: Option<Option<Pattern>>,
 }
 
+crate::abs::syntax::serde_map!(VariantFormat);
+
 impl TryFromJson for VariantFormat {
 	type Error = Error;
 
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 1f375b5..992f3e5 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -496,6 +496,60 @@ where
 	deserializer.deserialize_map(Visitor(PhantomData))
 }
 
+/// Deserializer of structures written as maps only.
+///
+/// Contrarily to what the derived `Deserialize` implementations accept, the
+/// entries of a structure cannot be given by position, in a sequence.
+pub(crate) struct MapDeserializer<D>(pub D);
+
+impl<'de, D> serde::Deserializer<'de> for MapDeserializer<D>
+where
+	D: serde::Deserializer<'de>,
+{
+	type Error = D::Error;
+
+	fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+	where
+		V: serde::de::Visitor<'de>,
+	{
+		self.0.deserialize_map(visitor)
+	}
+
+	serde::forward_to_deserialize_any! {
+		bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
+		bytes byte_buf option unit unit_struct newtype_struct seq tuple
+		tuple_struct map struct enum identifier ignored_any
+	}
+}
+
+/// Implements `Serialize` and `Deserialize` for structures written as maps
+/// only, deriving them with `#[serde(remote = "Self")]`.
+macro_rules! serde_map {
+	($($ty:ident),*) => {
+		$(
+			impl serde::Serialize for $ty {
+				fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+				where
+					S: serde::Serializer,
+				{
+					Self::serialize(self, serializer)
+				}
+			}
+
+			impl<'de> serde::Deserialize<'de> for $ty {
+				fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+				where
+					D: serde::Deserializer<'de>,
+				{
+					Self::deserialize($crate::abs::syntax::MapDeserializer(deserializer))
+				}
+			}
+		)*
+	};
+}
+
+pub(crate) use serde_map;
+
 /// Map in which each key occurs once.
 ///
 /// Contrarily to the `TryFromJson` implementation of `BTreeMap`, an entry never
@@ -656,7 +710,7 @@ where
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
-#[serde(deny_unknown_fields)]
+#[serde(deny_unknown_fields, remote = "Self")]
 pub struct ValueFormat {
 	pub layout: LayoutRef,
 
@@ -671,6 +725,8 @@ pub struct ValueFormat {
 	pub graph: Option<Option<Pattern>>,
 }
 
+serde_map!(ValueFormat);
+
 impl TryFromJsonObject for ValueFormat {
 	type Error = Error;
 
diff --git a/layouts/src/abs/syntax/resource.rs b/layouts/src/abs/syntax/resource.rs
index 8dd96c9..2a89807 100644
--- a/layouts/src/abs/syntax/resource.rs
+++ b/layouts/src/abs/syntax/resource.rs
@@ -86,7 +86,7 @@ impl<C: Context> Build<C> for Resource {
 
 /// Typed string literal.
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
-#[serde(deny_unknown_fields)]
+#[serde(deny_unknown_fields, remote = "Self")]
 pub struct TypedString {
 	/// Literal value.
 	pub value: String,
@@ -96,6 +96,8 @@ pub struct TypedString {
 	pub type_: CompactIri,
 }
 
+crate::abs::syntax::serde_map!(TypedString);
+
 impl TypedString {
 	fn try_from_json_object_at(
 		object: &json_syntax::Object,
-- 
2.43.0


From 8bd11c774ad5ec1fccaf0735640000b56d71d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:33 +0000
Subject: [PATCH 42/48] fix: values are read with the arbitrary precision
 numbers of serde_json

---
 layouts/src/value/de.rs  | 24 ++++++++++++++++++++++--
 layouts/src/value/mod.rs | 16 ++++++++++++----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/layouts/src/value/de.rs b/layouts/src/value/de.rs
index 63a1318..4f32c34 100644
--- a/layouts/src/value/de.rs
+++ b/layouts/src/value/de.rs
@@ -1,6 +1,10 @@
 use std::{collections::BTreeMap, fmt};
 
-use super::{Literal, Number, Value};
+use super::{try_parse_json_number, Literal, Number, Value};
+
+/// Key of the map representing a number that does not fit a native type when
+/// the `arbitrary_precision` feature of `serde_json` is enabled.
+const NUMBER_TOKEN: &str = "$serde_json::private::Number";
 
 impl<'de> serde::Deserialize<'de> for Value {
 	#[inline]
@@ -109,7 +113,23 @@ impl<'de> serde::Deserialize<'de> for Value {
 			{
 				let mut map = BTreeMap::new();
 
-				while let Some((key, value)) = visitor.next_entry()? {
+				while let Some(key) = visitor.next_key::<Value>()? {
+					let value = visitor.next_value::<Value>()?;
+
+					if let (
+						true,
+						Value::Literal(Literal::TextString(key)),
+						Value::Literal(Literal::TextString(value)),
+					) = (map.is_empty(), &key, &value)
+					{
+						if key == NUMBER_TOKEN {
+							return match try_parse_json_number(value) {
+								Some(n) => Ok(Value::Literal(Literal::Number(Number(n)))),
+								None => Err(serde::de::Error::custom("invalid number")),
+							};
+						}
+					}
+
 					map.insert(key, value);
 				}
 
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 935a5cc..3e84d8a 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -249,14 +249,22 @@ pub(crate) fn parse_xsd_decimal(
 }
 
 /// Parses a JSON number (a decimal with an optional exponent).
-fn parse_json_number(s: &str) -> BigRational {
+///
+/// Returns `None` if the input is not a JSON number, or if its exponent is too
+/// large.
+fn try_parse_json_number(s: &str) -> Option<BigRational> {
 	let (decimal, exponent) = match s.split_once(['e', 'E']) {
-		Some((decimal, exponent)) => (decimal, exponent.parse().ok().unwrap()),
+		Some((decimal, exponent)) => (decimal, exponent.parse().ok()?),
 		None => (s, 0i32),
 	};
 
-	let value = parse_decimal(decimal).unwrap();
-	value * BigRational::from_integer(TEN.clone()).pow(exponent)
+	let value = parse_decimal(decimal)?;
+	Some(value * BigRational::from_integer(TEN.clone()).pow(exponent))
+}
+
+/// Parses a JSON number (a decimal with an optional exponent).
+fn parse_json_number(s: &str) -> BigRational {
+	try_parse_json_number(s).unwrap()
 }
 
 impl From<serde_json::Number> for Number {
-- 
2.43.0


From da9264b9eceb4a791f6ac7863748f4efd931648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:53 +0000
Subject: [PATCH 43/48] fix: graph variables of derived types do not match the
 default graph instead of panicking

---
 generators/rust/treeldr-rs/src/pattern.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs/src/pattern.rs b/generators/rust/treeldr-rs/src/pattern.rs
index 190e878..b436040 100644
--- a/generators/rust/treeldr-rs/src/pattern.rs
+++ b/generators/rust/treeldr-rs/src/pattern.rs
@@ -133,7 +133,8 @@ impl<R> Substitution<R> {
 		}
 
 		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
+			// A variable stands for a resource: it cannot match the default graph.
+			let g = value.3?;
 			if let Some(old_value) = result.set(x, Some(g.clone())) {
 				if old_value != *g {
 					return None;
-- 
2.43.0


From e81792e237016a3a5052a93c568e6ce0373bf927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:12 +0000
Subject: [PATCH 44/48] fix: derived literals and identifiers are written on
 the resource of their layout

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 66 +++++--------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 9941596..90eba36 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -55,20 +55,22 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			LiteralLayout::Id(layout) => {
 				let intro = layout.intro;
 				let dataset = dataset_to_array(&layout.dataset);
+				let target = generate_pattern(&layout.resource);
 
 				quote! {
 					let env = env.intro(rdf, #intro);
 					env.instantiate_dataset_in(&#dataset, current_graph, output);
+					let target = env.instantiate_pattern(&#target);
 
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
 							let id = rdf.vocabulary.insert(value);
-							rdf.interpretation.assign_iri(&inputs[0], id);
+							rdf.interpretation.assign_iri(&target, id);
 							Ok(())
 						}
 						::treeldr::rdf_types::Id::Blank(value) => {
 							let id = rdf.vocabulary.insert_blank_id(value);
-							rdf.interpretation.assign_blank_id(&inputs[0], id);
+							rdf.interpretation.assign_blank_id(&target, id);
 							Ok(())
 						}
 					}
@@ -89,7 +91,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -99,7 +101,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -107,7 +110,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -117,7 +120,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -125,7 +129,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -135,7 +139,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -143,7 +148,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -153,7 +158,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							::std::convert::AsRef::<str>::as_ref(&self.0),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -453,46 +459,6 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 	})
 }
 
-fn term_interpretation(term: &Term) -> TokenStream {
-	match term {
-		Term::Id(Id::Iri(iri)) => {
-			let iri = iri.as_str();
-			quote!(rdf.interpret_iri(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-		}
-		Term::Id(Id::Blank(blank_id)) => {
-			let blank_id = blank_id.as_str();
-			quote!(rdf.interpret_blank_id(unsafe { ::treeldr::rdf_types::BlankId::new_unchecked(#blank_id) }))
-		}
-		Term::Literal(literal) => {
-			let value = &literal.value;
-			let ty = match &literal.type_ {
-				LiteralType::Any(iri) => {
-					let iri = iri.as_str();
-					quote!(::treeldr::rdf_types::LiteralType::Any(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-				}
-				LiteralType::LangString(_tag) => {
-					todo!("lang string support")
-				}
-			};
-
-			quote!(rdf.interpret_literal(#value, #ty))
-		}
-	}
-}
-
-fn pattern_interpretation(pattern: &Pattern<Term>) -> TokenStream {
-	match pattern {
-		Pattern::Var(i) => {
-			let i = *i as usize;
-			quote!(&inputs[#i])
-		}
-		Pattern::Resource(term) => {
-			let term = term_interpretation(term);
-			quote!(&#term)
-		}
-	}
-}
-
 fn term_to_datatype(term: &Term) -> Result<TokenStream, Error> {
 	match term {
 		Term::Id(Id::Iri(iri)) => {
-- 
2.43.0


From f9e5157926707e2c9e470e557cc06e509709019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:12 +0000
Subject: [PATCH 45/48] fix: types derived from a text layout compile

---
 generators/rust/treeldr-rs-macros/src/generate/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 90eba36..319bc1c 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -155,7 +155,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
-							::std::convert::AsRef::<str>::as_ref(&self.0),
+							::std::convert::AsRef::<str>::as_ref(&self.0).to_owned(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
 						let target = env.instantiate_pattern(&#target);
-- 
2.43.0


From 5f85b8e0eeee98d83e6b474d211a41e459486224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:15 +0000
Subject: [PATCH 46/48] fix: derived types may use constant inputs and graphs

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 319bc1c..4701ccc 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -200,11 +200,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							{
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset_in(&#field_dataset, current_graph, output);
+								let inputs = env.instantiate_patterns(&#field_inputs);
+								let graph = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&inputs,
+									graph.as_ref(),
 									output
 								)?;
 							}
@@ -214,11 +216,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset_in(&#field_dataset, current_graph, output);
+								let inputs = env.instantiate_patterns(&#field_inputs);
+								let graph = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&inputs,
+									graph.as_ref(),
 									output
 								)?;
 							}
@@ -262,11 +266,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
 						env.instantiate_dataset_in(&#variant_dataset, current_graph, output);
+						let inputs = env.instantiate_patterns(&#variant_inputs);
+						let graph = #variant_graph;
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
-							&env.instantiate_patterns(&#variant_inputs),
-							#variant_graph.as_ref(),
+							&inputs,
+							graph.as_ref(),
 							output
 						)
 					}
@@ -313,11 +319,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #item_intro);
 						env.instantiate_dataset_in(&#item_dataset, current_graph, output);
 
+						let inputs = env.instantiate_patterns(&#item_value_inputs);
+						let graph = #item_value_graph;
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#item_value_inputs),
-							#item_value_graph.as_ref(),
+							&inputs,
+							graph.as_ref(),
 							output
 						)?;
 					}
@@ -368,11 +376,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #node_intro);
 						env.instantiate_dataset_in(&#node_dataset, current_graph, output);
 
+						let inputs = env.instantiate_patterns(&#node_value_inputs);
+						let graph = #node_value_graph;
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#node_value_inputs),
-							#node_value_graph.as_ref(),
+							&inputs,
+							graph.as_ref(),
 							output
 						)?;
 
@@ -412,11 +422,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							let env = env.intro(rdf, #item_intro);
 							env.instantiate_dataset_in(&#item_dataset, current_graph, output);
 
+							let inputs = env.instantiate_patterns(&#item_value_inputs);
+							let graph = #item_value_graph;
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
 								rdf,
-								&env.instantiate_patterns(&#item_value_inputs),
-								#item_value_graph.as_ref(),
+								&inputs,
+								graph.as_ref(),
 								output
 							)?;
 						}
-- 
2.43.0


From c24ee2e01d05bbb1cf3545b8db0e27f97169df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:05 +0000
Subject: [PATCH 47/48] fix: the head of a derived empty list is its tail

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 4701ccc..775881e 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -365,6 +365,25 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					let mut head = env.instantiate_pattern(&#head);
 
+					if self.0.is_empty() {
+						// The list has no nodes, its head is its tail.
+						let tail = env.instantiate_pattern(&#tail);
+
+						if head != tail {
+							let iris: Vec<_> = rdf
+								.interpretation
+								.iris_of(&tail)
+								.filter_map(|i| rdf.vocabulary.iri(i))
+								.map(::treeldr::iref::Iri::to_owned)
+								.collect();
+
+							for iri in iris {
+								let iri = rdf.vocabulary.insert(&iri);
+								rdf.interpretation.assign_iri(&head, iri);
+							}
+						}
+					}
+
 					for (i, item) in self.0.iter().enumerate() {
 						let rest = if i == self.0.len() - 1 {
 							env.instantiate_pattern(&#tail)
-- 
2.43.0


From 516ffdf2915867fd944e2a87c13be36f8153cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:09 +0000
Subject: [PATCH 48/48] fix: reading a cyclic list into a derived type is an
 error instead of an endless loop

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 4ed35cb..8890067 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -457,8 +457,14 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut head = #head.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
 					let tail = #tail.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
 					let mut items = Vec::new();
+					let mut visited = ::std::collections::BTreeSet::new();
 
 					while head != tail {
+						if !visited.insert(head.clone()) {
+							// Cyclic list, the tail is never reached.
+							return Err(::treeldr::DeserializeError::MissingData)
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head));
 						let rest = item_substitution.intro(1 + #node_intro);
-- 
2.43.0

