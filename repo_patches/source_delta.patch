From 3266e5511f9793e2a6a685980ab7c9d6b9d613c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 01/20] fix: comparing a generated dataclass object with a
 dataclass type raised TypeError

---
 py/koladata/base/py_conversions/dataclasses_util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/koladata/base/py_conversions/dataclasses_util.py b/py/koladata/base/py_conversions/dataclasses_util.py
index d7a3c30..22da7a4 100644
--- a/py/koladata/base/py_conversions/dataclasses_util.py
+++ b/py/koladata/base/py_conversions/dataclasses_util.py
@@ -24,9 +24,12 @@ _Type = type[Any] | types.UnionType | types.GenericAlias | typing.Optional[Any]
 
 def _eq(x, y):
   """Checks whether two dataclasses are equal ignoring types."""
-  return dataclasses.is_dataclass(y) and dataclasses.asdict(
-      x
-  ) == dataclasses.asdict(y)
+  # `is_dataclass` is also true for dataclass types, which are not instances.
+  return (
+      dataclasses.is_dataclass(y)
+      and not isinstance(y, type)
+      and dataclasses.asdict(x) == dataclasses.asdict(y)
+  )
 
 
 def make_dataclass(class_name: str, attr_names):
-- 
2.43.0


From 2fe9f76fbabb1f661e466e9148bc0c07f5b87329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 02/20] fix: unwrap failed on unhashable and on
 equal-but-distinct callables

---
 py/koladata/util/kd_functools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/koladata/util/kd_functools.py b/py/koladata/util/kd_functools.py
index 3514213..4380a28 100644
--- a/py/koladata/util/kd_functools.py
+++ b/py/koladata/util/kd_functools.py
@@ -20,12 +20,13 @@ from typing import Any
 
 def unwrap(fn: Callable[..., Any]) -> Callable[..., Any]:
   """Unwraps the function from all the decorators."""
-  visited = set()
+  # Keyed by identity: callables may be unhashable, or equal but distinct.
+  visited = {}
   while (
-      fn not in visited
+      id(fn) not in visited
       and hasattr(fn, '__wrapped__')
       and callable(fn.__wrapped__)
   ):
-    visited.add(fn)
+    visited[id(fn)] = fn
     fn = fn.__wrapped__
   return fn
-- 
2.43.0


From 7027fd6d9cfd492577e440f02fe2d9679aa9a033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:34 +0000
Subject: [PATCH 03/20] fix: DataBagManager.extract_bags dropped the custom
 metadata of the bags

---
 py/koladata/ext/storage/data_bag_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/koladata/ext/storage/data_bag_manager.py b/py/koladata/ext/storage/data_bag_manager.py
index 94c6d2e..62384dc 100644
--- a/py/koladata/ext/storage/data_bag_manager.py
+++ b/py/koladata/ext/storage/data_bag_manager.py
@@ -350,6 +350,7 @@ class DataBagManager:
         bag_names, with_all_dependents=with_all_dependents
     )
     bag_dependencies = self._get_dependency_relation()
+    bag_custom_metadata = self.get_custom_metadata(bag_name_to_bag.keys())
 
     fs = fs or kd.file_io.get_default_file_system_interaction()
     if not fs.exists(output_dir):
@@ -369,6 +370,7 @@ class DataBagManager:
             bag_name,
             bag=bag_name_to_bag[bag_name],
             dependencies=tuple(bag_dependencies[bag_name]),
+            custom_metadata=bag_custom_metadata[bag_name],
         )
         for bag_name in self.canonical_topological_sorting(
             bag_name_to_bag.keys()
-- 
2.43.0


From c970ce0d77150ec0b564b3a5353afb24b36f1f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:01 +0000
Subject: [PATCH 04/20] fix: JsonSalvage emitted a signed number as an object
 key

---
 koladata/internal/op_utils/json_stream.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 55fc89b..79f6c83 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -311,22 +311,24 @@ bool JsonSalvageStreamProcessor::ProcessBaseRules(std::optional<char32_t> c) {
     }
   } else if (BufferEquals("``") && c == std::nullopt) {
     EmitRawOutput("\"\"");
-  } else if (BufferEquals("-") && c == '0') {
+  } else if (!is_object_key_ && BufferEquals("-") && c == '0') {
     EmitRawOutput('-');
     SetStateWithBuffer(State::kNumberBuffered, "0");
-  } else if (BufferEquals("-") && (c >= '1' && c <= '9')) {
+  } else if (!is_object_key_ && BufferEquals("-") &&
+             (c >= '1' && c <= '9')) {
     EmitRawOutput('-');
     EmitRawOutput(c);
     SetStateWithBuffer(State::kNumberDecimal, "");
-  } else if (BufferEquals("-") && c == '.') {
+  } else if (!is_object_key_ && BufferEquals("-") && c == '.') {
     EmitRawOutput("-0.");
     SetStateWithBuffer(State::kNumberDecimal, ".");
-  } else if (BufferEquals("+") && c == '0') {
+  } else if (!is_object_key_ && BufferEquals("+") && c == '0') {
     SetStateWithBuffer(State::kNumberBuffered, "0");
-  } else if (BufferEquals("+") && (c >= '1' && c <= '9')) {
+  } else if (!is_object_key_ && BufferEquals("+") &&
+             (c >= '1' && c <= '9')) {
     EmitRawOutput(c);
     SetStateWithBuffer(State::kNumberDecimal, "");
-  } else if (BufferEquals("+") && c == '.') {
+  } else if (!is_object_key_ && BufferEquals("+") && c == '.') {
     EmitRawOutput("0.");
     SetStateWithBuffer(State::kNumberDecimal, ".");
   } else if (!IsValidUnquotedStringNextCodePoint(c)) {
-- 
2.43.0


From f3efc53a5350f39dfb0bfaf84ebe164d54fd8c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:01 +0000
Subject: [PATCH 05/20] fix: JsonSalvage did not end an empty backtick string
 at the end of input

---
 koladata/internal/op_utils/json_stream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 79f6c83..c595142 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -311,6 +311,7 @@ bool JsonSalvageStreamProcessor::ProcessBaseRules(std::optional<char32_t> c) {
     }
   } else if (BufferEquals("``") && c == std::nullopt) {
     EmitRawOutput("\"\"");
+    EndValue();
   } else if (!is_object_key_ && BufferEquals("-") && c == '0') {
     EmitRawOutput('-');
     SetStateWithBuffer(State::kNumberBuffered, "0");
-- 
2.43.0


From 7f00d1065fa7a5d0d5c69f6d985c338845d8f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:01 +0000
Subject: [PATCH 06/20] fix: JsonSalvage emitted the character of an invalid
 escape unescaped

---
 koladata/internal/op_utils/json_stream.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index c595142..690f6b3 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -467,8 +467,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         EndString();
       } else {
         // Invalid escape "\?" -> "\\?".
-        EmitRawOutput("\\\\");
-        EmitRawOutput(c);
+        EmitJsonStringCodePoint('\\');
+        EmitJsonStringCodePoint(c);
         ClearBuffer();
       }
     } else if (BufferEquals("\\\r")) {
-- 
2.43.0


From e2eb8f49afc80b5a80099340919ea6e2db8a65fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:01 +0000
Subject: [PATCH 07/20] fix: JsonSalvage moved a lone surrogate behind a
 following escape

---
 koladata/internal/op_utils/json_stream.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 690f6b3..23b87cb 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -438,6 +438,10 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       // First character of escape sequence.
       if (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' ||
           c == 'n' || c == 'r' || c == 't') {
+        if (json_string_utf16_first_surrogate_.has_value()) {
+          json_string_utf16_first_surrogate_.reset();
+          EmitJsonStringCodePoint(kReplacementCharacter);
+        }
         EmitRawOutput('\\');
         EmitRawOutput(c);
         ClearBuffer();
@@ -448,7 +452,7 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         EmitJsonStringCodePoint('\v');
         ClearBuffer();
       } else if (c == '`' || c == '\'') {
-        EmitRawOutput(c);
+        EmitJsonStringCodePoint(c);
         ClearBuffer();
       } else if (c == 'u' || c == 'U') {
         AppendToBuffer(c);
-- 
2.43.0


From 82ee085020fc0267c98196fac373a663b115df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:01 +0000
Subject: [PATCH 08/20] fix: JsonSalvage ignored an escape after a quote in a
 triple-quoted string

---
 koladata/internal/op_utils/json_stream.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 23b87cb..8f33107 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -491,8 +491,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         AppendToBuffer('"');
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('"');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       } else {
         EndString();
       }
@@ -504,8 +504,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('"');
         EmitJsonStringCodePoint('"');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       }
     } else if (BufferEquals("'")) {
       // Maybe end of triple single quoted string.
@@ -514,8 +514,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         AppendToBuffer('\'');
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('\'');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       } else {
         EndString();
       }
@@ -527,8 +527,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       } else {
         EmitJsonStringCodePoint('\'');
         EmitJsonStringCodePoint('\'');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       }
     } else if (BufferStartsWith("\\u")) {
       if (BufferEquals("\\u") && c == '{') {
-- 
2.43.0


From 6791ee225c92f00a3c5be99a4e71f714d91422ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:01 +0000
Subject: [PATCH 09/20] fix: JsonSalvage did not end a comment closed by more
 than one asterisk

---
 koladata/internal/op_utils/json_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 8f33107..fd3e6de 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -637,7 +637,7 @@ bool JsonSalvageStreamProcessor::ProcessCommentRules(
     } else {
       if (c == '/') {
         SetStateWithBuffer(State::kBase, "");
-      } else {
+      } else if (c != '*') {
         ClearBuffer();
       }
     }
-- 
2.43.0


From 812cad2bb26f7b2c4ad7f1f51f4d474e54533b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:01 +0000
Subject: [PATCH 10/20] fix: JsonGetArrayNthValue merged consecutive top-level
 scalars

---
 koladata/internal/op_utils/json_stream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index fd3e6de..97dc709 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -1609,6 +1609,8 @@ JsonStreamProcessResult JsonGetArrayNthValueStreamProcessor::Process(
         if (container_depth_ == 0) {
           emit_top_level_null_if_not_already_done();
         }
+      } else if (container_depth_ == 0) {
+        end_top_level_value();
       }
     }
   }
-- 
2.43.0


From b53ca513b7186c47143be84871df44b0c3a4b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:30 +0000
Subject: [PATCH 11/20] fix: JsonExtractValues misread keys after an empty
 object in an array

---
 koladata/internal/op_utils/json_stream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 97dc709..66a7d48 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -1375,6 +1375,7 @@ JsonStreamProcessResult JsonExtractValuesStreamProcessor::Process(
 
         if (!is_in_match_) {
           container_path_stack_.pop_back();
+          is_object_key_ = false;
         }
       } else if (c == ',') {
         if (is_in_match_) {
-- 
2.43.0


From c5c95f6b5687e2948f64d9f9c32f939694573e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:42 +0000
Subject: [PATCH 12/20] fix: TryWrite could still write after Orphaned()
 returned true

TryClose marks the writer as closed before it stores the close status of the
stream. In between Orphaned() is already true, but TryWrite accepted the value:
a loop that was being cancelled stopped early and then wrote its intermediate
result as if it were the final one.
---
 koladata/functor/parallel/stream.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/koladata/functor/parallel/stream.cc b/koladata/functor/parallel/stream.cc
index ce866d8..587c864 100644
--- a/koladata/functor/parallel/stream.cc
+++ b/koladata/functor/parallel/stream.cc
@@ -257,6 +257,9 @@ bool StreamImpl::Writer::TryWrite(arolla::TypedRef value) {
     LOG(FATAL) << "expected a value of type " << value_qtype()->name()
                << ", got " << value.GetType()->name();
   }
+  if (closed_.test(std::memory_order_relaxed)) {
+    return false;  // The stream is closed, or another thread is closing it.
+  }
   auto stream = weak_stream_.lock();
   if (stream == nullptr) {
     return false;  // The stream object is gone.
-- 
2.43.0


From 77133897a61514f7fa2494947a5ee9d58a00f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:49 +0000
Subject: [PATCH 13/20] fix: a StreamCall dropped before its functor ran ended
 as an empty success

---
 koladata/functor/parallel/stream_call.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/koladata/functor/parallel/stream_call.cc b/koladata/functor/parallel/stream_call.cc
index c8ff551..5dc5c34 100644
--- a/koladata/functor/parallel/stream_call.cc
+++ b/koladata/functor/parallel/stream_call.cc
@@ -64,6 +64,15 @@ class StreamCallHooks final : public BasicRoutineHooks {
     args_.reserve(args_size_);
   }
 
+  ~StreamCallHooks() final {
+    // If the routine is dropped before it gets a result (e.g. because of
+    // a cancellation, or because the executor shuts down), the output must not
+    // look like a successful call: `composition_` closes it with `OkStatus`.
+    if (!has_result_) {
+      composition_.AddError(absl::CancelledError("orphaned"));
+    }
+  }
+
   bool Interrupted() const final { return composition_.Orphaned(); }
 
   void OnCancel(absl::Status&& status) final { OnError(std::move(status)); }
@@ -120,10 +129,12 @@ class StreamCallHooks final : public BasicRoutineHooks {
     ASSIGN_OR_RETURN(auto result, std::move(functor_)(args_),
                      OnError(std::move(_)));
     if (result.GetType() == return_value_type_) {
+      has_result_ = true;
       composition_.AddItem(result.AsRef());
       return nullptr;
     }
     if (result.GetType() == GetStreamQType(return_value_type_)) {
+      has_result_ = true;
       composition_.Add(result.UnsafeAs<StreamPtr>());
       return nullptr;
     }
@@ -174,6 +185,7 @@ class StreamCallHooks final : public BasicRoutineHooks {
   const size_t args_size_;
   size_t awaited_arg_index_;
   std::vector<arolla::TypedRef> args_;
+  bool has_result_ = false;
   StreamInterleave composition_;
 };
 
-- 
2.43.0


From a73b0ebbe50299bd974825b3b7665d2c720ea8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:00 +0000
Subject: [PATCH 14/20] fix: assigning over an unset FutureWriter lost its
 future

---
 koladata/functor/parallel/future.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koladata/functor/parallel/future.h b/koladata/functor/parallel/future.h
index cc3aac9..5188170 100644
--- a/koladata/functor/parallel/future.h
+++ b/koladata/functor/parallel/future.h
@@ -123,7 +123,12 @@ class FutureWriter {
 
   // Allow move but not copy.
   FutureWriter(FutureWriter&&) = default;
-  FutureWriter& operator=(FutureWriter&&) = default;
+  // The future of the overwritten writer becomes orphaned, if it isn't set yet.
+  FutureWriter& operator=(FutureWriter&& other) noexcept {
+    FutureWriter tmp(std::move(other));
+    future_.swap(tmp.future_);
+    return *this;
+  }
   FutureWriter(const FutureWriter&) = delete;
   FutureWriter& operator=(const FutureWriter&) = delete;
 
-- 
2.43.0


From d8b4a5c4ad1e971d54f876280462f369ceca3b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:57 +0000
Subject: [PATCH 15/20] fix: SetAttrFullAlloc ignores removals in a slice
 without any value

A slice that only holds REMOVED (and UNSET) values was taken for one with no
set values at all, so the existing values stayed in the bag, against the
documentation of SetAttrFullAlloc (and decoding lost such removals).
---
 koladata/internal/data_bag.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/koladata/internal/data_bag.cc b/koladata/internal/data_bag.cc
index f765aa5..b0eff24 100644
--- a/koladata/internal/data_bag.cc
+++ b/koladata/internal/data_bag.cc
@@ -1157,14 +1157,18 @@ absl::Status DataBagImpl::SetAttrFullAlloc(AllocationId alloc_id,
                                            absl::string_view attr,
                                            const DataSliceImpl& values) {
   RETURN_IF_ERROR(CheckNotFrozen());
-  if (values.is_empty_and_unknown()) {
+  const bool has_no_values = values.is_empty_and_unknown();
+  const auto& id_to_typeidx = values.types_buffer().id_to_typeidx;
+  if (has_no_values &&
+      std::find(id_to_typeidx.begin(), id_to_typeidx.end(),
+                TypesBuffer::kRemoved) == id_to_typeidx.end()) {
     // All new values are unset -> no op
     return absl::OkStatus();
   }
   SourceKeyView kv{alloc_id, attr};
 
   bool use_new_dense_source;
-  if (alloc_id.IsSmall()) {
+  if (alloc_id.IsSmall() || has_no_values) {
     use_new_dense_source = false;
   } else if (values.types_buffer().id_to_typeidx.empty()) {
     // No unset values, so existing data sources can be ignored.
-- 
2.43.0


From dd156bafd58f998f07b3720e4d392d06b8081a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:57 +0000
Subject: [PATCH 16/20] fix: assigning only missing values to a full allocation
 changes nothing

SetAttrFullAlloc takes a slice without any values (and without a types buffer)
as all UNSET, but DataSlice::SetAttr means all REMOVED there.
---
 koladata/data_slice.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/koladata/data_slice.cc b/koladata/data_slice.cc
index 8b3f0f7..67c86c5 100644
--- a/koladata/data_slice.cc
+++ b/koladata/data_slice.cc
@@ -1737,8 +1737,10 @@ absl::Status SetAttrImpl(const DataSlice& obj, absl::string_view attr_name,
     RETURN_IF_ERROR(data_handler.ProcessSchema(obj, db_mutable_impl,
                                                /*fallbacks=*/{}));
   }
+  // NOTE: SetAttrFullAlloc treats a slice without any values as all UNSET.
   if (auto full_alloc = obj.GetFullAllocOrNone();
-      full_alloc.has_value() && !obj.is_item() && !full_alloc->IsSmall()) {
+      full_alloc.has_value() && !obj.is_item() && !full_alloc->IsSmall() &&
+      !data_handler.GetValues().slice().is_empty_and_unknown()) {
     return db_mutable_impl.SetAttrFullAlloc(
         *full_alloc, attr_name,
         data_handler.GetValues().slice().UnsetToRemoved());
-- 
2.43.0


From da2bfe93553d2753bfe83506c42ad491de56f1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:23 +0000
Subject: [PATCH 17/20] fix: reversing a slice keeps the allocations of its
 objects

The reversed slice was built without the allocation ids of the input, so
attributes of the objects in it could not be looked up.
---
 koladata/internal/op_utils/reverse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/reverse.cc b/koladata/internal/op_utils/reverse.cc
index e9fc04c..00ed357 100644
--- a/koladata/internal/op_utils/reverse.cc
+++ b/koladata/internal/op_utils/reverse.cc
@@ -35,7 +35,7 @@ DataSliceImpl ReverseOp::operator()(
   }
   absl::Span<const int64_t> split_points =
       ds_shape.edges().back().edge_values().values.span();
-  SliceBuilder builder(ds_impl.size());
+  SliceBuilder builder(ds_impl.size(), ds_impl.allocation_ids());
   ds_impl.VisitValues([&]<class T>(const arolla::DenseArray<T>& values) {
     arolla::DenseArrayBuilder<T> values_builder(values.size());
     size_t split_point_id = 0;
-- 
2.43.0


From e3053f2406f479c1143767586262bfc66140dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:38 +0000
Subject: [PATCH 18/20] fix: merging a fork with updates over a dense source of
 its parent

The DCHECK assumed that the dense source is in the bag that has the
latest updates, it may be in the parent of it.
---
 koladata/internal/data_bag.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/koladata/internal/data_bag.cc b/koladata/internal/data_bag.cc
index b0eff24..61f51c2 100644
--- a/koladata/internal/data_bag.cc
+++ b/koladata/internal/data_bag.cc
@@ -3534,12 +3534,13 @@ absl::Status DataBagImpl::MergeBigAllocImpl(
                 other_source_collection_copy.mutable_dense_source;
             other_source_collection_copy.mutable_dense_source = nullptr;
           }
-          DCHECK(other_source_collection_copy.const_dense_source != nullptr);
           // Merge sparse and dense sources into single mutable dense source.
+          // The dense source may also be in a parent of `other_db`.
           // We want to avoid references into data from a different DataBag.
           // In case single dense source is immutable, it is fine to share it
           // across DataBags.
           if (!other_sparse_sources.empty() ||
+              other_source_collection_copy.const_dense_source == nullptr ||
               (other_source_collection_copy.const_dense_source->IsMutable() &&
                !other.IsFrozen())) {
             RETURN_IF_ERROR(other_db->CreateMutableDenseSource(
-- 
2.43.0


From 94be1dbf0abb316c2cb1be4cddeec23906060b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:23 +0000
Subject: [PATCH 19/20] fix: compare an empty list or dict schema with a
 non-empty one without failing

The structs of lists and dicts that hold nothing have no transition keys to
report; a difference found only there made GetDiffPaths fail.
---
 koladata/internal/op_utils/deep_equivalent.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/koladata/internal/op_utils/deep_equivalent.cc b/koladata/internal/op_utils/deep_equivalent.cc
index bab4398..79e241a 100644
--- a/koladata/internal/op_utils/deep_equivalent.cc
+++ b/koladata/internal/op_utils/deep_equivalent.cc
@@ -68,6 +68,10 @@ class EquivalentComparator : public AbstractComparator {
   absl::Status LhsOnlyAttribute(
       const DataItem& token, const TraverseHelper::TransitionKey& key,
       const TraverseHelper::Transition& lhs) override {
+    // The other struct is not empty: the difference is in its items.
+    if (TraverseHelper::IsEmptyStructTransition(key.type)) {
+      return absl::OkStatus();
+    }
     // For the partial comparison, only fields present on the right side are
     // compared but entire lists and dicts are compared.
     if (params_.partial &&
@@ -83,6 +87,10 @@ class EquivalentComparator : public AbstractComparator {
   absl::Status RhsOnlyAttribute(
       const DataItem& token, const TraverseHelper::TransitionKey& key,
       const TraverseHelper::Transition& rhs) override {
+    // The other struct is not empty: the difference is in its items.
+    if (TraverseHelper::IsEmptyStructTransition(key.type)) {
+      return absl::OkStatus();
+    }
     if (!rhs.item.has_value() && !params_.schemas_equality) {
       return absl::OkStatus();
     }
-- 
2.43.0


From cd50dac953259e4090cb4e9e2d05229187f7e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:23 +0000
Subject: [PATCH 20/20] fix: extract an entity that is also reached through a
 no-follow schema

An entity reached first through a no-follow schema was marked as visited, so
it was not extracted when it was reached normally later on.
---
 koladata/internal/op_utils/extract.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/koladata/internal/op_utils/extract.cc b/koladata/internal/op_utils/extract.cc
index c3ce99b..8096e0f 100644
--- a/koladata/internal/op_utils/extract.cc
+++ b/koladata/internal/op_utils/extract.cc
@@ -73,6 +73,11 @@ const std::string_view kVisitedAttrName = "u";
 // for the object, even if it was already visited as entity.
 const std::string_view kObjectVisitedAttrName = "o";
 
+// Attribute name for storing information about previous visits of ObjectId
+// with a NoFollow schema. Nothing is extracted for those, so they must still be
+// visited when they are reached otherwise.
+const std::string_view kNoFollowVisitedAttrName = "n";
+
 // Attribute name for storing information about previous visits of schema
 // ObjectId.
 const std::string_view kSchemaVisitedAttrName = "s";
@@ -193,7 +198,8 @@ class CopyingProcessor {
   }
 
   absl::StatusOr<DataSliceImpl> MarkEntitiesAsVisited(
-    const DataSliceImpl& slice) {
+      const DataSliceImpl& slice,
+      std::string_view visited_attr_name = kVisitedAttrName) {
     if (slice.is_empty_and_unknown()) {
       return slice;
     }
@@ -201,7 +207,7 @@ class CopyingProcessor {
       return absl::InternalError("Expected a slice of ObjectIds");
     }
     return objects_tracker_->InternalSetUnitAttrAndReturnMissingObjects(
-        slice, kVisitedAttrName);
+        slice, visited_attr_name);
   }
 
   absl::StatusOr<DataSliceImpl> MarkObjectsAsVisited(
@@ -268,7 +274,12 @@ class CopyingProcessor {
   }
 
   absl::Status VisitEntities(const QueuedSlice& slice, bool push_front) {
-    ASSIGN_OR_RETURN(auto update_slice, MarkEntitiesAsVisited(slice.slice));
+    bool is_nofollow = slice.schema.value<ObjectId>().IsNoFollowSchema();
+    ASSIGN_OR_RETURN(
+        auto update_slice,
+        MarkEntitiesAsVisited(slice.slice, is_nofollow
+                                               ? kNoFollowVisitedAttrName
+                                               : kVisitedAttrName));
     if (update_slice.present_count() == 0) {
       ASSIGN_OR_RETURN(
           auto schema_is_copied,
-- 
2.43.0

