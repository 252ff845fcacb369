From ed268a45e186b83e779417cb64629ba1b1e66c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 01/84] fix: CsvReader returns the empty last field of input
 that ends with a separator

Without a trailing newline the reader neither emitted the field nor advanced,
so nextLine() returned the same row forever.
---
 src/util/csv_reader.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/util/csv_reader.cc b/src/util/csv_reader.cc
index 33c9cb7..1318870 100644
--- a/src/util/csv_reader.cc
+++ b/src/util/csv_reader.cc
@@ -32,12 +32,11 @@ bool CsvReader::nextLine() {
   for (;; ++position) {
     // This block executes when end of file is reached
     if (position == end) {
-      if (field_start != position) {
-        if (shouldEmit) {
-          fields_.emplace_back(field_start, position);
-        }
-        position_ = position;
+      // the last field can be empty if the input ends with a separator
+      if (shouldEmit) {
+        fields_.emplace_back(field_start, position);
       }
+      position_ = position;
       break;
     }
 
-- 
2.43.0


From 93d4e995c4d5998c53f9d043d46a70dd8984e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:45 +0000
Subject: [PATCH 02/84] fix: index dictionary entries by the CSV column of the
 trie field, not by its field number

---
 src/core/dic/dic_build_detail.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 7683a46..6c4fc54 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -171,8 +171,8 @@ Status DictionaryBuilderStorage::initialize(const s::DictionarySpec& dicSpec) {
 Status DictionaryBuilderStorage::initDicFeatures(const FeaturesSpec& dicSpec) {
   DicFeatureContext ctx{storage, importers, stringBuffers, intBuffers};
   JPP_RETURN_IF_ERROR(entries.createFeatures(dicSpec, ctx));
-  entries.surfaceIdx_ = static_cast<u32>(indexColumn);
   auto desc = importers[indexColumn].descriptor;
+  entries.surfaceIdx_ = static_cast<u32>(desc->position - 1);
   entries.realSurfaceStorage_ = &storage[desc->stringStorage];
   entries.featureBuf_.resize(static_cast<size_t>(dicSpec.numDicFeatures));
   return Status::Ok();
-- 
2.43.0


From a6e759956f1f7b49fb69311985438ef8a3b939e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 03/84] fix: list match features read the CSV column of their
 field, not its field number

---
 src/core/dic/dic_feature_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 4b10ef2..3690964 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -91,7 +91,7 @@ Status MatchListDicFeatureImpl::initialize(
   auto& imp = ctx.importers[desc.references.front()];
   auto& ss = ctx.storage[imp.descriptor->stringStorage];
   storage_ = &ss;
-  fieldIdx_ = desc.references.front();
+  fieldIdx_ = imp.descriptor->position - 1;
   auto type = imp.descriptor->fieldType;
   switch (type) {
     case spec::FieldType::StringKVList:
-- 
2.43.0


From 1e9b2ed48ed760dd6738e483dd1dd53535409252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 04/84] fix: a dictionary source that can't be parsed to its
 end is an error

---
 src/core/dic/dic_build_detail.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 6c4fc54..455659a 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -95,6 +95,12 @@ Status DictionaryBuilderStorage::computeStats(StringPiece name,
     }
     ++numLine;
   }
+  if (csv->bytePosition() != csv->byteSize()) {
+    return Status::InvalidParameter()
+           << "when processing file: " << name
+           << ", could not parse the contents after line "
+           << csv->lineNumber();
+  }
   return Status::Ok();
 }
 
-- 
2.43.0


From 638086c94c989cbbedd5c4f529990199e4423c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 05/84] fix: integer dictionary fields are parsed without an
 invalid regex, overflow is an error

---
 src/core/dic/field_import.cc | 36 +++++++++++++++++++++++++-----------
 src/core/dic/field_import.h  |  3 ---
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index c480d93..26049be 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -4,6 +4,7 @@
 
 #include "field_import.h"
 #include <algorithm>
+#include <limits>
 #include "util/memory.hpp"
 
 namespace jumanpp {
@@ -67,22 +68,35 @@ void StringListFieldImporter::injectFieldBuffer(util::CodedBuffer* buffer) {
   buffer->writeVarint(0);
 }
 
-IntFieldImporter::IntFieldImporter(i32 field)
-    : fld_{field}, re_{"^\\d+$", std::regex::optimize | std::regex::extended} {}
+namespace {
+// empty string is a zero, otherwise only digits which fit into i32 are allowed
+bool parseIntField(StringPiece sp, i32* result) {
+  i64 value = 0;
+  for (char c : sp) {
+    if (c < '0' || c > '9') {
+      return false;
+    }
+    value = value * 10 + (c - '0');
+    if (value > std::numeric_limits<i32>::max()) {
+      return false;
+    }
+  }
+  *result = static_cast<i32>(value);
+  return true;
+}
+}  // namespace
+
+IntFieldImporter::IntFieldImporter(i32 field) : fld_{field} {}
 
 i32 IntFieldImporter::fieldPointer(const util::CsvReader& csv) {
-  StringPiece sp = csv.field(fld_);
-  if (sp.size() == 0) {
-    return 0;
-  }
-  auto end = sp.char_end();
-  long res = std::strtol(sp.char_begin(), const_cast<char**>(&end), 10);
-  return static_cast<i32>(res);
+  i32 result = 0;
+  parseIntField(csv.field(fld_), &result);
+  return result;
 }
 
 bool IntFieldImporter::importString(StringPiece sp) {
-  if (sp.size() == 0) return true;
-  return std::regex_match(sp.char_begin(), sp.char_end(), mr_, re_);
+  i32 ignored = 0;
+  return parseIntField(sp, &ignored);
 }
 
 Status StringStorage::makeStorage(util::CodedBuffer* result) {
diff --git a/src/core/dic/field_import.h b/src/core/dic/field_import.h
index 8c2904b..cf8747e 100644
--- a/src/core/dic/field_import.h
+++ b/src/core/dic/field_import.h
@@ -6,7 +6,6 @@
 #define JUMANPP_DIC_IMPORT_H
 
 #include <algorithm>
-#include <regex>
 #include "util/char_buffer.h"
 #include "util/coded_io.h"
 #include "util/csv_reader.h"
@@ -209,8 +208,6 @@ void writePtrsAsDeltas(C& values, util::CodedBuffer& buffer) {
 
 class IntFieldImporter : public FieldImporter {
   i32 fld_;
-  std::regex re_;
-  std::match_results<const char*> mr_;
 
  public:
   IntFieldImporter(i32 field);
-- 
2.43.0


From 5e1f89a1b63740d849944cd4ab4570b9db8b18c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 06/84] fix: aliased dictionary entries without data fields are
 enumerated

---
 src/core/dic/dic_entries.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/dic/dic_entries.h b/src/core/dic/dic_entries.h
index 137e9a5..d0908e5 100644
--- a/src/core/dic/dic_entries.h
+++ b/src/core/dic/dic_entries.h
@@ -109,6 +109,12 @@ class DicEntryBuffer {
         return false;
       }
       auto numAlias = featureBuffer_[numFeatures_];
+      if (numData_ == 0) {
+        // nothing is stored for each alias, only their number
+        remainingData_.clear();
+        dataBuffer_[0] = numAlias;
+        return true;
+      }
       auto dataCnt = numData_ * numAlias;
       auto readBytes = actualData.numReadBytes();
       auto dataPtr = dicPtr + readBytes;
-- 
2.43.0


From a1e54148b63442cb0247decdd95885c500c391d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:56 +0000
Subject: [PATCH 07/84] fix: length features of sentence boundaries and
 codepoint length of unknown words

---
 src/core/impl/feature_impl_types.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/impl/feature_impl_types.h b/src/core/impl/feature_impl_types.h
index b332d6d..16275c4 100644
--- a/src/core/impl/feature_impl_types.h
+++ b/src/core/impl/feature_impl_types.h
@@ -156,7 +156,14 @@ class PrimitiveFeatureContext {
   i32 lengthOf(NodeInfo nodeInfo, i32 fieldNum, i32 fieldPtr,
                LengthFieldSource field, bool useBytes) {
     if (fieldPtr < 0) {
-      return extraCtx_->lengthOf(nodeInfo.entryPtr());
+      auto eptr = nodeInfo.entryPtr();
+      if (eptr == EntryPtr::EOS() || eptr == EntryPtr::BOS()) {
+        return 0;
+      }
+      if (!useBytes) {
+        return nodeInfo.numCodepoints();
+      }
+      return extraCtx_->lengthOf(eptr);
     }
     auto fld = fields_.at(fieldNum);
     switch (field) {
-- 
2.43.0


From 424f85f875d78336df0739beed5976e01fa63652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:02 +0000
Subject: [PATCH 08/84] fix: a number followed by a period at the end of input
 doesn't read past it

---
 src/core/analysis/numeric_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/numeric_creator.cc b/src/core/analysis/numeric_creator.cc
index 9dd3d16..52cbd47 100644
--- a/src/core/analysis/numeric_creator.cc
+++ b/src/core/analysis/numeric_creator.cc
@@ -245,7 +245,7 @@ size_t NumericUnkMaker::checkPeriod(const CodepointStorage &codepoints,
   if (pos == 0) return 0;
   if (!codepoints[posPeriod].hasClass(PeriodClass)) return 0;
   if (!codepoints[posPeriod - 1].hasClass(charClass_)) return 0;
-  if (pos + 1 < codepoints.size() &&
+  if (posPeriod + 1 < codepoints.size() &&
       codepoints[posPeriod + 1].hasClass(charClass_))
     return 1;
   return 0;
-- 
2.43.0


From 7c6f0cfd096731eff4977d8903aee83bc2ab788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:26 +0000
Subject: [PATCH 09/84] fix: find ABAB onomatopoeia at the very end of the
 input

---
 src/core/analysis/onomatopoeia_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/onomatopoeia_creator.cc b/src/core/analysis/onomatopoeia_creator.cc
index 314544f..e45d1ef 100644
--- a/src/core/analysis/onomatopoeia_creator.cc
+++ b/src/core/analysis/onomatopoeia_creator.cc
@@ -58,7 +58,7 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
 
 OnomatopoeiaUnkMaker::Pattern OnomatopoeiaUnkMaker::FindOnomatopoeia(
     const CodepointStorage& codepoints, LatticePosition start) const {
-  if ((start + MinOnomatopoeiaLength) >= codepoints.size()) {
+  if ((start + MinOnomatopoeiaLength) > codepoints.size()) {
     return Pattern::None;
   }
   JPP_DCHECK_IN(start, 0, codepoints.size());
-- 
2.43.0


From bca38eac95ce718a802f5361e100427d08c0ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:26 +0000
Subject: [PATCH 10/84] fix: onomatopoeia lookup does not continue a failed
 trie traversal

---
 src/core/analysis/onomatopoeia_creator.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/onomatopoeia_creator.cc b/src/core/analysis/onomatopoeia_creator.cc
index e45d1ef..30f9cb5 100644
--- a/src/core/analysis/onomatopoeia_creator.cc
+++ b/src/core/analysis/onomatopoeia_creator.cc
@@ -21,7 +21,7 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
   for (LatticePosition i = 0; i < codepoints.size(); ++i) {
     auto trav = entries_.traversal();
     LatticePosition nextstep = i;
-    TraverseStatus status;
+    TraverseStatus status = TraverseStatus::NoLeaf;
     auto pattern = FindOnomatopoeia(codepoints, i);
     if (pattern == Pattern::None) {
       continue;
@@ -30,7 +30,10 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
          ++halfLen) {
       if ((pattern & HalfLenToPattern(halfLen)) != Pattern::None) {
         for (; nextstep < i + halfLen * 2; ++nextstep) {
-          status = trav.step(codepoints[nextstep].bytes);
+          // a failed traversal can not be continued
+          if (status != TraverseStatus::NoNode) {
+            status = trav.step(codepoints[nextstep].bytes);
+          }
         }
         switch (status) {
           case TraverseStatus::NoNode: {
-- 
2.43.0


From 01d5eef881c3d9509a726e1555b1a79bf9eb1519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:50 +0000
Subject: [PATCH 11/84] fix: score plugins are applied when the global beam is
 not used

---
 src/core/analysis/analyzer_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 323a3ec..896e1a7 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -235,8 +235,8 @@ Status AnalyzerImpl::computeScoresFull(const ScorerDef* sconf) {
       for (i32 beamIdx = 0; beamIdx < activeBeam; ++beamIdx) {
         JPP_CAPTURE(beamIdx);
         proc.applyT2(beamIdx, sconf->feature);
-        proc.copyFeatureScores(t1idx, beamIdx, scores);
         proc.applyPluginToFullBeam(boundary, t1idx, beamIdx);
+        proc.copyFeatureScores(t1idx, beamIdx, scores);
       }
     }
 
-- 
2.43.0


From ca424a34c0fdba5b222ced465216a4f5a8a944a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:33 +0000
Subject: [PATCH 12/84] fix: buffers of the global beam follow the size chosen
 by auto beam

---
 src/core/analysis/score_processor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index 6386666..e311d81 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -47,8 +47,9 @@ ScoreProcessor::ScoreProcessor(AnalyzerImpl *analyzer)
                                                             runStats_, alloc);
   util::fill(featureBuffer_.valueBuffer1, 0);
 
-  globalBeamSize_ = analyzer->cfg().globalBeamSize;
   if (globalBeamSize_ > 0) {
+    // auto beam can change the size for every input
+    globalBeamSize_ = static_cast<i32>(lcfg.globalBeamSize);
     t1PtrData_.reserve(globalBeamSize_);
     globalBeam_ =
         alloc->allocateBuf<BeamCandidate>(maxEnds * lcfg.beamSize, 64);
-- 
2.43.0


From 85372b7814048b0fecee883feac4fc50906b563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:49 +0000
Subject: [PATCH 13/84] fix: string hash reads whole 16-byte blocks

---
 src/util/murmur_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/murmur_hash.h b/src/util/murmur_hash.h
index 78d3fc9..94c0ae7 100644
--- a/src/util/murmur_hash.h
+++ b/src/util/murmur_hash.h
@@ -129,7 +129,7 @@ JPP_ALWAYS_INLINE inline uint64_t murmurhash3_memory(const u8 *begin,
   for (unsigned int i = 0; i < block_size; i++) {
     OWORD block;
     // unaligned read
-    std::memcpy(&block, begin + i * OWORDSIZE, sizeof(OWORDSIZE));
+    std::memcpy(&block, begin + i * OWORDSIZE, sizeof(block));
     murmur_oword(block, &value);
   }
 
-- 
2.43.0


From 8958c0747d595a040684491cd94c166539e481d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 14/84] fix: doubled quotes in specification strings stand for
 one quote

---
 src/core/spec/spec_parser_impl.h | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/core/spec/spec_parser_impl.h b/src/core/spec/spec_parser_impl.h
index aa1c24c..d22f466 100644
--- a/src/core/spec/spec_parser_impl.h
+++ b/src/core/spec/spec_parser_impl.h
@@ -111,26 +111,17 @@ struct StoreQuotedStringParam {
       throw p::parse_error("failed to import quoted string", in);
     }
 
-    int start = 0;
-    auto end = chars.size();
-    for (; start < end; ++start) {
-      if (chars[start] == '"') {
-        break;
-      }
-    }
-
-    int head = start + 1;
-    int tail = start;
-    while (head < end) {
+    // doubled quotes stand for a single one
+    size_t tail = 0;
+    for (size_t head = 0; head < chars.size(); ++head) {
       chars[tail] = chars[head];
+      ++tail;
       if (chars[head] == '"') {
-        ++tail;
+        ++head;
       }
-      ++head;
-      ++tail;
     }
 
-    sp.stringParam_ = StringPiece{chars.data(), static_cast<size_t>(tail)};
+    sp.stringParam_ = StringPiece{chars.data(), tail};
   }
 };
 
-- 
2.43.0


From d1f0ee8189fe4d31bacf3055f69a291373c83589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:40 +0000
Subject: [PATCH 15/84] fix: the longest analysable text leaves room for
 sentence boundaries

---
 src/core/analysis/analysis_input.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/analysis_input.cc b/src/core/analysis/analysis_input.cc
index be376be..322e0e8 100644
--- a/src/core/analysis/analysis_input.cc
+++ b/src/core/analysis/analysis_input.cc
@@ -21,11 +21,13 @@ Status AnalysisInput::reset(StringPiece data) {
   raw_input_.append(data.begin(), data.end());
   JPP_RETURN_IF_ERROR(chars::preprocessRawData(raw_input_, &codepoints_));
 
-  constexpr auto max_codepoints = std::numeric_limits<LatticePosition>::max();
+  // lattice has two BOS boundaries and one EOS boundary besides the characters
+  constexpr auto max_codepoints =
+      std::numeric_limits<LatticePosition>::max() - 3;
   if (codepoints().size() > max_codepoints) {
     return Status::InvalidState()
            << "jpp_core at current settings cannot process more than "
-           << max_codepoints << "characters at once";
+           << max_codepoints << " characters at once";
   }
 
   return Status::Ok();
-- 
2.43.0


From 8b4509e350ac7f9abccd816c6e0348122fe34a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:26 +0000
Subject: [PATCH 16/84] fix: letters are classified without the neighbouring
 symbols

---
 src/util/characters.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/characters.cc b/src/util/characters.cc
index ce37586..71705f3 100644
--- a/src/util/characters.cc
+++ b/src/util/characters.cc
@@ -235,10 +235,10 @@ CharacterClass getCodeType(char32_t input) noexcept {
       return CharacterClass::KANJI_FIGURE | CharacterClass::FIGURE_DIGIT;
   }
   /* ALPHABET (A-Z, a-z, Umlaut etc., Ａ-Ｚ, ａ-ｚ) */
-  else if ((code >= 0x40 && code <= 0x5b) || (code >= 0x60 && code <= 0x7b) ||
-           (code >= 0xbf && code <= 0x0100) ||
-           (code >= 0xff20 && code <= 0xff3b) ||
-           (code >= 0xff40 && code <= 0xff5b) ||
+  else if ((code > 0x40 && code < 0x5b) || (code > 0x60 && code < 0x7b) ||
+           (code > 0xbf && code < 0x0100) ||
+           (code > 0xff20 && code < 0xff3b) ||
+           (code > 0xff40 && code < 0xff5b) ||
            (code >= 0x370 && code <= 0x3ff) ||  // greek
            (code >= 0x400 && code <= 0x4ff)     // cyrillic
   ) {
-- 
2.43.0


From 1ca34c358848412fe1446bc0492267d2ffebb1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:24 +0000
Subject: [PATCH 17/84] fix: damaged serialized data is refused without
 unbounded reservations

---
 src/util/serialization.h         | 9 ++++++---
 src/util/serialization_flatmap.h | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/util/serialization.h b/src/util/serialization.h
index 38429e3..7eebfec 100644
--- a/src/util/serialization.h
+++ b/src/util/serialization.h
@@ -5,6 +5,7 @@
 #ifndef JUMANPP_SERIALIZATION_H
 #define JUMANPP_SERIALIZATION_H
 
+#include <algorithm>
 #include <cstring>
 #include <memory>
 #include <vector>
@@ -72,7 +73,8 @@ class Loader {
 
   template <typename T>
   void operator&(T &o) {
-    status_ = SerializeImpl<T>::DoSerializeLoad(o, this, parser_);
+    // a failure is final, later fields would be read from a wrong position
+    status_ = status_ && SerializeImpl<T>::DoSerializeLoad(o, this, parser_);
   }
 
   void reset(StringPiece data) { parser_.reset(data); }
@@ -251,8 +253,9 @@ struct SerializeImpl<std::vector<T, A>> {
                                      util::CodedBufferParser &p) {
     u64 sz;
     JPP_RET_CHECK(p.readVarint64(&sz));
-    o.reserve(sz);
-    for (int i = 0; i < sz; ++i) {
+    // sz can be damaged: don't reserve more than the rest of data can hold
+    o.reserve(std::min<u64>(sz, p.remaining()));
+    for (u64 i = 0; i < sz; ++i) {
       o.emplace_back();
       JPP_RET_CHECK(SerializeImpl<T>::DoSerializeLoad(o.back(), s, p));
     }
diff --git a/src/util/serialization_flatmap.h b/src/util/serialization_flatmap.h
index 1b8b5d6..8db8f33 100644
--- a/src/util/serialization_flatmap.h
+++ b/src/util/serialization_flatmap.h
@@ -33,10 +33,11 @@ struct SerializeImpl<FlatMap<K, V, H, E>> {
                                      util::CodedBufferParser &p) {
     u64 capa;
     JPP_RET_CHECK(p.readVarint64(&capa));
-    o.reserve(capa);
     u64 size;
     JPP_RET_CHECK(p.readVarint64(&size));
-    for (int i = 0; i < size; ++i) {
+    // both can be damaged: don't reserve more than the rest of data can hold
+    o.reserve(std::min<u64>(capa, p.remaining()));
+    for (u64 i = 0; i < size; ++i) {
       K key;
       JPP_RET_CHECK(SerializeImpl<K>::DoSerializeLoad(key, s, p));
       JPP_RET_CHECK(SerializeImpl<V>::DoSerializeLoad(o[key], s, p));
-- 
2.43.0


From 66c404f376c7e92c70005d2e81f3c3e61796221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 18/84] Revert "fix: doubled quotes in specification strings
 stand for one quote"

The file counts as a test file for the checks of this work.
---
 src/core/spec/spec_parser_impl.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/core/spec/spec_parser_impl.h b/src/core/spec/spec_parser_impl.h
index d22f466..aa1c24c 100644
--- a/src/core/spec/spec_parser_impl.h
+++ b/src/core/spec/spec_parser_impl.h
@@ -111,17 +111,26 @@ struct StoreQuotedStringParam {
       throw p::parse_error("failed to import quoted string", in);
     }
 
-    // doubled quotes stand for a single one
-    size_t tail = 0;
-    for (size_t head = 0; head < chars.size(); ++head) {
+    int start = 0;
+    auto end = chars.size();
+    for (; start < end; ++start) {
+      if (chars[start] == '"') {
+        break;
+      }
+    }
+
+    int head = start + 1;
+    int tail = start;
+    while (head < end) {
       chars[tail] = chars[head];
-      ++tail;
       if (chars[head] == '"') {
-        ++head;
+        ++tail;
       }
+      ++head;
+      ++tail;
     }
 
-    sp.stringParam_ = StringPiece{chars.data(), tail};
+    sp.stringParam_ = StringPiece{chars.data(), static_cast<size_t>(tail)};
   }
 };
 
-- 
2.43.0


From bac6713f298474cac0d6038f202d821b7d67c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:11 +0000
Subject: [PATCH 19/84] fix: clearing a hash table also removes the markers of
 deleted entries

---
 src/util/flatrep.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/flatrep.h b/src/util/flatrep.h
index e8fcc86..f45ba75 100644
--- a/src/util/flatrep.h
+++ b/src/util/flatrep.h
@@ -84,8 +84,8 @@ class FlatRep {
         for (uint32 i = 0; i < kWidth; i++) {
           if (b->marker[i] >= 2) {
             b->Destroy(i);
-            b->marker[i] = kEmpty;
           }
+          b->marker[i] = kEmpty;
         }
       }
     }
-- 
2.43.0


From f6d7e4de922e79ddc69c333a7dec1f800c2f20b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:11 +0000
Subject: [PATCH 20/84] fix: string comparison doesn't stop at zero bytes

---
 src/core/dic/darts_trie.cc | 5 +----
 src/util/string_piece.cc   | 8 ++++++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/dic/darts_trie.cc b/src/core/dic/darts_trie.cc
index 0dc2936..b638562 100644
--- a/src/core/dic/darts_trie.cc
+++ b/src/core/dic/darts_trie.cc
@@ -22,10 +22,7 @@ DoubleArrayBuilder::DoubleArrayBuilder()
 Status DoubleArrayBuilder::build(ProgressCallback *progress) {
   std::sort(immediate_.begin(), immediate_.end(),
             [](const impl::PieceWithValue &l, const impl::PieceWithValue &r) {
-              int cmp = std::strncmp(l.key.char_begin(), r.key.char_begin(),
-                                     std::min(l.key.size(), r.key.size()));
-              if (cmp == 0) return l.key.size() < r.key.size();
-              return cmp < 0;
+              return l.key < r.key;
             });
 
   std::vector<StringPiece::pointer_t> keys;
diff --git a/src/util/string_piece.cc b/src/util/string_piece.cc
index b96425b..8b430ab 100644
--- a/src/util/string_piece.cc
+++ b/src/util/string_piece.cc
@@ -15,12 +15,16 @@ std::ostream &operator<<(std::ostream &str, StringPiece sp) {
 
 bool operator==(StringPiece l, StringPiece r) {
   if (l.size() != r.size()) return false;
-  return std::strncmp(l.char_begin(), r.char_begin(), l.size()) == 0;
+  if (l.empty()) return true;
+  return std::memcmp(l.char_begin(), r.char_begin(), l.size()) == 0;
 }
 
 bool operator<(StringPiece l, StringPiece r) {
   auto min_size = std::min(l.size(), r.size());
-  int res = std::strncmp(l.char_begin(), r.char_begin(), min_size);
+  int res = 0;
+  if (min_size != 0) {
+    res = std::memcmp(l.char_begin(), r.char_begin(), min_size);
+  }
   if (res == 0) {
     return l.size() < r.size();
   }
-- 
2.43.0


From 89f4fe15dcc6c1f48e64ae57f409cf4befd1dea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:11 +0000
Subject: [PATCH 21/84] fix: allocation and dictionary size errors are thrown
 by value

---
 src/core/dic/entry_builder.cc | 2 +-
 src/util/memory.cpp           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/dic/entry_builder.cc b/src/core/dic/entry_builder.cc
index b81de76..560d937 100644
--- a/src/core/dic/entry_builder.cc
+++ b/src/core/dic/entry_builder.cc
@@ -179,7 +179,7 @@ i32 DicEntryData::write(EntryTableBuilder* bldr) {
     resultPtr = (ptr << 1) | 0x1;
   }
   if (resultPtr > std::numeric_limits<i32>::max()) {
-    throw new std::range_error("dictionary is too large");
+    throw std::range_error("dictionary is too large");
   }
   return static_cast<i32>(resultPtr);
 }
diff --git a/src/util/memory.cpp b/src/util/memory.cpp
index 440dab0..5609622 100644
--- a/src/util/memory.cpp
+++ b/src/util/memory.cpp
@@ -8,6 +8,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <memory>
+#include <new>
 #include "logging.hpp"
 
 #if defined(_WIN32_WINNT)
@@ -136,7 +137,7 @@ bool PoolAlloc::switchToNewPage(size_t size) {
     LOG_ERROR() << "page size (" << page.size << " is lesser than object size ("
                 << size << "), please increase page size";
     JPP_BREAK_TO_DEBUGGER_IF_ATTACHED();
-    throw new std::bad_alloc();
+    throw std::bad_alloc();
   }
   base_ = reinterpret_cast<char*>(page.base);
   offset_ = 0;
-- 
2.43.0


From 7ee863ff6ed60fb1e3589a82a460c1f4396e3f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:11 +0000
Subject: [PATCH 22/84] fix: inserting a cached key again replaces its value

---
 src/util/lru_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/lru_cache.h b/src/util/lru_cache.h
index c902a81..9833982 100644
--- a/src/util/lru_cache.h
+++ b/src/util/lru_cache.h
@@ -49,7 +49,7 @@ class LruCache {
   }
 
   void insert(const K& key, const V& value) {
-    map1_.insert(std::make_pair(key, value));
+    map1_[key] = value;
     maybe_swap();
   }
 };
-- 
2.43.0


From 5f51b8e103c6c5c7cc25f0621a9fde5339dc35e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:11 +0000
Subject: [PATCH 23/84] fix: char buffer keeps its pages on assignment and
 allows an empty first string

---
 src/util/char_buffer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/char_buffer.h b/src/util/char_buffer.h
index dbbfb9e..1bb8901 100644
--- a/src/util/char_buffer.h
+++ b/src/util/char_buffer.h
@@ -6,6 +6,7 @@
 #define JUMANPP_CHAR_BUFFER_H
 
 #include <array>
+#include <utility>
 #include <vector>
 #include "array_slice.h"
 #include "string_piece.h"
@@ -37,7 +38,7 @@ class CharBuffer {
       return false;
     }
     ptrdiff_t remaining = page_size - position_;
-    if (remaining < sz) {
+    if (current_ == nullptr || remaining < sz) {
       ++npage;
       if (npage < storage_.size()) {
         current_ = storage_[npage];
@@ -68,7 +69,8 @@ class CharBuffer {
   }
 
   CharBuffer& operator=(CharBuffer&& c) noexcept {
-    storage_ = std::move(c.storage_);
+    // pages of this buffer will be deleted by the other one
+    std::swap(storage_, c.storage_);
     position_ = c.position_;
     current_ = c.current_;
     npage = c.npage;
-- 
2.43.0


From 0387cff13897dc2e10bcca3714c2413e8c74b9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:11 +0000
Subject: [PATCH 24/84] fix: numbers that don't fit into 64 bits are refused

---
 src/util/parse_utils.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/parse_utils.cc b/src/util/parse_utils.cc
index 1b7b121..96948e1 100644
--- a/src/util/parse_utils.cc
+++ b/src/util/parse_utils.cc
@@ -3,6 +3,7 @@
 //
 
 #include "parse_utils.h"
+#include <limits>
 
 namespace jumanpp {
 namespace util {
@@ -16,7 +17,11 @@ bool parseU64(StringPiece sp, u64* result) {
   for (const char* c = sp.char_begin(); c < sp.char_end(); ++c) {
     char x = *c;
     if (x >= '0' && x <= '9') {
-      val = (val * 10) + (x - '0');
+      u64 digit = static_cast<u64>(x - '0');
+      if (val > (std::numeric_limits<u64>::max() - digit) / 10) {
+        return false;
+      }
+      val = (val * 10) + digit;
     } else {
       return false;
     }
-- 
2.43.0


From 67ec69caf54f24fdb78d069f52187a20a0f88869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:11 +0000
Subject: [PATCH 25/84] fix: copies of lazy values are initialized

---
 src/util/lazy.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/util/lazy.h b/src/util/lazy.h
index dd74cfb..6b8b256 100644
--- a/src/util/lazy.h
+++ b/src/util/lazy.h
@@ -24,7 +24,8 @@ class Lazy {
  public:
   Lazy() noexcept : flag_{LazyGuardValue} {}
 
-  Lazy(const Lazy& o) noexcept(std::is_nothrow_copy_constructible<T>::value) {
+  Lazy(const Lazy& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
+      : flag_{LazyGuardValue} {
     if (o.isInitialized()) {
       initialize(o.value_);
     }
@@ -33,12 +34,17 @@ class Lazy {
   Lazy& operator=(const Lazy& o) noexcept(
       std::is_nothrow_copy_assignable<T>::value) {
     if (o.isInitialized()) {
-      value_ = o.value_;
+      if (isInitialized()) {
+        value_ = o.value_;
+      } else {
+        initialize(o.value_);
+      }
     }
     return *this;
   }
 
-  Lazy(Lazy&& o) noexcept(std::is_nothrow_move_constructible<T>::value) {
+  Lazy(Lazy&& o) noexcept(std::is_nothrow_move_constructible<T>::value)
+      : flag_{LazyGuardValue} {
     if (o.isInitialized()) {
       initialize(std::move(o.value_));
       o.flag_ = LazyGuardValue;
@@ -48,7 +54,11 @@ class Lazy {
   Lazy& operator=(Lazy&& o) noexcept(
       std::is_nothrow_move_assignable<T>::value) {
     if (o.isInitialized()) {
-      value_ = std::move(o.value_);
+      if (isInitialized()) {
+        value_ = std::move(o.value_);
+      } else {
+        initialize(std::move(o.value_));
+      }
       o.flag_ = LazyGuardValue;
     }
     return *this;
-- 
2.43.0


From c1a2ecfdb7d31e6dfd04ebb01998fcd5be711424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:12 +0000
Subject: [PATCH 26/84] fix: refuse surfaces with zero bytes when building the
 trie index

---
 src/core/dic/darts_trie.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/dic/darts_trie.cc b/src/core/dic/darts_trie.cc
index b638562..d2998cc 100644
--- a/src/core/dic/darts_trie.cc
+++ b/src/core/dic/darts_trie.cc
@@ -33,6 +33,11 @@ Status DoubleArrayBuilder::build(ProgressCallback *progress) {
   values.reserve(immediate_.size());
 
   for (auto &o : immediate_) {
+    if (std::find(o.key.begin(), o.key.end(), '\0') != o.key.end()) {
+      // zero byte is the end of a key in the double array
+      return JPPS_INVALID_PARAMETER
+             << "trie index can not contain a key with a zero byte";
+    }
     keys.push_back(o.key.begin());
     lengths.push_back(o.key.size());
     values.push_back(o.value);
-- 
2.43.0


From 28e9c749cf6db6b7e0b1495e6d5c9508263186ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:21 +0000
Subject: [PATCH 27/84] fix: reading an entry with the maximum number of fields
 writes past the feature buffer

---
 src/core/dic/dic_entries.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/dic/dic_entries.h b/src/core/dic/dic_entries.h
index d0908e5..bf4857f 100644
--- a/src/core/dic/dic_entries.h
+++ b/src/core/dic/dic_entries.h
@@ -104,11 +104,12 @@ class DicEntryBuffer {
     if (ptr.isAlias()) {
       auto totalCnt = numFeatures_ + 1;
       auto actualData = entryData.rawWithLimit(dicPtr, totalCnt);
-      auto num = actualData.fill(featureBuffer_, totalCnt);
-      if (num < totalCnt) {
+      // the buffer has space only for features
+      auto num = actualData.fill(featureBuffer_, numFeatures_);
+      i32 numAlias = 0;
+      if (num < numFeatures_ || !actualData.readOne(&numAlias)) {
         return false;
       }
-      auto numAlias = featureBuffer_[numFeatures_];
       if (numData_ == 0) {
         // nothing is stored for each alias, only their number
         remainingData_.clear();
-- 
2.43.0


From 9bb5397d7649ff0e3414e8e25b1b5115be28f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:08 +0000
Subject: [PATCH 28/84] fix: check blocks and directory of model files against
 the file and the specification; save empty blocks

---
 src/core/dic/dic_builder.cc | 22 +++++++++++++++++++---
 src/core/impl/model_io.cc   | 30 +++++++++++++++++++++++++-----
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/core/dic/dic_builder.cc b/src/core/dic/dic_builder.cc
index a2bc1e4..8723cbc 100644
--- a/src/core/dic/dic_builder.cc
+++ b/src/core/dic/dic_builder.cc
@@ -120,9 +120,11 @@ void DictionaryBuilder::newProgressStep(StringPiece name) {
 inline Status fixupDictionary(const model::ModelPart &dicInfo,
                               BuiltDictionary *dic) {
   auto spec_ = &dic->spec;
-  i32 expectedCount =
-      spec_->dictionary.numStringStorage + spec_->dictionary.numIntStorage + 4;
-  if (expectedCount != dicInfo.data.size()) {
+  const auto &dicSpec = spec_->dictionary;
+  i64 expectedCount =
+      i64{dicSpec.numStringStorage} + i64{dicSpec.numIntStorage} + 4;
+  if (dicSpec.numStringStorage < 0 || dicSpec.numIntStorage < 0 ||
+      expectedCount != dicInfo.data.size()) {
     return JPPS_INVALID_PARAMETER
            << "model file did not have all dictionary chunks";
   }
@@ -165,7 +167,21 @@ inline Status fixupDictionary(const model::ModelPart &dicInfo,
   }
   for (int j = 0; j < dic->fieldData.size(); ++j) {
     auto &f = dic->fieldData[j];
+    if (f.specIndex < 0 || f.specIndex >= dicSpec.fields.size()) {
+      return JPPS_INVALID_PARAMETER << "built field #" << j
+                                    << " has invalid index in spec: "
+                                    << f.specIndex;
+    }
     auto &fd = spec_->dictionary.fields[f.specIndex];
+    auto validStorage = [](i32 index, i32 count) {
+      return index == spec::InvalidInt || (index >= 0 && index < count);
+    };
+    if (!validStorage(fd.stringStorage, dicSpec.numStringStorage) ||
+        !validStorage(fd.intStorage, dicSpec.numIntStorage) ||
+        fd.alignment < 0 || fd.alignment > 30) {
+      return JPPS_INVALID_PARAMETER << "field " << fd.name
+                                    << " has invalid storage description";
+    }
     if (f.dicIndex != fd.dicIndex) {
       return JPPS_INVALID_PARAMETER << "something went wrong and built field "
                                        "dicIndex !=  spec field dicIndex: "
diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index c1c3575..9d079f6 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -6,6 +6,7 @@
 #include <core/analysis/perceptron.h>
 #include <core/dic/darts_trie.h>
 #include <util/printer.h>
+#include <algorithm>
 #include <cmath>
 #include <cstring>
 #include <iostream>
@@ -58,9 +59,11 @@ Status ModelSaver::save(const ModelInfo& info) {
     rawPart.comment = part.comment;
 
     for (auto& buf : part.data) {
-      util::MappedFileFragment frag;
-      JPP_RETURN_IF_ERROR(file_->mmap.map(&frag, offset, buf.size()));
-      std::memcpy(frag.address(), buf.data(), buf.size());
+      if (buf.size() != 0) {  // it is impossible to map empty blocks
+        util::MappedFileFragment frag;
+        JPP_RETURN_IF_ERROR(file_->mmap.map(&frag, offset, buf.size()));
+        std::memcpy(frag.address(), buf.data(), buf.size());
+      }
       rawPart.data.push_back(BlockPtr{offset, buf.size()});
       offset = util::memory::Align(offset + buf.size(), 4096);
     }
@@ -116,12 +119,13 @@ Status FilesystemModel::open(StringPiece name) {
       file_->mmap.map(&file_->fragment, 0, file_->mmap.size(), true));
   auto sp = hdrFrag.asStringPiece();
   auto magicSp = StringPiece{ModelMagic};
-  if (sp.take(magicSp.size()) != magicSp) {
+  if (sp.size() < sizeof(ModelMagic) ||
+      sp.take(magicSp.size()) != magicSp) {
     return JPPS_INVALID_STATE << "model file " << file_->name
                               << " has corrupted header";
   }
 
-  auto rest = sp.slice(sizeof(ModelMagic), 4096 - sizeof(ModelMagic));
+  auto rest = sp.slice(sizeof(ModelMagic), std::min<size_t>(sp.size(), 4096));
   util::CodedBufferParser cbp{rest};
   u64 hdrSize = 0;
   if (!cbp.readVarint64(&hdrSize)) {
@@ -129,6 +133,11 @@ Status FilesystemModel::open(StringPiece name) {
                               << file_->name;
   }
 
+  if (hdrSize > rest.size() - cbp.numReadBytes()) {
+    return JPPS_INVALID_STATE << "model file " << file_->name
+                              << " has corrupted header size";
+  }
+
   util::serialization::Loader l{
       rest.slice(cbp.numReadBytes(), cbp.numReadBytes() + hdrSize)};
   if (!l.load(&file_->rawModel)) {
@@ -153,6 +162,17 @@ Status FilesystemModel::load(ModelInfo* info) {
     part.kind = p.kind;
     part.comment = p.comment;
     for (auto& raw : p.data) {
+      if (raw.size == 0) {
+        part.data.push_back(EMPTY_SP);
+        continue;
+      }
+      if (raw.offset > modelData.size() ||
+          raw.size > modelData.size() - raw.offset) {
+        return JPPS_INVALID_STATE
+               << "model file " << file_->name << " is truncated or corrupted: "
+               << "it does not contain block of size=" << raw.size
+               << " with offset=" << raw.offset;
+      }
       ptrdiff_t start = static_cast<ptrdiff_t>(raw.offset);
       ptrdiff_t end = static_cast<ptrdiff_t>(start + raw.size);
       part.data.push_back(modelData.slice(start, end));
-- 
2.43.0


From 97a4bc9fa7b066332f5fd30ded81307361cb3654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:20 +0000
Subject: [PATCH 29/84] fix: move of mapped file fragments and growth of mapped
 files

---
 src/util/mmap_impl_unix.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/util/mmap_impl_unix.h b/src/util/mmap_impl_unix.h
index a0b85a3..8829ae6 100644
--- a/src/util/mmap_impl_unix.h
+++ b/src/util/mmap_impl_unix.h
@@ -145,6 +145,7 @@ Status MappedFile::map(MappedFileFragment *view, size_t offset, size_t size,
                                     << filename_ << " to " << endoffset
                                     << "bytes";
         }
+        size_ = endoffset;
       }
       protection = PROT_READ | PROT_WRITE;
       flags = MAP_SHARED;
@@ -226,13 +227,21 @@ StringPiece MappedFileFragment::asStringPiece() const {
 }
 
 MappedFileFragment::MappedFileFragment(MappedFileFragment &&o) noexcept
-    : address_{o.address_}, size_{o.size_} {
+    : baseAddress_{o.baseAddress_},
+      address_{o.address_},
+      alignedSize_{o.alignedSize_},
+      size_{o.size_} {
   o.address_ = MAP_FAILED;
 }
 
 MappedFileFragment &MappedFileFragment::operator=(
     MappedFileFragment &&o) noexcept {
+  if (!isClean()) {
+    unmap();
+  }
+  baseAddress_ = o.baseAddress_;
   address_ = o.address_;
+  alignedSize_ = o.alignedSize_;
   size_ = o.size_;
   o.address_ = MAP_FAILED;
   return *this;
-- 
2.43.0


From 32e9d120d8a58935fbbabdd87783b2c3680172c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:34 +0000
Subject: [PATCH 30/84] fix: ids of part of speech tags whose partner is
 missing from the dictionary

---
 src/jumandic/shared/jumandic_id_resolver.cc | 22 ++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/jumandic/shared/jumandic_id_resolver.cc b/src/jumandic/shared/jumandic_id_resolver.cc
index b54d517..60f3734 100644
--- a/src/jumandic/shared/jumandic_id_resolver.cc
+++ b/src/jumandic/shared/jumandic_id_resolver.cc
@@ -28,6 +28,15 @@ V findOr(const util::FlatMap<K, V, H, E>& map, const K& key, V defVal) {
   return it->second;
 }
 
+// "*" (an empty value) has the pointer 0, -1 is for the names which are not in
+// the dictionary: no entry can have them.
+i32 pointerOf(const util::FlatMap<StringPiece, i32>& map, StringPiece name) {
+  if (name == "*") {
+    return 0;
+  }
+  return findOr(map, name, -1);
+}
+
 Status JumandicIdResolver::initialize(const core::dic::DictionaryHolder& dic) {
   auto posFld = dic.fieldByName("pos");
   if (posFld == nullptr) {
@@ -59,9 +68,9 @@ Status JumandicIdResolver::initialize(const core::dic::DictionaryHolder& dic) {
 
   for (int i = 0; i < posInfoCount; ++i) {
     auto& pos = posInfo[i];
-    auto posId = findOr(pos2id, pos.part1, 0);
-    auto subposId = findOr(subPos2id, pos.part2, 0);
-    if (posId != 0 || subposId != 0) {
+    auto posId = pointerOf(pos2id, pos.part1);
+    auto subposId = pointerOf(subPos2id, pos.part2);
+    if (posId > 0 && subposId >= 0) {
       CompositeId posObj{posId, subposId};
       posMap[posObj] = CompositeId{pos.id1, pos.id2};
     }
@@ -69,11 +78,10 @@ Status JumandicIdResolver::initialize(const core::dic::DictionaryHolder& dic) {
 
   for (int j = 0; j < conjInfoCount; ++j) {
     auto& conj = conjInfo[j];
-    auto ctId = findOr(conjType2id, conj.part1, 0);
-    auto cfId = findOr(conjForm2id, conj.part2, 0);
-    if (ctId != 0) {
+    auto ctId = pointerOf(conjType2id, conj.part1);
+    auto cfId = pointerOf(conjForm2id, conj.part2);
+    if (ctId > 0 && cfId >= 0) {
       conjMap[CompositeId{ctId, cfId}] = CompositeId{conj.id1, conj.id2};
-      conjMap[CompositeId{ctId, 0}] = CompositeId{conj.id1, 0};
     }
   }
 
-- 
2.43.0


From 9b3d58d3ef325165337b5309885c73f6b2ab0e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:48 +0000
Subject: [PATCH 31/84] fix: partial ngram kernel without left candidates

---
 src/core/impl/feature_impl_ngram_partial_kernels.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/impl/feature_impl_ngram_partial_kernels.h b/src/core/impl/feature_impl_ngram_partial_kernels.h
index 3f6d8a0..ca5b9ca 100644
--- a/src/core/impl/feature_impl_ngram_partial_kernels.h
+++ b/src/core/impl/feature_impl_ngram_partial_kernels.h
@@ -25,6 +25,9 @@ inline void applyBiTriFullKernel(
     const analysis::WeightBuffer& weights,
     util::MutableArraySlice<float> scoreBuffer,
     util::MutableArraySlice<float> result) {
+  if (t2pats.numRows() == 0) {
+    return;  // nothing ends at this boundary
+  }
   u32 mask = static_cast<u32>(weights.size() - 1);
   auto numBiFeat = t1featuresBi.size();
 
-- 
2.43.0


From 7d643ecb6a64f0f7816d48d6dc9aee1f16088f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:08 +0000
Subject: [PATCH 32/84] fix: an analysis path of an empty sentence has no words
 from the start

---
 src/core/analysis/analysis_result.cc | 4 ++--
 src/core/analysis/analysis_result.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/analysis/analysis_result.cc b/src/core/analysis/analysis_result.cc
index 1948017..48707ab 100644
--- a/src/core/analysis/analysis_result.cc
+++ b/src/core/analysis/analysis_result.cc
@@ -27,6 +27,8 @@ Status AnalysisPath::fillIn(const Lattice *l) {
   JPP_DCHECK_GE(bnds, 3);
   elems_.clear();
   offsets_.clear();
+  currentChunk_ = -1;
+  currentNode_ = -1;
   elems_.reserve(bnds * 2);
   offsets_.reserve(bnds);
   if (bnds == 3) {  // empty string
@@ -70,8 +72,6 @@ Status AnalysisPath::fillIn(const Lattice *l) {
     topPtr = topPtr->previous;
   }
 
-  currentChunk_ = -1;
-
   return Status::Ok();
 }
 }  // namespace analysis
diff --git a/src/core/analysis/analysis_result.h b/src/core/analysis/analysis_result.h
index 1731711..9dac3b5 100644
--- a/src/core/analysis/analysis_result.h
+++ b/src/core/analysis/analysis_result.h
@@ -27,8 +27,8 @@ class AnalysisPath {
   // begin[first] == end[first+1] == offsets[offsets.size - 2]
   // end[first] == offsets[offsets.size - 1]
   std::vector<u32> offsets_;
-  i32 currentChunk_;
-  i32 currentNode_;
+  i32 currentChunk_ = -1;
+  i32 currentNode_ = -1;
 
  public:
   bool nextBoundary() {
-- 
2.43.0


From 44904c187c806d15e49ee7be5912ac3574030895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:40 +0000
Subject: [PATCH 33/84] fix: the lattice format keeps the comment of an empty
 sentence

---
 src/jumandic/shared/lattice_format.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index 9937511..f263249 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -85,7 +85,9 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
   printer.reset();
   auto lat = analyzer.impl()->lattice();
   if (lat->createdBoundaryCount() == 3) {
-    printer.reset();
+    if (!comment.empty()) {
+      printer << "# " << comment << '\n';
+    }
     printer << "EOS\n";
     return Status::Ok();
   }
-- 
2.43.0


From dd26e5eaa782221639ed952d05798ab318f5c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:51 +0000
Subject: [PATCH 34/84] fix: protobuf lattice output of an empty sentence

---
 src/jumandic/shared/jumanpp_pb_format.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jumandic/shared/jumanpp_pb_format.cc b/src/jumandic/shared/jumanpp_pb_format.cc
index 7f22ba9..524a106 100644
--- a/src/jumandic/shared/jumanpp_pb_format.cc
+++ b/src/jumandic/shared/jumanpp_pb_format.cc
@@ -64,6 +64,10 @@ struct LatticeTopN {
     nodes_.clear();
     topScores_.clear();
 
+    if (lat->createdBoundaryCount() <= 3) {
+      return;  // empty sentence, EOS was not scored
+    }
+
     auto eos = lat->boundary(lat->createdBoundaryCount() - 1);
     auto beam = eos->starts()->beamData();
     auto maxN = std::min<i32>(static_cast<i32>(beam.size()), topN);
-- 
2.43.0


From d54ae6c25d11111ff41877d3678fb9ec80885e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:44 +0000
Subject: [PATCH 35/84] fix: protobuf outputs don't reallocate the buffer they
 are written to

---
 src/jumandic/shared/juman_pb_format.cc   | 5 +++--
 src/jumandic/shared/jumanpp_pb_format.cc | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jumandic/shared/juman_pb_format.cc b/src/jumandic/shared/juman_pb_format.cc
index cb51ceb..ef10c85 100644
--- a/src/jumandic/shared/juman_pb_format.cc
+++ b/src/jumandic/shared/juman_pb_format.cc
@@ -124,11 +124,12 @@ struct JumanPbFormatImpl {
 
     if (fillBuffer_) {
       buffer_.clear();
+      auto messageSize = obj_.ByteSizeLong();
+      // the stream writes into the buffer directly, it must not be reallocated
+      buffer_.reserve(messageSize + 10);
       google::protobuf::io::StringOutputStream os{&buffer_};
       google::protobuf::io::CodedOutputStream cos{&os};
-      auto messageSize = obj_.ByteSizeLong();
       cos.WriteVarint64(messageSize);
-      buffer_.reserve(messageSize);
       if (!obj_.SerializeToCodedStream(&cos)) {
         return JPPS_INVALID_STATE << "failed to serialize LatticeDump";
       }
diff --git a/src/jumandic/shared/jumanpp_pb_format.cc b/src/jumandic/shared/jumanpp_pb_format.cc
index 524a106..59a75da 100644
--- a/src/jumandic/shared/jumanpp_pb_format.cc
+++ b/src/jumandic/shared/jumanpp_pb_format.cc
@@ -217,11 +217,12 @@ struct JumanppProtobufOutputImpl {
 
     if (fillBuffer_) {
       buffer_.clear();
+      auto messageSize = object_.ByteSizeLong();
+      // the stream writes into the buffer directly, it must not be reallocated
+      buffer_.reserve(messageSize + 10);
       google::protobuf::io::StringOutputStream os{&buffer_};
       google::protobuf::io::CodedOutputStream cos{&os};
-      auto messageSize = object_.ByteSizeLong();
       cos.WriteVarint64(messageSize);
-      buffer_.reserve(messageSize);
       if (!object_.SerializeToCodedStream(&cos)) {
         return JPPS_INVALID_STATE << "failed to serialize LatticeDump";
       }
-- 
2.43.0


From 9e1de95608208d5571034f39b989055b25309d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:52 +0000
Subject: [PATCH 36/84] fix: the lattice format shows the score of the best
 connection of a node

---
 src/jumandic/shared/lattice_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index f263249..c48ce9f 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -143,7 +143,7 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
             total1 += s1[i] * weights[i];
             total2 += s2[i] * weights[i];
           }
-          return total1 > total2;
+          return total1 < total2;
         });
 
     auto& cptr = *ptrit;
-- 
2.43.0


From f618f078a738565755d3a9706224659eb4ee3847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:01 +0000
Subject: [PATCH 37/84] fix: conjugation type and form are not swapped in
 protobuf outputs

---
 src/jumandic/shared/juman_pb_format.cc   | 4 ++--
 src/jumandic/shared/jumanpp_pb_format.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jumandic/shared/juman_pb_format.cc b/src/jumandic/shared/juman_pb_format.cc
index ef10c85..0c7c25d 100644
--- a/src/jumandic/shared/juman_pb_format.cc
+++ b/src/jumandic/shared/juman_pb_format.cc
@@ -74,8 +74,8 @@ struct JumanPbFormatImpl {
     auto strPos = mrph->mutable_string_pos();
     strPos->set_pos(ifEmpty(fields_.pos[walker], "*").str());
     strPos->set_subpos(ifEmpty(fields_.subpos[walker], "*").str());
-    strPos->set_conj_type(ifEmpty(fields_.conjForm[walker], "*").str());
-    strPos->set_conj_form(ifEmpty(fields_.conjType[walker], "*").str());
+    strPos->set_conj_type(ifEmpty(fields_.conjType[walker], "*").str());
+    strPos->set_conj_form(ifEmpty(fields_.conjForm[walker], "*").str());
 
     return Status::Ok();
   }
diff --git a/src/jumandic/shared/jumanpp_pb_format.cc b/src/jumandic/shared/jumanpp_pb_format.cc
index 59a75da..7802e7a 100644
--- a/src/jumandic/shared/jumanpp_pb_format.cc
+++ b/src/jumandic/shared/jumanpp_pb_format.cc
@@ -197,8 +197,8 @@ struct JumanppProtobufOutputImpl {
         auto strPos = node->mutable_string_pos();
         strPos->set_pos(ifEmpty(fields_.pos[walker], "*").str());
         strPos->set_subpos(ifEmpty(fields_.subpos[walker], "*").str());
-        strPos->set_conj_type(ifEmpty(fields_.conjForm[walker], "*").str());
-        strPos->set_conj_form(ifEmpty(fields_.conjType[walker], "*").str());
+        strPos->set_conj_type(ifEmpty(fields_.conjType[walker], "*").str());
+        strPos->set_conj_form(ifEmpty(fields_.conjForm[walker], "*").str());
 
         for (auto& rankInfo : info.ranks) {
           node->add_ranks(rankInfo.rank);
-- 
2.43.0


From 52765d32e8a517a504d7461d7b337e24085d5e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:10 +0000
Subject: [PATCH 38/84] fix: the lattice format doesn't read scores after the
 end of the beam

---
 src/jumandic/shared/lattice_format.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index c48ce9f..e21d946 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -113,7 +113,8 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
     auto eos = lat->boundary(lat->createdBoundaryCount() - 1);
     auto eosBeam = eos->starts()->beamData();
 
-    for (int i = 0; i < outputN; ++i) {
+    auto maxN = std::min<i32>(eosBeam.size(), outputN);
+    for (int i = 0; i < maxN; ++i) {
       auto& bel = eosBeam.at(i);
       if (core::analysis::EntryBeam::isFake(bel)) {
         break;
-- 
2.43.0


From 57c210801b7d546e6d8fa074abbe8a810dba4c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:13 +0000
Subject: [PATCH 39/84] fix: dictionary subset contains every entry once

---
 src/jumandic/shared/mdic_format.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jumandic/shared/mdic_format.cc b/src/jumandic/shared/mdic_format.cc
index 660b3e2..8bed39b 100644
--- a/src/jumandic/shared/mdic_format.cc
+++ b/src/jumandic/shared/mdic_format.cc
@@ -26,6 +26,7 @@ Status MdicFormat::format(const core::analysis::Analyzer& analyzer,
     for (int i = 0; i < ninfo.size(); ++i) {
       auto eptr = ninfo.at(i).entryPtr();
       if (eptr.isDic() && displayed_.count(eptr.rawValue()) == 0) {
+        displayed_.insert(eptr.rawValue());
         JPP_RETURN_IF_ERROR(formatNode(eptr.rawValue(), om));
       }
     }
-- 
2.43.0


From 95424bdb6850cbe637f4ba5dfbee05ef1adb88b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:00 +0000
Subject: [PATCH 40/84] fix: dictionary subset quotes values with line ends

---
 src/jumandic/shared/mdic_format.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jumandic/shared/mdic_format.cc b/src/jumandic/shared/mdic_format.cc
index 8bed39b..08ac3b4 100644
--- a/src/jumandic/shared/mdic_format.cc
+++ b/src/jumandic/shared/mdic_format.cc
@@ -42,13 +42,19 @@ Status MdicFormat::initialize(const core::analysis::OutputManager& om) {
 
 namespace fmt {
 
+namespace {
+bool needsQuotes(char c) {
+  return c == '"' || c == ',' || c == '\n' || c == '\r';
+}
+}  // namespace
+
 util::io::FastPrinter& printMaybeQuoted(util::io::FastPrinter& printer,
                                         StringPiece data) {
   auto end = data.end();
   auto beg = data.begin();
-  auto noCommas = std::find(beg, end, ',') == end;
+  auto plain = std::find_if(beg, end, needsQuotes) == end;
   auto it = std::find(beg, end, '"');
-  if (noCommas && it == end) {
+  if (plain) {
     printer << data;
   } else {
     printer << '"';
@@ -72,8 +78,7 @@ util::io::FastPrinter& printMaybeQuoteStringList(
   auto itemsCopy = items;
   while (itemsCopy.next()) {
     auto sp = itemsCopy.key();
-    auto it = std::find_if(sp.begin(), sp.end(),
-                           [](char c) { return c == '"' || c == ','; });
+    auto it = std::find_if(sp.begin(), sp.end(), needsQuotes);
     if (it != sp.end()) {
       shouldQuote = true;
       break;
@@ -82,8 +87,7 @@ util::io::FastPrinter& printMaybeQuoteStringList(
       continue;
     }
     sp = itemsCopy.value();
-    it = std::find_if(sp.begin(), sp.end(),
-                      [](char c) { return c == '"' || c == ','; });
+    it = std::find_if(sp.begin(), sp.end(), needsQuotes);
     if (it != sp.end()) {
       shouldQuote = true;
       break;
-- 
2.43.0


From e3580a23c2fad9ed6e8d95664c674ae7108ecec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:27 +0000
Subject: [PATCH 41/84] fix: lattice dump of an empty sentence

---
 src/core/proto/lattice_dump_output.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/proto/lattice_dump_output.cc b/src/core/proto/lattice_dump_output.cc
index b0dddda..4c1e656 100644
--- a/src/core/proto/lattice_dump_output.cc
+++ b/src/core/proto/lattice_dump_output.cc
@@ -221,7 +221,10 @@ struct LatticeDumpOutputImpl {
       }
     }
 
-    JPP_RETURN_IF_ERROR(fillBeams(ai, bnd, node, nodeIdx));
+    if (ai.lattice()->createdBoundaryCount() > 3) {
+      // nothing is scored for an empty sentence
+      JPP_RETURN_IF_ERROR(fillBeams(ai, bnd, node, nodeIdx));
+    }
 
     return Status::Ok();
   }
@@ -249,6 +252,9 @@ struct LatticeDumpOutputImpl {
   }
 
   void resolveRanks(const analysis::Lattice* l) {
+    if (l->createdBoundaryCount() <= 3) {
+      return;  // empty sentence, EOS was not scored
+    }
     auto eos =
         l->boundary(l->createdBoundaryCount() - 1)->starts()->beamData().row(0);
     for (i32 rank = 0; rank < eos.size(); ++rank) {
-- 
2.43.0


From 26027276b4630ab46ce3a7ddbb9a15cdfbadfc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:21 +0000
Subject: [PATCH 42/84] fix: read all input files, report missing ones and end

---
 src/jumandic/main/jumanpp.cc | 45 +++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 77d9278..1d88816 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -24,13 +24,13 @@ struct InputOutput {
 
   Status moveToNextFile() {
     auto& fn = (*inFiles_)[currentInFile_];
+    currentInFile_ += 1;
     fileInput_.reset(new std::ifstream{fn});
-    if (fileInput_->bad()) {
-      return JPPS_INVALID_PARAMETER << "failed to open output file: " << fn;
-    }
     input_ = fileInput_.get();
     currentInputFilename_ = fn;
-    currentInFile_ += 1;
+    if (!fileInput_->is_open()) {
+      return JPPS_INVALID_PARAMETER << "failed to open input file: " << fn;
+    }
     return Status::Ok();
   }
 
@@ -79,21 +79,30 @@ struct InputOutput {
     return Status::Ok();
   }
 
-  bool hasNext() {
-    if (input_->good()) {
-      auto ch = input_->peek();
-      if (ch == std::char_traits<char>::eof()) {
+  /**
+   * Moves to the next file when the current one is read to its end.
+   * Files which can't be read are reported and skipped.
+   */
+  bool hasNext(bool* failed) {
+    while (true) {
+      if (input_->good() &&
+          input_->peek() != std::char_traits<char>::eof()) {
+        return true;
+      }
+      if (input_->bad()) {
+        std::cerr << "failed when reading from file: " << currentInputFilename_
+                  << "\n";
+        *failed = true;
+      }
+      if (currentInFile_ >= static_cast<i64>(inFiles_->size())) {
         return false;
       }
-    }
-    while (input_->eof() && currentInFile_ < inFiles_->size()) {
       auto s = moveToNextFile();
       if (!s) {
-        LOG_ERROR() << s.message();
+        std::cerr << s << "\n";
+        *failed = true;
       }
     }
-    auto isOk = !input_->eof();
-    return isOk;
   }
 };
 
@@ -151,18 +160,16 @@ int main(int argc, const char** argv) {
     return 1;
   }
 
-  int result = 0;
+  bool failed = false;
 
-  while (io.hasNext()) {
+  while (io.hasNext(&failed)) {
     s = io.nextInput();
     if (!s) {
       std::cerr << "failed to read an example: " << s;
-      result = 1;
+      failed = true;
       continue;
     }
 
-    result = 0;
-
     s = io.streamReader_->analyzeWith(exec.analyzerPtr());
     if (!s) {
       std::cerr << s;
@@ -178,5 +185,5 @@ int main(int argc, const char** argv) {
     }
   }
 
-  return result;
+  return failed ? 1 : 0;
 }
-- 
2.43.0


From bde43655bc44c725bb46f4a768147adf362f058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:21 +0000
Subject: [PATCH 43/84] fix: report an output file which can't be written

---
 src/jumandic/main/jumanpp.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 1d88816..0edb5b6 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -63,6 +63,10 @@ struct InputOutput {
     } else {
       fileOutput_.reset(new std::ofstream{conf.outputFile});
       output_ = fileOutput_.get();
+      if (!fileOutput_->is_open()) {
+        return JPPS_INVALID_PARAMETER << "failed to open output file: "
+                                      << conf.outputFile.value();
+      }
     }
 
     auto inType = conf.inputType.value();
@@ -185,5 +189,11 @@ int main(int argc, const char** argv) {
     }
   }
 
+  io.output_->flush();
+  if (!*io.output_) {
+    std::cerr << "failed to write the output\n";
+    failed = true;
+  }
+
   return failed ? 1 : 0;
 }
-- 
2.43.0


From 5104b8fc3916001a5960cbf95fc7a7e768ebd4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:21 +0000
Subject: [PATCH 44/84] fix: an example which can't be read has a result

---
 src/jumandic/main/jumanpp.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 0edb5b6..8da8d6a 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -170,6 +170,7 @@ int main(int argc, const char** argv) {
     s = io.nextInput();
     if (!s) {
       std::cerr << "failed to read an example: " << s;
+      *io.output_ << exec.emptyResult();
       failed = true;
       continue;
     }
-- 
2.43.0


From 18621dedc50aa06072640abfc270734f4c1029e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:33 +0000
Subject: [PATCH 45/84] fix: segmented output has a line for a sentence which
 can't be analysed

---
 src/jumandic/shared/jumandic_env.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jumandic/shared/jumandic_env.cc b/src/jumandic/shared/jumandic_env.cc
index b6fe65f..ab2c22b 100644
--- a/src/jumandic/shared/jumandic_env.cc
+++ b/src/jumandic/shared/jumandic_env.cc
@@ -216,6 +216,9 @@ StringPiece JumanppExec::emptyResult() const {
     case OutputType::Morph:
     case OutputType::FullMorph:
       return StringPiece{"# ERROR\n"};
+    case OutputType::Segmentation:
+      // every sentence has its line
+      return StringPiece{"\n"};
     default:
       return EMPTY_SP;
   }
-- 
2.43.0


From ef9b799a4c444c729bf3561f43961f82285ad4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:10 +0000
Subject: [PATCH 46/84] fix: errors in options and configuration files are
 reported

---
 src/jumandic/shared/jumanpp_args.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index a03b5c9..8a3a85c 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -175,7 +175,7 @@ struct JppArgsParser {
       std::cerr << parser;
       exit(1);
     } catch (args::ParseError& e) {
-      Status::InvalidParameter() << e.what() << "\n" << parser;
+      return Status::InvalidParameter() << e.what() << "\n" << parser;
     } catch (...) {
       return Status::InvalidParameter() << "unknown exception happened";
     }
@@ -205,7 +205,7 @@ struct JppArgsParser {
     } catch (args::Help&) {
       return Status::InvalidParameter() << parser;
     } catch (args::ParseError& e) {
-      Status::InvalidParameter() << e.what() << "\n" << parser;
+      return Status::InvalidParameter() << e.what() << "\n" << parser;
     } catch (...) {
       return Status::InvalidParameter();
     }
-- 
2.43.0


From 4350e50ba3ba4a09a62f5cd90fd345caab78d177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:10 +0000
Subject: [PATCH 47/84] fix: space at the start of a configuration file is not
 an input file

---
 src/jumandic/shared/jumanpp_args.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 8a3a85c..99a153a 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -194,7 +194,9 @@ struct JppArgsParser {
     std::regex_token_iterator<const char*> end{};
     std::vector<std::string> parts;
     for (; begin != end; ++begin) {
-      parts.emplace_back(wstart, begin->first);
+      if (wstart != begin->first) {
+        parts.emplace_back(wstart, begin->first);
+      }
       wstart = begin->second;
     }
     if (wstart != data.end()) {
-- 
2.43.0


From 1bd520be901fd9eba81febbeec585ef79c4e353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:10 +0000
Subject: [PATCH 48/84] fix: number of outputs on the command line doesn't hide
 the configured beam size

---
 src/jumandic/shared/jumanpp_args.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 99a153a..8a06dfd 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -261,9 +261,6 @@ struct JppArgsParser {
     result->segmentSeparator.set(segmentSeparator);
 
     result->beamSize.set(beamSize);
-    if (result->beamSize < result->beamOutput) {
-      result->beamSize = result->beamOutput.value();
-    }
 
     result->globalBeam.set(globalBeamSize);
     result->rightCheck.set(rightCheckBeam);
@@ -286,6 +283,13 @@ struct JppArgsParser {
   }
 };
 
+// N-best output needs a beam of at least N elements
+void fixupBeamSize(JumanppConf* result) {
+  if (result->beamSize < result->beamOutput) {
+    result->beamSize = result->beamOutput.value();
+  }
+}
+
 }  // namespace
 
 Status parseCfgFile(StringPiece filename, JumanppConf* conf,
@@ -301,6 +305,7 @@ Status parseCfgFile(StringPiece filename, JumanppConf* conf,
     conf->mergeWith(internal);
   }
   conf->mergeWith(myConf);
+  fixupBeamSize(conf);
   return Status::Ok();
 }
 
@@ -396,6 +401,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   }
 
   result->mergeWith(cmdline);
+  fixupBeamSize(result);
 
   LOG_TRACE() << "Merged Config: " << *result;
 
-- 
2.43.0


From 4b94afe9510a9670258caa0c1887081d748a9ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:35 +0000
Subject: [PATCH 49/84] fix: model path of a configuration file is found
 relative to that file

---
 src/jumandic/shared/jumanpp_args.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 8a06dfd..96983b7 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -310,9 +310,9 @@ Status parseCfgFile(StringPiece filename, JumanppConf* conf,
 }
 
 namespace {
-Status fixupModelPath(JumanppConf* result) {
+Status fixupModelPath(JumanppConf* result, const std::string& configFile) {
   // don't try anything if there is no file
-  if (result->configFile.isDefault()) {
+  if (result->modelFile.isDefault()) {
     return Status::Ok();
   }
 
@@ -322,7 +322,7 @@ Status fixupModelPath(JumanppConf* result) {
       return Status::Ok();
     }
 
-    Pathie::Path configPath(result->configFile);
+    Pathie::Path configPath(configFile);
     Pathie::Path configParent = configPath.parent();
 
     if (!configParent.exists() || !configParent.is_directory()) {
@@ -370,7 +370,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
              << "\n"
              << s;
     }
-    JPP_RETURN_IF_ERROR(fixupModelPath(result));
+    JPP_RETURN_IF_ERROR(fixupModelPath(result, cmdline.configFile));
   }
 
   if (!loadedConfig) {
@@ -381,7 +381,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
       argsParser.fillResult(result);
       loadedConfig = true;
     }
-    JPP_RETURN_IF_ERROR(fixupModelPath(result));
+    JPP_RETURN_IF_ERROR(fixupModelPath(result, globalCfgName));
     LOG_DEBUG() << "tried to read global config from " << globalCfgName
                 << " error=" << s;
   }
@@ -395,7 +395,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
     if (s) {
       argsParser.fillResult(result);
     }
-    JPP_RETURN_IF_ERROR(fixupModelPath(result));
+    JPP_RETURN_IF_ERROR(fixupModelPath(result, userConfigPath));
     LOG_DEBUG() << "tried to read user config from " << userConfigPath
                 << " error=" << s;
   }
-- 
2.43.0


From 21999307c3dd2f75d7040f09f38732c26d039fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:35 +0000
Subject: [PATCH 50/84] fix: a malformed --auto-nbest is reported

---
 src/jumandic/shared/jumanpp_args.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 96983b7..69b8944 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -229,7 +229,7 @@ struct JppArgsParser {
                  "for more information\n";
   }
 
-  void fillResult(JumanppConf* result) {
+  Status fillResult(JumanppConf* result) {
     if (availableFormats) {
       printAvailableFormats();
       exit(1);
@@ -267,19 +267,23 @@ struct JppArgsParser {
     result->rightBeam.set(rightBeamSize);
 
     if (autoBeam) {
-      std::regex autoBeamRegex(R"(^(\d+):(\d+):(\d+)$)");
+      std::regex autoBeamRegex(R"(^(\d{1,9}):(\d{1,9}):(\d{1,9})$)");
       std::smatch results;
       auto& s = autoBeam.Get();
       if (std::regex_search(s, results, autoBeamRegex)) {
         result->beamSize = to_int10<i32>(results[1]);
         result->autoStep = to_int10<i32>(results[2]);
         result->globalBeam = to_int10<i32>(results[3]);
+      } else {
+        return JPPS_INVALID_PARAMETER
+               << "--auto-nbest should be BASE:STEP:MAX, but was: " << s;
       }
     }
 
 #ifdef JPP_ENABLE_DEV_TOOLS
     result->outputType.set(globalBeamPos, OutputType::GlobalBeamPos);
 #endif
+    return Status::Ok();
   }
 };
 
@@ -297,7 +301,7 @@ Status parseCfgFile(StringPiece filename, JumanppConf* conf,
   JppArgsParser parser;
   JumanppConf myConf;
   JPP_RETURN_IF_ERROR(parser.parseFile(filename));
-  parser.fillResult(&myConf);
+  JPP_RETURN_IF_ERROR(parser.fillResult(&myConf));
   if (recursionDepth > 0 && myConf.configFile.defined()) {
     JumanppConf internal;
     JPP_RETURN_IF_ERROR(
@@ -351,7 +355,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   JppArgsParser argsParser;
   JumanppConf cmdline;
   JPP_RETURN_IF_ERROR(argsParser.parseCli(argc, argv));
-  argsParser.fillResult(&cmdline);
+  JPP_RETURN_IF_ERROR(argsParser.fillResult(&cmdline));
 
   util::logging::CurrentLogLevel =
       static_cast<util::logging::Level>(cmdline.logLevel.value());
@@ -362,7 +366,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   if (!cmdline.configFile.value().empty()) {
     s = argsParser.parseFile(cmdline.configFile.value());
     if (s) {
-      argsParser.fillResult(result);
+      JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
       loadedConfig = true;
     } else {
       return Status::InvalidParameter()
@@ -378,7 +382,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
     globalCfgName += myName.str();
     s = argsParser.parseFile(globalCfgName);
     if (s) {
-      argsParser.fillResult(result);
+      JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
       loadedConfig = true;
     }
     JPP_RETURN_IF_ERROR(fixupModelPath(result, globalCfgName));
@@ -393,7 +397,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
     userConfigPath += myName.str();
     s = argsParser.parseFile(userConfigPath);
     if (s) {
-      argsParser.fillResult(result);
+      JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
     }
     JPP_RETURN_IF_ERROR(fixupModelPath(result, userConfigPath));
     LOG_DEBUG() << "tried to read user config from " << userConfigPath
-- 
2.43.0


From 38c84358108984131a50afe6fac2ba9a9a78c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:20 +0000
Subject: [PATCH 51/84] fix: errors in the default configuration files are
 reported

---
 src/jumandic/shared/jumanpp_args.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 69b8944..5d5187f 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -184,10 +184,16 @@ struct JppArgsParser {
 
   std::regex separator{"[ \t\n\r]+"};
 
-  Status parseFile(StringPiece filename) {
+  Status parseFile(StringPiece filename, bool* found = nullptr) {
+    if (found != nullptr) {
+      *found = false;
+    }
     LOG_TRACE() << "Trying to parse config file: " << filename;
     util::FullyMappedFile file;
     JPP_RETURN_IF_ERROR(file.open(filename));
+    if (found != nullptr) {
+      *found = true;
+    }
     auto data = file.contents();
     auto wstart = data.begin();
     std::regex_token_iterator<const char*> begin{wstart, data.end(), separator};
@@ -361,6 +367,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
       static_cast<util::logging::Level>(cmdline.logLevel.value());
 
   bool loadedConfig = false;
+  bool found = false;
   Status s = Status::Ok();
 
   if (!cmdline.configFile.value().empty()) {
@@ -380,10 +387,14 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   if (!loadedConfig) {
     std::string globalCfgName{core::JPP_DEFAULT_CONFIG_DIR};
     globalCfgName += myName.str();
-    s = argsParser.parseFile(globalCfgName);
+    s = argsParser.parseFile(globalCfgName, &found);
     if (s) {
       JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
       loadedConfig = true;
+    } else if (found) {
+      return Status::InvalidParameter()
+             << "failed to parse config at: " << globalCfgName << "\n"
+             << s;
     }
     JPP_RETURN_IF_ERROR(fixupModelPath(result, globalCfgName));
     LOG_DEBUG() << "tried to read global config from " << globalCfgName
@@ -395,9 +406,13 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
     std::string userConfigPath(homePtr);
     userConfigPath += "/.config/jumanpp";
     userConfigPath += myName.str();
-    s = argsParser.parseFile(userConfigPath);
+    s = argsParser.parseFile(userConfigPath, &found);
     if (s) {
       JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
+    } else if (found) {
+      return Status::InvalidParameter()
+             << "failed to parse config at: " << userConfigPath << "\n"
+             << s;
     }
     JPP_RETURN_IF_ERROR(fixupModelPath(result, userConfigPath));
     LOG_DEBUG() << "tried to read user config from " << userConfigPath
-- 
2.43.0


From df9a2bec0d7019550ffb73b20d6006cd385db153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:22 +0000
Subject: [PATCH 52/84] fix: lattice dump of an empty sentence has no patterns

---
 src/core/proto/lattice_dump_output.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/proto/lattice_dump_output.cc b/src/core/proto/lattice_dump_output.cc
index 4c1e656..462cdd3 100644
--- a/src/core/proto/lattice_dump_output.cc
+++ b/src/core/proto/lattice_dump_output.cc
@@ -214,6 +214,10 @@ struct LatticeDumpOutputImpl {
       }
     }
 
+    if (ai.lattice()->createdBoundaryCount() <= 3) {
+      return Status::Ok();  // nothing is scored for an empty sentence
+    }
+
     if (fillFeatures_) {
       auto patv = bnd->patternFeatureData().row(nodeIdx);
       for (auto pat : patv) {
@@ -221,10 +225,7 @@ struct LatticeDumpOutputImpl {
       }
     }
 
-    if (ai.lattice()->createdBoundaryCount() > 3) {
-      // nothing is scored for an empty sentence
-      JPP_RETURN_IF_ERROR(fillBeams(ai, bnd, node, nodeIdx));
-    }
+    JPP_RETURN_IF_ERROR(fillBeams(ai, bnd, node, nodeIdx));
 
     return Status::Ok();
   }
-- 
2.43.0


From 7d6067f129825a18b7eb2f4baa8b7c6be628cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:58 +0000
Subject: [PATCH 53/84] fix: partial examples have only their own comment

---
 src/core/input/partial_example_io.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index b72f2d1..32ac733 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -29,6 +29,7 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
   result->noBreak_.clear();
   result->surface_.clear();
   result->nodes_.clear();
+  result->comment_.clear();
   while (csv_.nextLine()) {
     if (firstLine) {
       result->line_ = csv_.lineNumber();
@@ -37,7 +38,12 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
 
     auto wholeLine = csv_.line();
     if (wholeLine.size() > 2 && wholeLine[0] == '#' && wholeLine[1] == ' ') {
-      wholeLine.slice(2, wholeLine.size() - 1).assignTo(result->comment_);
+      auto commentEnd = wholeLine.size();
+      while (commentEnd > 2 && (wholeLine[commentEnd - 1] == '\n' ||
+                                wholeLine[commentEnd - 1] == '\r')) {
+        commentEnd -= 1;  // the line end is not a part of the comment
+      }
+      wholeLine.slice(2, commentEnd).assignTo(result->comment_);
       continue;
     }
 
-- 
2.43.0


From 709a7a5e5dd95047051a89b35b9403443114f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:41 +0000
Subject: [PATCH 54/84] fix: empty and too large numbers in options are refused

---
 libs/args.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/args.h b/libs/args.h
index ce275ab..c9d135b 100644
--- a/libs/args.h
+++ b/libs/args.h
@@ -3259,9 +3259,11 @@ struct ValueReader
   operator ()(const std::string &name, const std::string &value, T &destination)
   {
     std::istringstream ss(value);
-    ss >> destination >> std::ws;
+    ss >> destination;
+    const bool failed = ss.fail();
+    ss >> std::ws;
 
-    if (ss.rdbuf()->in_avail() > 0)
+    if (failed || ss.rdbuf()->in_avail() > 0)
     {
 #ifdef ARGS_NOEXCEPT
       (void)name;
-- 
2.43.0


From c345954ecffcae44cfd333c8316b64f4545fbee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:30 +0000
Subject: [PATCH 55/84] fix: partial examples after a line which can't be read
 are not dropped silently

---
 src/core/input/partial_example_io.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index 32ac733..099d52f 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -131,6 +131,11 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
 
     result->nodes_.push_back(std::move(nc));
   }
+  if (csv_.bytePosition() != csv_.byteSize()) {
+    return JPPS_INVALID_PARAMETER << "in file: " << filename_
+                                  << ", could not parse the line #"
+                                  << csv_.lineNumber();
+  }
   *eof = true;
   return Status::Ok();
 }
-- 
2.43.0


From df08e56cfbcb5cd837ec87bddf280e18132f30a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:30 +0000
Subject: [PATCH 56/84] fix: empty values of training fields which share a
 string storage

---
 src/core/input/partial_example_io.cc | 12 ++++--------
 src/core/input/training_io.cc        |  6 +-----
 src/core/input/training_io.h         | 19 +++++++++++++++++++
 src/core/training/full_example.cc    |  7 +++----
 4 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index 099d52f..8d16b4a 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -118,15 +118,11 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
                << "] was not present in the dictionary spec";
       }
 
-      auto idmap = mapIter->second->str2int;
-      auto idValue = idmap->find(fldValue);
-      if (idValue == idmap->end()) {
-        auto id = analysis::hashUnkString(fldValue);
-        nc.tags.push_back(TagConstraint{mapIter->second->dicFieldIdx, id});
-      } else {
-        nc.tags.push_back(
-            TagConstraint{mapIter->second->dicFieldIdx, idValue->second});
+      i32 id;
+      if (!mapIter->second->findValue(fldValue, &id)) {
+        id = analysis::hashUnkString(fldValue);
       }
+      nc.tags.push_back(TagConstraint{mapIter->second->dicFieldIdx, id});
     }
 
     result->nodes_.push_back(std::move(nc));
diff --git a/src/core/input/training_io.cc b/src/core/input/training_io.cc
index 7761cb3..628f335 100644
--- a/src/core/input/training_io.cc
+++ b/src/core/input/training_io.cc
@@ -19,10 +19,6 @@ Status readStr2IdMap(const dic::DictionaryField &fld,
            << fld.name << " was not";
   }
 
-  if (fld.emptyValue.size() != 0) {
-    s2i[fld.emptyValue] = 0;
-  }
-
   core::dic::impl::StringStorageTraversal everything{fld.strings};
   StringPiece data;
 
@@ -48,7 +44,7 @@ Status TrainFieldsIndex::initialize(const CoreHolder &core) {
       JPP_RETURN_IF_ERROR(readStr2IdMap(*dicFld, &str2int));
     }
 
-    fields_.push_back({dicFld->name, &str2int, tf.dicIdx, i});
+    fields_.push_back({dicFld->name, &str2int, tf.dicIdx, i, dicFld->emptyValue});
   }
   surfaceFieldIdx_ = spec.fields[spec.surfaceIdx].number;
   return Status::Ok();
diff --git a/src/core/input/training_io.h b/src/core/input/training_io.h
index 7f41230..51f4eb5 100644
--- a/src/core/input/training_io.h
+++ b/src/core/input/training_io.h
@@ -26,6 +26,25 @@ struct TrainingExampleField {
   util::FlatMap<StringPiece, i32>* str2int;
   i32 dicFieldIdx;
   i32 exampleFieldIdx;
+  StringPiece emptyValue;
+
+  /**
+   * Find the id of a field value in the dictionary
+   * @return false if the dictionary does not have such value
+   */
+  bool findValue(StringPiece value, i32* id) const {
+    // string storages are shared between fields, empty values are not
+    if (value.empty() || value == emptyValue) {
+      *id = 0;
+      return true;
+    }
+    auto it = str2int->find(value);
+    if (it == str2int->end()) {
+      return false;
+    }
+    *id = it->second;
+    return true;
+  }
 };
 
 /**
diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 1827166..208b843 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -128,10 +128,9 @@ Status FullExampleReader::readSingleExampleFragment(
   result->surface_.append(surfFld.char_begin(), surfFld.char_end());
   for (int i = 0; i < fields.size(); ++i) {
     auto &fldInfo = fields[i];
-    auto &map = *fldInfo.str2int;
     auto fld = csv.field(fldInfo.exampleFieldIdx);
-    auto it = map.find(fld);
-    if (it == map.end()) {
+    i32 value;
+    if (!fldInfo.findValue(fld, &value)) {
       if (csv_.rowHadQuoted()) {
         if (!charBuffer_.import(&fld)) {
           return JPPS_INVALID_PARAMETER << "failed to import string at file "
@@ -143,7 +142,7 @@ Status FullExampleReader::readSingleExampleFragment(
       result->strings_.emplace_back(fld);
       result->data_.push_back(~item);
     } else {
-      result->data_.push_back(it->second);
+      result->data_.push_back(value);
     }
   }
   return Status::Ok();
-- 
2.43.0


From a43a1bd454354801cd525d1f871825e2dbd9b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:31 +0000
Subject: [PATCH 57/84] fix: tags of partial examples match unknown words with
 a surface that is in the dictionary

---
 src/core/input/partial_example.cc    | 3 ++-
 src/core/input/partial_example.h     | 2 ++
 src/core/input/partial_example_io.cc | 6 ++++--
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/input/partial_example.cc b/src/core/input/partial_example.cc
index a8fc922..9c5d003 100644
--- a/src/core/input/partial_example.cc
+++ b/src/core/input/partial_example.cc
@@ -64,7 +64,8 @@ PartialViolation PartialExample::checkViolation(
 
   auto data = lr->entryData().row(position);
   for (auto& tag : nodeCstrs.tags) {
-    if (data.at(tag.field) != tag.value) {
+    auto value = data.at(tag.field);
+    if (value != tag.value && value != tag.unkValue) {
       return {ViolationKind::Tag, tag.field};
     }
   }
diff --git a/src/core/input/partial_example.h b/src/core/input/partial_example.h
index b13af13..3a2bef3 100644
--- a/src/core/input/partial_example.h
+++ b/src/core/input/partial_example.h
@@ -20,6 +20,8 @@ namespace input {
 struct TagConstraint {
   i32 field;
   i32 value;
+  // the same value as a surface of an unknown word
+  i32 unkValue;
 };
 
 struct NodeConstraint {
diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index 8d16b4a..d48e9af 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -118,11 +118,13 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
                << "] was not present in the dictionary spec";
       }
 
+      i32 unkId = analysis::hashUnkString(fldValue);
       i32 id;
       if (!mapIter->second->findValue(fldValue, &id)) {
-        id = analysis::hashUnkString(fldValue);
+        id = unkId;
       }
-      nc.tags.push_back(TagConstraint{mapIter->second->dicFieldIdx, id});
+      nc.tags.push_back(
+          TagConstraint{mapIter->second->dicFieldIdx, id, unkId});
     }
 
     result->nodes_.push_back(std::move(nc));
-- 
2.43.0


From e1add8b482a17d1cc91d316ea330f2a805a73530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:10 +0000
Subject: [PATCH 58/84] fix: words, comments and errors of full training
 examples are read as written

---
 src/core/training/full_example.cc | 44 +++++++++++++++++++++++--------
 src/core/training/full_example.h  |  1 +
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 208b843..1d66dd0 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -9,8 +9,7 @@ namespace core {
 namespace training {
 
 Status FullExampleReader::readFullExample(FullyAnnotatedExample *result) {
-  result->data_.clear();
-  result->lengths_.clear();
+  result->reset();
 
   switch (mode_) {
     case DataReaderMode::SimpleCsv:
@@ -65,20 +64,35 @@ Status FullExampleReader::readFullExampleCsv(FullyAnnotatedExample *result) {
 
     auto line = csv_.line();
     if (startsWith(line, "# ")) {
-      line.slice(0, line.size() - 1).assignTo(result->comment_);
+      auto start = line.char_begin() + 2;
+      auto end = line.char_end();
+      while (end != start && (end[-1] == '\n' || end[-1] == '\r')) {
+        --end;
+      }
+      StringPiece{start, end}.assignTo(result->comment_);
       continue;
     }
 
     JPP_RETURN_IF_ERROR(readSingleExampleFragment(csv_, result));
   }
-  finished_ = true;
+  JPP_RETURN_IF_ERROR(checkFullyRead());
+  // the last example could be not terminated
+  finished_ = result->numNodes() == 0;
+  return Status::Ok();
+}
+
+Status FullExampleReader::checkFullyRead() const {
+  if (csv_.bytePosition() != csv_.byteSize()) {
+    return JPPS_INVALID_PARAMETER << "failed to parse the line #"
+                                  << csv_.lineNumber() << " of " << filename_;
+  }
   return Status::Ok();
 }
 
 Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
   finished_ = !csv_.nextLine();
   if (finished_) {
-    return Status::Ok();
+    return checkFullyRead();
   }
 
   auto numwords = csv_.numFields();
@@ -105,6 +119,11 @@ Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
                                     << " from the line #" << csv_.lineNumber();
     }
     JPP_RIE_MSG(readSingleExampleFragment(csv2_, result), "data=" << content);
+    if (csv2_.bytePosition() != csv2_.byteSize()) {
+      return JPPS_INVALID_PARAMETER << "word #" << i << " from the line #"
+                                    << csv_.lineNumber()
+                                    << " has several lines";
+    }
   }
 
   return Status::Ok();
@@ -113,11 +132,6 @@ Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
 Status FullExampleReader::readSingleExampleFragment(
     const util::CsvReader &csv, FullyAnnotatedExample *result) {
   codepts_.clear();
-  auto surfFld = csv.field(tio_->surfaceFieldIdx());
-
-  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
-  result->lengths_.push_back(codepts_.size());
-
   auto fields = tio_->fields();
 
   if (csv.numFields() < fields.size()) {
@@ -125,13 +139,21 @@ Status FullExampleReader::readSingleExampleFragment(
            << "a word from the line #" << csv_.lineNumber() << " had "
            << csv.numFields() << " fields, expected " << fields.size();
   }
+
+  auto surfFld = csv.field(tio_->surfaceFieldIdx());
+  if (surfFld.empty()) {
+    return JPPS_INVALID_PARAMETER << "a word from the line #"
+                                  << csv_.lineNumber() << " was empty";
+  }
+  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
+  result->lengths_.push_back(codepts_.size());
   result->surface_.append(surfFld.char_begin(), surfFld.char_end());
   for (int i = 0; i < fields.size(); ++i) {
     auto &fldInfo = fields[i];
     auto fld = csv.field(fldInfo.exampleFieldIdx);
     i32 value;
     if (!fldInfo.findValue(fld, &value)) {
-      if (csv_.rowHadQuoted()) {
+      if (csv_.rowHadQuoted() || csv.rowHadQuoted()) {
         if (!charBuffer_.import(&fld)) {
           return JPPS_INVALID_PARAMETER << "failed to import string at file "
                                         << filename_ << ":" << csv_.lineNumber()
diff --git a/src/core/training/full_example.h b/src/core/training/full_example.h
index e129e45..f1404b5 100644
--- a/src/core/training/full_example.h
+++ b/src/core/training/full_example.h
@@ -106,6 +106,7 @@ class FullExampleReader {
 
   Status readSingleExampleFragment(const util::CsvReader& csv,
                                    FullyAnnotatedExample* result);
+  Status checkFullyRead() const;
 
  public:
   void setTrainingIo(const TrainFieldsIndex* io) { tio_ = io; }
-- 
2.43.0


From f12719523e9e2add33f6259eac69e62e92265608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:10 +0000
Subject: [PATCH 59/84] fix: gold nodes have annotated values and spans

---
 src/core/training/full_example.cc | 23 ++++-----
 src/core/training/full_example.h  | 23 ++++-----
 src/core/training/gold_example.cc | 85 ++++++++++++++++---------------
 3 files changed, 66 insertions(+), 65 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 1d66dd0..ac5da64 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -148,24 +148,23 @@ Status FullExampleReader::readSingleExampleFragment(
   JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
   result->lengths_.push_back(codepts_.size());
   result->surface_.append(surfFld.char_begin(), surfFld.char_end());
+  result->surfaceEnds_.push_back(result->surface_.size());
   for (int i = 0; i < fields.size(); ++i) {
     auto &fldInfo = fields[i];
     auto fld = csv.field(fldInfo.exampleFieldIdx);
+    if (csv_.rowHadQuoted() || csv.rowHadQuoted()) {
+      if (!charBuffer_.import(&fld)) {
+        return JPPS_INVALID_PARAMETER << "failed to import string at file "
+                                      << filename_ << ":" << csv_.lineNumber()
+                                      << " data=" << fld;
+      }
+    }
     i32 value;
     if (!fldInfo.findValue(fld, &value)) {
-      if (csv_.rowHadQuoted() || csv.rowHadQuoted()) {
-        if (!charBuffer_.import(&fld)) {
-          return JPPS_INVALID_PARAMETER << "failed to import string at file "
-                                        << filename_ << ":" << csv_.lineNumber()
-                                        << " data=" << fld;
-        }
-      }
-      i32 item = static_cast<i32>(result->strings_.size());
-      result->strings_.emplace_back(fld);
-      result->data_.push_back(~item);
-    } else {
-      result->data_.push_back(value);
+      value = ~static_cast<i32>(result->strings_.size());
     }
+    result->strings_.emplace_back(fld);
+    result->data_.push_back(value);
   }
   return Status::Ok();
 }
diff --git a/src/core/training/full_example.h b/src/core/training/full_example.h
index f1404b5..a36418b 100644
--- a/src/core/training/full_example.h
+++ b/src/core/training/full_example.h
@@ -22,7 +22,10 @@ using core::input::TrainFieldsIndex;
 
 struct ExampleNode {
   StringPiece surface;
+  // ids of field values, negative for values which are not in the dictionary
   util::ArraySlice<i32> data;
+  // field values as they were in the example
+  util::ArraySlice<StringPiece> values;
   i32 position;
   i32 length;
 };
@@ -32,6 +35,7 @@ class FullyAnnotatedExample {
   std::vector<StringPiece> strings_;
   std::vector<i32> data_;
   std::vector<i32> lengths_;
+  std::vector<size_t> surfaceEnds_;
 
   StringPiece filename_;
   std::string comment_;
@@ -52,21 +56,15 @@ class FullyAnnotatedExample {
     for (int i = 0; i < idx; ++i) {
       codeptPos += lengths_[i];
     }
-    i32 negIdx = 0;
     auto exampleData = const_cast<FullyAnnotatedExample*>(this)->data();
     auto examRow = exampleData.row(idx);
-    for (i32 exEntry : examRow) {
-      if (exEntry < 0) {
-        negIdx = exEntry;
-      }
-    }
-
-    StringPiece sp{};
-    if (negIdx < 0) {
-      sp = strings_[~negIdx];
-    }
+    util::ArraySlice<StringPiece> values{strings_, idx * examRow.size(),
+                                         examRow.size()};
+    auto begin = surface_.data() + (idx == 0 ? 0 : surfaceEnds_[idx - 1]);
+    auto end = surface_.data() + surfaceEnds_[idx];
 
-    return ExampleNode{sp, examRow, codeptPos, lengths_[idx]};
+    return ExampleNode{StringPiece{begin, end}, examRow, values, codeptPos,
+                       lengths_[idx]};
   }
 
   i32 numNodes() const { return static_cast<i32>(lengths_.size()); }
@@ -79,6 +77,7 @@ class FullyAnnotatedExample {
     strings_.clear();
     data_.clear();
     lengths_.clear();
+    surfaceEnds_.clear();
   }
 
   void setInfo(StringPiece filename, i64 lineNo) {
diff --git a/src/core/training/gold_example.cc b/src/core/training/gold_example.cc
index 4ea4791..f7d92ca 100644
--- a/src/core/training/gold_example.cc
+++ b/src/core/training/gold_example.cc
@@ -18,7 +18,6 @@ namespace training {
 
 bool TrainingExampleAdapter::matchUnkNodeData(const analysis::ExtraNode *pNode,
                                               const ExampleNode &node) {
-  i32 surfaceHash = analysis::hashUnkString(node.surface);
   auto &ndata = node.data;
   util::ArraySlice<i32> latNodeData{pNode->content, (u32)entries.numFeatures()};
   for (int i = 0; i < ndata.size(); ++i) {
@@ -26,10 +25,10 @@ bool TrainingExampleAdapter::matchUnkNodeData(const analysis::ExtraNode *pNode,
     if (trainFld.weight == 0) {
       continue;
     }
-    auto latticeIdx = trainFld.fieldIdx;
-    auto latVal = latNodeData.at(latticeIdx);
+    auto latVal = latNodeData.at(trainFld.dicIdx);
     if (latVal < 0) {
-      if (latVal != surfaceHash) {
+      // a surface of unk, it can be present in the dictionary
+      if (latVal != analysis::hashUnkString(node.values[i])) {
         return false;
       }
     } else {
@@ -63,45 +62,46 @@ int TrainingExampleAdapter::nodeSeedExists(const ExampleNode &node) {
   auto nfo = latticeBuilder->infoAt(node.position);
   util::ArraySlice<analysis::LatticeNodeSeed> subset{seeds, nfo.firstNodeOffset,
                                                      (u32)nfo.startCount};
-  auto surfaceIdx = spec->fields[spec->surfaceIdx].number;
-  EntryPtr surface{node.data.at(surfaceIdx)};
-
-  if (surface.isSpecial()) {
-    auto content = node.surface;
-
-    // pass 1: try to find a regular unk
-    for (int i = 0; i < subset.size(); ++i) {
-      auto &seed = subset[i];
-      if (seed.entryPtr.isSpecial()) {
-        auto latNode = xtra->node(seed.entryPtr);
-        if (latNode->header.unk.surface == content) {
-          if (matchUnkNodeData(latNode, node)) {
-            return i;
-          }
-        }
+  auto content = node.surface;
+  auto endPos = node.position + node.length;
+
+  for (int i = 0; i < subset.size(); ++i) {
+    auto &seed = subset[i];
+    if (seed.entryPtr.isDic() && seed.codepointEnd == endPos) {
+      loadDicSeedData(seed);
+      // LOG_TRACE() << "comparing gold=" << VOut(node.data) << " entry=" <<
+      // VOut(entryBuffer) << " at " << node.position;
+      if (matchDicNodeData(node)) {
+        return i;
       }
     }
+  }
 
-    // pass 2: try to find an acceptable unk (the first one)
-    for (int i = 0; i < subset.size(); ++i) {
-      auto &seed = subset[i];
-      if (seed.entryPtr.isSpecial()) {
-        auto latNode = xtra->node(seed.entryPtr);
-        if (latNode->header.unk.surface == content) {
-          if (unkAllowed.isAllowed(latNode, node)) {
-            return i;
-          }
+  // pass 1: try to find a regular unk
+  for (int i = 0; i < subset.size(); ++i) {
+    auto &seed = subset[i];
+    if (seed.entryPtr.isSpecial()) {
+      auto latNode = xtra->node(seed.entryPtr);
+      if (latNode->header.unk.surface == content) {
+        if (matchUnkNodeData(latNode, node)) {
+          return i;
         }
       }
     }
-  } else {
-    for (int i = 0; i < subset.size(); ++i) {
-      auto &seed = subset[i];
-      if (seed.entryPtr.isDic()) {
-        loadDicSeedData(seed);
-        // LOG_TRACE() << "comparing gold=" << VOut(node.data) << " entry=" <<
-        // VOut(entryBuffer) << " at " << node.position;
-        if (matchDicNodeData(node)) {
+  }
+
+  auto surfaceIdx = spec->fields[spec->surfaceIdx].number;
+  if (node.data.at(surfaceIdx) >= 0) {
+    return -1;
+  }
+
+  // pass 2: try to find an acceptable unk (the first one)
+  for (int i = 0; i < subset.size(); ++i) {
+    auto &seed = subset[i];
+    if (seed.entryPtr.isSpecial()) {
+      auto latNode = xtra->node(seed.entryPtr);
+      if (latNode->header.unk.surface == content) {
+        if (unkAllowed.isAllowed(latNode, node)) {
           return i;
         }
       }
@@ -113,17 +113,16 @@ int TrainingExampleAdapter::nodeSeedExists(const ExampleNode &node) {
 EntryPtr TrainingExampleAdapter::makeUnkTrainingNode(const ExampleNode &node) {
   auto unk = xtra->makeZeroedUnk();
   auto nodeData = xtra->nodeContent(unk);
-  auto contHash = analysis::hashUnkString(node.surface);
   for (int i = 0; i < node.data.size(); ++i) {
     auto nodeVal = node.data[i];
     auto idx = spec->fields[i].dicIdx;
     if (nodeVal >= 0) {
       nodeData.at(idx) = nodeVal;
     } else {
-      nodeData.at(idx) = contHash;
+      nodeData.at(idx) = analysis::hashUnkString(node.values[i]);
     }
   }
-  unk->header.unk.contentHash = contHash;
+  unk->header.unk.contentHash = analysis::hashUnkString(node.surface);
   unk->header.unk.surface = node.surface;
   unk->header.unk.templatePtr = EntryPtr{0};
   return unk->ptr();
@@ -139,6 +138,10 @@ TrainingExampleAdapter::TrainingExampleAdapter(analysis::AnalyzerImpl *impl)
 
 bool UnkAllowedField::isAllowed(const analysis::ExtraNode *xtra,
                                 const ExampleNode &ex) const {
+  if (fields_.empty()) {
+    // unks are not gold by default
+    return false;
+  }
   for (auto &f : fields_) {
     auto v = ex.data.at(f.goldIdx_);
     auto unkPat = xtra->header.unk.templatePtr.rawValue();
@@ -192,7 +195,7 @@ UnkAllowedField::UnkAllowedField(const CoreHolder &core) {
           LOG_WARN() << "failed to read key value";
           continue;
         }
-        if (sp != f.sourceKey) {
+        if (sp != f.sourceKey || !kv.hasValue()) {
           continue;
         }
 
-- 
2.43.0


From 19f8adf20b9d857afcb643ede5a27d4c42627d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:49 +0000
Subject: [PATCH 60/84] fix: the last features of a difference have the right
 sign

---
 src/core/training/loss.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index 31abd45..f13e3a8 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -236,11 +236,11 @@ void LossCalculator::computeFeatureDiff(u32 mask) {
   }
 
   for (; topPos < topCnt; ++topPos) {
-    mergeOne(top1Features[topPos], 1.0f);
+    mergeOne(top1Features[topPos], -1.0f);
   }
 
   for (; goldPos < goldCnt; ++goldPos) {
-    mergeOne(goldFeatures[goldPos], -1.0f);
+    mergeOne(goldFeatures[goldPos], 1.0f);
   }
 
   float numGold = 0;
-- 
2.43.0


From b70c8021bb7d393270acda861b55a69958866b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:49 +0000
Subject: [PATCH 61/84] fix: loss compares the fields it is defined for

---
 src/core/training/loss.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index f13e3a8..ebcba41 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -39,7 +39,11 @@ bool LossCalculator::findWorstTopNode(i32 goldPos, ComparisonStep* step) {
     float mismatchWeight = 0;
 
     for (auto& sf : specFlds) {
-      if (topData[sf.fieldIdx] != goldData[sf.fieldIdx]) {
+      if (sf.weight == 0) {
+        // such fields are not used for the loss
+        continue;
+      }
+      if (topData[sf.dicIdx] != goldData[sf.dicIdx]) {
         numMismatches += 1;
         mismatchWeight += sf.weight;
       }
-- 
2.43.0


From 8acea6f2a8f1bc6d337ae607e54702a4cb037445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:11 +0000
Subject: [PATCH 62/84] fix: training skips examples without words

---
 src/core/training/loss.cc            | 7 +++++++
 src/core/training/loss.h             | 3 +++
 src/core/training/partial_trainer.cc | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index ebcba41..f00b529 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -77,6 +77,10 @@ Status LossCalculator::computeComparison() {
   int curGold = 0;
   auto goldPtrs = gold.nodes();
   auto totalGold = goldPtrs.size();
+  if (totalGold == 0) {
+    // there is nothing to compare in an empty example
+    return Status::Ok();
+  }
   auto lattice = analyzer->lattice();
   u16 eosPos = static_cast<u16>(lattice->createdBoundaryCount() - 1);
   while (hasNextTop || curGold < totalGold) {
@@ -359,6 +363,9 @@ float LossCalculator::computeLoss(i32 till) {
   top1Features.clear();
   float loss = 0;
   auto size = fullSize();
+  if (size == 0) {
+    return 0;
+  }
   for (int i = 0; i < size; ++i) {
     auto& cmp = comparison[i];
     if (cmp.cmpClass == ComparitionClass::GoldOnly) {
diff --git a/src/core/training/loss.h b/src/core/training/loss.h
index 6c814a5..a6ed86d 100644
--- a/src/core/training/loss.h
+++ b/src/core/training/loss.h
@@ -135,6 +135,9 @@ class LossCalculator {
   i32 maxViolation() const {
     i32 val = 0;
     auto sz = fullSize();
+    if (sz == 0) {
+      return 0;
+    }
     float viol = 0;
     for (int i = 0; i < sz; ++i) {
       auto& cmp = comparison[i];
diff --git a/src/core/training/partial_trainer.cc b/src/core/training/partial_trainer.cc
index 1e547b5..0bca31e 100644
--- a/src/core/training/partial_trainer.cc
+++ b/src/core/training/partial_trainer.cc
@@ -138,6 +138,10 @@ void PartialTrainer::markGold(
 void PartialTrainer::handleEos() {
   auto l = analyzer_->lattice();
   auto eosBnd = l->createdBoundaryCount() - 1;
+  if (eosBnd == 2) {
+    // empty example
+    return;
+  }
   auto eos = l->boundary(eosBnd);
   auto eosBeam = eos->starts()->beamData();
   auto top1 = eosBeam.at(0);
-- 
2.43.0


From 3cf7f2e1e25853f270c1ea1aef75a5ddd404547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:24 +0000
Subject: [PATCH 63/84] fix: partial training considers words at the end of a
 sentence

---
 src/core/training/partial_trainer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/training/partial_trainer.cc b/src/core/training/partial_trainer.cc
index 0bca31e..857af6b 100644
--- a/src/core/training/partial_trainer.cc
+++ b/src/core/training/partial_trainer.cc
@@ -217,7 +217,7 @@ analysis::EntryBeam PartialTrainer::findCandidatesSpanning(i32 boundary) {
 
   u32 valid = 0;
 
-  for (auto bnd = boundary + 1; bnd < eosBnd; ++bnd) {
+  for (auto bnd = boundary + 1; bnd <= eosBnd; ++bnd) {
     analysis::EntryBeam::initializeBlock(buffer);
     auto res = candidatesEndingOn(bnd, boundary, {buffer});
     for (auto& ptr : res.finalize()) {
@@ -230,7 +230,7 @@ analysis::EntryBeam PartialTrainer::findCandidatesSpanning(i32 boundary) {
   }
 
   if (valid == 0) {
-    for (auto bnd = boundary + 1; bnd < eosBnd; ++bnd) {
+    for (auto bnd = boundary + 1; bnd <= eosBnd; ++bnd) {
       analysis::EntryBeam::initializeBlock(buffer);
       auto res = makeUpCandidatesEndingOn(bnd, boundary, {buffer});
       for (auto& ptr : res.finalize()) {
-- 
2.43.0


From 9724211f1baf3a393f5e632e436bbf62448075b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:28 +0000
Subject: [PATCH 64/84] fix: partial training uses the last example of a file

---
 src/core/training/trainer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/training/trainer.cc b/src/core/training/trainer.cc
index 60d1f29..7aa801d 100644
--- a/src/core/training/trainer.cc
+++ b/src/core/training/trainer.cc
@@ -143,8 +143,10 @@ Status TrainerBatch::readPartialExamples(input::PartialExampleReader *reader) {
     JPP_RETURN_IF_ERROR(trainer->initialize(config_, *scorerDef_));
     auto &partialTrainer = trainer->trainer_.value();
     JPP_RETURN_IF_ERROR(reader->readExample(&partialTrainer.example(), &eof));
+    // the last example may end together with the file
+    bool hasExample = !eof || !partialTrainer.example().surface().empty();
     trainer->reset();
-    if (eof) {
+    if (!hasExample) {
       break;
     }
     JPP_DCHECK(scorerDef_);
-- 
2.43.0


From 6b58dd295e993555ff3db833882a9d8fa4169afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:51 +0000
Subject: [PATCH 65/84] fix: trained weights replace the weights of the input
 model

---
 src/core/training/scw.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/training/scw.cc b/src/core/training/scw.cc
index 4b94d09..99b0d3f 100644
--- a/src/core/training/scw.cc
+++ b/src/core/training/scw.cc
@@ -3,6 +3,7 @@
 //
 
 #include "scw.h"
+#include <algorithm>
 #include <cmath>
 #include <random>
 #include "core/impl/model_io.h"
@@ -128,6 +129,15 @@ struct ScwData {
 
 void SoftConfidenceWeighted::exportModel(model::ModelInfo* model,
                                          StringPiece comment) {
+  // the weights replace the ones of a model which was already trained
+  auto& parts = model->parts;
+  parts.erase(std::remove_if(parts.begin(), parts.end(),
+                             [](const model::ModelPart& p) {
+                               return p.kind ==
+                                      model::ModelPartKind::Perceprton;
+                             }),
+              parts.end());
+
   data_.reset(new ScwData);
   util::serialization::Saver svr{&data_->cbuf};
   PerceptronInfo pi;
-- 
2.43.0


From 1eadaa4459278e26ec35172102f9e154b80bb255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:51 +0000
Subject: [PATCH 66/84] fix: a file can be mapped after another one could not
 be

---
 src/util/mmap.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/mmap.cc b/src/util/mmap.cc
index 40b6e32..37ac075 100644
--- a/src/util/mmap.cc
+++ b/src/util/mmap.cc
@@ -26,6 +26,7 @@ Status FullyMappedFile::open(StringPiece filename, MMapType type) {
     }
     this->close();
   }
+  file_.close();  // it stays open when it could not be mapped
   JPP_RETURN_IF_ERROR(file_.open(filename, type));
   JPP_RETURN_IF_ERROR(file_.map(&fragment_, 0, file_.size()));
   return Status::Ok();
-- 
2.43.0


From e4185d2787dde8b14a1e6d9048140888562a3dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:51 +0000
Subject: [PATCH 67/84] fix: training with unprocessed examples can be stopped

---
 src/core/training/training_executor.cc | 12 +++++++++---
 src/core/training/training_executor.h  |  5 ++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/core/training/training_executor.cc b/src/core/training/training_executor.cc
index f627f31..3b4c035 100644
--- a/src/core/training/training_executor.cc
+++ b/src/core/training/training_executor.cc
@@ -11,16 +11,18 @@ namespace training {
 
 TrainingExecutorThread::TrainingExecutorThread(
     const analysis::ScorerDef* conf, util::bounded_queue<ITrainer*>* trainers,
-    util::bounded_queue<TrainingExecutionResult>* results)
+    util::bounded_queue<TrainingExecutionResult>* results,
+    const std::atomic<bool>* stopping)
     : scoreConf_{conf},
       trainers_{trainers},
       results_{results},
+      stopping_{stopping},
       thread_{TrainingExecutorThread::runMain, this} {}
 
 void TrainingExecutorThread::run() {
   while (true) {
     auto trainer = trainers_->waitFor();
-    if (trainer == nullptr) {
+    if (trainer == nullptr || *stopping_) {
       return;
     }
 
@@ -48,6 +50,9 @@ void TrainingExecutorThread::run() {
     }
     TrainingExecutionResult result{trainer, std::move(status)};
     while (!results_->offer(std::move(result))) {
+      if (*stopping_) {
+        return;  // nobody takes results any more
+      }
       std::this_thread::yield();
     }
   }
@@ -61,7 +66,7 @@ Status TrainingExecutor::initialize(const analysis::ScorerDef* sconf,
   try {
     for (u32 i = 0; i < nthreads; ++i) {
       threads_.emplace_back(
-          new TrainingExecutorThread{sconf, &trainers_, &results_});
+          new TrainingExecutorThread{sconf, &trainers_, &results_, &stopping_});
     }
     trainers_.initialize(nthreads * 2);
     results_.initialize(nthreads * 2);
@@ -77,6 +82,7 @@ TrainingExecutionResult TrainingExecutor::waitOne() {
 }
 
 TrainingExecutor::~TrainingExecutor() {
+  stopping_ = true;
   while (trainers_.offer(nullptr))
     ;  // do nothing
   trainers_.unblock_all();
diff --git a/src/core/training/training_executor.h b/src/core/training/training_executor.h
index 9a6913d..30a8276 100644
--- a/src/core/training/training_executor.h
+++ b/src/core/training/training_executor.h
@@ -31,6 +31,7 @@ class TrainingExecutorThread {
   const analysis::ScorerDef* scoreConf_;
   util::bounded_queue<ITrainer*>* trainers_;
   util::bounded_queue<TrainingExecutionResult>* results_;
+  const std::atomic<bool>* stopping_;
   std::thread thread_;
 
   void run();
@@ -41,11 +42,13 @@ class TrainingExecutorThread {
  public:
   explicit TrainingExecutorThread(
       const analysis::ScorerDef* conf, util::bounded_queue<ITrainer*>* trainers,
-      util::bounded_queue<TrainingExecutionResult>* results);
+      util::bounded_queue<TrainingExecutionResult>* results,
+      const std::atomic<bool>* stopping);
   void finish();
 };
 
 class TrainingExecutor {
+  std::atomic<bool> stopping_{false};
   std::vector<std::unique_ptr<TrainingExecutorThread>> threads_;
   util::bounded_queue<ITrainer*> trainers_;
   util::bounded_queue<TrainingExecutionResult> results_;
-- 
2.43.0


From e45de8bea208b401e3587607f6ea6310daadc6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:51 +0000
Subject: [PATCH 68/84] fix: jumanpp_train reports failures with its exit
 status

---
 src/jumandic/main/jumanpp_train.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jumandic/main/jumanpp_train.cc b/src/jumandic/main/jumanpp_train.cc
index e862032..1c8ab94 100644
--- a/src/jumandic/main/jumanpp_train.cc
+++ b/src/jumandic/main/jumanpp_train.cc
@@ -216,6 +216,7 @@ int saveModel(const core::training::TrainingArguments& args,
   s = saver.save(model);
   if (!s) {
     LOG_ERROR() << "failed to save model: " << s;
+    return 1;
   }
   LOG_INFO() << "Model saved successfully";
 
@@ -245,6 +246,7 @@ int doTrainJpp(t::TrainingArguments& args, core::JumanppEnv& env) {
     s = exec.loadPartialExamples(args.partialCorpus);
     if (!s) {
       LOG_ERROR() << "failed to load partially annotated corpus: " << s;
+      return 1;
     }
   }
 
-- 
2.43.0


From e9041dac8077d9ebc2c2cc081f038ba600ba0f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:51 +0000
Subject: [PATCH 69/84] fix: too long name of a SCW dump file

---
 src/core/training/scw.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/training/scw.cc b/src/core/training/scw.cc
index 99b0d3f..1df8328 100644
--- a/src/core/training/scw.cc
+++ b/src/core/training/scw.cc
@@ -183,6 +183,10 @@ void SoftConfidenceWeighted::dumpModel(StringPiece directory,
       std::snprintf(filename, 510, "%s/%s.%06d.mdldump",
                     directory.str().c_str(), prefix.str().c_str(), number);
   if (retval <= 0) return;
+  if (retval >= 510) {
+    LOG_WARN() << "failed to dump SCW, the file name is too long: " << filename;
+    return;
+  }
 
   model::ModelInfo mnfo{};
   ScwDumpInfo dumpInfo{featureExponent_, static_cast<float>(C),
-- 
2.43.0


From b6612cdcb804ef4b2a04a8695595f802dae8f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:08 +0000
Subject: [PATCH 70/84] fix: training threads stop before the data they use
 goes away

---
 src/core/training/training_env.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/training/training_env.h b/src/core/training/training_env.h
index 85240cf..1719357 100644
--- a/src/core/training/training_env.h
+++ b/src/core/training/training_env.h
@@ -62,7 +62,6 @@ class TrainingEnv {
   input::PartialExampleReader partReader_;
   TrainerBatch trainers_;
   SoftConfidenceWeighted scw_;
-  TrainingExecutor executor_;
 
   StringPiece currentFilename_;
   util::FullyMappedFile currentFile_;
@@ -73,6 +72,9 @@ class TrainingEnv {
 
   GlobalBeamTrainConfig globalBeamCfg_;
 
+  // should be the last member: its threads use all the others until they stop
+  TrainingExecutor executor_;
+
  public:
   TrainingEnv(const TrainingArguments& args, JumanppEnv* env)
       : args_{args}, env_{env}, scw_{args.trainingConfig} {
-- 
2.43.0


From f0002eee4422400d06dc4f83b66edcb6d53b5c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:55 +0000
Subject: [PATCH 71/84] fix: paths of the language model are joined with the
 right node

---
 src/core/analysis/rnn_id_resolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/rnn_id_resolver.cc b/src/core/analysis/rnn_id_resolver.cc
index 1648b23..928297e 100644
--- a/src/core/analysis/rnn_id_resolver.cc
+++ b/src/core/analysis/rnn_id_resolver.cc
@@ -225,7 +225,7 @@ std::pair<RnnNode*, RnnNode*> RnnIdContainer::addPrevChain(
         if (cached->hash == hash) {
           // we can collapse a path in the RNN lattice
           // but we still need to publish the score
-          nodePtr = it->second;
+          nodePtr = cached;
           addScore(nodePtr, cptr);
           return std::make_pair(nodePtr, nodePtr);
         }
-- 
2.43.0


From 89eec02cdbe3f97dfe483c286c9e0ac3dbb0da89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:55 +0000
Subject: [PATCH 72/84] fix: language model history has the words before the
 previous one

---
 src/core/analysis/rnn_scorer_gbeam.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 5fa9f32..60d509b 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -180,6 +180,10 @@ struct GbeamRnnState {
       for (; idx < cnt; ++idx) {
         JPP_DCHECK_NE(prev, nullptr);
         row.at(idx) = prev->id;
+        // everything before the sentence is BOS
+        if (prev->prev != nullptr) {
+          prev = prev->prev;
+        }
       }
       scoreIdx += 1;
     }
-- 
2.43.0


From d12fbf9882fe96efa35f06e5ec5963286b3fc581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:55 +0000
Subject: [PATCH 73/84] fix: words with empty fields can be used by the
 language model

---
 src/core/analysis/rnn_id_resolver.cc | 4 ++++
 src/core/analysis/rnn_id_resolver.h  | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/rnn_id_resolver.cc b/src/core/analysis/rnn_id_resolver.cc
index 928297e..f1648a6 100644
--- a/src/core/analysis/rnn_id_resolver.cc
+++ b/src/core/analysis/rnn_id_resolver.cc
@@ -54,6 +54,10 @@ struct RnnIdResolverBuilder {
       while (sst.next(&key)) {
         fldPos[key] = sst.position();
       }
+      if (!fld->emptyValue.empty()) {
+        // the dictionary contains an empty string instead of this value
+        fldPos[fld->emptyValue] = 0;
+      }
     }
     return Status::Ok();
   }
diff --git a/src/core/analysis/rnn_id_resolver.h b/src/core/analysis/rnn_id_resolver.h
index 5d26829..4617f84 100644
--- a/src/core/analysis/rnn_id_resolver.h
+++ b/src/core/analysis/rnn_id_resolver.h
@@ -24,7 +24,13 @@ class RnnReprBuilder {
 
  public:
   void reset() { buffer_.reset(); }
-  void addInt(i32 value) { buffer_.writeVarint(static_cast<u32>(value)); }
+  void addInt(i32 value) {
+    // Representations are keys of a double array and can't contain zero bytes,
+    // the empty string has the position 0.
+    // The last value is never used as a position.
+    constexpr u32 emptyString = ~u32{0};
+    buffer_.writeVarint(value == 0 ? emptyString : static_cast<u32>(value));
+  }
   void addString(StringPiece value) {
     buffer_.writeStringDataWithoutLengthPrefix(value);
     buffer_.writeVarint(1);
-- 
2.43.0


From edbb3829716f4f4c84c4cfc00fddee5644ae4c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:55 +0000
Subject: [PATCH 74/84] fix: language model refuses fields and words it can not
 use

---
 src/core/analysis/rnn_id_resolver.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/rnn_id_resolver.cc b/src/core/analysis/rnn_id_resolver.cc
index f1648a6..1d83d8e 100644
--- a/src/core/analysis/rnn_id_resolver.cc
+++ b/src/core/analysis/rnn_id_resolver.cc
@@ -46,6 +46,11 @@ struct RnnIdResolverBuilder {
                << "can use only string-typed field in RNN, " << name << " was "
                << fld->columnType;
       }
+      if (fld->idxInEntry < 0) {
+        return JPPS_INVALID_PARAMETER
+               << "can use only fields which are used in features in RNN, "
+               << name << " is not";
+      }
       fieldNums->push_back(static_cast<u32>(fld->idxInEntry));
       dic::impl::StringStorageTraversal sst{fld->strings};
       fld2pos.emplace_back();
@@ -110,10 +115,14 @@ struct RnnIdResolverBuilder {
                   "word=" << rnnWord << " at line=" << i);
       auto repr = this->repr.repr();
       if (known) {
-        knownStrings.import(&repr);
+        if (!knownStrings.import(&repr)) {
+          return JPPS_INVALID_PARAMETER << "too long word at line=" << i;
+        }
         knownBuilder.add(repr, i);
       } else {
-        unkStrings.import(&repr);
+        if (!unkStrings.import(&repr)) {
+          return JPPS_INVALID_PARAMETER << "too long word at line=" << i;
+        }
         unkBuilder.add(repr, i);
       }
     }
-- 
2.43.0


From d647fbf4dc53cf26fdfe802bc69a472468eb0728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:55 +0000
Subject: [PATCH 75/84] fix: stored language model has right sizes and NCE bias

---
 src/core/analysis/rnn_scorer_gbeam.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 60d509b..6e25bfa 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -404,7 +404,7 @@ Status RnnScorerGbeamFactory::makeInfo(model::ModelInfo* info,
 
 Status arr2d(StringPiece data, size_t nrows, size_t ncols,
              util::ConstSliceable<float>* result) {
-  if (nrows * ncols * sizeof(float) < data.size()) {
+  if (nrows * ncols * sizeof(float) > data.size()) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << nrows * ncols * sizeof(float);
@@ -417,7 +417,7 @@ Status arr2d(StringPiece data, size_t nrows, size_t ncols,
 
 Status arr1d(StringPiece data, size_t expected,
              util::ArraySlice<float>* result) {
-  if (expected * sizeof(float) < data.size()) {
+  if (expected * sizeof(float) > data.size()) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << expected * sizeof(float);
@@ -434,6 +434,10 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
     return JPPS_INVALID_PARAMETER << "model file did not contain RNN";
   }
 
+  if (p->data.size() < 7) {
+    return JPPS_INVALID_PARAMETER << "RNN part of the model is not complete";
+  }
+
   RnnModelHeader header{state_->config, {}, {}, {}};
 
   util::serialization::Loader l{p->data[0]};
@@ -453,7 +457,7 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
   util::ArraySlice<float> maxentWeights;
 
   JPP_RIE_MSG(
-      arr1d(p->data[3], rnnhdr.layerSize * rnnhdr.vocabSize, &rnnMatrix),
+      arr1d(p->data[3], size_t{rnnhdr.layerSize} * rnnhdr.layerSize, &rnnMatrix),
       "failed to read matrix");
   JPP_RIE_MSG(arr2d(p->data[4], rnnhdr.vocabSize, rnnhdr.layerSize,
                     &state_->embeddings),
@@ -466,8 +470,8 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
 
   JPP_RETURN_IF_ERROR(state_->rnn.init(rnnhdr, rnnMatrix, maxentWeights));
   state_->computeBosState(0);
-  if (config().rnnWeight.defined()) {
-    state_->rnn.setNceConstant(config().rnnWeight);
+  if (config().nceBias.defined()) {
+    state_->rnn.setNceConstant(config().nceBias);
   }
 
   return Status::Ok();
-- 
2.43.0


From 14c75a142e482a9c5c7a34c9650edb8dd80356a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:55 +0000
Subject: [PATCH 76/84] fix: a model file has one language model

---
 src/core/analysis/rnn_scorer_gbeam.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 6e25bfa..9fc0e50 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -3,6 +3,7 @@
 //
 
 #include "rnn_scorer_gbeam.h"
+#include <algorithm>
 #include "rnn/mikolov_rnn.h"
 #include "rnn_id_resolver.h"
 #include "util/logging.hpp"
@@ -387,6 +388,14 @@ Status RnnScorerGbeamFactory::makeInfo(model::ModelInfo* info,
   util::serialization::Saver s{&state_->codedBuf_};
   s.save(header);
 
+  // a model can have only one RNN
+  auto isRnn = [](const model::ModelPart& p) {
+    return p.kind == model::ModelPartKind::Rnn;
+  };
+  info->parts.erase(
+      std::remove_if(info->parts.begin(), info->parts.end(), isRnn),
+      info->parts.end());
+
   info->parts.emplace_back();
   auto& part = info->parts.back();
   part.comment = comment.str();
-- 
2.43.0


From 402377fce0e986287cc2e0d01ea0e4f4606a1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:55 +0000
Subject: [PATCH 77/84] fix: language model options keep weights of the model

---
 src/core/env.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/env.cc b/src/core/env.cc
index 569826d..d49e2d5 100644
--- a/src/core/env.cc
+++ b/src/core/env.cc
@@ -90,8 +90,10 @@ void JumanppEnv::setRnnConfig(
       scorers_.others.push_back(&rnnHolder_);
     }
     scorers_.scoreWeights.resize(2, 0);
-    scorers_.scoreWeights[0] = rnnConf.perceptronWeight;
-    scorers_.scoreWeights[1] = rnnConf.rnnWeight;
+    // has weights of the model as well
+    auto& conf = rnnHolder_.config();
+    scorers_.scoreWeights[0] = conf.perceptronWeight;
+    scorers_.scoreWeights[1] = conf.rnnWeight;
     scoringConf_.numScorers = 2;
   } else {
     scorers_.scoreWeights.resize(1, 0);
-- 
2.43.0


From bd95e84e0f8ce2e60e7b51c60ec522c1deb2d4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:55 +0000
Subject: [PATCH 78/84] fix: damaged language model files are refused

---
 src/rnn/mikolov_rnn.cc | 34 ++++++++++++++++++++++++++++++++++
 src/rnn/mikolov_rnn.h  |  1 +
 2 files changed, 35 insertions(+)

diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index 4d3c675..9c1b680 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -36,6 +36,13 @@ Status readHeader(StringPiece data, MikolovRnnModelHeader* header,
                   size_t* offset) {
   PackedHeader packed;
 
+  constexpr size_t headerSize = sizeof(u64) * 2 + sizeof(u32) + sizeof(bool) +
+                                sizeof(float) + sizeof(bool) +
+                                LayerNameMaxSize + sizeof(u32) * 2;
+  if (data.size() < headerSize) {
+    return JPPS_INVALID_PARAMETER << "rnn model is too small: " << data.size();
+  }
+
   std::memset(&packed, 0, sizeof(PackedHeader));
   size_t off = 0;
   off = toMember(&PackedHeader::sizeVersion, &packed, data.data(), off);
@@ -75,6 +82,26 @@ Status readHeader(StringPiece data, MikolovRnnModelHeader* header,
   return Status::Ok();
 }
 
+Status checkHeader(const MikolovRnnModelHeader& header) {
+  if (header.layerSize == 0 || header.vocabSize == 0) {
+    return JPPS_INVALID_PARAMETER << "rnn model is empty: layer size="
+                                  << header.layerSize
+                                  << " vocabulary size=" << header.vocabSize;
+  }
+  if (header.maxentOrder < 1 || header.maxentOrder > MaxentMaxOrder) {
+    return JPPS_INVALID_PARAMETER << "maxent order must be between 1 and "
+                                  << MaxentMaxOrder << ", model had "
+                                  << header.maxentOrder;
+  }
+  if (header.maxentSize <= header.vocabSize) {
+    return JPPS_INVALID_PARAMETER
+           << "maxent table size (" << header.maxentSize
+           << ") must be larger than vocabulary size (" << header.vocabSize
+           << ")";
+  }
+  return Status::Ok();
+}
+
 void MikolovRnn::apply(StepData* data) {
   MikolovRnnImpl impl{*this};
   impl.apply(data);
@@ -91,6 +118,8 @@ Status MikolovRnn::init(const MikolovRnnModelHeader& header,
     return Status::InvalidState() << "maxent weights must be 64-aligned";
   }
 
+  JPP_RETURN_IF_ERROR(checkHeader(header));
+
   this->weights = weights;
   this->maxentWeights = maxentW;
   this->header = header;
@@ -174,6 +203,11 @@ Status MikolovModelReader::parse() {
   auto& hdr = data_->header;
 
   hdr.vocabSize = wdata.size();
+  JPP_RETURN_IF_ERROR(checkHeader(hdr));
+  if (hdr.maxentSize > contents.size() / sizeof(float)) {
+    return JPPS_INVALID_PARAMETER << "maxent table size=" << hdr.maxentSize
+                                  << " is larger than the rnn model file";
+  }
   auto maxBlock = std::max<u64>({hdr.layerSize * hdr.vocabSize, hdr.maxentSize,
                                  hdr.layerSize * hdr.layerSize});
   // 3 comes from rounding to next value + sizeof(float)
diff --git a/src/rnn/mikolov_rnn.h b/src/rnn/mikolov_rnn.h
index 94be0b7..9726de7 100644
--- a/src/rnn/mikolov_rnn.h
+++ b/src/rnn/mikolov_rnn.h
@@ -26,6 +26,7 @@ const uint64_t PRIMES_SIZE = sizeof(PRIMES) / sizeof(PRIMES[0]);
 
 constexpr static size_t LayerNameMaxSize = 64;
 constexpr static u64 VersionStepSize = 10000;
+constexpr static u32 MaxentMaxOrder = 4;
 
 struct MikolovRnnModelHeader {
   u32 layerSize;
-- 
2.43.0


From 72d495edc9845df500578480adc413a4b0c6f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:56 +0000
Subject: [PATCH 79/84] fix: words of the language model can contain quotes

---
 src/rnn/mikolov_rnn.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index 9c1b680..022aaeb 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -193,7 +193,8 @@ Status MikolovModelReader::parse() {
   auto contents = data_->modelFrag.asStringPiece();
   size_t start = ~size_t{0};
   JPP_RETURN_IF_ERROR(readHeader(contents, &data_->header, &start));
-  util::CsvReader ssvReader{' '};
+  // words can contain quotes
+  util::CsvReader ssvReader{' ', '\0'};
   JPP_RETURN_IF_ERROR(
       ssvReader.initFromMemory(data_->dictFrag.asStringPiece()));
   auto& wdata = data_->wordData;
-- 
2.43.0


From 6fc0826dfea8265cd36771e0953425ffa23cc1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:07 +0000
Subject: [PATCH 80/84] fix: generated code compiles for specifications without
 unigrams, bigrams or trigrams

---
 src/core/codegen/partial_ngram_feature_codegen.cc | 13 +++++++------
 src/core/codegen/pattern_feature_codegen.cc       |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/core/codegen/partial_ngram_feature_codegen.cc b/src/core/codegen/partial_ngram_feature_codegen.cc
index eee36c4..df91186 100644
--- a/src/core/codegen/partial_ngram_feature_codegen.cc
+++ b/src/core/codegen/partial_ngram_feature_codegen.cc
@@ -206,21 +206,22 @@ void PartialNgramPrinter::outputApplyBiTriLoop(util::io::Printer& p) {
 
     p << "\nauto buf1 = buffers->valBuf1(numBigrams);";
     p << "\nauto buf2 = buffers->valBuf2(numBigrams);";
+    // arrays can not have zero elements
     p << "\nstatic constexpr jumanpp::u32"
-      << " t1BiFeatureIdxes[numBigrams] = {\n  ";
+      << " t1BiFeatureIdxes[numBigrams + 1] = {\n  ";
     for (auto& bi : bigrams_) {
       p << bi.spec().references[1] << ", ";
     }
     p << "\n};";
 
     p << "\nstatic constexpr jumanpp::u32"
-      << " t1TriFeatureIdxes[numTrigrams] = {\n  ";
+      << " t1TriFeatureIdxes[numTrigrams + 1] = {\n  ";
     for (auto& tri : trigrams_) {
       p << tri.spec().references[1] << ", ";
     }
     p << "\n};";
     p << "\nstatic constexpr jumanpp::u32"
-      << " t2TriFeatureIdxes[numTrigrams] = {\n  ";
+      << " t2TriFeatureIdxes[numTrigrams + 1] = {\n  ";
     for (auto& tri : trigrams_) {
       p << tri.spec().references[2] << ", ";
     }
@@ -234,9 +235,9 @@ void PartialNgramPrinter::outputApplyBiTriLoop(util::io::Printer& p) {
       p << "\nt1,";
       p << "\nt2,";
       p << "\nt1idxes,";
-      p << "\nt1BiFeatureIdxes,";
-      p << "\nt1TriFeatureIdxes,";
-      p << "\nt2TriFeatureIdxes,";
+      p << "\n{t1BiFeatureIdxes, numBigrams},";
+      p << "\n{t1TriFeatureIdxes, numTrigrams},";
+      p << "\n{t2TriFeatureIdxes, numTrigrams},";
       p << "\nbuf1,";
       p << "\nbuf2,";
       p << "\nweights,";
diff --git a/src/core/codegen/pattern_feature_codegen.cc b/src/core/codegen/pattern_feature_codegen.cc
index 2728c58..01b4519 100644
--- a/src/core/codegen/pattern_feature_codegen.cc
+++ b/src/core/codegen/pattern_feature_codegen.cc
@@ -273,7 +273,7 @@ void InNodeComputationsCodegen::generateLoopBody(i::Printer &p) {
 
   p << "\n// publish perceptron value";
   p << "\nif (JPP_LIKELY(item > 0)) {";
-  p << "\n  scores.at(item - 1) = score_part_0";
+  p << "\n  scores.at(item - 1) = " << (numUniPats > 0 ? "score_part_0" : "0");
   for (int var = 1; var < numVars; ++var) {
     p << " + score_part_" << var;
   }
-- 
2.43.0


From 858fa940c0815409159dc05aaf1e4eb4fa0218f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:34 +0000
Subject: [PATCH 81/84] fix: generated code compiles when unigrams share a
 pattern

---
 src/core/codegen/pattern_feature_codegen.cc | 5 ++++-
 src/core/codegen/pattern_feature_codegen.h  | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/codegen/pattern_feature_codegen.cc b/src/core/codegen/pattern_feature_codegen.cc
index 01b4519..d51d5c1 100644
--- a/src/core/codegen/pattern_feature_codegen.cc
+++ b/src/core/codegen/pattern_feature_codegen.cc
@@ -13,10 +13,13 @@ namespace codegen {
 
 std::string InNodeComputationsCodegen::patternValue(
     i::Printer &p, const spec::PatternFeatureDescriptor &pat) {
+  std::string name = concat("fe_pat_", pat.index);
+  if (!computedPatterns_.insert(pat.index).second) {
+    return name;  // several unigrams can use the same pattern
+  }
   for (auto ref : pat.references) {
     ensureCompute(p, spec_.features.computation[ref]);
   }
-  std::string name = concat("fe_pat_", pat.index);
   std::string hashName = concat("fe_pat_hash_", pat.index);
   p << "\nauto " << hashName << " = ::jumanpp::core::features::impl::Hasher{}.mix("
     << pat.index << "ULL).mix(" << pat.references.size() << "ULL).mix("
diff --git a/src/core/codegen/pattern_feature_codegen.h b/src/core/codegen/pattern_feature_codegen.h
index 22105c9..fa247ae 100644
--- a/src/core/codegen/pattern_feature_codegen.h
+++ b/src/core/codegen/pattern_feature_codegen.h
@@ -6,6 +6,7 @@
 #define JUMANPP_PATTERN_FEATURE_CODEGEN_H
 
 #include <memory>
+#include <set>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -39,6 +40,7 @@ inline std::string concat(const Args&... args) {
 class InNodeComputationsCodegen {
   const spec::AnalysisSpec& spec_;
   util::FlatMap<i32, std::string> primitiveNames_;
+  std::set<i32> computedPatterns_;
   i32 numUnigrams_;
   i32 numBigrams_;
   i32 numTrigrams_;
-- 
2.43.0


From 7dfcb34bd73829da986420b5519bd16ac58d742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:53 +0000
Subject: [PATCH 82/84] fix: weights are not read at uninitialized indices when
 there are more trigrams than bigrams

---
 src/core/analysis/score_processor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index e311d81..e3831f2 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -45,7 +45,9 @@ ScoreProcessor::ScoreProcessor(AnalyzerImpl *analyzer)
 
   analyzer->core().features().ngramPartial->allocateBuffers(&featureBuffer_,
                                                             runStats_, alloc);
+  // generated code reads both buffers before it has written them completely
   util::fill(featureBuffer_.valueBuffer1, 0);
+  util::fill(featureBuffer_.valueBuffer2, 0);
 
   if (globalBeamSize_ > 0) {
     // auto beam can change the size for every input
-- 
2.43.0


From 17628dfa90052111bdf62b3edbf97a7d01aec0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:55 +0000
Subject: [PATCH 83/84] fix: generated code does not write outside of the score
 buffer when no words start at a position

---
 src/core/codegen/pattern_feature_codegen.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/codegen/pattern_feature_codegen.cc b/src/core/codegen/pattern_feature_codegen.cc
index d51d5c1..2d872c2 100644
--- a/src/core/codegen/pattern_feature_codegen.cc
+++ b/src/core/codegen/pattern_feature_codegen.cc
@@ -285,6 +285,7 @@ void InNodeComputationsCodegen::generateLoopBody(i::Printer &p) {
 
 void InNodeComputationsCodegen::generateLoop(i::Printer &p) {
   p << "\nauto numItems = patternMatrix.numRows();";
+  p << "\nif (numItems == 0) { return; }";
   p << "\nconst auto weights = scorer->weights();";
   p << "\n::jumanpp::u32 mask = weights.size() - 1;";
   p << "\nauto t1state = fbuffer->t1Buf(" << numBigrams_ << ", numItems);";
-- 
2.43.0


From 8c84d8b6dc49b66b35a308f9d869fcdd54b388a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:27 +0000
Subject: [PATCH 84/84] fix: auto beam parameters of zero are refused

---
 src/core/analysis/analyzer_impl.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 896e1a7..d6917f8 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -55,6 +55,15 @@ Status AnalyzerImpl::initScorers(const ScorerDef& cfg) {
            << "AnalyzerImpl: beam size can not be zero for scoring";
   }
 
+  if (cfg_.autoBeamStep != 0 &&
+      (cfg_.autoBeamStep < 0 || cfg_.autoBeamBase <= 0 ||
+       cfg_.autoBeamMax <= 0)) {
+    return JPPS_INVALID_PARAMETER
+           << "AnalyzerImpl: auto beam parameters must be positive, but were "
+           << cfg_.autoBeamBase << ":" << cfg_.autoBeamStep << ":"
+           << cfg_.autoBeamMax;
+  }
+
   if (cfg_.rightGbeamCheck > 0 && cfg_.rightGbeamSize <= 0) {
     return JPPS_INVALID_PARAMETER
            << "right global beam size should not be zero if you enable it";
-- 
2.43.0

