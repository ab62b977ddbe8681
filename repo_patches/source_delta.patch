From 903a0784bc1407dafe26957ddc32ff0e85c7ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 01/14] fix: accept record headers whose uncompressed payload
 is close to 4 GB

isSanityCheckOk() added the tolerated increase to the uncompressed size in 32 bits; the sum
wrapped for payloads over ~4.09e9 bytes, and valid compressed records were rejected.
---
 vrs/FileFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/FileFormat.cpp b/vrs/FileFormat.cpp
index d44b253..72f33c0 100644
--- a/vrs/FileFormat.cpp
+++ b/vrs/FileFormat.cpp
@@ -200,7 +200,7 @@ bool RecordHeader::isSanityCheckOk() const {
     if (getRecordableTypeId() != RecordableTypeId::VRSIndex) {
       uint32_t compressedPayload = recordSize - sizeof(RecordHeader);
       // we did not always check that compression actually helped, and smaller sizes do worse
-      uint32_t maxIncrease = (uncompressedPayload < 200)
+      uint64_t maxIncrease = (uncompressedPayload < 200)
           ? max<size_t>(50, uncompressedPayload / 2) // 50 bytes or 50%
           : max<size_t>(100, uncompressedPayload * 5ULL / 100); // 100 bytes or 5%
       if (!XR_VERIFY(compressedPayload < uncompressedPayload + maxIncrease)) {
-- 
2.43.0


From 54ff1ae493a8f2c91e0aec21d7706734c0bf3853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:42 +0000
Subject: [PATCH 02/14] fix: report zstd setup failures as 'not compressed'
 instead of as a compressed size

---
 vrs/Compressor.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/vrs/Compressor.cpp b/vrs/Compressor.cpp
index 4ac3882..75d3b96 100644
--- a/vrs/Compressor.cpp
+++ b/vrs/Compressor.cpp
@@ -128,6 +128,18 @@ DEFINE_ENUM_CONVERTERS(CompressionType)
     }                                                                                    \
   } while (false)
 
+// compress() returns a byte count, not an error code: on error, give up compressing
+#define IF_ZCOMP_ERROR_LOG_AND_DONT_COMPRESS(operation__)                              \
+  do {                                                                                 \
+    zresult = operation__;                                                             \
+    if (ZSTD_isError(zresult)) {                                                       \
+      XR_LOGE("{} failed: {}, {}", #operation__, zresult, ZSTD_getErrorName(zresult)); \
+      ZSTD_CCtx_reset(zstdContext_, ZSTD_reset_session_and_parameters);                \
+      compressionType_ = CompressionType::None;                                        \
+      return 0;                                                                        \
+    }                                                                                  \
+  } while (false)
+
 class Compressor::CompressorImpl {
  public:
   CompressorImpl() {
@@ -182,10 +194,11 @@ class Compressor::CompressorImpl {
       zstdContext_ = ZSTD_createCCtx();
     }
     size_t zresult = 0;
-    IF_ZCOMP_ERROR_LOG_AND_RETURN(ZSTD_CCtx_reset(zstdContext_, ZSTD_reset_session_only));
-    IF_ZCOMP_ERROR_LOG_AND_RETURN(ZSTD_CCtx_setParameter(
+    IF_ZCOMP_ERROR_LOG_AND_DONT_COMPRESS(
+        ZSTD_CCtx_reset(zstdContext_, ZSTD_reset_session_only));
+    IF_ZCOMP_ERROR_LOG_AND_DONT_COMPRESS(ZSTD_CCtx_setParameter(
         zstdContext_, ZSTD_c_compressionLevel, zstdPresetToCompressionLevel(preset)));
-    IF_ZCOMP_ERROR_LOG_AND_RETURN(ZSTD_CCtx_setPledgedSrcSize(zstdContext_, dataSize));
+    IF_ZCOMP_ERROR_LOG_AND_DONT_COMPRESS(ZSTD_CCtx_setPledgedSrcSize(zstdContext_, dataSize));
     size_t result = ZSTD_compress2(
         zstdContext_, buffer.data() + headerSpace, maxCompressedSize, data, dataSize);
     if (ZSTD_isError(result)) {
-- 
2.43.0


From d3ab115d941e9966b28258aa3364dee4609e10b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 03/14] fix: compute raw image sizes of 4 GB and more without
 32-bit wraparound

---
 vrs/RecordFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index 6c29897..d7a5535 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -637,7 +637,7 @@ size_t ImageContentBlockSpec::getRawImageSize() const {
     size_t size = 0;
     const uint32_t planeCount = getPlaneCount();
     for (uint32_t plane = 0; plane < planeCount; ++plane) {
-      size += getPlaneStride(plane) * getPlaneHeight(plane);
+      size += static_cast<size_t>(getPlaneStride(plane)) * getPlaneHeight(plane);
     }
     if (size > 0) {
       return size;
-- 
2.43.0


From 8e3448d13f5a93651fbef5dfadc930b541e62ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:48 +0000
Subject: [PATCH 04/14] fix: keep a preallocated index within the space
 reserved for it

The space left for record entries was computed without the record header in
mind: it could wrap around or be 0 (no limit) when streams are added after the
index was preallocated, and the index was then written over user records.
---
 vrs/IndexRecord.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 7d39b43..0d88f95 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -251,7 +251,9 @@ int writeClassicIndexRecord(
   FileFormat::RecordHeader indexRecordHeader;
   uint32_t preludeSize = static_cast<uint32_t>(
       sizeof(uint32_t) + streamIds.size() * sizeof(DiskStreamId) + sizeof(uint32_t));
-  if (preallocatedByteSize > 0 && preallocatedByteSize < preludeSize) {
+  // The pre-allocated size includes the record header, and we need room left for the records
+  if (preallocatedByteSize > 0 &&
+      preallocatedByteSize <= sizeof(FileFormat::RecordHeader) + preludeSize) {
     return TOO_MUCH_DATA;
   }
   uint32_t uncompressedSize =
-- 
2.43.0


From 72bf8a92f03e2f59111bccbe29e10cf698a07a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 05/14] fix: drop the distrusted record from the rebuilt index
 written to disk

When rebuilding an index gives up the last record, the index written to the
file still listed it, at the place where the index record itself is written,
and was linked to that record's size.
---
 vrs/IndexRecord.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 0d88f95..5da8f45 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -809,6 +809,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
   FileFormat::RecordHeader* recordHeader =
       reinterpret_cast<FileFormat::RecordHeader*>(headerBuffer.data());
   uint32_t previousRecordSize = 0;
+  uint32_t priorRecordSize = 0; // size of the record before the previous record
   bool distrustLastRecord = false;
   int error = 0;
   do {
@@ -921,6 +922,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
       }
     }
     absolutePosition += recordSize;
+    priorRecordSize = previousRecordSize;
     previousRecordSize = recordSize;
 
     if (totalFileSize_ > 0) {
@@ -952,7 +954,11 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
     XR_LOGW(
         "Reindexing: record #{}. Discarding last record, because it's suspicious.", index_.size());
     index_.pop_back(); // don't trust that last record
+    if (diskIndex_ && !diskIndex_->empty()) {
+      diskIndex_->pop_back();
+    }
     absolutePosition -= previousRecordSize;
+    previousRecordSize = priorRecordSize;
   }
 
   sort(index_.begin(), index_.end());
-- 
2.43.0


From e3414e4556f2ddf619d7244caf0309cd651e63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 06/14] fix: writeZstdFile must not replace a file when writing
 fails, and must report close errors

---
 vrs/DiskFile.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 9cbc192..4711ca2 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -491,19 +491,29 @@ bool DiskFileT<FileChunk>::isRemoteFileSystem() const {
   return false;
 }
 
+namespace {
+int writeZstdFrame(WriteFileHandler& file, const void* data, size_t dataSize) {
+  Compressor compressor;
+  uint32_t frameSize = 0;
+  IF_ERROR_LOG_AND_RETURN(
+      compressor.startFrame(dataSize, CompressionPreset::ZstdMedium, frameSize));
+  IF_ERROR_RETURN(compressor.addFrameData(file, data, dataSize, frameSize));
+  return compressor.endFrame(file, frameSize);
+}
+} // namespace
+
 template <class FileChunk>
 int DiskFileT<FileChunk>::writeZstdFile(const string& path, const void* data, size_t dataSize) {
   AtomicDiskFile file;
   IF_ERROR_LOG_AND_RETURN(file.create(path));
   if (dataSize > 0) {
-    Compressor compressor;
-    uint32_t frameSize = 0;
-    IF_ERROR_LOG_AND_RETURN(
-        compressor.startFrame(dataSize, CompressionPreset::ZstdMedium, frameSize));
-    IF_ERROR_RETURN(compressor.addFrameData(file, data, dataSize, frameSize));
-    IF_ERROR_RETURN(compressor.endFrame(file, frameSize));
+    int status = writeZstdFrame(file, data, dataSize);
+    if (status != 0) {
+      file.abort(); // don't replace a pre-existing file with incomplete data
+      return status;
+    }
   }
-  return SUCCESS;
+  return file.close();
 }
 
 template <class FileChunk>
-- 
2.43.0


From 31f78f25e489788d2d126ccf8b2a02d9697f216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 07/14] fix: a record whose position can't be reached isn't
 available

---
 vrs/RecordFileReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 7bfa0dc..f8ac9d3 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -1115,7 +1115,7 @@ bool RecordFileReader::isRecordAvailableOrPrefetch(const IndexRecord::RecordInfo
   if (streamPlayer == nullptr) {
     return false;
   }
-  IF_ERROR_LOG_AND_RETURN(file_->setPos(recordInfo.fileOffset));
+  IF_ERROR_LOG_AND_RETURN_FALSE(file_->setPos(recordInfo.fileOffset));
   FileFormat::RecordHeader recordHeader;
   if (!file_->isAvailableOrPrefetch(sizeof(recordHeader))) {
     return false;
-- 
2.43.0


From 39fa005c976b8712e2933a1324c0d6c330428cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 08/14] fix: DataPieceVector<string>::get, no overflow checking
 a bogus string count

---
 vrs/DataLayout.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 4d8f4bd..9d71d95 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1441,7 +1441,8 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
   uint32_t vectorSize = 0;
   size_t readSize = 0;
   if (loadElement<uint32_t>(vectorSize, source, readSize, byteCount)) {
-    if ((vectorSize + 1) * sizeof(uint32_t) <= byteCount) {
+    const size_t minByteCount = (static_cast<size_t>(vectorSize) + 1) * sizeof(uint32_t);
+    if (minByteCount <= byteCount) {
       outValues.resize(vectorSize);
       for (string& str : outValues) {
         if (!loadElement<string>(str, source, readSize, byteCount)) {
@@ -1456,7 +1457,7 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
         "which requires {} bytes at least, but we have only {} bytes...",
         getLabel(),
         vectorSize,
-        (vectorSize + 1) * sizeof(uint32_t),
+        minByteCount,
         byteCount);
   }
   outValues = defaultValues_;
-- 
2.43.0


From 739afe261e9a9b00a4bc788fd8fcdf75ca8abc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 09/14] fix: DataLayout::copyDataPieceValuesFromMappedLayout,
 enforce both preconditions

---
 vrs/DataLayout.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 9d71d95..06ecbc4 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -176,7 +176,7 @@ void DataLayout::initDataPiecesToDefaultValue() {
 
 size_t DataLayout::copyDataPieceValuesFromMappedLayout(const DataLayout& mappedLayout) {
   // This layout may not be mapped, while mappedLayout must be mapped.
-  if (!XR_VERIFY(!isMapped()) && !XR_VERIFY(mappedLayout.isMapped())) {
+  if (!XR_VERIFY(!isMapped()) || !XR_VERIFY(mappedLayout.isMapped())) {
     return 0;
   }
   // This object and the mappedLayout must have the exact same layout!
-- 
2.43.0


From 2bcdff257b8b97191459b65737d1349ad0f7ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 10/14] fix: DataPieceArray::getMax, return the max value

---
 vrs/DataPieceArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/DataPieceArray.h b/vrs/DataPieceArray.h
index ed11759..5a98543 100644
--- a/vrs/DataPieceArray.h
+++ b/vrs/DataPieceArray.h
@@ -292,7 +292,7 @@ class DataPieceArray : public DataPiece {
   /// @param outMax: Reference to set to the maximum valid value.
   /// @return True if there is maximum value & outMax was set.
   bool getMax(T& outMax) const {
-    return getProperty(kMinValue, outMax);
+    return getProperty(kMaxValue, outMax);
   }
 
   /// Patch values in the mapped DataLayout.
-- 
2.43.0


From 828aef9fd24a145d8ecacff252eed9b1a22fad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:11 +0000
Subject: [PATCH 11/14] fix: read stream ids within the text given, and refuse
 numbers over 16 bits

StreamId::fromNumericName read past the end of texts without a terminator, and numbers
larger than 65535 wrapped around to the id of another stream (signed overflow included).
---
 vrs/StreamId.cpp | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/vrs/StreamId.cpp b/vrs/StreamId.cpp
index 2332535..2785e99 100644
--- a/vrs/StreamId.cpp
+++ b/vrs/StreamId.cpp
@@ -16,6 +16,7 @@
 
 #include <vrs/StreamId.h>
 
+#include <limits>
 #include <string>
 #include <unordered_map>
 
@@ -181,29 +182,32 @@ const unordered_map<RecordableTypeId, const char*>& getRecordableTypeIdRegistry(
   return sRegistry;
 }
 
-StreamId fromNumericNameWithSeparator(string_view numericName, uint8_t separator) {
-  // Quick parsing of "NNN-DDD", two uint numbers separated by a separator.
-  const auto* s = reinterpret_cast<const uint8_t*>(numericName.data());
-  const auto* end = s + numericName.size();
-  if (*s < '0' || *s > '9') {
-    return {}; // must start with a digit
-  }
-  int recordableTypeId = 0;
-  for (; *s >= '0' && *s <= '9'; ++s) {
-    recordableTypeId = 10 * recordableTypeId + (*s - '0');
+// Parse a 16 bit unsigned number, which must start with a digit and fit in 16 bits.
+bool parseUInt16(const char*& s, const char* end, uint16_t& outValue) {
+  if (s >= end || *s < '0' || *s > '9') {
+    return false;
   }
-  if (*s++ == separator) {
-    if (s >= end || *s < '0' || *s > '9') {
-      return {}; // instance id must start with a digit
-    }
-    uint16_t index = 0;
-    while (s < end && *s >= '0' && *s <= '9') {
-      index = 10 * index + (*s++ - '0');
-    }
-    if (s == end) {
-      return {static_cast<RecordableTypeId>(recordableTypeId), index};
+  uint32_t value = 0;
+  for (; s < end && *s >= '0' && *s <= '9'; ++s) {
+    value = 10 * value + static_cast<uint32_t>(*s - '0');
+    if (value > numeric_limits<uint16_t>::max()) {
+      return false;
     }
   }
+  outValue = static_cast<uint16_t>(value);
+  return true;
+}
+
+StreamId fromNumericNameWithSeparator(string_view numericName, char separator) {
+  // Quick parsing of "NNN-DDD", two uint numbers separated by a separator.
+  const char* s = numericName.data();
+  const char* end = s + numericName.size();
+  uint16_t recordableTypeId = 0;
+  uint16_t instanceId = 0;
+  if (parseUInt16(s, end, recordableTypeId) && s < end && *s++ == separator &&
+      parseUInt16(s, end, instanceId) && s == end) {
+    return {static_cast<RecordableTypeId>(recordableTypeId), instanceId};
+  }
   return {};
 }
 
-- 
2.43.0


From 813eaf7ab31a14e952ecd4f992836479e9cd431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:11 +0000
Subject: [PATCH 12/14] fix: FileSpec, accept UTF-8 in urls, and don't read
 past the end of uris

- urldecode refused bytes above 0x7f, encoded or not, because char is signed.
- fromPathJsonUri read past the end of a path ending with '?'.
- getSourceLocation read past the end of the uri when the scheme is not followed by a path.
---
 vrs/FileSpec.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index e800228..3b638da 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -183,6 +183,7 @@ int FileSpec::fromPathJsonUri(string_view pathJsonUri, string_view defaultFileHa
     // Check if there might be URI parameter in the path, and try to parse it that way.
     auto uriParams = pathJsonUri.find('?');
     bool hasParams = uriParams != string_view::npos && uriParams > 1 &&
+        uriParams + 1 < pathJsonUri.size() &&
         isalpha(static_cast<unsigned char>(pathJsonUri[uriParams + 1])) &&
         pathJsonUri.find('=', uriParams + 2) != string_view::npos;
     fileHandlerName =
@@ -312,9 +313,13 @@ string FileSpec::getSourceLocation() const {
       do {
         c = static_cast<unsigned char>(uri[++end]);
       } while (c == '/');
-      do {
+      // don't go past the end of the uri
+      while (end < uri.size()) {
         c = static_cast<unsigned char>(uri[++end]);
-      } while (isalnum(c) != 0 || c == '.' || c == '-' || c == '_');
+        if (isalnum(c) == 0 && c != '.' && c != '-' && c != '_') {
+          break;
+        }
+      }
       return uri.substr(0, end);
     }
     return uri;
@@ -507,7 +512,7 @@ int FileSpec::urldecode(string_view in, string& out) {
       c = (xdigitToChar(in[p + 1]) << 4) | xdigitToChar(in[p + 2]);
       p += 2;
     }
-    if (c < 0x20) {
+    if (static_cast<unsigned char>(c) < 0x20) {
       XR_LOGW("Invalid character while decoding input: {} in {}", c, in);
       return INVALID_URI_VALUE;
     }
-- 
2.43.0


From 47e6d23d3038621510f1d9575b27a2c81386c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 13/14] fix: readByteSize, refuse sizes which don't fit in 64
 bits

Sizes such as 16777216TB wrapped around to 0.
---
 vrs/helpers/Strings.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrs/helpers/Strings.cpp b/vrs/helpers/Strings.cpp
index 19b5dd4..73abbce 100644
--- a/vrs/helpers/Strings.cpp
+++ b/vrs/helpers/Strings.cpp
@@ -23,6 +23,7 @@
 
 #include <algorithm>
 #include <iterator>
+#include <limits>
 #include <sstream>
 
 #include <fmt/format.h>
@@ -441,6 +442,10 @@ bool readByteSize(string_view strSize, uint64_t& outByteSize) {
   if (factor == 1 || next + 2 != end || safetolower(next[1]) != 'b') {
     return false;
   }
+  if (outByteSize > numeric_limits<uint64_t>::max() / factor) {
+    outByteSize = 0;
+    return false;
+  }
   outByteSize *= factor;
   return true;
 }
-- 
2.43.0


From 5caf9e09dc154b78dadae0519980c03037cbfd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 14/14] fix: RecordManager::purgeOldRecords, keep records
 sorted

The last state and configuration records kept by purgeOldRecords were put back in a fixed order, whatever their
times, while createRecord and collectOldRecords need records sorted: a state record older than the configuration
record kept before it was not collected. The newest of records with the same time is now the one kept.
---
 vrs/RecordManager.cpp | 49 +++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/vrs/RecordManager.cpp b/vrs/RecordManager.cpp
index 9ff891c..9ae8247 100644
--- a/vrs/RecordManager.cpp
+++ b/vrs/RecordManager.cpp
@@ -129,26 +129,29 @@ uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuff
   unique_lock<mutex> guard{mutex_};
   // we purge everything "old", but we keep the newest state & configuration records,
   // and all TagsRecords
-  Record* lastState = nullptr;
-  Record* lastConfiguration = nullptr;
-  list<Record*> tagsRecords;
+  // The records kept stay in place, because activeRecords_ must remain sorted.
+  const auto none = activeRecords_.end();
+  auto lastState = none;
+  auto lastConfiguration = none;
   auto iter = activeRecords_.begin();
-  while (iter != activeRecords_.end() && (*iter)->timestamp_ < oldestTimestamp) {
-    Record* record = *iter;
-    activeRecords_.erase(iter);
-    if (record->getRecordType() == Record::Type::STATE &&
-        (lastState == nullptr || lastState->getTimestamp() < record->getTimestamp())) {
-      swap(record, lastState);
-    } else if (
-        record->getRecordType() == Record::Type::CONFIGURATION &&
-        (lastConfiguration == nullptr ||
-         lastConfiguration->getTimestamp() < record->getTimestamp())) {
-      swap(record, lastConfiguration);
-    } else if (record->getRecordType() == Record::Type::TAGS) {
-      tagsRecords.push_back(record);
-      record = nullptr;
+  while (iter != none && (*iter)->timestamp_ < oldestTimestamp) {
+    auto purge = iter++;
+    switch ((*purge)->getRecordType()) {
+      case Record::Type::STATE:
+        swap(purge, lastState); // records are sorted: this one is newer
+        break;
+      case Record::Type::CONFIGURATION:
+        swap(purge, lastConfiguration);
+        break;
+      case Record::Type::TAGS:
+        purge = none;
+        break;
+      default:
+        break;
     }
-    if (record != nullptr) {
+    if (purge != none) {
+      Record* record = *purge;
+      activeRecords_.erase(purge);
       if (recycleBuffers && cache_.size() < maxCacheSize_) {
         cache_.emplace_back(record);
       } else {
@@ -156,16 +159,6 @@ uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuff
       }
       ++count;
     }
-    iter = activeRecords_.begin();
-  }
-  if (lastState != nullptr) {
-    activeRecords_.emplace_front(lastState);
-  }
-  if (lastConfiguration != nullptr) {
-    activeRecords_.emplace_front(lastConfiguration);
-  }
-  if (!tagsRecords.empty()) {
-    activeRecords_.insert(activeRecords_.begin(), tagsRecords.begin(), tagsRecords.end());
   }
   return count;
 }
-- 
2.43.0

