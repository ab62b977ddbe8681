// C03: a record read is the record its index entry names, complete, or an error is reported.
// @repo vrs/FileFormat.cpp
// @repo vrs/Record.cpp
// @repo vrs/RecordReaders.cpp
// @repo vrs/DataReference.cpp
// @entry h_read_record timeout=120
// @entry h_available timeout=60
// @entry h_dispatch timeout=30
#include "v.h"
#include "reader.h"
#include "decomp.h"
namespace {
bool compressedError; uint32_t compressedSize; bool nativeRun;
__attribute__((used, annotate("replace:vrs::CompressedRecordReader::read(vrs::DataReference&"))) int compressedRead(CompressedRecordReader*, DataReference& d, uint32_t& out) { // see C12
  compressedError = V_bool("decompression fails"); out = compressedError ? (uint32_t)V_range("got", 0, d.getSize()) : d.getSize(); return compressedError ? 7 : 0;
}
struct Player : StreamPlayer {
  bool wants = false; DataReference d; int headers = 0, records = 0, completes = 0, attached = 0, status = 0; CurrentRecord at{}; uint32_t got = 0; int64_t pos = 0; uint32_t unread = 0, unreadDisk = 0; MockFile* f = nullptr; CompressionType c{}; bool ordered = true;
  void onAttachedToFileReader(RecordFileReader&, StreamId) override { attached++; }
  bool processRecordHeader(const CurrentRecord& r, DataReference& out) override {
    headers++; at = r; pos = f->getPos(); unread = r.reader->getUnreadBytes(); unreadDisk = r.reader->getUnreadDiskBytes(); c = r.reader->getCompressionType(); if (wants) out = d; return wants; }
  void processRecord(const CurrentRecord& r, uint32_t n) override { ordered = ordered && headers == 1 && r.recordInfo == at.recordInfo; records++; got = n; }
  int recordReadComplete(RecordFileReader&, const RecordInfo&) override { ordered = ordered && records == 1; completes++; return status; }
};
struct File : MockFile {
  bool open = true, headerReady = true, payloadReady = true; uint64_t asked[2]; int asks = 0;
  bool isOpened() const override { return open; }
  bool isAvailableOrPrefetch(size_t n) override { if (asks < 2) asked[asks] = n; return asks++ ? payloadReady : headerReady; }
};
struct S {
  alignas(16) uint8_t mem[sizeof(RecordFileReader)]; RecordFileReader& r; File* f; Player p; RecordInfo info; FileFormat::RecordHeader h; int64_t whole;
  S() : r(*(RecordFileReader*)mem) {
    new (&r.recordIndex_) std::vector<RecordInfo>(); new (&r.streamIndex_) decltype(r.streamIndex_)(); new (&r.streamIds_) std::set<StreamId>(); new (&r.streamPlayers_) std::map<StreamId, StreamPlayer*>();
    new (&r.uncompressedRecordReader_) UncompressedRecordReader(); new (&r.compressedRecordReader_) CompressedRecordReader();
    f = new File(); new (&r.file_) std::unique_ptr<FileHandler>(f); r.recordHeaderSize_ = sizeof(FileFormat::RecordHeader); r.autoPrefetch_ = false; r.endOfUserRecordsOffset_ = 0;
    f->size = (int64_t)V_size("file", 1ull << 36, 200); f->data = (const uint8_t*)V_alloc("content", f->size, 1); f->mayFail = true; p.f = f;
    info.timestamp = V_f64("time"); info.streamId = StreamId((RecordableTypeId)V_u16("stream type"), V_u16("instance")); info.recordType = (Record::Type)V_u8("type");
    info.fileOffset = V_mode() == 2 ? (int64_t)(V_u64("offset") % 64) : (int64_t)V_u64("offset");
    if (V_mode() == 2 && info.fileOffset + 32 <= f->size) { // mostly consistent headers
      auto* w = (FileFormat::RecordHeader*)(const_cast<uint8_t*>(f->data) + info.fileOffset);
      if (V_bool("sound")) { w->initHeader((Record::Type)(1 + V_u8("t") % 4), info.streamId, info.timestamp, 1, CompressionType::None, 32, 32 + V_u8("n") % 64, 16); w->uncompressedSize = w->getCompressionType() == CompressionType::None ? 0 : 50; info.recordType = w->getRecordType(); }
    }
    whole = f->size - info.fileOffset;
    if (info.fileOffset >= 0 && whole >= (int64_t)sizeof(h)) memcpy((void*)&h, f->data + info.fileOffset, sizeof(h));
  }
  bool headerThere() { return info.fileOffset >= 0 && whole >= (int64_t)sizeof(h); }
  ~S() { f->close(); }
};
}
extern "C" void h_read_record() {
  S s; Player& p = s.p; p.wants = V_bool("player wants it"); p.status = V_bool("player complains") ? 3 : 0;
  uint32_t a = (uint32_t)V_size("first part", 1u << 30, 40), b = (uint32_t)V_size("second part", 1u << 30, 40);
  uint8_t* d1 = (uint8_t*)V_alloc("first", a, 1); uint8_t* d2 = (uint8_t*)V_alloc("second", b, 1); p.d.useRawData(d1, a, d2, b);
  s.f->open = V_bool("open"); const bool handler = V_bool("player"), setup = V_bool("setup"); const uint64_t w = V_range("watched", 0, 1ull << 31);
  const int err = s.r.readRecord(s.info, handler ? &p : nullptr, setup);
  if (!s.f->open) { V_assert(err == NO_FILE_OPEN && !p.headers, "no file open"); return; }
  if (!handler) { V_assert(err == 0 && s.f->reads == 0, "no player for the stream"); return; }
  V_assert(p.attached == (setup ? 1 : 0), "the player is told which reader it works for");
  const FileFormat::RecordHeader& h = s.h;
  if (p.headers) {
    V_assert(s.headerThere(), "a header was read");
    V_assert(h.isSanityCheckOk(), "the header makes sense");
    V_assert(h.timestamp == s.info.timestamp && h.getRecordType() == s.info.recordType && h.getStreamId() == s.info.streamId, "it is the record the index names");
    V_assert(p.headers == 1 && p.at.timestamp == s.info.timestamp && p.at.streamId == s.info.streamId && p.at.recordType == s.info.recordType, "the player is told which record it is");
    V_assert(p.at.formatVersion == h.formatVersion && p.at.recordInfo == &s.info && p.at.fileReader == &s.r, "and its format version");
    V_assert(p.pos == s.info.fileOffset + (int64_t)sizeof(h), "at the start of its data");
    const uint32_t disk = h.recordSize - (uint32_t)sizeof(h); const bool comp = h.getCompressionType() != CompressionType::None;
    const uint32_t expanded = comp ? h.uncompressedSize : disk;
    V_assert(p.c == h.getCompressionType() && p.unreadDisk == disk && p.unread == expanded && p.at.recordSize == expanded, "with its exact sizes");
    if (p.records) {
      V_assert(p.wants && p.ordered && a + b <= expanded, "data delivered only when asked for, and not more than the record has");
      V_assert(p.got == a + b, "all the data asked for");
      V_assert(p.completes == 1 && err == p.status, "the player ends the reading");
      if (!comp && w < (uint64_t)a + b) V_assert((w < a ? d1[w] : d2[w - a]) == s.f->data[s.info.fileOffset + sizeof(h) + w], "the bytes of the record");
    } else {
      V_assert(p.completes == 0, "not complete");
      if (p.wants && a + b <= expanded) V_assert(err != 0, "an error is reported");
    }
    if (!p.wants) V_assert(err == 0, "not reading a record is no error");
  } else {
    const bool atEnd = s.info.fileOffset == s.f->size;
    V_assert(!p.records && !p.completes, "nothing delivered");
    if (!atEnd) V_assert(err != 0, "an error is reported");
    if (s.headerThere() && !s.f->failed)
      V_assert(!h.isSanityCheckOk() || (uint8_t)h.getCompressionType() > (uint8_t)CompressionType::Zstd || !(h.timestamp == s.info.timestamp) || h.getRecordType() != s.info.recordType || h.getStreamId() != s.info.streamId, "only records which are not as the index says, or compressed in an unknown way, are refused");
  }
}
extern "C" void h_available() {
  S s; s.f->open = V_bool("open"); s.f->headerReady = V_bool("header ready"); s.f->payloadReady = V_bool("payload ready"); const bool handler = V_bool("player");
  if (handler) s.r.streamPlayers_[s.info.streamId] = &s.p;
  const bool ok = s.r.isRecordAvailableOrPrefetch(s.info);
  if (ok) {
    V_assert(s.f->open && handler && !s.f->failed && s.headerThere(), "available only when it can be read");
    V_assert(s.h.isSanityCheckOk(), "and its header makes sense");
    V_assert(s.f->asks == 2 && s.f->headerReady && s.f->payloadReady && s.f->asked[0] == sizeof(s.h) && s.f->asked[1] == s.h.recordSize - sizeof(s.h), "and its header and data are there");
  } else if (s.f->open && handler && !s.f->failed && s.headerThere() && s.f->headerReady && s.f->payloadReady) V_assert(!s.h.isSanityCheckOk(), "a record that is there is available");
}
namespace {
struct Parts : StreamPlayer {
  int which = 0, done = 0; bool wants = true;
  bool processStateHeader(const CurrentRecord&, DataReference&) override { which |= 1; return wants; }
  bool processConfigurationHeader(const CurrentRecord&, DataReference&) override { which |= 2; return wants; }
  bool processDataHeader(const CurrentRecord&, DataReference&) override { which |= 4; return wants; }
  void processState(const CurrentRecord&, uint32_t) override { done |= 1; }
  void processConfiguration(const CurrentRecord&, uint32_t) override { done |= 2; }
  void processData(const CurrentRecord&, uint32_t) override { done |= 4; }
};
}
extern "C" void h_dispatch() {
  Parts p; p.wants = V_bool("wants"); CurrentRecord c{}; c.recordType = (Record::Type)V_u8("type"); DataReference d;
  const int e = c.recordType == Record::Type::STATE ? 1 : c.recordType == Record::Type::CONFIGURATION ? 2 : c.recordType == Record::Type::DATA ? 4 : 0;
  const bool r = p.processRecordHeader(c, d); p.processRecord(c, 0);
  V_assert(p.which == e && p.done == e && r == (e && p.wants), "each kind of record goes to its own callback");
}
