// C06: a reader which closed a file keeps nothing of it that a lookup in the next file could use.
// @entry h_close bounded timeout=60 unroll=40 nofuzz
#include "v.h"
#include "reader.h"
namespace { __attribute__((used, annotate("replace:vrs::DiskFileT<vrs::DiskFileChunk>::DiskFileT()"))) void newFile(DiskFile* f) {} } // the file which replaces the one closed is of no concern here
extern "C" void h_close() {
  rd::Reader& R = *new rd::Reader(rd::gen, true);
  RecordFileReader& r = R.r;
  new (&r.recordIndex_) std::vector<RecordInfo>();
  new (&r.file_) std::unique_ptr<FileHandler>(); new (&r.detailsSaveThread_) std::unique_ptr<std::thread>(); new (&r.defaultProgressLogger_) decltype(r.defaultProgressLogger_)();
  bool some = V_bool("something cached"); StreamId id((RecordableTypeId)V_range("type", 60, 900), V_u16("inst"));
  if (some) {
    r.recordIndex_.emplace_back(1, 100, id, Record::Type::DATA); r.streamIds_.insert(id);
    r.streamIndex_[id].push_back(&r.recordIndex_[0]); r.streamRecordCounts_[id]; r.recordBoundaries_.push_back(100); r.recordLimits_[100] = 5;
    r.lastRequest_[std::make_pair(id, Record::Type::DATA)] = std::make_pair(3u, (size_t)7); r.streamTags_[id]; r.fileTags_["a"] = "b"; r.fileHasAnIndex_ = true;
  }
  V_assert(r.closeFile() == 0, "closed");
  V_assert(r.recordIndex_.empty() && r.streamIds_.empty() && r.streamIndex_.empty() && r.streamRecordCounts_.empty(), "no record or stream of the closed file is left");
  V_assert(r.recordBoundaries_.empty() && r.recordLimits_.empty() && r.lastRequest_.empty(), "no result of a lookup in the closed file is left");
  V_assert(r.streamTags_.empty() && r.fileTags_.empty() && !r.fileHasAnIndex_, "no tag of the closed file is left");
  V_cover("closed");
}
