// C20: the numeric name of a stream id reads back as this stream id.
// @flags -DV_REAL_FMT
// @entry h_names bounded btimeout=200 unroll=60
#include "v.h"
#include <string.h>
#include "errstub.h"
#include <vrs/StreamId.cpp>
using namespace vrs;
extern "C" void h_names() {
  uint16_t t = V_u16("type"), i = V_u16("instance"); StreamId id((RecordableTypeId)t, i);
  std::string s = id.getNumericName();
  V_assert(StreamId::fromNumericName(s) == id, "the numeric name of a stream id reads back as this stream id");
  V_cover("named");
}
