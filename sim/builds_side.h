// One session of whichever build this is compiled for.
#pragma once
#include "deep.h"
#include "facts.h"
#include "h264_sps_extension_parser.h"

namespace sim {
namespace {

struct Side {
  LibState state;
  std::vector<std::string> out;  // what the last delivery showed

  template <class P, class D>
  void show(P p, D dump) {
    if (!p) {
      out.push_back("none");
      return;
    }
    out.push_back(deep_text(*p));
    dump(*p);
    more(*p, 0);
  }
  template <class T>
  auto more(const T& v, int) -> decltype(facts<NoGuard>(v), void()) {
    out.push_back(facts<NoGuard>(v));
  }
  template <class T>
  void more(const T&, long) {}
  template <class D>
  void deliver(const std::string& kind, const uint8_t* p, size_t n, int option, D dump) {
    out.clear();
    h264nal::ParsingOptions o;
    o.add_checksum = (option & 1) != 0;
    o.add_offset = (option & 2) == 0;
    o.add_length = (option & 4) == 0;
    uint32_t c0 = h264nal::get_unimplemented_count();
    if (kind == "raw")
      show(h264nal::H264NalUnitParser::ParseNalUnitUnescaped(p, n, &state, o), dump);
    else if (kind == "nal")
      show(h264nal::H264NalUnitParser::ParseNalUnit(p, n, &state, o), dump);
    else if (kind == "ext")
      show(h264nal::H264SpsExtensionParser::ParseSpsExtension(p, n), dump);
    else if (kind == "stream-own")
      show(h264nal::H264BitstreamParser::ParseBitstream(p, n, o), dump);
    else if (kind == "len-own")
      show(h264nal::H264BitstreamParser::ParseBitstreamNALULength(p, n, (size_t)(1 + ((option >> 3) & 3)), o), dump);
    else if (kind == "len")
      show(h264nal::H264BitstreamParser::ParseBitstreamNALULength(p, n, (size_t)(1 + ((option >> 3) & 3)), &state, o), dump);
    else
      show(h264nal::H264BitstreamParser::ParseBitstream(p, n, &state, o), dump);
    out.push_back(fmt("unsupported %u", h264nal::get_unimplemented_count() - c0));
    out.push_back(deep_text(state));
  }
};

}  // namespace
}  // namespace sim
