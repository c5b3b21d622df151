// The code under test: its types, whatever it was built with.
#pragma once
#include "core.h"
#include "h264_bitstream_parser.h"
#include "h264_bitstream_parser_state.h"
#include "h264_common.h"
#include "h264_nal_unit_parser.h"
#ifdef RTP_DEFINE
#include "h264_rtp_parser.h"
#endif

namespace sim {

using LibState = h264nal::H264BitstreamParserState;
using LibUnit = h264nal::H264NalUnitParser::NalUnitState;
using LibStream = h264nal::H264BitstreamParser::BitstreamState;
#ifdef RTP_DEFINE
using LibRtp = h264nal::H264RtpParser::RtpState;
#endif
using LibPayload = h264nal::H264NalUnitPayloadParser::NalUnitPayloadState;

}  // namespace sim
