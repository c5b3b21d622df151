// Reference model: parameter sets (SPS, VUI, HRD, PPS, subset SPS).
#pragma once
#include "model.h"

namespace model {

struct Sps {
  uint32_t profile_idc = 0, id = 0;
  uint32_t chroma_format_idc = 1, separate_colour_plane_flag = 0;
  uint32_t bit_depth_luma_minus8 = 0;
  uint32_t log2_max_frame_num = 4, poc_type = 0, log2_max_poc_lsb = 4;
  uint32_t delta_pic_order_always_zero_flag = 0, max_refs = 0;
  uint32_t width_mbs = 1, height_map_units = 1;
  uint32_t frame_mbs_only = 0, mb_adaptive = 0;
  int width = 0, height = 0;
  bool has_vui = false;
  std::string text;  // dump of the unit that defined it
  uint32_t chroma_array_type() const {
    return separate_colour_plane_flag ? 0 : chroma_format_idc;
  }
};

// What the encoder aims for; decoding ignores it.
struct Gen {
  uint32_t sps_id = 0, pps_id = 0;
  bool small = true;        // keep long optional lists short
  int vui = -1;             // -1 random
  int high = -1;            // -1 random, 0 baseline family, 1 high family
  uint32_t pps_chroma = 1;  // chroma_format_idc of the SPS the PPS refers to
  int map_type = -1;        // PPS slice group map type, -2: no slice groups
  int sizes = 0;            // >0: only this many different picture sizes
};

inline bool high_profile(uint32_t p) {
  switch (p) {
    case 100: case 110: case 122: case 244: case 44: case 83: case 86:
    case 118: case 128: case 138: case 139: case 134: case 135:
      return true;
  }
  return false;
}

inline const char* profile_name(uint32_t p, const uint32_t* cs) {
  switch (p) {
    case 66: return cs[1] ? "Constrained Baseline" : "Baseline";
    case 77: return "Main";
    case 88: return "Extended";
    case 100:
      return cs[4] ? "Progressive High" : cs[5] ? "Constrained High" : "High";
    case 110:
      return cs[3] ? "High 10 Intra" : cs[4] ? "Progressive High 10" : "High 10";
    case 122: return cs[3] ? "High 4:2:2 Intra" : "High 4:2:2";
    case 144: return cs[3] ? "High 4:4:4 Intra" : "High 4:4:4";
    case 244:
      return cs[3] ? "High 4:4:4 Predictive Intra" : "High 4:4:4 Predictive";
    case 44: return "CAVLC 4:4:4 Intra";
  }
  return "Unspecified";
}

struct ScalingLists {
  std::vector<uint32_t> present, l4, d4, l8, d8;
  int32_t delta = 0;
  void one(Codec& c, bool eight, uint32_t idx) {
    auto& l = eight ? l8 : l4;
    auto& d = eight ? d8 : d4;
    uint32_t n = eight ? 64 : 16;
    int last = 8, next = 8;
    for (uint32_t j = 0; j < n; j++) {
      if (next != 0) {
        if (c.enc) {
          if (c.rng->chance(1, 6))
            c.want(-last);  // stop: repeat the last value (or use the default)
          else
            c.want(c.rng->chance(1, 2) ? c.rng->range(-4, 4)
                                       : c.rng->range(-128, 127));
        }
        delta = (int32_t)c.qse(-128, 127);
        next = (last + delta + 256) % 256;
        while (d.size() <= idx) d.push_back(0);
        d[idx] = (j == 0 && next == 0);
      }
      int cur = next == 0 ? last : next;
      if (l.size() <= j) l.resize(j + 1, 0);
      l[j] = (uint32_t)cur;
      last = cur;
    }
  }
  void all(Codec& c, uint32_t count) {
    for (uint32_t i = 0; i < count; i++) {
      if (c.enc) c.want(c.rng->chance(1, 3));
      uint32_t f = (uint32_t)c.qu(1);
      present.push_back(f);
      if (f) one(c, i >= 6, i >= 6 ? i - 6 : i);
    }
  }
  void dump(Codec& c, const char* present_name) {
    c.list(present_name, present);
    c.list("ScalingList4x4", l4);
    c.list("UseDefaultScalingMatrix4x4Flag", d4);
    c.list("ScalingList8x8", l8);
    c.list("UseDefaultScalingMatrix8x8Flag", d8);
    c.put("delta_scale", delta);
  }
};

inline void hrd(Codec& c, const Gen& g) {
  c.open("hrd_parameters");
  if (c.enc && g.small) c.want((int64_t)c.rng->below(3));
  uint32_t n = c.ue("cpb_cnt_minus1", 0, 31);
  c.u("bit_rate_scale", 4);
  c.qu(4);  // cpb_size_scale is not dumped
  std::vector<uint32_t> br, cs, cb;
  for (uint32_t i = 0; i <= n; i++) {
    br.push_back((uint32_t)c.que(0, 0xfffffffeull));
    cs.push_back((uint32_t)c.que(0, 0xfffffffeull));
    cb.push_back((uint32_t)c.qu(1));
  }
  c.list("bit_rate_value_minus1", br);
  c.list("cpb_size_value_minus1", cs);
  c.list("cbr_flag", cb);
  c.u("initial_cpb_removal_delay_length_minus1", 5);
  c.u("cpb_removal_delay_length_minus1", 5);
  c.u("dpb_output_delay_length_minus1", 5);
  c.u("time_offset_length", 5);
  c.close();
}

inline void vui(Codec& c, const Gen& g) {
  c.open("vui_parameters");
  if (c.u("aspect_ratio_info_present_flag", 1)) {
    if (c.enc && c.rng->chance(1, 3)) c.want(255);
    if (c.u("aspect_ratio_idc", 8) == 255) {
      c.u("sar_width", 16);
      c.u("sar_height", 16);
    }
  }
  if (c.u("overscan_info_present_flag", 1)) c.u("overscan_appropriate_flag", 1);
  if (c.u("video_signal_type_present_flag", 1)) {
    c.u("video_format", 3);
    c.u("video_full_range_flag", 1);
    if (c.u("colour_description_present_flag", 1)) {
      c.u("colour_primaries", 8);
      c.u("transfer_characteristics", 8);
      c.u("matrix_coefficients", 8);
    }
  }
  if (c.u("chroma_loc_info_present_flag", 1)) {
    c.ue("chroma_sample_loc_type_top_field", 0, 5);
    c.ue("chroma_sample_loc_type_bottom_field", 0, 5);
  }
  if (c.u("timing_info_present_flag", 1)) {
    if (c.enc) c.want((int64_t)c.rng->pick(1, 0xffffffffull));
    if (c.u("num_units_in_tick", 32) == 0) throw Reject{};
    if (c.enc) c.want((int64_t)c.rng->pick(1, 0xffffffffull));
    if (c.u("time_scale", 32) == 0) throw Reject{};
    c.u("fixed_frame_rate_flag", 1);
  }
  uint32_t a = c.u("nal_hrd_parameters_present_flag", 1);
  if (a) hrd(c, g);
  uint32_t b = c.u("vcl_hrd_parameters_present_flag", 1);
  if (b) hrd(c, g);
  if (a || b) c.u("low_delay_hrd_flag", 1);
  c.u("pic_struct_present_flag", 1);
  if (c.u("bitstream_restriction_flag", 1)) {
    c.u("motion_vectors_over_pic_boundaries_flag", 1);
    c.ue("max_bytes_per_pic_denom", 0, 16);
    c.ue("max_bits_per_mb_denom", 0, 16);
    c.ue("log2_max_mv_length_horizontal", 0, 16);
    c.ue("log2_max_mv_length_vertical", 0, 16);
    c.ue("max_num_reorder_frames", 0, 16);
    c.ue("max_dec_frame_buffering", 0, 16);
  }
  c.close();
}

// seq_parameter_set_data().  `subset`: 0 plain SPS, otherwise the profile the
// encoder must use.
inline Sps sps_data(Codec& c, const Gen& g, uint32_t enc_profile = 0) {
  Sps s;
  c.open("sps_data");
  if (c.enc) {
    static const uint32_t low[] = {66, 77, 88, 66, 77, 144, 1, 255};
    static const uint32_t high[] = {100, 110, 122, 244, 44, 100, 118, 128,
                                    138, 139, 134, 135, 83, 86};
    uint32_t p;
    bool hi = g.high < 0 ? c.rng->chance(1, 2) : g.high > 0;
    p = hi ? high[c.rng->below(14)] : low[c.rng->below(8)];
    c.want(enc_profile ? enc_profile : p);
  }
  s.profile_idc = c.u("profile_idc", 8);
  uint32_t cs[6];
  static const char* csn[] = {"constraint_set0_flag", "constraint_set1_flag",
                              "constraint_set2_flag", "constraint_set3_flag",
                              "constraint_set4_flag", "constraint_set5_flag"};
  for (int i = 0; i < 6; i++) cs[i] = c.u(csn[i], 1);
  c.u("reserved_zero_2bits", 2);
  c.word("profile:");
  c.word(profile_name(s.profile_idc, cs));
  c.u("level_idc", 8);
  if (c.enc) c.want(g.sps_id);
  s.id = c.ue("seq_parameter_set_id", 0, 31);
  if (high_profile(s.profile_idc)) {
    s.chroma_format_idc = c.ue("chroma_format_idc", 0, 3);
    if (s.chroma_format_idc == 3)
      s.separate_colour_plane_flag = c.u("separate_colour_plane_flag", 1);
    s.bit_depth_luma_minus8 = c.ue("bit_depth_luma_minus8", 0, 6);
    c.ue("bit_depth_chroma_minus8", 0, 6);
    c.u("qpprime_y_zero_transform_bypass_flag", 1);
    ScalingLists sl;
    if (c.enc) c.want(c.rng->chance(1, 4));
    if (c.u("seq_scaling_matrix_present_flag", 1))
      sl.all(c, s.chroma_format_idc != 3 ? 8 : 12);
    sl.dump(c, "seq_scaling_list_present_flag");
  }
  s.log2_max_frame_num = 4 + c.ue("log2_max_frame_num_minus4", 0, 12);
  s.poc_type = c.ue("pic_order_cnt_type", 0, 2);
  if (s.poc_type == 0) {
    s.log2_max_poc_lsb = 4 + c.ue("log2_max_pic_order_cnt_lsb_minus4", 0, 12);
  } else if (s.poc_type == 1) {
    s.delta_pic_order_always_zero_flag =
        c.u("delta_pic_order_always_zero_flag", 1);
    c.se("offset_for_non_ref_pic");
    c.se("offset_for_top_to_bottom_field");
    if (c.enc && g.small) c.want((int64_t)c.rng->below(4));
    uint32_t n = c.ue("num_ref_frames_in_pic_order_cnt_cycle", 0, 255);
    std::vector<int32_t> o;
    for (uint32_t i = 0; i < n; i++)
      o.push_back((int32_t)c.qse(-0x7fffffffll, 0x7fffffffll));
    c.list("offset_for_ref_frame", o);
  }
  s.max_refs = c.ue("max_num_ref_frames", 0, 16);
  c.u("gaps_in_frame_num_value_allowed_flag", 1);
  bool few = c.enc && g.sizes > 0;
  if (few) c.want((int64_t)c.rng->below((uint64_t)g.sizes) * 7 + 3);
  s.width_mbs = c.ue("pic_width_in_mbs_minus1", 0, 1055) + 1;
  if (few) c.want(c.rng->chance(1, 3) ? 11 : 5);
  s.height_map_units = c.ue("pic_height_in_map_units_minus1", 0, 1055) + 1;
  s.frame_mbs_only = c.u("frame_mbs_only_flag", 1);
  if (!s.frame_mbs_only) s.mb_adaptive = c.u("mb_adaptive_frame_field_flag", 1);
  c.u("direct_8x8_inference_flag", 1);
  uint32_t cux = 1, cuy = 1;
  switch (s.chroma_array_type()) {
    case 1: cux = 2; cuy = 2; break;
    case 2: cux = 2; cuy = 1; break;
  }
  cuy *= 2 - s.frame_mbs_only;
  uint32_t W = 16 * s.width_mbs;
  uint32_t H = 16 * (2 - s.frame_mbs_only) * s.height_map_units;
  uint32_t crop_w = 0, crop_h = 0;
  if (few) c.want(c.rng->chance(1, 6));
  if (c.u("frame_cropping_flag", 1)) {
    uint32_t maxx = (W - 1) / cux, maxy = (H - 1) / cuy;
    if (maxx > 16880) maxx = 16880;
    if (maxy > 16880) maxy = 16880;
    if (c.enc) c.want((int64_t)c.rng->pick(0, maxx));
    uint32_t l = c.ue("frame_crop_left_offset", 0, 16880);
    if (c.enc) c.want((int64_t)c.rng->pick(0, maxx - l));
    uint32_t r = c.ue("frame_crop_right_offset", 0, 16880);
    if (c.enc) c.want((int64_t)c.rng->pick(0, maxy));
    uint32_t t = c.ue("frame_crop_top_offset", 0, 16880);
    if (c.enc) c.want((int64_t)c.rng->pick(0, maxy - t));
    uint32_t b = c.ue("frame_crop_bottom_offset", 0, 16880);
    crop_w = cux * (l + r);
    crop_h = cuy * (t + b);
    if (crop_w >= W || crop_h >= H) throw Reject{};
  }
  if (c.enc) c.want(g.vui >= 0 ? g.vui : c.rng->chance(1, 3));
  if (c.u("vui_parameters_present_flag", 1)) {
    s.has_vui = true;
    vui(c, g);
  }
  s.width = (int)(W - crop_w);
  s.height = (int)(H - crop_h);
  c.put("width", s.width);
  c.put("height", s.height);
  c.close();
  return s;
}

inline Sps sps(Codec& c, const Gen& g) {
  c.open("sps");
  Sps s = sps_data(c, g);
  c.trailing();
  c.close();
  return s;
}

// ------------------------------------------------------------------- PPS
struct Pps {
  uint32_t id = 0, sps_id = 0;
  uint32_t entropy = 0, bottom_poc = 0;
  uint32_t num_slice_groups_minus1 = 0, map_type = 0;
  uint64_t change_rate = 1;
  uint32_t l0 = 0, l1 = 0;
  uint32_t weighted_pred = 0, weighted_bipred = 0;
  uint32_t deblocking = 0, redundant = 0;
  std::string text;
};

// more_rbsp_data(): is there anything before the rbsp_trailing_bits()?  The
// decoder looks no further than the last byte, as the library documents.
inline bool more_rbsp(const Codec& c) {
  size_t left = c.r.left();
  if (left == 0) return false;
  if (left > 8) return true;
  BitReader p = c.r;
  uint64_t v = p.bits((int)left);
  return v != (1ull << (left - 1));
}

inline Pps pps(Codec& c, const Gen& g, uint32_t chroma_format_idc) {
  Pps p;
  c.open("pps");
  if (c.enc) c.want(g.pps_id);
  p.id = c.ue("pic_parameter_set_id", 0, 255);
  if (c.enc) c.want(g.sps_id);
  p.sps_id = c.ue("seq_parameter_set_id", 0, 31);
  p.entropy = c.u("entropy_coding_mode_flag", 1);
  p.bottom_poc = c.u("bottom_field_pic_order_in_frame_present_flag", 1);
  if (c.enc) {
    if (g.map_type == -2)
      c.want(0);
    else if (g.map_type >= 0)
      c.want((int64_t)c.rng->range(1, 7));
    else
      c.want(c.rng->chance(1, 3) ? (int64_t)c.rng->range(1, 7) : 0);
  }
  p.num_slice_groups_minus1 = c.ue("num_slice_groups_minus1", 0, 7);
  if (p.num_slice_groups_minus1 > 0) {
    if (c.enc && g.map_type >= 0) c.want(g.map_type);
    p.map_type = c.ue("slice_group_map_type", 0, 6);
    if (p.map_type == 0) {
      std::vector<uint32_t> v;
      for (uint32_t i = 0; i <= p.num_slice_groups_minus1; i++)
        v.push_back((uint32_t)c.que(0, 0xfffffffeull));
      c.list("run_length_minus1", v);
    } else if (p.map_type == 2) {
      std::vector<uint32_t> a, b;
      for (uint32_t i = 0; i < p.num_slice_groups_minus1; i++) {
        a.push_back((uint32_t)c.que(0, 0xfffffffeull));
        b.push_back((uint32_t)c.que(0, 0xfffffffeull));
      }
      c.list("top_left", a);
      c.list("bottom_right", b);
    } else if (p.map_type >= 3 && p.map_type <= 5) {
      c.u("slice_group_change_direction_flag", 1);
      if (c.enc && c.rng->chance(2, 3)) c.want((int64_t)c.rng->below(40));
      p.change_rate =
          1ull + c.ue("slice_group_change_rate_minus1", 0, 0xfffffffeull);
    } else if (p.map_type == 6) {
      if (c.enc) c.want((int64_t)c.rng->below(c.rng->chance(1, 40) ? 20000 : g.small ? 20 : 400));
      uint32_t n = c.ue("pic_size_in_map_units_minus1", 0, 139263);
      int len = 0;  // Ceil(Log2(num_slice_groups_minus1 + 1))
      while ((1u << len) < p.num_slice_groups_minus1 + 1) len++;
      if (!c.enc && (uint64_t)c.r.left() < (uint64_t)len * (n + 1ull))
        throw Reject{};
      std::vector<uint32_t> v;
      v.reserve(n + 1);
      for (uint32_t i = 0; i <= n; i++) v.push_back((uint32_t)c.qu(len));
      c.list("slice_group_id", v);
    }
  }
  if (c.enc && c.rng->chance(2, 3)) c.want((int64_t)c.rng->below(4));
  p.l0 = c.ue("num_ref_idx_l0_default_active_minus1", 0, 31);
  if (c.enc && c.rng->chance(2, 3)) c.want((int64_t)c.rng->below(4));
  p.l1 = c.ue("num_ref_idx_l1_default_active_minus1", 0, 31);
  p.weighted_pred = c.u("weighted_pred_flag", 1);
  p.weighted_bipred = c.u("weighted_bipred_idc", 2);
  c.se("pic_init_qp_minus26");
  c.se("pic_init_qs_minus26");
  c.se("chroma_qp_index_offset");
  p.deblocking = c.u("deblocking_filter_control_present_flag", 1);
  c.u("constrained_intra_pred_flag", 1);
  p.redundant = c.u("redundant_pic_cnt_present_flag", 1);
  uint32_t t8 = 0, mat = 0;
  int64_t second = 0;
  ScalingLists sl;
  bool more = c.enc ? c.rng->chance(1, 2) : more_rbsp(c);
  if (more) {
    t8 = (uint32_t)c.qu(1);
    if (c.enc) c.want(c.rng->chance(1, 2));
    mat = (uint32_t)c.qu(1);
    if (mat) sl.all(c, 6 + (chroma_format_idc != 3 ? 2 : 6) * t8);
    second = c.qse(-0x7fffffffll, 0x7fffffffll);
  }
  c.put("transform_8x8_mode_flag", t8);
  c.put("pic_scaling_matrix_present_flag", mat);
  sl.dump(c, "pic_scaling_list_present_flag");
  c.put("second_chroma_qp_index_offset", second);
  c.trailing();
  c.close();
  return p;
}

// -------------------------------------------------------------- subset SPS
struct SvcExt {
  bool present = false;
  uint32_t deblock_ctl = 0, ess_idc = 0, cat = 0;
  uint32_t tcoeff_pred = 0, adaptive_tcoeff = 0, restriction = 0;
};

struct SubsetSps {
  Sps d;
  SvcExt x;
  std::string text;
};

inline SubsetSps subset_sps(Codec& c, const Gen& g) {
  SubsetSps s;
  c.open("subset_sps");
  uint32_t prof = 0;
  if (c.enc) {
    static const uint32_t other[] = {118, 128, 134, 135, 138, 139, 100, 66};
    prof = c.rng->chance(1, 2) ? 83 : 86;
    if (c.rng->chance(1, 8)) prof = other[c.rng->below(8)];
  }
  s.d = sps_data(c, g, prof);
  uint32_t p = s.d.profile_idc;
  if (p == 83 || p == 86) {
    SvcExt& x = s.x;
    x.present = true;
    x.cat = s.d.chroma_array_type();
    c.open("seq_parameter_set_svc_extension");
    x.deblock_ctl = c.u("inter_layer_deblocking_filter_control_present_flag", 1);
    x.ess_idc = c.u("extended_spatial_scalability_idc", 2);
    if (x.cat == 1 || x.cat == 2) c.u("chroma_phase_x_plus1_flag", 1);
    if (x.cat == 1) c.u("chroma_phase_y_plus1", 2);
    if (x.ess_idc == 1) {
      if (x.cat > 0) {
        c.u("seq_ref_layer_chroma_phase_x_plus1_flag", 1);
        c.u("seq_ref_layer_chroma_phase_y_plus1", 2);
      }
      c.se("seq_scaled_ref_layer_left_offset");
      c.se("seq_scaled_ref_layer_top_offset");
      c.se("seq_scaled_ref_layer_right_offset");
      c.se("seq_scaled_ref_layer_bottom_offset");
    }
    x.tcoeff_pred = c.u("seq_tcoeff_level_prediction_flag", 1);
    if (x.tcoeff_pred)
      x.adaptive_tcoeff = c.u("adaptive_tcoeff_level_prediction_flag", 1);
    x.restriction = c.u("slice_header_restriction_flag", 1);
    c.close();
    if (c.enc) c.want(0);  // svc_vui_parameters_extension() is not parsed
    c.u("svc_vui_parameters_present_flag", 1);
  } else if (p == 118 || p == 128 || p == 134) {
    c.u("bit_equal_to_one", 1);
    c.u("mvc_vui_parameters_present_flag", 1);
  } else if (p == 138 || p == 135 || p == 139) {
    c.u("bit_equal_to_one", 1);
  }
  if (c.enc) c.want(c.rng->chance(1, 4));
  if (c.u("additional_extension2_flag", 1)) {
    uint32_t last = 0;
    if (c.enc) {
      for (uint64_t n = c.rng->below(20) + 1; n--;) last = (uint32_t)c.qu(1);
    } else {
      while (more_rbsp(c)) last = (uint32_t)c.qu(1);
    }
    c.put("additional_extension2_data_flag", last);
  }
  c.trailing();
  c.close();
  return s;
}

}  // namespace model
