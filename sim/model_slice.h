// Reference model: slice headers (base and scalable), prefix NAL units.
#pragma once
#include "model_ps.h"

namespace model {

struct NalHeader {
  uint32_t forbidden = 0, ref_idc = 0, type = 0;
  bool svc = false;
  uint32_t idr = 0, no_inter_layer_pred = 0, dependency_id = 0, quality_id = 0;
  uint32_t use_ref_base_pic = 0;
};

// What one receiver has seen: the last good set per identifier, in three
// independent identifier spaces.
struct Store {
  std::map<uint32_t, Sps> sps;
  std::map<uint32_t, Pps> pps;
  std::map<uint32_t, SubsetSps> subset;
  uint32_t chroma_for_pps(uint32_t sps_id) const {
    auto a = sps.find(sps_id);
    if (a != sps.end()) return a->second.chroma_format_idc;
    auto b = subset.find(sps_id);
    if (b != subset.end()) return b->second.d.chroma_format_idc;
    return 1;
  }
};

// Facts about a decoded unit that are not part of the dump text.
struct SliceFacts {
  bool is_slice = false;
  uint32_t l0 = 0, l1 = 0;  // effective number of reference indices
  bool has_ref = false;
  uint32_t frame_num = 0, first_mb = 0, slice_type = 0, pps_id = 0;
  uint32_t sps_id = 0, field = 0, max_frame_num = 0, max_refs = 0;
  // reference marking and the commands for list 0, as coded
  bool adaptive = false, idr_long = false;
  std::vector<uint32_t> op, diff, ltp, ltf, mx;
  std::vector<uint32_t> mod, mod_abs, mod_lt;
};

inline void ref_list_mod_one(Codec& c, std::vector<uint32_t>& idc,
                             std::vector<uint32_t>& abs,
                             std::vector<uint32_t>& lt) {
  int n = 0;
  // at times a long list, so that a limit shows
  int most = c.enc && c.rng->chance(1, 40) ? 20 + (int)c.rng->below(120) : 0;
  for (;;) {
    if (c.enc && most)
      c.want(n >= most ? 3 : (int64_t)c.rng->below(3));
    else if (c.enc)
      c.want(n >= 4 ? 3 : (int64_t)c.rng->below(4));
    n++;
    uint32_t v = (uint32_t)c.que(0, 3);
    idc.push_back(v);
    if (v == 3) break;
    if (v == 2)
      lt.push_back((uint32_t)c.que(0, 0xfffffffeull));
    else
      abs.push_back((uint32_t)c.que(0, 0xfffffffeull));
  }
}

inline void ref_list_mod(Codec& c, uint32_t slice_type,
                         SliceFacts* f = nullptr) {
  uint32_t t = slice_type % 5;
  std::vector<uint32_t> idc, abs, lt;
  uint32_t f0 = 0, f1 = 0;
  if (t != 2 && t != 4) {
    f0 = (uint32_t)c.qu(1);
    if (f0) ref_list_mod_one(c, idc, abs, lt);
    if (f) f->mod = idc, f->mod_abs = abs, f->mod_lt = lt;
  }
  if (t == 1) {
    f1 = (uint32_t)c.qu(1);
    if (f1) ref_list_mod_one(c, idc, abs, lt);
  }
  c.open("ref_pic_list_modification");
  c.put("ref_pic_list_modification_flag_l0", f0);
  c.put("ref_pic_list_modification_flag_l1", f1);
  if (!idc.empty()) c.list("modification_of_pic_nums_idc", idc);
  if (!abs.empty()) c.list("abs_diff_pic_num_minus1", abs);
  if (!lt.empty()) c.list("long_term_pic_num", lt);
  c.close();
}

struct WeightList {
  std::vector<uint32_t> lf, cf;
  std::vector<int32_t> lw, lo;
  std::vector<std::vector<int32_t>> cw, co;
  void read(Codec& c, uint32_t n, uint32_t cat) {
    for (uint32_t i = 0; i <= n; i++) {
      lf.push_back((uint32_t)c.qu(1));
      if (lf.back()) {
        lw.push_back((int32_t)c.qse(-0x7fffffffll, 0x7fffffffll));
        lo.push_back((int32_t)c.qse(-0x7fffffffll, 0x7fffffffll));
      }
      if (cat) {
        cf.push_back((uint32_t)c.qu(1));
        if (cf.back()) {
          std::vector<int32_t> a, b;
          for (int j = 0; j < 2; j++) {
            a.push_back((int32_t)c.qse(-0x7fffffffll, 0x7fffffffll));
            b.push_back((int32_t)c.qse(-0x7fffffffll, 0x7fffffffll));
          }
          cw.push_back(a);
          co.push_back(b);
        }
      }
    }
  }
  static void nested(Codec& c, const char* name,
                     const std::vector<std::vector<int32_t>>& v) {
    c.open(name);
    for (auto& x : v) {
      c.word("{");
      for (int32_t y : x) c.word(std::to_string(y).c_str());
      c.word("}");
    }
    c.close();
  }
  void dump(Codec& c, int l, uint32_t cat) {
    std::string s = l ? "l1" : "l0";
    c.list(("luma_weight_" + s + "_flag").c_str(), lf);
    c.list(("luma_weight_" + s).c_str(), lw);
    c.list(("luma_offset_" + s).c_str(), lo);
    if (cat) {
      c.list(("chroma_weight_" + s + "_flag").c_str(), cf);
      nested(c, ("chroma_weight_" + s).c_str(), cw);
      nested(c, ("chroma_offset_" + s).c_str(), co);
    }
  }
};

inline void pred_weight(Codec& c, uint32_t cat, uint32_t slice_type,
                        uint32_t l0, uint32_t l1) {
  c.open("pred_weight_table");
  c.ue("luma_log2_weight_denom", 0, 7);
  if (cat) c.ue("chroma_log2_weight_denom", 0, 7);
  WeightList a, b;
  a.read(c, l0, cat);
  bool bi = slice_type % 5 == 1;
  if (bi) b.read(c, l1, cat);
  a.dump(c, 0, cat);
  if (bi) b.dump(c, 1, cat);
  c.close();
}

inline void ref_marking(Codec& c, bool idr, SliceFacts* f = nullptr) {
  c.open("dec_ref_pic_marking");
  if (idr) {
    c.u("no_output_of_prior_pics_flag", 1);
    uint32_t v = c.u("long_term_reference_flag", 1);
    if (f) f->idr_long = v;
  } else if (c.u("adaptive_ref_pic_marking_mode_flag", 1)) {
    std::vector<uint32_t> op, diff, ltp, ltf, mx;
    int n = 0;
    int most = c.enc && c.rng->chance(1, 40) ? 20 + (int)c.rng->below(120) : 0;
    for (;;) {
      if (c.enc && most)
        c.want(n >= most ? 0 : 1 + (int64_t)c.rng->below(6));
      else if (c.enc)
        c.want(n >= 5 ? 0 : (int64_t)c.rng->below(7));
      n++;
      uint32_t v = (uint32_t)c.que(0, 6);
      op.push_back(v);
      if (v == 0) break;
      if (v == 1 || v == 3) diff.push_back((uint32_t)c.que(0, 0xfffffffeull));
      if (v == 2) ltp.push_back((uint32_t)c.que(0, 0xfffffffeull));
      if (v == 3 || v == 6) ltf.push_back((uint32_t)c.que(0, 0xfffffffeull));
      if (v == 4) mx.push_back((uint32_t)c.que(0, 0xfffffffeull));
    }
    c.list("memory_management_control_operation", op);
    c.list("difference_of_pic_nums_minus1", diff);
    c.list("long_term_pic_num", ltp);
    c.list("long_term_frame_idx", ltf);
    c.list("max_long_term_frame_idx_plus1", mx);
    if (f) {
      f->adaptive = true;
      f->op = op, f->diff = diff, f->ltp = ltp, f->ltf = ltf, f->mx = mx;
    }
  }
  c.close();
}

// Ceil(Log2(PicSizeInMapUnits / SliceGroupChangeRate + 1)), exactly
inline int change_cycle_bits(const Sps& s, uint64_t rate) {
  uint64_t size = (uint64_t)s.width_mbs * s.height_map_units;
  int n = 0;
  while ((rate << n) < size + rate) n++;
  return n;
}

struct SliceGen {
  uint32_t pps_id = 0;
  int slice_type = -1;
};

struct Unimplemented {};  // recognised syntax the library does not implement

// slice_header()
inline SliceFacts slice_header(Codec& c, const NalHeader& h, const Store& st,
                               const SliceGen& g) {
  SliceFacts f;
  f.is_slice = true;
  c.open("slice_header");
  if (c.enc && c.rng->chance(1, 2)) c.want(0);
  f.first_mb = c.ue("first_mb_in_slice", 0, 139263);
  if (c.enc)
    c.want(g.slice_type >= 0 ? g.slice_type : (int64_t)c.rng->below(10));
  uint32_t type = c.ue("slice_type", 0, 9);
  f.slice_type = type;
  uint32_t t = type % 5;  // P B I SP SI
  if (c.enc) c.want(g.pps_id);
  f.pps_id = c.ue("pic_parameter_set_id", 0, 255);
  auto pi = st.pps.find(f.pps_id);
  if (pi == st.pps.end()) throw Reject{};
  const Pps& p = pi->second;
  auto si = st.sps.find(p.sps_id);
  if (si == st.sps.end()) throw Reject{};
  const Sps& s = si->second;
  if (s.separate_colour_plane_flag) c.u("colour_plane_id", 2);
  f.frame_num = c.u("frame_num", (int)s.log2_max_frame_num);
  uint32_t field = 0;
  if (!s.frame_mbs_only) {
    field = c.u("field_pic_flag", 1);
    if (field) c.u("bottom_field_flag", 1);
  }
  f.sps_id = p.sps_id;
  f.field = field;
  f.max_frame_num = 1u << s.log2_max_frame_num;
  f.max_refs = s.max_refs;
  bool idr = h.type == 5;
  if (idr) c.ue("idr_pic_id", 0, 65535);
  if (s.poc_type == 0) {
    c.u("pic_order_cnt_lsb", (int)s.log2_max_poc_lsb);
    if (p.bottom_poc && !field) c.se("delta_pic_order_cnt_bottom");
  } else if (s.poc_type == 1 && !s.delta_pic_order_always_zero_flag) {
    std::vector<int32_t> d;
    d.push_back((int32_t)c.qse(-0x7fffffffll, 0x7fffffffll));
    if (p.bottom_poc && !field)
      d.push_back((int32_t)c.qse(-0x7fffffffll, 0x7fffffffll));
    c.list("delta_pic_order_cnt", d);
  }
  if (p.redundant) c.ue("redundant_pic_cnt", 0, 127);
  if (t == 1) c.u("direct_spatial_mv_pred_flag", 1);
  if (t == 0 || t == 1 || t == 3) {
    f.has_ref = true;
    f.l0 = p.l0;
    f.l1 = p.l1;
    if (c.u("num_ref_idx_active_override_flag", 1)) {
      f.l1 = 0;
      f.l0 = c.ue("num_ref_idx_l0_active_minus1", 0, 31);
      if (t == 1) f.l1 = c.ue("num_ref_idx_l1_active_minus1", 0, 31);
    }
  }
  if (h.type == 20 || h.type == 21) throw Unimplemented{};
  ref_list_mod(c, type, &f);
  if ((p.weighted_pred && (t == 0 || t == 3)) ||
      (p.weighted_bipred == 1 && t == 1))
    pred_weight(c, s.chroma_array_type(), type, f.l0, f.l1);
  if (h.ref_idc != 0) ref_marking(c, idr, &f);
  if (p.entropy && t != 2 && t != 4) c.ue("cabac_init_idc", 0, 2);
  int lim = 51 + 6 * (int)s.bit_depth_luma_minus8;
  c.se("slice_qp_delta", -lim, lim);
  if (t == 3 || t == 4) {
    if (t == 3) c.u("sp_for_switch_flag", 1);
    c.se("slice_qs_delta");
  }
  if (p.deblocking) {
    if (c.ue("disable_deblocking_filter_idc", 0, 2) != 1) {
      c.se("slice_alpha_c0_offset_div2");
      c.se("slice_beta_offset_div2");
    }
  }
  if (p.num_slice_groups_minus1 > 0 && p.map_type >= 3 && p.map_type <= 5)
    c.u("slice_group_change_cycle", change_cycle_bits(s, p.change_rate));
  c.close();
  return f;
}

// slice_header_in_scalable_extension()
inline SliceFacts slice_header_svc(Codec& c, const NalHeader& h,
                                   const Store& st, const SliceGen& g) {
  SliceFacts f;
  f.is_slice = true;
  c.open("slice_header_in_scalable_extension");
  if (c.enc && c.rng->chance(1, 2)) c.want(0);
  f.first_mb = c.ue("first_mb_in_slice", 0, 139263);
  if (c.enc) {
    static const int types[] = {0, 1, 2, 5, 6, 7};
    c.want(g.slice_type >= 0 ? g.slice_type : types[c.rng->below(6)]);
  }
  uint32_t type = c.ue("slice_type", 0, 9);
  f.slice_type = type;
  uint32_t t = type % 5;  // EP EB EI
  if (c.enc) c.want(g.pps_id);
  f.pps_id = c.ue("pic_parameter_set_id", 0, 255);
  auto pi = st.pps.find(f.pps_id);
  if (pi == st.pps.end()) throw Reject{};
  const Pps& p = pi->second;
  auto si = st.subset.find(p.sps_id);
  if (si == st.subset.end()) throw Reject{};
  const Sps& s = si->second.d;
  const SvcExt& x = si->second.x;
  if (!x.present) throw Reject{};
  if (s.separate_colour_plane_flag) c.u("colour_plane_id", 2);
  f.frame_num = c.u("frame_num", (int)s.log2_max_frame_num);
  uint32_t field = 0;
  if (!s.frame_mbs_only) {
    field = c.u("field_pic_flag", 1);
    if (field) c.u("bottom_field_flag", 1);
  }
  if (h.idr) c.ue("idr_pic_id", 0, 65535);
  if (s.poc_type == 0) {
    c.u("pic_order_cnt_lsb", (int)s.log2_max_poc_lsb);
    if (p.bottom_poc && !field) c.se("delta_pic_order_cnt_bottom");
  } else if (s.poc_type == 1 && !s.delta_pic_order_always_zero_flag) {
    std::vector<int32_t> d;
    d.push_back((int32_t)c.qse(-0x7fffffffll, 0x7fffffffll));
    if (p.bottom_poc && !field)
      d.push_back((int32_t)c.qse(-0x7fffffffll, 0x7fffffffll));
    c.list("delta_pic_order_cnt", d);
  }
  if (p.redundant) c.ue("redundant_pic_cnt", 0, 127);
  if (h.quality_id == 0) {
    if (t == 1) c.u("direct_spatial_mv_pred_flag", 1);
    if (t == 0 || t == 1) {
      f.has_ref = true;
      f.l0 = p.l0;
      f.l1 = p.l1;
      if (c.u("num_ref_idx_active_override_flag", 1)) {
        f.l1 = 0;
        f.l0 = c.ue("num_ref_idx_l0_active_minus1", 0, 31);
        if (t == 1) f.l1 = c.ue("num_ref_idx_l1_active_minus1", 0, 31);
      }
    }
    ref_list_mod(c, type);
    if ((p.weighted_pred && t == 0) || (p.weighted_bipred == 1 && t == 1)) {
      uint32_t base = 0;
      if (!h.no_inter_layer_pred) base = c.u("base_pred_weight_table_flag", 1);
      if (h.no_inter_layer_pred || !base)
        pred_weight(c, s.chroma_array_type(), type, f.l0, f.l1);
    }
    if (h.ref_idc != 0) {
      ref_marking(c, h.idr);
      if (!x.restriction) {
        if (c.enc && !h.idr) c.want(c.rng->chance(1, 8));
        uint32_t store = c.u("store_ref_base_pic_flag", 1);
        if ((h.use_ref_base_pic || store) && !h.idr) throw Unimplemented{};
      }
    }
  }
  if (p.entropy && t != 2) {
    // slice types 3, 4, 8 and 9 do not exist in the extension; they are read
    // like any other slice that is not EI
    c.ue("cabac_init_idc", 0, 2);
  }
  c.se("slice_qp_delta");
  if (p.deblocking) {
    if (c.ue("disable_deblocking_filter_idc", 0, 6) != 1) {
      c.se("slice_alpha_c0_offset_div2");
      c.se("slice_beta_offset_div2");
    }
  }
  if (p.num_slice_groups_minus1 > 0 && p.map_type >= 3 && p.map_type <= 5)
    c.u("slice_group_change_cycle", change_cycle_bits(s, p.change_rate));
  if (!h.no_inter_layer_pred && h.quality_id == 0) {
    c.ue("ref_layer_dq_id");
    if (x.deblock_ctl) {
      if (c.ue("disable_inter_layer_deblocking_filter_idc") != 1) {
        c.se("inter_layer_slice_alpha_c0_offset_div2");
        c.se("inter_layer_slice_beta_offset_div2");
      }
    }
    c.u("constrained_intra_resampling_flag", 1);
    if (x.ess_idc == 2) {
      if (s.chroma_array_type() > 0) {
        c.u("ref_layer_chroma_phase_x_plus1_flag", 1);
        c.u("ref_layer_chroma_phase_y_plus1", 2);
      }
      c.se("scaled_ref_layer_left_offset");
      c.se("scaled_ref_layer_top_offset");
      c.se("scaled_ref_layer_right_offset");
      c.se("scaled_ref_layer_bottom_offset");
    }
  }
  uint32_t skip = 0;
  if (!h.no_inter_layer_pred) {
    skip = c.u("slice_skip_flag", 1);
    if (skip) {
      c.ue("num_mbs_in_slice_minus1");
    } else {
      uint32_t dbm = 0;
      if (!c.u("adaptive_base_mode_flag", 1))
        dbm = c.u("default_base_mode_flag", 1);
      if (!dbm) {
        if (!c.u("adaptive_motion_prediction_flag", 1))
          c.u("default_motion_prediction_flag", 1);
      }
      if (!c.u("adaptive_residual_prediction_flag", 1))
        c.u("default_residual_prediction_flag", 1);
    }
    if (x.adaptive_tcoeff) c.u("tcoeff_level_prediction_flag", 1);
  }
  if (!x.restriction && !skip) {
    c.u("scan_idx_start", 4);
    c.u("scan_idx_end", 4);
  }
  c.close();
  return f;
}

// prefix_nal_unit_rbsp()
inline void prefix_unit(Codec& c, const NalHeader& h) {
  c.open("prefix_nal_unit_rbsp");
  c.open("prefix_nal_unit_svc");
  if (h.ref_idc != 0) {
    if (c.enc && !h.idr) c.want(c.rng->chance(1, 8));
    uint32_t store = c.u("store_ref_base_pic_flag", 1);
    if ((h.use_ref_base_pic || store) && !h.idr) throw Unimplemented{};
    uint32_t ext = (uint32_t)c.qu(1), data = 0;
    if (c.enc) {
      if (ext)
        for (uint64_t n = c.rng->below(20); n--;) data = (uint32_t)c.qu(1);
      c.trailing();
    } else {
      bool any = ext;
      while (more_rbsp(c)) {
        data = (uint32_t)c.qu(1);
        any = true;
      }
      if (any) c.trailing();
    }
    c.put("additional_prefix_nal_unit_extension_data_flag", data);
  }
  c.close();
  c.close();
}

}  // namespace model
