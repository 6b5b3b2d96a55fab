// ---------------------------------------------------------------- C23
struct Str { uint8_t n; char s[300]; };
Str rnd_str(Rng &r, uint32_t max) { Str s; memset(&s, 0, sizeof s); s.n = (uint8_t)(r.chance(1, 6) ? max : r.below(max + 1)); for (int i = 0; i < s.n; i++) s.s[i] = (char)(r.chance(1, 8) ? r.bits(8) : 32 + r.below(95)); return s; }
void put_str(BitW &w, const Str &s, int n = -1) { w.put(n >= 0 ? (uint64_t)n : s.n, 8); for (int i = 0; i < s.n; i++) w.put((uint8_t)s.s[i], 8); }
// Decode `w` whole (must be accepted), truncated (must be refused), and with a
// foreign number (must be refused).
template <class M> bool sta_decode(Rng &r, const char *what, const BitW &w, const std::function<rtcm3_rc(swiftnav_bitstream_t *, M *)> &dec, M *out) {
  memset((void *)out, fill(r), sizeof *out);
  rtcm3_rc rc = run_dec(w.b, w.n, [&](swiftnav_bitstream_t *s) { return dec(s, out); });
  VH_CHECK(rc == RC_OK, fmt("sta.refused-%s", what), "%s rc %d: %s", what, rc, hex(w.b).c_str());
  if (r.chance(1, 2)) {
    size_t nb = r.chance(1, 2) ? w.n - 1 - r.below(w.n > 24 ? 24 : 1) : r.below((uint32_t)w.n); Bytes b = w.b; b.resize((nb + 7) / 8);
    std::unique_ptr<M> d2 = dirty<M>(r);
    rtcm3_rc r2 = run_dec(b, nb, [&](swiftnav_bitstream_t *s) { return dec(s, d2.get()); });
    VH_CHECK(r2 != RC_OK, fmt("sta.truncated-%s", what), "%s: %zu of %zu bits accepted", what, nb, w.n); ev("truncated-refused");
  }
  if (r.chance(1, 4)) {
    Bytes b = w.b; uint32_t num = r.below(4096); uint32_t own = (uint32_t)b[0] << 4 | b[1] >> 4;
    if (num != own) { b[0] = (uint8_t)(num >> 4); b[1] = (uint8_t)((num & 15) << 4 | (b[1] & 15)); std::unique_ptr<M> d2 = dirty<M>(r);
      rtcm3_rc r2 = run_dec(b, w.n, [&](swiftnav_bitstream_t *s) { return dec(s, d2.get()); }); VH_CHECK(r2 == RC_MESSAGE_TYPE_MISMATCH, fmt("sta.mismatch-%s", what), "%s decoder on %u: %d", what, num, r2); ev("foreign-type-refused"); }
  }
  if (rc == RC_OK) { evs(fmt("sta-decoded-%s", what)); nontrivial(); distinct(w.b.data(), w.b.size()); }
  return rc == RC_OK;
}
template <class M> void sta_encode(Rng &r, const char *what, const BitW &w, const M &m, uint16_t (*enc)(const M *, uint8_t *)) {
  Heap h(w.b.size(), r); uint16_t n = enc(&m, h.p);
  VH_CHECK(n == w.b.size(), fmt("sta.enc-len-%s", what), "%s: %u want %zu", what, n, w.b.size()); if (n != w.b.size()) return;
  if (w.n % 8) h.p[n - 1] &= (uint8_t)(0xff << (8 - w.n % 8));  // padding is not part of the message
  if (memcmp(h.p, w.b.data(), n)) { size_t i = 0; while (h.p[i] == w.b[i]) i++; violate(fmt("sta.enc-%s", what), "%s differs from the standard layout at byte %zu: got %s want %s", what, i, hex(h.p, n).c_str(), hex(w.b).c_str()); }
  evs(fmt("sta-encoded-%s", what));
}
#define STR_EQ(cnt, arr, want) ((cnt) == (want).n && memcmp((arr), (want).s, (want).n) == 0)
void case_sta(Rng &r) {
  BitW w;
  switch (r.below(11)) {
    case 0: case 1: {
      bool h = r.chance(1, 2); rtcm_msg_1006 m; memset(&m, 0, sizeof m); rtcm_msg_1005 &a = m.msg_1005;
      int64_t x[3]; for (auto &v : x) { v = (int64_t)(r.bits(38) << 26) >> 26; }
      uint32_t hu = (uint32_t)r.bits(16);
      a.stn_id = (uint16_t)r.bits(12); a.ITRF = (uint8_t)r.bits(6); a.GPS_ind = (uint8_t)r.bits(1); a.GLO_ind = (uint8_t)r.bits(1); a.GAL_ind = (uint8_t)r.bits(1); a.ref_stn_ind = (uint8_t)r.bits(1); a.osc_ind = (uint8_t)r.bits(1); a.quart_cycle_ind = (uint8_t)r.bits(2);
      a.arp_x = (double)x[0] / 10000; a.arp_y = (double)x[1] / 10000; a.arp_z = (double)x[2] / 10000; m.ant_height = hu / 10000.0;
      auto build = [&](BitW &q, uint64_t res) { q.put(h ? 1006 : 1005, 12); q.put(a.stn_id, 12); q.put(a.ITRF, 6); q.put(a.GPS_ind, 1); q.put(a.GLO_ind, 1); q.put(a.GAL_ind, 1); q.put(a.ref_stn_ind, 1); q.puts(x[0], 38); q.put(a.osc_ind, 1); q.put(res, 1); q.puts(x[1], 38); q.put(a.quart_cycle_ind, 2); q.puts(x[2], 38); if (h) q.put(hu, 16); };
      build(w, r.bits(1)); rtcm_msg_1006 d; bool ok;
      if (h) ok = sta_decode<rtcm_msg_1006>(r, "1006", w, rtcm3_decode_1006_bitstream, &d);
      else { rtcm_msg_1005 d5; ok = sta_decode<rtcm_msg_1005>(r, "1005", w, rtcm3_decode_1005_bitstream, &d5); d.msg_1005 = d5; d.ant_height = 0; }
      if (ok) {
        rtcm_msg_1005 &q = d.msg_1005;
        VH_CHECK(q.stn_id == a.stn_id && q.ITRF == a.ITRF && q.GPS_ind == a.GPS_ind && q.GLO_ind == a.GLO_ind && q.GAL_ind == a.GAL_ind && q.ref_stn_ind == a.ref_stn_ind && q.osc_ind == a.osc_ind && q.quart_cycle_ind == a.quart_cycle_ind, "sta.1005-flags", "flags differ");
        VH_CHECK(close_to(q.arp_x, a.arp_x, 1e-6) && close_to(q.arp_y, a.arp_y, 1e-6) && close_to(q.arp_z, a.arp_z, 1e-6), "sta.1005-arp", "(%.4f %.4f %.4f) want (%.4f %.4f %.4f)", q.arp_x, q.arp_y, q.arp_z, a.arp_x, a.arp_y, a.arp_z);
        if (h) VH_CHECK(close_to(d.ant_height, m.ant_height, 1e-9), "sta.1006-height", "%.5f want %.5f", d.ant_height, m.ant_height);
      }
      BitW e; 
      // values between two units go to the nearest unit
      double off = r.uniform(-0.4999e-4, 0.4999e-4); if (r.chance(1, 2)) { a.arp_x += off; a.arp_z -= off; }
      if (h) { switch (r.below(4)) { case 0: m.ant_height = -r.unit() * 10; hu = 0; break; case 1: m.ant_height = 6.5535 + r.unit() * 10; hu = 65535; break; case 2: m.ant_height = r.uniform(0, 6.5535); hu = (uint32_t)lround(m.ant_height * 10000); break; default:; } }
      build(e, 0);
      if (h) sta_encode<rtcm_msg_1006>(r, "1006", e, m, rtcm3_encode_1006); else sta_encode<rtcm_msg_1005>(r, "1005", e, a, rtcm3_encode_1005);
      break;
    }
    case 2: case 3: {
      bool s8 = r.chance(1, 2); Str ad = rnd_str(r, 32), sn = rnd_str(r, 32); uint32_t stn = (uint32_t)r.bits(12), setup = (uint32_t)r.bits(8);
      w.put(s8 ? 1008 : 1007, 12); w.put(stn, 12); put_str(w, ad); w.put(setup, 8); if (s8) put_str(w, sn);
      rtcm_msg_1008 m; memset(&m, 0, sizeof m); rtcm_msg_1007 &a = m.msg_1007; a.stn_id = (uint16_t)stn; a.ant_descriptor_counter = ad.n; memcpy(a.ant_descriptor, ad.s, ad.n); a.ant_setup_id = (uint8_t)setup; m.ant_serial_num_counter = sn.n; memcpy(m.ant_serial_num, sn.s, sn.n);
      rtcm_msg_1008 d; bool ok;
      if (s8) { ok = sta_decode<rtcm_msg_1008>(r, "1008", w, rtcm3_decode_1008_bitstream, &d); sta_encode<rtcm_msg_1008>(r, "1008", w, m, rtcm3_encode_1008); }
      else { rtcm_msg_1007 d7; ok = sta_decode<rtcm_msg_1007>(r, "1007", w, rtcm3_decode_1007_bitstream, &d7); d.msg_1007 = d7; sta_encode<rtcm_msg_1007>(r, "1007", w, a, rtcm3_encode_1007); }
      if (ok) {
        rtcm_msg_1007 &q = d.msg_1007; VH_CHECK(q.stn_id == stn && q.ant_setup_id == setup && STR_EQ(q.ant_descriptor_counter, q.ant_descriptor, ad), "sta.1007-fields", "1007 fields differ");
        if (s8) VH_CHECK(STR_EQ(d.ant_serial_num_counter, d.ant_serial_num, sn), "sta.1008-serial", "serial differs");
      }
      // an over-long length must be refused
      { int bad = 33 + (int)r.below(223); BitW q; bool first = !s8 || r.chance(1, 2); q.put(s8 ? 1008 : 1007, 12); q.put(stn, 12); put_str(q, ad, first ? bad : -1); q.put(setup, 8); put_str(q, sn, s8 && !first ? bad : -1); for (int i = 0; i < 260; i++) q.put('x', 8);
        rtcm_msg_1008 d2; rtcm3_rc rc = run_dec(q.b, q.n, [&](swiftnav_bitstream_t *s) { return s8 ? rtcm3_decode_1008_bitstream(s, &d2) : rtcm3_decode_1007_bitstream(s, &d2.msg_1007); }); VH_CHECK(rc != RC_OK, "sta.long-string", "length %d accepted", bad); ev("long-string-refused"); }
      break;
    }
    case 4: {
      Str s[5]; for (auto &x : s) x = rnd_str(r, 32); uint32_t stn = (uint32_t)r.bits(12), setup = (uint32_t)r.bits(8);
      w.put(1033, 12); w.put(stn, 12); put_str(w, s[0]); w.put(setup, 8); for (int i = 1; i < 5; i++) put_str(w, s[i]);
      rtcm_msg_1033 d, m; memset(&m, 0, sizeof m); m.stn_id = (uint16_t)stn; m.ant_setup_id = (uint8_t)setup;
      m.ant_descriptor_counter = s[0].n; memcpy(m.ant_descriptor, s[0].s, 32); m.ant_serial_num_counter = s[1].n; memcpy(m.ant_serial_num, s[1].s, 32); m.rcv_descriptor_counter = s[2].n; memcpy(m.rcv_descriptor, s[2].s, 32); m.rcv_fw_version_counter = s[3].n; memcpy(m.rcv_fw_version, s[3].s, 32); m.rcv_serial_num_counter = s[4].n; memcpy(m.rcv_serial_num, s[4].s, 32);
      if (sta_decode<rtcm_msg_1033>(r, "1033", w, rtcm3_decode_1033_bitstream, &d))
        VH_CHECK(d.stn_id == stn && d.ant_setup_id == setup && STR_EQ(d.ant_descriptor_counter, d.ant_descriptor, s[0]) && STR_EQ(d.ant_serial_num_counter, d.ant_serial_num, s[1]) && STR_EQ(d.rcv_descriptor_counter, d.rcv_descriptor, s[2]) && STR_EQ(d.rcv_fw_version_counter, d.rcv_fw_version, s[3]) && STR_EQ(d.rcv_serial_num_counter, d.rcv_serial_num, s[4]), "sta.1033-fields", "1033 fields differ");
      sta_encode<rtcm_msg_1033>(r, "1033", w, m, rtcm3_encode_1033);
      { int k = (int)r.below(5), bad = 33 + (int)r.below(223); BitW q; q.put(1033, 12); q.put(stn, 12); put_str(q, s[0], k == 0 ? bad : -1); q.put(setup, 8); for (int i = 1; i < 5; i++) put_str(q, s[i], k == i ? bad : -1); for (int i = 0; i < 260; i++) q.put('x', 8);
        rtcm_msg_1033 d2; rtcm3_rc rc = run_dec(q.b, q.n, [&](swiftnav_bitstream_t *t) { return rtcm3_decode_1033_bitstream(t, &d2); }); VH_CHECK(rc != RC_OK, "sta.long-string", "1033 string %d length %d accepted", k, bad); ev("long-string-refused"); }
      break;
    }
    case 5: {
      rtcm_msg_1029 m, d; memset(&m, 0, sizeof m); m.stn_id = (uint16_t)r.bits(12); m.mjd_num = (uint16_t)r.bits(16); m.utc_sec_of_day = (uint32_t)r.bits(17); m.unicode_chars = (uint8_t)r.bits(7); m.utf8_code_units_n = (uint8_t)r.bits(8); for (auto &c : m.utf8_code_units) c = (uint8_t)r.u64();
      w.put(1029, 12); w.put(m.stn_id, 12); w.put(m.mjd_num, 16); w.put(m.utc_sec_of_day, 17); w.put(m.unicode_chars, 7); w.put(m.utf8_code_units_n, 8); for (int i = 0; i < m.utf8_code_units_n; i++) w.put(m.utf8_code_units[i], 8);
      if (sta_decode<rtcm_msg_1029>(r, "1029", w, rtcm3_decode_1029_bitstream, &d)) VH_CHECK(d.stn_id == m.stn_id && d.mjd_num == m.mjd_num && d.utc_sec_of_day == m.utc_sec_of_day && d.unicode_chars == m.unicode_chars && d.utf8_code_units_n == m.utf8_code_units_n && !memcmp(d.utf8_code_units, m.utf8_code_units, m.utf8_code_units_n), "sta.1029-fields", "1029 fields differ");
      sta_encode<rtcm_msg_1029>(r, "1029", w, m, rtcm3_encode_1029); break;
    }
    case 6: case 7: {
      rtcm_msg_1230 m, d; memset(&m, 0, sizeof m); m.stn_id = (uint16_t)r.bits(12); m.bias_indicator = (uint8_t)r.bits(1); m.fdma_signal_mask = (uint8_t)r.below(16); int32_t b[4]; for (auto &v : b) v = (int16_t)r.bits(16);
      double *f[4] = {&m.L1_CA_cpb_meter, &m.L1_P_cpb_meter, &m.L2_CA_cpb_meter, &m.L2_P_cpb_meter}, *g[4] = {&d.L1_CA_cpb_meter, &d.L1_P_cpb_meter, &d.L2_CA_cpb_meter, &d.L2_P_cpb_meter};
      auto build = [&](BitW &q, uint64_t res) { q.put(1230, 12); q.put(m.stn_id, 12); q.put(m.bias_indicator, 1); q.put(res, 3); q.put(m.fdma_signal_mask, 4); for (int i = 0; i < 4; i++) if (m.fdma_signal_mask & (8 >> i)) q.puts(b[i], 16); };
      build(w, r.bits(3));
      if (sta_decode<rtcm_msg_1230>(r, "1230", w, rtcm3_decode_1230_bitstream, &d)) {
        VH_CHECK(d.stn_id == m.stn_id && d.bias_indicator == m.bias_indicator && d.fdma_signal_mask == m.fdma_signal_mask, "sta.1230-header", "1230 header differs");
        for (int i = 0; i < 4; i++) VH_CHECK(close_to(*g[i], m.fdma_signal_mask & (8 >> i) ? b[i] * 0.02 : 0.0, 1e-9), "sta.1230-bias", "bias %d: %.4f want raw %d mask %x", i, *g[i], b[i], m.fdma_signal_mask);
      }
      for (int i = 0; i < 4; i++) *f[i] = b[i] * 0.02 + r.uniform(-0.0099, 0.0099);
      BitW e; build(e, 0); sta_encode<rtcm_msg_1230>(r, "1230", e, m, rtcm3_encode_1230); break;
    }
    case 8: {
      rtcm_msg_swift_proprietary m, d; memset(&m, 0, sizeof m); m.msg_type = (uint16_t)r.bits(16); m.sender_id = (uint16_t)r.bits(16); m.len = (uint8_t)r.bits(8); for (auto &c : m.data) c = (uint8_t)r.u64();
      auto build = [&](BitW &q, uint64_t res) { q.put(4062, 12); q.put(res, 4); q.put(m.msg_type, 16); q.put(m.sender_id, 16); q.put(m.len, 8); for (int i = 0; i < m.len; i++) q.put(m.data[i], 8); };
      build(w, 0);
      if (sta_decode<rtcm_msg_swift_proprietary>(r, "4062", w, rtcm3_decode_4062_bitstream, &d)) VH_CHECK(d.msg_type == m.msg_type && d.sender_id == m.sender_id && d.len == m.len && !memcmp(d.data, m.data, m.len), "sta.4062-fields", "4062 fields differ");
      sta_encode<rtcm_msg_swift_proprietary>(r, "4062", w, m, rtcm3_encode_4062);
      BitW q; build(q, 1 + r.below(15)); rtcm3_rc rc = run_dec(q.b, q.n, [&](swiftnav_bitstream_t *t) { return rtcm3_decode_4062_bitstream(t, &d); }); VH_CHECK(rc != RC_OK, "sta.4062-format", "unknown 4062 format accepted"); break;
    }
    case 9: {  // 4075
      struct F { uint32_t sys, num, ext, sig, epoch, cont, size; std::vector<uint32_t> d; }; std::vector<F> fs; size_t bits = 12 + 12 + 2 + 6;
      uint32_t stn = (uint32_t)r.bits(12); size_t want = r.below(64);
      while (fs.size() < want) { F f; f.sys = r.below(16); f.num = r.below(64); f.ext = r.below(16); f.sig = r.below(32); f.epoch = (uint32_t)r.bits(30); f.cont = r.below(2); f.size = r.chance(1, 20) ? r.below(4096) : r.below(301); for (uint32_t k = 0; k < f.size; k += 32) f.d.push_back((uint32_t)r.bits((int)(f.size - k < 32 ? f.size - k : 32))); if (bits + 62 + f.size > 1023 * 8) break; bits += 62 + f.size; fs.push_back(f); }
      auto build = [&](BitW &q, uint64_t res, uint64_t num) { q.put(num, 12); q.put(stn, 12); q.put(res, 2); q.put(fs.size(), 6); for (auto &f : fs) { q.put(f.sys, 4); q.put(f.num, 6); q.put(f.ext, 4); q.put(f.sig, 5); q.put(f.epoch, 30); q.put(f.cont, 1); q.put(f.size, 12); for (uint32_t k = 0; k < f.size; k += 32) q.put(f.d[k / 32], (int)(f.size - k < 32 ? f.size - k : 32)); } };
      build(w, 0, 4075); auto d = dirty<rtcm_msg_ndf>(r); Heap h(w.b); rtcm3_rc rc = rtcm3_decode_4075(h.p, d.get());
      VH_CHECK(rc == RC_OK, "sta.refused-4075", "rc %d", rc); if (rc != RC_OK) break;
      VH_CHECK(d->stn_id == stn && d->frame_count == fs.size(), "sta.4075-header", "header differs");
      for (size_t i = 0; i < fs.size(); i++) { rtcm_ndf_frame &g = d->frames[i]; F &f = fs[i]; VH_CHECK(g.sat_sys == f.sys && g.sat_num == f.num && g.ext_sat_info == f.ext && g.sig_type == f.sig && g.epoch_time == f.epoch && g.continuous_tracking == (f.cont != 0) && g.frame_data_size_bits == f.size, "sta.4075-frame", "frame %zu differs", i); for (size_t k = 0; k < f.d.size(); k++) { uint32_t part = f.size - (uint32_t)k * 32, top = part < 32 ? f.d[k] << (32 - part) : f.d[k]; VH_CHECK(g.frame_data[k] == top, "sta.4075-data", "frame %zu word %zu: %08x want %08x", i, k, g.frame_data[k], top); }; ev("ndf-frame"); }
      { BitW q; build(q, 1 + r.below(3), 4075); Heap h2(q.b); VH_CHECK(rtcm3_decode_4075(h2.p, d.get()) != RC_OK, "sta.4075-format", "reserved bits accepted"); BitW q2; build(q2, 0, 4075 - 1 - r.below(10)); Heap h3(q2.b); VH_CHECK(rtcm3_decode_4075(h3.p, d.get()) == RC_MESSAGE_TYPE_MISMATCH, "sta.mismatch-4075", "foreign number accepted"); }
      evs("sta-decoded-4075"); nontrivial(); distinct(w.b.data(), w.b.size()); break;
    }
    default: {
      if (r.chance(1, 2)) {  // 999:25
        Str s = rnd_str(r, 255); w.put(999, 12); w.put(25, 8); put_str(w, s);
        uint32_t cap = 1 + r.below(255); Heap o(cap + 0u, r); Heap h(w.b); rtcm3_rc rc = sta_decode_fwver(h.p, (char *)o.p, (uint8_t)cap);
        VH_CHECK(rc == RC_OK, "sta.fwver-rc", "rc %d", rc); size_t k = s.n < cap ? s.n : cap - 1u;
        VH_CHECK(memcmp(o.p, s.s, k) == 0 && (o.p[k] == 0), "sta.fwver", "text differs (length %u, buffer %u)", s.n, cap); evs("sta-fwver");
      } else {  // 999:2
        char c[16]; for (auto &x : c) x = (char)(r.chance(1, 12) ? 0 : r.bits(8));
        Bytes b = r.bytes(24); uint8_t *q = b.data(); auto setb = [&](size_t pos, int len, uint64_t v) { for (int i = 0; i < len; i++) { size_t p = pos + (size_t)i; uint8_t bit = (uint8_t)(0x80 >> (p % 8)); if (v >> (len - 1 - i) & 1) q[p / 8] |= bit; else q[p / 8] &= (uint8_t)~bit; } };
        setb(0, 12, 999); setb(12, 8, 2); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) setb((size_t)(58 + 24 + 32 * i - 8 * j), 8, (uint8_t)c[i * 4 + j]);
        Heap h(b); uint32_t cap = 16 + r.below(240); Heap o(cap, r); rtcm3_rc rc = sta_decode_rcc_config(h.p, (char *)o.p, (uint8_t)cap);
        VH_CHECK(rc == RC_OK && o.p[15] == 0, "sta.rcc", "rc %d", rc);
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { if (i * 4 + j == 15) continue; VH_CHECK((char)o.p[i * 4 + j] == c[i * 4 + j], "sta.rcc", "char %d: %02x want %02x", i * 4 + j, o.p[i * 4 + j], (uint8_t)c[i * 4 + j]); if (!c[i * 4 + j]) break; }
        evs("sta-rcc"); w.b = b;
      }
      nontrivial(); distinct(w.b.data(), w.b.size());
    }
  }
}

// ---------------------------------------------------------------- C24
enum SK { S_ORB, S_CLK, S_CODE, S_COMB, S_PHASE };
struct SsrN { int num; rtcm_constellation_t c; SK k; };
std::vector<SsrN> ssr_numbers() {
  struct { int base; rtcm_constellation_t c; int ph; } t[] = {{1057, RTCM_CONSTELLATION_GPS, 1265}, {1063, RTCM_CONSTELLATION_GLO, 1266}, {1240, RTCM_CONSTELLATION_GAL, 1267}, {1246, RTCM_CONSTELLATION_QZS, 1268}, {1258, RTCM_CONSTELLATION_BDS, 1270}};
  std::vector<SsrN> v; for (auto &x : t) { v.push_back({x.base, x.c, S_ORB}); v.push_back({x.base + 1, x.c, S_CLK}); v.push_back({x.base + 2, x.c, S_CODE}); v.push_back({x.base + 3, x.c, S_COMB}); v.push_back({x.ph, x.c, S_PHASE}); }
  v.push_back({1269, RTCM_CONSTELLATION_SBAS, S_PHASE}); return v;
}
struct SsrOut { std::unique_ptr<rtcm_msg_orbit> o; std::unique_ptr<rtcm_msg_clock> c; std::unique_ptr<rtcm_msg_orbit_clock> oc; std::unique_ptr<rtcm_msg_code_bias> cb; std::unique_ptr<rtcm_msg_phase_bias> pb; };
rtcm3_rc ssr_dec(SK k, swiftnav_bitstream_t *s, SsrOut &d, Rng &r) {
  switch (k) {
    case S_ORB: d.o = dirty<rtcm_msg_orbit>(r); return rtcm3_decode_orbit_bitstream(s, d.o.get());
    case S_CLK: d.c = dirty<rtcm_msg_clock>(r); return rtcm3_decode_clock_bitstream(s, d.c.get());
    case S_COMB: d.oc = dirty<rtcm_msg_orbit_clock>(r); return rtcm3_decode_orbit_clock_bitstream(s, d.oc.get());
    case S_CODE: d.cb = dirty<rtcm_msg_code_bias>(r); return rtcm3_decode_code_bias_bitstream(s, d.cb.get());
    default: d.pb = dirty<rtcm_msg_phase_bias>(r); return rtcm3_decode_phase_bias_bitstream(s, d.pb.get());
  }
}
void case_ssr(Rng &r) {
  static const std::vector<SsrN> NUM = ssr_numbers(); const SsrN &N = r.pick(NUM);
  BitW w; size_t ns = r.chance(1, 8) ? 63 : r.below(r.chance(1, 4) ? 64 : 12);
  uint64_t ep = r.bits(N.c == RTCM_CONSTELLATION_GLO ? 17 : 20), ui = r.bits(4), mm = r.bits(1), dat = r.bits(1), iod = r.bits(4), prov = r.bits(16), sol = r.bits(4), d1 = r.bits(1), d2 = r.bits(1);
  w.put((uint64_t)N.num, 12); w.put(ep, N.c == RTCM_CONSTELLATION_GLO ? 17 : 20); w.put(ui, 4); w.put(mm, 1); if (N.k == S_ORB || N.k == S_COMB) w.put(dat, 1); w.put(iod, 4); w.put(prov, 16); w.put(sol, 4); if (N.k == S_PHASE) { w.put(d1, 1); w.put(d2, 1); } w.put(ns, 6);
  int sb = N.c == RTCM_CONSTELLATION_GLO ? 5 : N.c == RTCM_CONSTELLATION_QZS ? 4 : 6;
  struct Sat { uint64_t id, iode; int64_t o[6], c[3]; std::vector<std::array<int64_t, 5>> sig; int64_t yaw, yr; }; std::vector<Sat> sats(ns);
  auto sg = [&](int n) { uint64_t b = r.bits(n); return (int64_t)(b << (64 - n)) >> (64 - n); };
  const int OW[6] = {22, 20, 20, 21, 19, 19}, CW[3] = {22, 21, 27};
  for (auto &s : sats) {
    s.id = r.bits(sb); w.put(s.id, sb);
    if (N.k == S_ORB || N.k == S_COMB) {
      int ib = N.c == RTCM_CONSTELLATION_GAL ? 10 : 8; if (N.c == RTCM_CONSTELLATION_BDS) w.put(r.bits(10), 10);
      s.iode = r.bits(ib); w.put(s.iode, ib); for (int i = 0; i < 6; i++) { s.o[i] = sg(OW[i]); w.puts(s.o[i], OW[i]); }
    }
    if (N.k == S_CLK || N.k == S_COMB) for (int i = 0; i < 3; i++) { s.c[i] = sg(CW[i]); w.puts(s.c[i], CW[i]); }
    if (N.k == S_CODE) { size_t n = r.chance(1, 8) ? 31 : r.below(8); w.put(n, 5); for (size_t i = 0; i < n; i++) { std::array<int64_t, 5> a{}; a[0] = (int64_t)r.bits(5); a[1] = sg(14); w.puts(a[0], 5); w.puts(a[1], 14); s.sig.push_back(a); } }
    if (N.k == S_PHASE) { size_t n = r.chance(1, 8) ? 31 : r.below(8); s.yaw = (int64_t)r.bits(9); s.yr = sg(8); w.put(n, 5); w.puts(s.yaw, 9); w.puts(s.yr, 8); for (size_t i = 0; i < n; i++) { std::array<int64_t, 5> a{}; a[0] = (int64_t)r.bits(5); a[1] = (int64_t)r.bits(1); a[2] = (int64_t)r.bits(2); a[3] = (int64_t)r.bits(4); a[4] = sg(20); w.puts(a[0], 5); w.puts(a[1], 1); w.puts(a[2], 2); w.puts(a[3], 4); w.puts(a[4], 20); s.sig.push_back(a); } }
  }
  SsrOut d; rtcm3_rc rc = run_dec(w.b, w.n, [&](swiftnav_bitstream_t *s) { return ssr_dec(N.k, s, d, r); });
  VH_CHECK(rc == RC_OK, "ssr.refused", "%d (%zu satellites) rc %d", N.num, ns, rc); if (rc != RC_OK) return;
  const rtcm_msg_ssr_header &h = N.k == S_ORB ? d.o->header : N.k == S_CLK ? d.c->header : N.k == S_COMB ? d.oc->header : N.k == S_CODE ? d.cb->header : d.pb->header;
  VH_CHECK(h.message_num == N.num && h.epoch_time == ep && h.constellation == N.c && h.update_interval == ui && h.multi_message == (mm != 0) && h.iod_ssr == iod && h.ssr_provider_id == prov && h.ssr_solution_id == sol && h.num_sats == ns, "ssr.header", "%d header differs", N.num);
  if (N.k == S_ORB || N.k == S_COMB) VH_CHECK(h.sat_ref_datum == (dat != 0), "ssr.datum", "%d datum", N.num);
  if (N.k == S_PHASE) VH_CHECK(h.dispersive_bias_consistency == (d1 != 0) && h.melbourne_wubbena_consistency == (d2 != 0), "ssr.phase-flags", "%d", N.num);
  for (size_t i = 0; i < ns; i++) {
    const Sat &s = sats[i];
    if (N.k == S_ORB || N.k == S_COMB) { const rtcm_msg_ssr_orbit_corr &o = N.k == S_ORB ? d.o->orbit[i] : d.oc->orbit[i]; VH_CHECK(o.sat_id == s.id && o.iode == s.iode, "ssr.orbit-id", "%d sat %zu: id %u iode %u want %u %u", N.num, i, o.sat_id, o.iode, (unsigned)s.id, (unsigned)s.iode); int32_t g[6] = {o.radial, o.along_track, o.cross_track, o.dot_radial, o.dot_along_track, o.dot_cross_track}; for (int k = 0; k < 6; k++) VH_CHECK(g[k] == s.o[k], fmt("ssr.orbit-%d", k), "%d sat %zu field %d: %d want %lld", N.num, i, k, g[k], (long long)s.o[k]); }
    if (N.k == S_CLK || N.k == S_COMB) { const rtcm_msg_ssr_clock_corr &c = N.k == S_CLK ? d.c->clock[i] : d.oc->clock[i]; VH_CHECK(c.sat_id == s.id && c.c0 == s.c[0] && c.c1 == s.c[1] && c.c2 == s.c[2], "ssr.clock", "%d sat %zu: %u %d %d %d want %u %lld %lld %lld", N.num, i, c.sat_id, c.c0, c.c1, c.c2, (unsigned)s.id, (long long)s.c[0], (long long)s.c[1], (long long)s.c[2]); }
    if (N.k == S_CODE) { const auto &b = d.cb->sats[i]; VH_CHECK(b.sat_id == s.id && b.num_code_biases == s.sig.size(), "ssr.code-head", "%d sat %zu", N.num, i); for (size_t k = 0; k < s.sig.size(); k++) VH_CHECK(b.signals[k].signal_id == s.sig[k][0] && b.signals[k].code_bias == s.sig[k][1], "ssr.code-bias", "%d sat %zu signal %zu: %d %d want %lld %lld", N.num, i, k, b.signals[k].signal_id, b.signals[k].code_bias, (long long)s.sig[k][0], (long long)s.sig[k][1]); }
    if (N.k == S_PHASE) { const auto &b = d.pb->sats[i]; VH_CHECK(b.sat_id == s.id && b.num_phase_biases == s.sig.size() && b.yaw_angle == s.yaw && b.yaw_rate == s.yr, "ssr.phase-head", "%d sat %zu", N.num, i); for (size_t k = 0; k < s.sig.size(); k++) { const auto &q = b.signals[k]; VH_CHECK(q.signal_id == s.sig[k][0] && q.integer_indicator == (s.sig[k][1] != 0) && q.widelane_indicator == s.sig[k][2] && q.discontinuity_indicator == s.sig[k][3] && q.phase_bias == s.sig[k][4], "ssr.phase-bias", "%d sat %zu signal %zu: bias %d want %lld", N.num, i, k, q.phase_bias, (long long)s.sig[k][4]); } }
    ev("ssr-satellite-checked");
  }
  if (ns) nontrivial(); evs(fmt("ssr-decoded-%d", N.num)); distinct(w.b.data(), w.b.size());
  // truncated
  { size_t nb = r.chance(1, 2) ? w.n - 1 - r.below(20) : r.below((uint32_t)w.n); Bytes b = w.b; b.resize((nb + 7) / 8); SsrOut t; rtcm3_rc r2 = run_dec(b, nb, [&](swiftnav_bitstream_t *s) { return ssr_dec(N.k, s, t, r); }); VH_CHECK(r2 != RC_OK, "ssr.truncated", "%d: %zu of %zu bits accepted", N.num, nb, w.n); ev("truncated-refused"); }
  // another kind's decoder
  { SK k2 = (SK)r.below(5); if (k2 != N.k) { SsrOut t; rtcm3_rc r2 = run_dec(w.b, w.n, [&](swiftnav_bitstream_t *s) { return ssr_dec(k2, s, t, r); }); VH_CHECK(r2 == RC_MESSAGE_TYPE_MISMATCH, "ssr.mismatch", "kind %d decoder on %d: %d", k2, N.num, r2); ev("foreign-type-refused"); } }
  { Bytes b = w.b; b.resize(b.size() + 64); uint32_t num = r.below(4096); bool known = false; for (auto &x : NUM) known |= x.num == (int)num; if (!known) { b[0] = (uint8_t)(num >> 4); b[1] = (uint8_t)((num & 15) << 4 | (b[1] & 15)); SsrOut t; rtcm3_rc r2 = run_dec(b, b.size() * 8, [&](swiftnav_bitstream_t *s) { return ssr_dec(N.k, s, t, r); }); VH_CHECK(r2 != RC_OK, "ssr.foreign", "%u accepted", num); } }
}

// ---------------------------------------------------------------- C26 (numbering, masks)
void case_util(Rng &r) {
  for (int k = 0; k < 16; k++) {
    uint32_t n = r.chance(3, 4) ? 1000 + r.below(300) : r.below(65536);
    msm_enum t = to_msm_type((uint16_t)n); rtcm_constellation_t c = to_constellation((uint16_t)n);
    uint32_t g = n >= 1070 && n < 1130 ? (n - 1070) / 10 : 99, ty = n % 10;
    const rtcm_constellation_t MC[6] = {RTCM_CONSTELLATION_GPS, RTCM_CONSTELLATION_GLO, RTCM_CONSTELLATION_GAL, RTCM_CONSTELLATION_SBAS, RTCM_CONSTELLATION_QZS, RTCM_CONSTELLATION_BDS};
    const msm_enum MT[8] = {MSM_UNKNOWN, MSM1, MSM2, MSM3, MSM4, MSM5, MSM6, MSM7};
    bool msm = g < 6 && ty >= 1 && ty <= 7;
    VH_CHECK(t == (msm ? MT[ty] : MSM_UNKNOWN), "util.msm-type", "%u -> %d", n, (int)t);
    rtcm_constellation_t want = RTCM_CONSTELLATION_INVALID;
    if (msm) want = MC[g];
    else if (n >= 1057 && n <= 1062) want = RTCM_CONSTELLATION_GPS; else if (n >= 1063 && n <= 1068) want = RTCM_CONSTELLATION_GLO;
    else if (n >= 1240 && n <= 1245) want = RTCM_CONSTELLATION_GAL; else if (n >= 1246 && n <= 1251) want = RTCM_CONSTELLATION_QZS; else if (n >= 1258 && n <= 1263) want = RTCM_CONSTELLATION_BDS;
    else if (n == 1265) want = RTCM_CONSTELLATION_GPS; else if (n == 1266) want = RTCM_CONSTELLATION_GLO; else if (n == 1267) want = RTCM_CONSTELLATION_GAL; else if (n == 1268) want = RTCM_CONSTELLATION_QZS; else if (n == 1269) want = RTCM_CONSTELLATION_SBAS; else if (n == 1270) want = RTCM_CONSTELLATION_BDS;
    VH_CHECK(c == want, "util.constellation", "%u -> %d want %d", n, (int)c, (int)want);
    if (want != RTCM_CONSTELLATION_INVALID) ev("message-number-classified"); distinct(&n, sizeof n);
  }
  uint32_t size = 1 + r.below(r.chance(1, 8) ? 255 : 64); std::unique_ptr<bool[]> mask(new bool[size]); uint32_t cnt = 0; uint32_t dens = 1 + r.below(8); std::vector<uint32_t> pos;
  for (uint32_t i = 0; i < size; i++) { mask[i] = r.chance(1, dens); if (mask[i]) { cnt++; pos.push_back(i); } }
  VH_CHECK(count_mask_values((uint8_t)size, mask.get()) == cnt, "util.count", "size %u: %u want %u", size, count_mask_values((uint8_t)size, mask.get()), cnt);
  for (uint32_t k = 1; k <= cnt; k++) { VH_CHECK(find_nth_mask_value((uint8_t)size, mask.get(), (uint8_t)k) == pos[k - 1], "util.nth", "size %u n %u: %u want %u", size, k, find_nth_mask_value((uint8_t)size, mask.get(), (uint8_t)k), pos[k - 1]); ev("nth-mask-value"); }
  nontrivial();
}

// ---------------------------------------------------------------- C27
struct LogRec { uint64_t calls; uint8_t level; Bytes text; uint8_t *ptr; uint16_t len; void *self; int depth; std::function<void()> then; };
void log_sink(uint8_t level, uint8_t *msg, uint16_t len, void *ctx) { LogRec *l = (LogRec *)ctx; l->calls++; l->level = level; l->ptr = msg; l->len = len; l->self = ctx; l->text.assign(msg, msg + len); if (l->depth > 0) { l->depth--; auto f = l->then; f(); } }
void log_sink2(uint8_t level, uint8_t *msg, uint16_t len, void *ctx) { log_sink(level, msg, len, ctx); ((LogRec *)ctx)->level = (uint8_t)~level; }
void case_log(Rng &r) {
  LogRec rec[3]; for (auto &x : rec) { x.calls = 0; x.self = nullptr; x.depth = 0; } int cur = -1; bool second = false; rtcm_init_logging(nullptr, r.chance(1, 2) ? &rec[0] : nullptr);
  uint64_t want[3] = {0, 0, 0};
  for (int k = 0; k < 24; k++) {
    if (r.chance(1, 5)) { cur = (int)r.below(4) - 1; second = r.chance(1, 2); if (cur < 0) rtcm_init_logging(nullptr, &rec[r.below(3)]); else rtcm_init_logging(second ? log_sink2 : log_sink, &rec[cur]); ev("sink-changed"); }
    uint8_t lvl = (uint8_t)r.bits(8); Bytes t = r.bytes(r.chance(1, 10) ? r.below(65536) : r.below(300)); Bytes keep = t; t.push_back(0x55);
    if (cur >= 0 && r.chance(1, 5)) {  // a sink that logs itself, or hands over to another sink, while it is being called
      LogRec &x = rec[cur]; int to = r.chance(1, 3) ? (int)r.below(3) : cur; x.depth = 1; uint64_t before = 0, after = 0; for (auto &q : rec) before += q.calls;
      x.then = [&] { Bytes n = r.bytes(r.below(60)), k2 = n; n.push_back(1); if (to != cur) rtcm_init_logging(log_sink, &rec[to]); uint64_t c0 = rec[to].calls; rtcm_log(3, n.data(), (uint16_t)k2.size()); VH_CHECK(rec[to].calls == c0 + 1 && rec[to].text == k2, "log.nested", "a log call from within the sink was delivered %d times", (int)(rec[to].calls - c0)); if (to != cur) rtcm_init_logging(second ? log_sink2 : log_sink, &rec[cur]); ev("log-from-sink"); };
      rtcm_log(lvl, t.data(), (uint16_t)keep.size()); x.depth = 0; for (auto &q : rec) after += q.calls; VH_CHECK(after == before + 2, "log.nested-total", "%d calls for two messages", (int)(after - before)); for (int i = 0; i < 3; i++) want[i] = rec[i].calls;
      continue;
    }
    rtcm_log(lvl, t.data(), (uint16_t)keep.size());
    if (cur >= 0) { want[cur]++; LogRec &x = rec[cur]; VH_CHECK(x.calls == want[cur], "log.once", "%llu calls want %llu", (unsigned long long)x.calls, (unsigned long long)want[cur]); VH_CHECK(x.calls && x.level == (second ? (uint8_t)~lvl : lvl) && x.len == keep.size() && x.text == keep && x.self == &x, "log.intact", "level %u len %u want %u %zu", x.level, x.len, lvl, keep.size()); ev("log-delivered"); nontrivial(); }
    else ev("log-without-sink");
    for (int i = 0; i < 3; i++) VH_CHECK(rec[i].calls == want[i], "log.stray", "sink %d called %llu times want %llu", i, (unsigned long long)rec[i].calls, (unsigned long long)want[i]);
    VH_CHECK(t.size() == keep.size() + 1 && (keep.empty() || memcmp(t.data(), keep.data(), keep.size()) == 0), "log.modified", "message changed");
    if (!keep.empty()) distinct(keep.data(), keep.size());
  }
  rtcm_init_logging(nullptr, nullptr);
}

// ---------------------------------------------------------------- C07
void case_hostile(Rng &r) {
  // a payload: random, or a valid-looking skeleton with a given number, of any length
  static const int NUMS[] = {1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1010, 1012, 1029, 1033, 1230, 4062, 1019, 1020, 1042, 1044, 1045, 1046, 1057, 1058, 1059, 1060, 1063, 1064, 1065, 1066, 1240, 1243, 1246, 1258, 1259, 1260, 1261, 1265, 1266, 1267, 1268, 1269, 1270, 1074, 1075, 1076, 1077, 1084, 1085, 1087, 1094, 1095, 1097, 1104, 1114, 1115, 1124, 1125, 1127};
  int num = NUMS[r.below(sizeof NUMS / sizeof *NUMS)]; size_t n = r.chance(1, 3) ? r.below(40) : r.chance(1, 2) ? r.below(300) : r.below(1024);
  Bytes b = r.bytes(n); int style = (int)r.below(5);
  if (style == 0) for (auto &x : b) x = 0xff; else if (style == 1) for (auto &x : b) x = (uint8_t)(r.chance(1, 6) ? r.u64() : 0); else if (style == 2) for (auto &x : b) x = (uint8_t)(r.chance(1, 3) ? r.u64() : 0xff);
  if (n > 0) b[0] = (uint8_t)(num >> 4); if (n > 1) b[1] = (uint8_t)((num & 15) << 4 | (b[1] & 15));
  if (num >= 1070 && num < 1130 && n > 23 && r.chance(2, 3)) {  // masks of chosen weight
    int sat = (int)r.below(64), sig = (int)r.below(12); for (int i = 73; i < 169; i++) { bool on = i < 137 ? (int)r.below(64) < sat : (int)r.below(32) < sig; uint8_t bit = (uint8_t)(0x80 >> (i % 8)); if (on) b[(size_t)i / 8] |= bit; else b[(size_t)i / 8] &= (uint8_t)~bit; }
  }
  size_t bits = n * 8; if (bits && r.chance(1, 4)) bits -= r.below(8);
  int ok = 0, calls = 0; auto go = [&](const DecF &f) { rtcm3_rc rc = run_dec(b, bits, f); calls++; VH_CHECK(rc == RC_OK || rc == RC_INVALID_MESSAGE || rc == RC_MESSAGE_TYPE_MISMATCH, "codec.rc", "%d: %d", num, rc); if (rc == RC_OK) { ok++; evs(fmt("accepted-%d", num)); } };
#define ALL(type, fn) { auto m = dirty<type>(r); go([&](swiftnav_bitstream_t *s) { return fn(s, m.get()); }); }
  ALL(rtcm_obs_message, rtcm3_decode_1001_bitstream) ALL(rtcm_obs_message, rtcm3_decode_1002_bitstream) ALL(rtcm_obs_message, rtcm3_decode_1003_bitstream) ALL(rtcm_obs_message, rtcm3_decode_1004_bitstream) ALL(rtcm_obs_message, rtcm3_decode_1010_bitstream) ALL(rtcm_obs_message, rtcm3_decode_1012_bitstream)
  ALL(rtcm_msg_1005, rtcm3_decode_1005_bitstream) ALL(rtcm_msg_1006, rtcm3_decode_1006_bitstream) ALL(rtcm_msg_1007, rtcm3_decode_1007_bitstream) ALL(rtcm_msg_1008, rtcm3_decode_1008_bitstream) ALL(rtcm_msg_1029, rtcm3_decode_1029_bitstream) ALL(rtcm_msg_1033, rtcm3_decode_1033_bitstream) ALL(rtcm_msg_1230, rtcm3_decode_1230_bitstream) ALL(rtcm_msg_swift_proprietary, rtcm3_decode_4062_bitstream)
  ALL(rtcm_msg_eph, rtcm3_decode_gps_eph_bitstream) ALL(rtcm_msg_eph, rtcm3_decode_glo_eph_bitstream) ALL(rtcm_msg_eph, rtcm3_decode_bds_eph_bitstream) ALL(rtcm_msg_eph, rtcm3_decode_qzss_eph_bitstream) ALL(rtcm_msg_eph, rtcm3_decode_gal_eph_fnav_bitstream) ALL(rtcm_msg_eph, rtcm3_decode_gal_eph_inav_bitstream)
  ALL(rtcm_msm_message, rtcm3_decode_msm4_bitstream) ALL(rtcm_msm_message, rtcm3_decode_msm5_bitstream) ALL(rtcm_msm_message, rtcm3_decode_msm6_bitstream) ALL(rtcm_msm_message, rtcm3_decode_msm7_bitstream)
  ALL(rtcm_msg_orbit, rtcm3_decode_orbit_bitstream) ALL(rtcm_msg_clock, rtcm3_decode_clock_bitstream) ALL(rtcm_msg_orbit_clock, rtcm3_decode_orbit_clock_bitstream) ALL(rtcm_msg_code_bias, rtcm3_decode_code_bias_bitstream) ALL(rtcm_msg_phase_bias, rtcm3_decode_phase_bias_bitstream)
#undef ALL
  // proprietary decoders without a length: only a complete message is a legal argument
  { Bytes q = r.bytes(1023); q[0] = 999 >> 4; q[1] = (999 & 15) << 4; uint32_t sub = r.chance(1, 2) ? 25 : r.chance(1, 2) ? 24 : 2; q[1] |= (uint8_t)(sub >> 4); q[2] = (uint8_t)(sub << 4 | (q[2] & 15)); Heap h(q); uint32_t cap = 16 + r.below(240); Heap o(cap, r);
    if (sub == 25) sta_decode_fwver(h.p, (char *)o.p, (uint8_t)cap); else if (sub == 2) sta_decode_rcc_config(h.p, (char *)o.p, (uint8_t)cap); else { uint16_t nb = (uint16_t)r.below(1200); Bytes e(q.begin(), q.begin() + (nb + 7) / 8); e.resize(e.size() < 3 ? 3 : e.size()); Heap h2(e); sta_rf_status st; sta_decode_rfstatus(h2.p, &st, nb); ev("rfstatus-decoded"); } }
  // encoders into buffers that are exactly as large as the message they report
  {
    auto enc_exact = [&](const char *what, const std::function<uint16_t(uint8_t *)> &f) { Bytes big(2048); uint16_t len = f(big.data()); Heap h(len, r); uint16_t l2 = f(h.p); VH_CHECK(len == l2, "codec.enc-length", "%s: %u then %u", what, len, l2); evs(fmt("encoded-%s", what)); };
    switch (r.below(6)) {
      case 0: { rtcm_msg_1033 m; memset(&m, (int)r.below(128), sizeof m); m.ant_descriptor_counter = (uint8_t)r.below(33); m.ant_serial_num_counter = (uint8_t)r.below(33); m.rcv_descriptor_counter = (uint8_t)r.below(33); m.rcv_fw_version_counter = (uint8_t)r.below(33); m.rcv_serial_num_counter = (uint8_t)r.below(33); enc_exact("1033", [&](uint8_t *p) { return rtcm3_encode_1033(&m, p); }); break; }
      case 1: { rtcm_msg_1029 m; memset(&m, fill(r), sizeof m); m.utf8_code_units_n = (uint8_t)r.bits(8); enc_exact("1029", [&](uint8_t *p) { return rtcm3_encode_1029(&m, p); }); break; }
      case 2: { rtcm_msg_swift_proprietary m; memset(&m, fill(r), sizeof m); m.len = (uint8_t)r.bits(8); enc_exact("4062", [&](uint8_t *p) { return rtcm3_encode_4062(&m, p); }); break; }
      case 3: { rtcm_msg_1230 m; memset(&m, 0, sizeof m); m.fdma_signal_mask = (uint8_t)r.below(16); m.L1_P_cpb_meter = r.uniform(-600, 600); m.bias_indicator = (uint8_t)r.below(2); enc_exact("1230", [&](uint8_t *p) { return rtcm3_encode_1230(&m, p); }); break; }
      case 4: { rtcm_msg_1008 m; memset(&m, (int)r.below(128), sizeof m); m.msg_1007.ant_descriptor_counter = (uint8_t)r.below(33); m.ant_serial_num_counter = (uint8_t)r.below(33); enc_exact("1008", [&](uint8_t *p) { return rtcm3_encode_1008(&m, p); }); break; }
      default: { rtcm_msg_1006 m; memset(&m, 0, sizeof m); m.msg_1005.arp_x = r.uniform(-1e7, 1e7); m.ant_height = r.dbl(); if (std::isnan(m.ant_height)) m.ant_height = 0; enc_exact("1006", [&](uint8_t *p) { return rtcm3_encode_1006(&m, p); }); }
    }
  }
  ev("decoder-calls", (uint64_t)calls); ev("decoder-accepts", (uint64_t)ok); ev("decoder-refusals", (uint64_t)(calls - ok)); if (n >= 8) nontrivial(); if (n) distinct(b.data(), n);
}
